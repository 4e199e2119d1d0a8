//! C11: every way of consuming the iterators.
use super::ctx::*;
use std::fmt::Debug;

/// Calls after which the iterator is used further. Searches look for the element that
/// many places ahead (from the end for those that go backwards), or for none.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum O { Next, Nth(usize), Back, NthBack(usize), Take(usize), Any(usize), All(usize), Find(usize), FindMap(usize), Position(usize), TryFold(usize), TryForEach(usize), Rfind(usize), TryRfold(usize), Rposition(usize), Refold, Retake(usize) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Stop, Count, Fold, Rfold, Collect, Rev, Last, Len, Clone, Find,
    ForEach, RevForEach, Reduce, MaxBy, MinBy, MaxByKey, MinByKey, Partition, StepBy(usize), RevStepBy(usize), Skip(usize), RevSkip(usize), SkipWhile(usize), TakeWhile(usize), MapWhile(usize), Filter, FilterMap, FlatMap, Enumerate, Zip, Chain, ChainRev, Peekable, Inspect, Scan, Fuse, Extend, Unzip, EnumerateRev, SkipRev(usize), TakeRev(usize), Ordered, CloneRest(usize),
}
const BIG: usize = usize::MAX;

pub trait Probe: Iterator + Sized {
    type K: Clone + PartialEq + PartialOrd + Debug;
    fn key(x: Self::Item) -> Self::K;
    fn back(&mut self) -> Option<Self::Item> { unreachable!() }
    fn nback(&mut self, _: usize) -> Option<Self::Item> { unreachable!() }
    fn rfind_(&mut self, _: &mut dyn FnMut(Self::K) -> bool) -> Option<Self::Item> { unreachable!() }
    fn try_rfold_(&mut self, _: &mut dyn FnMut(usize, Self::K) -> Result<usize, usize>) -> Result<usize, usize> { unreachable!() }
    fn rposition_(&mut self, _: &mut dyn FnMut(Self::K) -> bool) -> Option<usize> { unreachable!() }
    fn rf(self) -> Vec<Self::K> { unreachable!() }
    /// What an ending that needs to go backwards or to know the length gives.
    fn special(self, _: End) -> Vec<Self::K> { unreachable!() }
    fn exact(&self) -> Option<usize> { None }
    fn copy(&self) -> Option<Self> { None }
    /// Comparisons of the elements with others of their type.
    fn ordered(self, _: &[Self::K]) -> Result<(), String> { Ok(()) }
}
fn unlike(what: &str, g: &str, w: &str) -> String { let c = |s: &str| s.chars().take(1000).collect::<String>(); format!("{what} {} ({} characters), expected {} ({} characters)", c(g), g.len(), c(w), w.len()) }
/// The endings for iterators that go both ways.
pub fn both<I: Probe + DoubleEndedIterator>(it: I, e: End) -> Vec<I::K> {
    match e {
        End::Rev => it.rev().map(I::key).collect(),
        End::RevForEach => { let mut v = vec![]; it.rev().for_each(|x| v.push(I::key(x))); v }
        End::RevStepBy(n) => it.rev().step_by(n).map(I::key).collect(),
        End::RevSkip(n) => it.rev().skip(n).map(I::key).collect(),
        End::ChainRev => it.chain(std::iter::empty()).rev().map(I::key).collect(),
        _ => unreachable!(),
    }
}
/// And those that moreover know their length.
pub fn exactly<I: Probe + DoubleEndedIterator + ExactSizeIterator>(it: I, e: End) -> Vec<I::K> {
    match e {
        End::EnumerateRev => { let mut v: Vec<(usize, I::K)> = it.enumerate().rev().map(|(i, x)| (i, I::key(x))).collect(); let n = v.len(); if v.iter().enumerate().any(|(j, (i, _))| *i != n - 1 - j) { v.clear() } v.into_iter().map(|x| x.1).collect() }
        End::SkipRev(n) => it.skip(n).rev().map(I::key).collect(),
        End::TakeRev(n) => it.take(n).rev().map(I::key).collect(),
        e => both(it, e),
    }
}
#[macro_export]
macro_rules! probe_back { () => {
    fn back(&mut self) -> Option<Self::Item> { self.next_back() }
    fn nback(&mut self, n: usize) -> Option<Self::Item> { self.nth_back(n) }
    fn rfind_(&mut self, f: &mut dyn FnMut(Self::K) -> bool) -> Option<Self::Item> { self.rfind(|x| f(Self::key(*x))) }
    fn try_rfold_(&mut self, f: &mut dyn FnMut(usize, Self::K) -> Result<usize, usize>) -> Result<usize, usize> { self.try_rfold(0, |b, x| f(b, Self::key(x))) }
    fn rf(self) -> Vec<Self::K> { self.rfold(vec![], |mut v, x| { v.push(Self::key(x)); v }) }
} }

/// `order`: the elements in the order plain stepping gives them.
pub fn drive<I: Probe>(r: &mut Rec, mut it: I, order: &[I::K], ops: &[O], end: End) -> Result<String, String> where I::Item: Copy {
    let (mut lo, mut hi) = (0usize, order.len());
    macro_rules! size { ($w:expr) => {{
        let left = hi - lo;
        let (a, b) = it.size_hint();
        if a > left || b.is_some_and(|b| b < left) { return Err(format!("{}: size bounds ({a}, {b:?}) but {left} left", $w)) }
        if let Some(n) = it.exact() { if n != left || a != left || b != Some(left) { return Err(format!("{}: reports exactly {n} with bounds ({a}, {b:?}) but {left} left", $w)) } }
        r.state(&(order.len(), lo, hi));
    }} }
    size!("at the start");
    for (k, o) in ops.iter().enumerate() {
        r.step();
        let left = hi - lo;
        // what a search sees of the rest: everything up to the element looked for
        let ahead = |n: usize| if n < left { (lo + n + 1, Some(order[lo + n].clone())) } else { (hi, None) };
        let behind = |n: usize| if n < left { (hi - 1 - n, Some(order[hi - 1 - n].clone())) } else { (lo, None) };
        let bad = |g: &dyn Debug, w: &dyn Debug| Err(format!("step {k} {o:?} gave {g:?}, expected {w:?}"));
        let mut seen: Vec<I::K> = vec![];
        // (result, expected, new range)
        let (got, want) = match *o {
            O::Next => { let (l, w) = ahead(0); lo = l; (it.next().map(I::key), w) }
            O::Nth(n) => { let (l, w) = ahead(n); lo = l; (it.nth(n).map(I::key), w) }
            O::Back => { let (h, w) = behind(0); hi = h; (it.back().map(I::key), w) }
            O::NthBack(n) => { let (h, w) = behind(n); hi = h; (it.nback(n).map(I::key), w) }
            O::Take(n) | O::Retake(n) => {
                let g: Vec<I::K> = if let O::Take(_) = o { it.by_ref().take(n).map(I::key).collect() } else { let mut v = vec![]; it.by_ref().take(n).for_each(|x| v.push(I::key(x))); v };
                let w = order[lo..hi.min(lo.saturating_add(n))].to_vec();
                lo = hi.min(lo.saturating_add(n));
                if g != w { return bad(&g, &w) }
                (None, None)
            }
            O::Refold => {
                let g = it.by_ref().fold(vec![], |mut v, x| { v.push(I::key(x)); v });
                let w = order[lo..hi].to_vec();
                lo = hi;
                if g != w { return bad(&g, &w) }
                (None, None)
            }
            O::Rfind(n) => {
                let (h, w) = behind(n);
                let g = it.rfind_(&mut |x| { let y = Some(&x) == w.as_ref(); seen.push(x); y }).map(I::key);
                let mut e = order[h..hi].to_vec(); e.reverse(); hi = h;
                if seen != e { return bad(&seen, &e) }
                (g, w)
            }
            O::TryRfold(n) => {
                let (h, w) = behind(n);
                let g = it.try_rfold_(&mut |b, x| { let y = Some(&x) == w.as_ref(); seen.push(x); if y { Err(b) } else { Ok(b + 1) } });
                let mut e = order[h..hi].to_vec(); e.reverse(); hi = h;
                if seen != e { return bad(&seen, &e) }
                let x = if w.is_some() { Err(n) } else { Ok(left) };
                if g != x { return bad(&g, &x) }
                (None, None)
            }
            O::Rposition(n) => {
                let (h, w) = behind(n);
                let g = it.rposition_(&mut |x| { let y = Some(&x) == w.as_ref(); seen.push(x); y });
                let mut e = order[h..hi].to_vec(); e.reverse(); hi = h;
                if seen != e { return bad(&seen, &e) }
                let x = w.as_ref().map(|_| left - 1 - n);
                if g != x { return bad(&g, &x) }
                (None, None)
            }
            O::Any(n) | O::All(n) | O::Find(n) | O::FindMap(n) | O::Position(n) | O::TryFold(n) | O::TryForEach(n) => {
                let (l, w) = ahead(n);
                let mut hit = |x: I::K| { let y = Some(&x) == w.as_ref(); seen.push(x); y };
                let some = w.is_some();
                let (g, x): (String, String) = match o {
                    O::Any(_) => (format!("{}", it.any(|x| hit(I::key(x)))), format!("{some}")),
                    O::All(_) => (format!("{}", it.all(|x| !hit(I::key(x)))), format!("{}", !some)),
                    O::Find(_) => (format!("{:?}", it.find(|x| hit(I::key(*x))).map(I::key)), format!("{w:?}")),
                    O::FindMap(_) => (format!("{:?}", it.find_map(|x| { let k = I::key(x); if hit(k.clone()) { Some(k) } else { None } })), format!("{w:?}")),
                    O::Position(_) => (format!("{:?}", it.position(|x| hit(I::key(x)))), format!("{:?}", w.as_ref().map(|_| n))),
                    O::TryFold(_) => (format!("{:?}", it.try_fold(0usize, |b, x| if hit(I::key(x)) { Err(b) } else { Ok(b + 1) })), format!("{:?}", if some { Err(n) } else { Ok(left) })),
                    _ => (format!("{:?}", it.try_for_each(|x| if hit(I::key(x)) { None } else { Some(()) })), format!("{:?}", if some { None } else { Some(()) })),
                };
                if g != x { return bad(&g, &x) }
                let e = order[lo..l].to_vec();
                lo = l;
                if seen != e { return Err(format!("step {k} {o:?} saw {seen:?}, expected {e:?}")) }
                (None, None)
            }
        };
        if got != want { return bad(&got, &want) }
        size!(format!("after step {k} {o:?}"));
    }
    let rest = order[lo..hi].to_vec();
    let mut back = rest.clone();
    back.reverse();
    let n = rest.len();
    macro_rules! give { ($g:expr, $w:expr) => {{ let g = $g; let w: Vec<_> = $w; if g != w { return Err(unlike(&format!("{end:?} at the end gave"), &format!("{g:?}"), &format!("{w:?}"))) } }} }
    macro_rules! giv1 { ($g:expr, $w:expr) => {{ let (g, w) = ($g, $w); if g != w { return Err(unlike(&format!("{end:?} at the end gave"), &format!("{g:?}"), &format!("{w:?}"))) } }} }
    let at = |x: &I::K| order.iter().position(|y| y == x).unwrap_or(usize::MAX);
    let keys = |v: Vec<I::Item>| v.into_iter().map(I::key).collect::<Vec<_>>();
    match end {
        End::Stop => {
            while let Some(x) = it.next() { if lo == hi || I::key(x) != order[lo] { return Err("remaining elements differ".into()) } lo += 1; size!("while draining") }
            if lo != hi { return Err(format!("exhausted with {} elements left", hi - lo)) }
            for _ in 0..2 { if it.next().is_some() { return Err("an exhausted iterator yielded again".into()) } }
            size!("exhausted");
        }
        End::Count => giv1!(it.count(), n),
        End::Fold => give!(it.fold(vec![], |mut v, x| { v.push(I::key(x)); v }), rest),
        End::Rfold => give!(it.rf(), back),
        End::Collect => give!(keys(it.collect()), rest),
        End::Last => giv1!(it.last().map(I::key), rest.last().cloned()),
        End::Len => if let Some(g) = it.exact() { giv1!(g, n) },
        End::Clone => if let Some(c) = it.copy() { give!(keys(c.collect()), rest.clone()); give!(keys(it.collect()), rest) },
        // a clone taken after k more elements, each consumed in its own way
        End::CloneRest(k) => if it.copy().is_some() {
            for _ in 0..k { it.next(); }
            let w = rest.iter().skip(k).cloned().collect::<Vec<_>>();
            let mut c = it.copy().unwrap();
            giv1!(c.exact(), it.exact());
            giv1!(c.next().map(I::key), w.first().cloned());
            give!(it.fold(vec![], |mut v, x| { v.push(I::key(x)); v }), w.clone());
            give!(c.fold(vec![], |mut v, x| { v.push(I::key(x)); v }), w.into_iter().skip(1).collect());
        },
        End::Find => { for x in &rest { if !it.any(|y| I::key(y) == *x) { return Err(format!("searching does not find {x:?}")) } } }
        End::ForEach => { let mut v = vec![]; it.for_each(|x| v.push(I::key(x))); give!(v, rest) }
        End::Reduce => { let mut v = vec![]; let g = it.reduce(|a, b| { v.push((I::key(a), I::key(b))); b }).map(I::key); giv1!(g, rest.last().cloned()); give!(v, rest.windows(2).map(|w| (w[0].clone(), w[1].clone())).collect()) }
        End::MaxBy => giv1!(it.max_by(|a, b| at(&I::key(*a)).cmp(&at(&I::key(*b)))).map(I::key), rest.last().cloned()),
        End::MinBy => giv1!(it.min_by(|a, b| at(&I::key(*a)).cmp(&at(&I::key(*b)))).map(I::key), rest.first().cloned()),
        // among equals the last maximum and the first minimum
        End::MaxByKey => giv1!(it.max_by_key(|a| at(&I::key(*a)) / 2).map(I::key), rest.last().cloned()),
        End::MinByKey => giv1!(it.min_by_key(|a| at(&I::key(*a)) / 2).map(I::key), rest.first().cloned()),
        End::Partition => { let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|x| at(&I::key(*x)) % 2 == 0); give!(keys(a), rest.iter().filter(|x| at(x) % 2 == 0).cloned().collect()); give!(keys(b), rest.iter().filter(|x| at(x) % 2 == 1).cloned().collect()) }
        End::StepBy(k) => give!(it.step_by(k).map(I::key).collect::<Vec<_>>(), rest.iter().step_by(k).cloned().collect()),
        End::Skip(k) => give!(it.skip(k).map(I::key).collect::<Vec<_>>(), rest.iter().skip(k).cloned().collect()),
        End::SkipWhile(k) => give!(it.skip_while(|x| at(&I::key(*x)) < lo + k).map(I::key).collect::<Vec<_>>(), rest.iter().skip(k).cloned().collect()),
        End::TakeWhile(k) => give!(it.take_while(|x| at(&I::key(*x)) < lo + k).map(I::key).collect::<Vec<_>>(), rest.iter().take(k).cloned().collect()),
        End::MapWhile(k) => give!(it.map_while(|x| if at(&I::key(x)) < lo + k { Some(I::key(x)) } else { None }).collect::<Vec<_>>(), rest.iter().take(k).cloned().collect()),
        End::Filter => give!(it.filter(|x| at(&I::key(*x)) % 2 == 1).map(I::key).collect::<Vec<_>>(), rest.iter().filter(|x| at(x) % 2 == 1).cloned().collect()),
        End::FilterMap => give!(it.filter_map(|x| if at(&I::key(x)) % 2 == 0 { Some(I::key(x)) } else { None }).collect::<Vec<_>>(), rest.iter().filter(|x| at(x) % 2 == 0).cloned().collect()),
        End::FlatMap => give!(it.flat_map(|x| vec![I::key(x); 2]).collect::<Vec<_>>(), rest.iter().flat_map(|x| vec![x.clone(); 2]).collect()),
        End::Enumerate => give!(it.enumerate().map(|(i, x)| (i, I::key(x))).collect::<Vec<_>>(), rest.iter().cloned().enumerate().collect()),
        End::Zip => give!(it.zip(0usize..).map(|(x, i)| (i, I::key(x))).collect::<Vec<_>>(), rest.iter().cloned().enumerate().collect()),
        End::Chain => give!(it.chain(std::iter::empty()).map(I::key).collect::<Vec<_>>(), rest),
        End::Peekable => { let mut p = it.peekable(); let mut v = vec![]; while p.peek().is_some() { let a = I::key(*p.peek().unwrap()); let b = p.next().map(I::key); giv1!(b, Some(a.clone())); v.push(a) } give!(v, rest) }
        End::Inspect => { let mut v = vec![]; let g = it.inspect(|x| v.push(I::key(*x))).count(); giv1!(g, n); give!(v, rest) }
        End::Scan => giv1!(it.scan(0usize, |s, x| { *s += 1; Some((*s, I::key(x))) }).last(), rest.last().map(|x| (n, x.clone()))),
        End::Fuse => { let mut f = it.fuse(); let mut v = vec![]; while let Some(x) = f.next() { v.push(I::key(x)) } give!(v, rest); giv1!(f.next().is_none(), true) }
        End::Extend => { let mut v: Vec<I::Item> = vec![]; v.extend(it); give!(keys(v), rest) }
        End::Unzip => { let (a, b): (Vec<_>, Vec<_>) = it.map(|x| (I::key(x), I::key(x))).unzip(); give!(a, rest.clone()); give!(b, rest) }
        End::Ordered => it.ordered(&rest)?,
        End::Rev | End::RevForEach | End::ChainRev | End::EnumerateRev => give!(it.special(end), back),
        End::RevStepBy(k) => give!(it.special(end), back.into_iter().step_by(k).collect()),
        End::RevSkip(k) => give!(it.special(end), back.into_iter().skip(k).collect()),
        End::SkipRev(k) => give!(it.special(end), rest.iter().skip(k).rev().cloned().collect()),
        End::TakeRev(k) => give!(it.special(end), rest.iter().take(k).rev().cloned().collect()),
    }
    Ok(format!("{lo}..{hi} {end:?}"))
}
/// Endings for very many elements: none that takes quadratic time here.
#[allow(dead_code)]
pub const LARGE: [End; 10] = [End::Stop, End::Count, End::Fold, End::Last, End::Len, End::ForEach, End::Collect, End::Skip(300), End::StepBy(256), End::StepBy(65_536)];
#[allow(dead_code)]
pub const LARGE_BACK: [End; 14] = [End::Stop, End::Count, End::Fold, End::Last, End::Len, End::ForEach, End::Collect, End::Skip(300), End::StepBy(256), End::StepBy(65_536), End::Rfold, End::Rev, End::RevSkip(300), End::RevStepBy(256)];
/// The calls and endings enumerated in all sequences.
pub fn alphabet(double: bool, thorough: bool) -> (Vec<O>, Vec<End>) {
    let ks: &[usize] = if thorough { &[0, 1, 2, 3, 4, BIG] } else { &[0, 1, 2, 3, BIG] };
    let mut ops = vec![O::Next];
    for k in ks { ops.push(O::Nth(*k)) }
    ops.push(O::Take(2));
    let mut ends = vec![End::Stop, End::Count, End::Fold, End::Collect, End::Last, End::Find];
    if double {
        ops.push(O::Back);
        for k in ks { ops.push(O::NthBack(*k)) }
        ends.extend([End::Rfold, End::Rev]);
    }
    (ops, ends)
}
/// Everything else an iterator offers, enumerated in shorter sequences.
pub fn extended(double: bool, exact: bool) -> (Vec<O>, Vec<End>) {
    let mut ops = vec![O::Next, O::Refold, O::Take(0), O::Take(BIG)];
    if double { ops.push(O::Back) }
    for k in [0, 1, 2, BIG] {
        ops.extend([O::Nth(k), O::Any(k), O::All(k), O::Find(k), O::FindMap(k), O::Position(k), O::TryFold(k), O::TryForEach(k), O::Retake(k)]);
        if double { ops.extend([O::NthBack(k), O::Rfind(k), O::TryRfold(k)]) }
        if double && exact { ops.push(O::Rposition(k)) }
    }
    use End::*;
    let mut ends = vec![Stop, Count, Fold, Collect, Last, Find, ForEach, Reduce, MaxBy, MinBy, MaxByKey, MinByKey, Partition, StepBy(1), StepBy(2), StepBy(3), Skip(0), Skip(1), Skip(2), Skip(BIG), SkipWhile(1), TakeWhile(1), TakeWhile(2), MapWhile(1), Filter, FilterMap, FlatMap, Enumerate, Zip, Chain, Peekable, Inspect, Scan, Fuse, Extend, Unzip, Ordered];
    if exact { ends.extend([Len, Clone, CloneRest(0), CloneRest(1), CloneRest(2)]) }
    if double { ends.extend([Rfold, Rev, RevForEach, RevStepBy(2), RevSkip(1), RevSkip(2), ChainRev]) }
    if double && exact { ends.extend([EnumerateRev, SkipRev(1), TakeRev(1), TakeRev(2)]) }
    (ops, ends)
}
