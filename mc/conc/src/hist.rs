//! C03 and C05: histograms shared by threads.
use crate::mc::*;
use metriken::{AtomicHistogram, Metric, RwLockHistogram, Value};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HO { Rec(u64), Bad(u64), Load, Erased }
type HR = Option<Vec<u64>>;

/// Judges readings of an event histogram: `recs` are recordings (bucket, call,
/// return), `tried` the calls of rejected ones and `loads` readings; `init` the counts before.
pub fn judge_event(init: &HR, recs: &[(usize, u32, u32)], tried: &[u32], loads: &[(HR, u32, u32)]) -> Result<(), String> {
    for (i, (v, inv, res)) in loads.iter().enumerate() {
        match v {
            None => {
                if init.is_some() || recs.iter().any(|r| r.2 < *inv) { return Err(format!("load {i} returned nothing after a completed recording")); }
            }
            Some(b) => {
                if init.is_none() && !recs.iter().any(|r| r.1 < *res) && !tried.iter().any(|t| t < res) { return Err(format!("load {i} returned a histogram before any recording began")); }
                for k in 0..b.len() {
                    let base = init.as_ref().map_or(0, |x| x[k]);
                    let lo = base + recs.iter().filter(|r| r.0 == k && r.2 < *inv).count() as u64;
                    let hi = base + recs.iter().filter(|r| r.0 == k && r.1 < *res).count() as u64;
                    if b[k] < lo || b[k] > hi { return Err(format!("load {i}: bucket {k} holds {} but between {lo} and {hi} recordings are possible", b[k])); }
                }
            }
        }
        for (j, (w, inv2, _)) in loads.iter().enumerate() {
            if i == j || *res >= *inv2 { continue; }
            match (v, w) {
                (Some(_), None) => return Err(format!("load {j} returned nothing after load {i} returned a histogram")),
                (Some(x), Some(y)) => if x.iter().zip(y).any(|(p, q)| p > q) { return Err(format!("counts go backwards from load {i} to load {j}")) },
                _ => {}
            }
        }
    }
    Ok(())
}
/// The bucket whose range contains `v` (see C04 for the check of the ranges).
pub fn bucket_of(h: &AtomicHistogram, v: u64) -> usize {
    let mut p = metriken::histogram::Histogram::with_config(&h.config());
    p.increment(v).unwrap();
    p.as_slice().iter().position(|c| *c == 1).unwrap()
}

struct WE { h: AtomicHistogram, init: HR, progs: Vec<Vec<HO>>, log: Logs<Rec<HO, Result<HR, ()>>> }
impl World for WE {
    fn run(&self, tid: usize) {
        for op in &self.progs[tid] {
            let inv = invoke();
            let r = match *op {
                HO::Rec(v) => self.h.increment(v).map(|_| None).map_err(|_| ()),
                HO::Bad(v) => self.h.increment(v).map(|_| None).map_err(|_| ()),
                HO::Erased => match (&self.h as &dyn Metric).value() {
                    Some(Value::Other(o)) => o.downcast_ref::<AtomicHistogram>().map(|h| h.load().map(|h| h.as_slice().to_vec())).ok_or(()),
                    _ => Err(()),
                },
                HO::Load => Ok(self.h.load().map(|h| h.as_slice().to_vec())),
            };
            let res = ret();
            self.log.push(tid, Rec { tid, op: *op, ret: r, inv, res });
        }
    }
    fn finish(&self) -> Result<String, String> {
        let mut h = self.log.all();
        h.push(Rec { tid: 9, op: HO::Load, ret: Ok(self.h.load().map(|h| h.as_slice().to_vec())), inv: FINAL.0, res: FINAL.1 });
        let mut recs = vec![];
        let mut tried = vec![];
        let mut loads = vec![];
        for r in &h {
            match (&r.op, &r.ret) {
                (HO::Rec(v), Ok(_)) => recs.push((bucket_of(&self.h, *v), r.inv, r.res)),
                (HO::Rec(_), Err(_)) => return Err(format!("recording of a value in range was rejected: {}", show(&h))),
                (HO::Bad(_), Err(_)) => tried.push(r.inv),
                (HO::Bad(_), Ok(_)) => return Err(format!("recording of a value out of range was accepted: {}", show(&h))),
                (HO::Load | HO::Erased, Ok(v)) => loads.push((v.clone(), r.inv, r.res)),
                _ => return Err(format!("the type-erased value is not this histogram: {}", show(&h))),
            }
        }
        judge_event(&self.init, &recs, &tried, &loads).map_err(|e| format!("{e}: {}", show(&h)))?;
        Ok(shape(&h))
    }
}
struct CaseE { gp: u8, mvp: u8, used: bool, progs: Vec<Vec<HO>> }
impl Case for CaseE {
    fn name(&self) -> String { format!("event histogram({},{}) {} {}", self.gp, self.mvp, if self.used { "used" } else { "fresh" }, brief(&self.progs)) }
    fn threads(&self) -> usize { self.progs.len() }
    fn setup(&self) -> Box<dyn World> {
        let h = AtomicHistogram::new(self.gp, self.mvp);
        if self.used { h.increment(1).unwrap(); }
        let init = h.load().map(|h| h.as_slice().to_vec());
        Box::new(WE { h, init, progs: self.progs.clone(), log: Logs::new(self.progs.len()) })
    }
}
pub fn c03(thorough: bool) -> Vec<Box<dyn Case>> {
    let mut v: Vec<Box<dyn Case>> = vec![];
    let a = [HO::Rec(0), HO::Rec(3), HO::Load];
    let some = |p: &Vec<Vec<HO>>| p.iter().flatten().any(|o| matches!(o, HO::Rec(_)));
    let max = if thorough { 3 } else { 2 };
    for used in [false, true] {
        for p in multisets(&seqs(&a, 1, max), 2) { if some(&p) && p.iter().map(|t| t.len()).sum::<usize>() <= if thorough { 5 } else { 4 } { v.push(Box::new(CaseE { gp: 0, mvp: 2, used, progs: p })) } }
        for p in multisets(&seqs(&a, 1, 1), 3) { if some(&p) && (thorough || used || p.iter().flatten().any(|o| *o == HO::Load)) { v.push(Box::new(CaseE { gp: 0, mvp: 2, used, progs: p })) } }
        // rejected recordings, and readers that go through the type-erased value
        for bad in [4u64, u64::MAX] { for o in [HO::Rec(0), HO::Load, HO::Erased, HO::Bad(bad)] {
            v.push(Box::new(CaseE { gp: 0, mvp: 2, used, progs: vec![vec![HO::Bad(bad)], vec![o]] }));
            v.push(Box::new(CaseE { gp: 0, mvp: 2, used, progs: vec![vec![HO::Bad(bad), HO::Rec(3)], vec![o, HO::Load]] }));
            v.push(Box::new(CaseE { gp: 0, mvp: 2, used, progs: vec![vec![HO::Rec(3), HO::Bad(bad)], vec![HO::Rec(3), o]] }));
        } }
        for o in [vec![HO::Erased], vec![HO::Erased, HO::Load], vec![HO::Load, HO::Erased], vec![HO::Erased, HO::Erased]] { for w in [vec![HO::Rec(3)], vec![HO::Rec(0), HO::Rec(3)]] { v.push(Box::new(CaseE { gp: 0, mvp: 2, used, progs: vec![w, o.clone()] })) } }
        // a layout of more than a few buckets, its first, middle and last
        for (a, b) in [(0u64, 255u64), (100, 255), (255, 255)] { v.push(Box::new(CaseE { gp: 2, mvp: 8, used, progs: vec![vec![HO::Rec(a)], vec![HO::Rec(b), HO::Load]] })); v.push(Box::new(CaseE { gp: 2, mvp: 8, used, progs: vec![vec![HO::Rec(a), HO::Rec(b)], vec![HO::Load]] })) }
        // values around constants of the sources and powers of two, in layouts of many sizes
        let mut vals = constants();
        vals.extend([0, 1, 7, 8, 9, 63, 64, 65, 127, 128, 255, 256, 1000, 65535, 65536, 1 << 20, u32::MAX as u64, 1 << 32, 1 << 62, 1 << 63, u64::MAX]);
        vals.sort(); vals.dedup();
        for (gp, mvp) in [(0u8, 64u8), (2, 10), (3, 64), (5, 32), (7, 64)] { for x in &vals { if mvp < 64 && *x >> mvp != 0 { continue }
            v.push(Box::new(CaseE { gp, mvp, used, progs: vec![vec![HO::Rec(*x)], vec![HO::Rec(*x)]] }));
            if gp == 2 || gp == 0 { v.push(Box::new(CaseE { gp, mvp, used, progs: vec![vec![HO::Rec(*x)], vec![HO::Rec(1), HO::Rec(*x)]] })) }
        } }
        for k in crowds() { for f in [vec![HO::Rec(1)], vec![HO::Rec(0), HO::Load], vec![HO::Load], vec![HO::Bad(9), HO::Rec(3)]] { for g in [vec![HO::Rec(1); 2], vec![HO::Load], vec![HO::Rec(3), HO::Load]] {
            let mut p = vec![g]; p.extend(vec![f.clone(); k]);
            if some(&p) { v.push(Box::new(Crowd(CaseE { gp: 0, mvp: 2, used, progs: p }, 20))) }
        } } }
        for k in 3..=5 { v.push(Box::new(CaseE { gp: 0, mvp: 1, used, progs: vec![vec![HO::Rec(1)], vec![HO::Rec(1); k]] })) }
        // long histories under periodic schedules
        for a in [vec![HO::Rec(1)], vec![HO::Rec(0), HO::Rec(3)], vec![HO::Load], vec![HO::Erased, HO::Rec(1)], vec![HO::Bad(9), HO::Rec(2)]] { for b in [vec![HO::Rec(1)], vec![HO::Rec(3), HO::Load]] {
            v.push(Box::new(Long(CaseE { gp: 0, mvp: 2, used, progs: vec![cycle(&a, 70), cycle(&b, 140)] }, if thorough { 9 } else { 6 })));
        } }
        for n in amounts(if thorough { 1024 } else { 256 }) { for f in [HO::Rec(1), HO::Load, HO::Bad(9)] { for g in [vec![HO::Rec(1)], vec![HO::Rec(0), HO::Rec(3), HO::Rec(1)]] {
            v.push(Box::new(Stalled(CaseE { gp: 0, mvp: 2, used, progs: vec![vec![f, HO::Load], cycle(&g, n)] }, 0, 1, if used { 8 } else { 14 })));
        } } }
        if thorough {
            for p in multisets(&seqs(&[HO::Rec(1), HO::Load], 1, 2), 3) { if some(&p) && p.iter().any(|t| t.len() > 1) && p.iter().map(|t| t.len()).sum::<usize>() <= 4 { v.push(Box::new(CaseE { gp: 0, mvp: 1, used, progs: p })) } }
            for p in multisets(&seqs(&a, 1, 2), 2) { if some(&p) { v.push(Box::new(CaseE { gp: 1, mvp: 3, used, progs: p })) } }
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BO { Update(u64), Bad, Load }
#[derive(Clone, Debug, PartialEq)]
pub enum BR { Ok, Err, Data(HR) }
/// Contents number `k`: all different, all zero, or (from 20) every combination of two values.
pub fn pattern(k: u64, n: usize) -> Vec<u64> { (0..n as u64).map(|i| if k == 0 { 0 } else if k >= 20 { 1 + (k - 20 >> i & 1) } else { k * 100 + i }).collect() }
#[derive(Clone, PartialEq, Eq, Hash)]
struct BSpec { n: usize, v: HR }
impl Spec for BSpec {
    type Op = BO;
    type Ret = BR;
    fn step(&mut self, op: &BO) -> BR {
        match *op {
            BO::Update(k) => { self.v = Some(pattern(k, self.n)); BR::Ok }
            BO::Bad => BR::Err,
            BO::Load => BR::Data(self.v.clone()),
        }
    }
}
fn call_b(h: &RwLockHistogram, n: usize, op: BO) -> BR {
    match op {
        BO::Update(k) => if h.update_from(&pattern(k, n)).is_ok() { BR::Ok } else { BR::Err },
        BO::Bad => if h.update_from(&pattern(9, n + 1)).is_ok() { BR::Ok } else { BR::Err },
        BO::Load => BR::Data(h.load().map(|h| h.as_slice().to_vec())),
    }
}
struct WB { h: RwLockHistogram, init: BSpec, progs: Vec<Vec<BO>>, log: Logs<Rec<BO, BR>> }
impl World for WB {
    fn run(&self, tid: usize) {
        for op in &self.progs[tid] {
            let inv = invoke();
            let r = call_b(&self.h, self.init.n, *op);
            let res = ret();
            self.log.push(tid, Rec { tid, op: *op, ret: r, inv, res });
        }
    }
    fn finish(&self) -> Result<String, String> {
        let mut h = self.log.all();
        h.push(Rec { tid: 9, op: BO::Load, ret: call_b(&self.h, self.init.n, BO::Load), inv: FINAL.0, res: FINAL.1 });
        if linearizable(&self.init, &h) { Ok(shape(&h)) } else { Err(format!("no sequential order explains: {}", show(&h))) }
    }
}
/// Another layout and other contents: all buckets hold the constant, its successors or zero.
struct CaseK { used: bool, gp: u8, mvp: u8, k: u64, progs: Vec<Vec<u8>> }
struct WK { h: RwLockHistogram, n: usize, k: u64, used: bool, progs: Vec<Vec<u8>>, log: Logs<Rec<u8, BR>> }
impl WK {
    fn content(&self, o: u8) -> Vec<u64> { vec![match o { 0 => 0, o => self.k.wrapping_add(o as u64 - 1) }; self.n] }
    fn call(&self, o: u8) -> BR { if o == 9 { BR::Data(self.h.load().map(|h| h.as_slice().to_vec())) } else if self.h.update_from(&self.content(o)).is_ok() { BR::Ok } else { BR::Err } }
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct KSpec { n: usize, k: u64, v: Option<u8> }
impl Spec for KSpec {
    type Op = u8;
    type Ret = BR;
    fn step(&mut self, o: &u8) -> BR { if *o == 9 { BR::Data(self.v.map(|o| vec![if o == 0 { 0 } else { self.k.wrapping_add(o as u64 - 1) }; self.n])) } else { self.v = Some(*o); BR::Ok } }
}
impl World for WK {
    fn run(&self, tid: usize) { for o in &self.progs[tid] { let inv = invoke(); let r = self.call(*o); let res = ret(); self.log.push(tid, Rec { tid, op: *o, ret: r, inv, res }) } }
    fn finish(&self) -> Result<String, String> {
        let mut h = self.log.all();
        h.push(Rec { tid: 9, op: 9, ret: self.call(9), inv: FINAL.0, res: FINAL.1 });
        if linearizable(&KSpec { n: self.n, k: self.k, v: if self.used { Some(1) } else { None } }, &h) { Ok(shape(&h)) } else { Err(format!("no sequential order explains: {}", show(&h).chars().take(3000).collect::<String>())) }
    }
}
impl Case for CaseK {
    fn name(&self) -> String { format!("bulk histogram({},{}) {} contents around {} {:?}", self.gp, self.mvp, if self.used { "used" } else { "fresh" }, self.k, self.progs) }
    fn threads(&self) -> usize { self.progs.len() }
    fn setup(&self) -> Box<dyn World> {
        let h = RwLockHistogram::new(self.gp, self.mvp);
        let w = WK { n: h.config().total_buckets(), h, k: self.k, used: self.used, progs: self.progs.clone(), log: Logs::new(self.progs.len()) };
        if self.used { w.call(1); }
        Box::new(w)
    }
}
struct CaseB { used: bool, progs: Vec<Vec<BO>>, heap: i32, wide: bool }
/// A case that starts from contents number `.0`.
struct CaseF(u64, CaseB);
impl Case for CaseB {
    fn name(&self) -> String { format!("bulk histogram{} {} heap{} {}", if self.wide { "(7,64)" } else { "" }, if self.used { "used" } else { "fresh" }, self.heap, brief(&self.progs)) }
    fn threads(&self) -> usize { self.progs.len() }
    fn heap(&self) -> i32 { self.heap }
    fn setup(&self) -> Box<dyn World> {
        let h = if self.wide { RwLockHistogram::new(7, 64) } else { RwLockHistogram::new(0, 2) };
        let n = h.config().total_buckets();
        let mut init = BSpec { n, v: None };
        if self.used { h.update_from(&pattern(7, n)).unwrap(); init.v = Some(pattern(7, n)) }
        Box::new(WB { h, init, progs: self.progs.clone(), log: Logs::new(self.progs.len()) })
    }
}
impl Case for CaseF {
    fn name(&self) -> String { format!("{} from {:?}", self.1.name(), pattern(self.0, 3)) }
    fn threads(&self) -> usize { self.1.threads() }
    fn heap(&self) -> i32 { self.1.heap }
    fn setup(&self) -> Box<dyn World> {
        let h = RwLockHistogram::new(0, 2);
        let n = h.config().total_buckets();
        h.update_from(&pattern(self.0, n)).unwrap();
        Box::new(WB { h, init: BSpec { n, v: Some(pattern(self.0, n)) }, progs: self.1.progs.clone(), log: Logs::new(self.1.progs.len()) })
    }
}
pub fn c05(thorough: bool) -> Vec<Box<dyn Case>> {
    let mut v: Vec<Box<dyn Case>> = vec![];
    let a = [BO::Update(1), BO::Update(2), BO::Load];
    let writes = |p: &Vec<Vec<BO>>| p.iter().flatten().filter(|o| matches!(o, BO::Update(_))).count();
    let total = |p: &Vec<Vec<BO>>| p.iter().map(|t| t.len()).sum::<usize>();
    for used in [false, true] {
        for p in multisets(&seqs(&a, 1, 2), 2) { if writes(&p) > 0 && total(&p) <= 4 { v.push(Box::new(CaseB { used, progs: p, heap: 0, wide: false })) } }
        for p in [vec![vec![BO::Update(1)], vec![BO::Load]], vec![vec![BO::Update(1)], vec![BO::Update(2)]], vec![vec![BO::Update(1), BO::Update(2)], vec![BO::Load]], vec![vec![BO::Update(1), BO::Load], vec![BO::Update(2)]], vec![vec![BO::Update(0)], vec![BO::Update(1), BO::Load]], vec![vec![BO::Bad], vec![BO::Load, BO::Update(0)]]] { v.push(Box::new(CaseB { used, progs: p, heap: 0, wide: true })) }
        for p in multisets(&seqs(&[BO::Update(0), BO::Update(7), BO::Load], 1, 2), 2) { if writes(&p) > 0 && total(&p) <= 3 { v.push(Box::new(CaseB { used, progs: p, heap: 0, wide: false })) } }
        for o in [BO::Load, BO::Update(1), BO::Bad] { v.push(Box::new(CaseB { used, progs: vec![vec![BO::Bad], vec![o]], heap: 0, wide: false })) }
        for p in multisets(&seqs(&a, 1, 1), 3) { if writes(&p) > 0 && (thorough || used || writes(&p) < 3) { v.push(Box::new(CaseB { used, progs: p, heap: 0, wide: false })) } }
        if used { for k in 3..=4 { v.push(Box::new(CaseB { used, progs: vec![vec![BO::Update(2)], vec![BO::Update(1); k]], heap: 0, wide: false })); v.push(Box::new(CaseB { used, progs: vec![vec![BO::Load], vec![BO::Update(1), BO::Update(2), BO::Update(3), BO::Update(4)][..k].to_vec()], heap: 0, wide: false })) } }
        for k in crowds() { for f in [1u64, 0, 9] { for g in [vec![BO::Update(7), BO::Update(6)], vec![BO::Load], vec![BO::Update(6), BO::Load]] {
            let mut p = vec![g]; p.extend((0..k as u64).map(|i| if f == 9 { vec![BO::Load] } else if f == 1 { vec![BO::Update(1 + i % 5)] } else { vec![BO::Update(1 + i % 5), BO::Load] }));
            if writes(&p) > 0 { v.push(Box::new(Crowd(CaseB { used, progs: p, heap: 0, wide: false }, 20))) }
        } } }
        // long histories under periodic schedules
        for x in [vec![BO::Update(1)], vec![BO::Update(1), BO::Load], vec![BO::Load], vec![BO::Bad, BO::Update(4)]] { for y in [vec![BO::Update(2)], vec![BO::Update(2), BO::Update(3), BO::Load], vec![BO::Load]] {
            let p = vec![cycle(&x, 70), cycle(&y, 140)];
            if writes(&p) > 0 { v.push(Box::new(Long(CaseB { used, progs: p, heap: 0, wide: false }, if thorough { 9 } else { 6 }))) }
        } }
        for n in amounts(if thorough { 1024 } else { 256 }) { for f in [BO::Update(7), BO::Load, BO::Bad] { for g in [vec![BO::Update(1), BO::Update(2), BO::Update(3)], vec![BO::Update(1)]] {
            v.push(Box::new(Stalled(CaseB { used, progs: vec![vec![f, BO::Load], cycle(&g, n)], heap: 0, wide: false }, 0, 1, 20)));
        } } }
        if thorough {
            for p in multisets(&seqs(&a, 1, 3), 2) { if writes(&p) > 0 && total(&p) == 4 && p.iter().any(|t| t.len() == 3) { v.push(Box::new(CaseB { used, progs: p, heap: 1, wide: false })) } }
        }
    }
    for used in [false, true] { for (gp, mvp) in [(0u8, 1u8), (0, 2), (0, 64), (2, 8), (3, 12), (4, 64), (7, 64)] { for k in constants().into_iter().filter(|_| gp == 0 && mvp == 2).chain([1, 100]) {
        for p in [vec![vec![2u8], vec![9u8]], vec![vec![2], vec![3]], vec![vec![2, 3], vec![9]], vec![vec![0], vec![2, 9]]] { v.push(Box::new(CaseK { used, gp, mvp, k, progs: p })) }
    } } }
    // contents that agree with each other and with the present ones in some buckets
    for x in 20..28u64 { for y in x..28 { for from in if thorough { vec![20, 21, 27] } else { vec![20] } {
        let mut ps = vec![vec![vec![BO::Update(x)], vec![BO::Update(y)]], vec![vec![BO::Update(x)], vec![BO::Update(y), BO::Load]]];
        if thorough { ps.extend([vec![vec![BO::Update(x), BO::Load], vec![BO::Update(y), BO::Load]], vec![vec![BO::Update(x)], vec![BO::Update(y)], vec![BO::Load]], vec![vec![BO::Update(x), BO::Update(from)], vec![BO::Update(y)]]]) }
        for p in ps { v.push(Box::new(CaseF(from, CaseB { used: true, progs: p, heap: 0, wide: false }))) }
    } } }
    v
}
