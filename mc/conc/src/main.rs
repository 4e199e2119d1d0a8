//! Exhaustive interleaving checks of the real crates under a controlled scheduler.
//! conc run <property> <quick|thorough> <jobs> <out.jsonl>
//! conc replay <property> <quick|thorough> <case name> <schedule>
mod mc;
mod hist;
mod lazy;
mod registry;
mod scalar;
mod snap;
use mc::*;
use std::io::Write;

#[global_allocator]
static A: McAlloc = McAlloc;

fn cases(prop: &str, thorough: bool) -> Vec<Box<dyn Case>> {
    match prop {
        "C01" => scalar::c01(thorough),
        "C02" => scalar::c02(thorough),
        "C03" => hist::c03(thorough),
        "C05" => hist::c05(thorough),
        "C06" => lazy::c06(thorough),
        "C08" => registry::c08(thorough),
        "C15" => snap::c15(thorough),
        _ => { eprintln!("no such property: {prop}"); std::process::exit(2) }
    }
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: f64| std::env::var(k).ok().and_then(|v| v.parse::<f64>().ok()).unwrap_or(d);
    let prop = a[2].as_str();
    let thorough = a[3] == "thorough";
    let cs = cases(prop, thorough);
    match a[1].as_str() {
        "list" => for c in &cs { println!("{}", c.name()) },
        "replay" => {
            let sched: Vec<u8> = a[5].bytes().filter(|b| b.is_ascii_digit()).map(|b| b - b'0').collect();
            let Some(c) = cs.iter().find(|c| c.name() == a[4]) else { eprintln!("no such case"); std::process::exit(2) };
            let o = replay(c, &sched);
            println!("{}\n{} {}", o.trace, status_name(o.status), o.msg);
            if o.status != ST_OK { std::process::exit(1) }
        }
        "run" => {
            let jobs: usize = a[4].parse().unwrap();
            let out = std::fs::OpenOptions::new().create(true).append(true).open(&a[5]).unwrap();
            let naive = env("MC_NAIVE", 0.0) as i32;
            let secs = env("MC_CASE_SECONDS", 60.0);
            let t0 = std::time::Instant::now();
            let total = env("MC_TOTAL_SECONDS", 1e9);
            // enough counterexamples: the verdict is known
            let stop_after = env("MC_STOP_AFTER", 1.0) as i32;
            let filter = std::env::var("MC_FILTER").unwrap_or_default();
            let bad = pool(jobs, cs.len(), &|i| {
                let c = &cs[i];
                if !filter.is_empty() && !c.name().contains(&filter) { return; }
                let left = total - t0.elapsed().as_secs_f64();
                if left <= 0.0 || found() >= stop_after {
                    let _ = (&out).write_all(format!("{{\"case\":{},\"skipped\":true}}\n", esc(&c.name())).as_bytes());
                    return;
                }
                let o = explore(c, &Options { max_execs: env("MC_MAX_EXECS", 0.0) as u64, max_seconds: secs.min(left), naive, bound: 0, stop_after });
                let mut confirmed = 0;
                let mut status = o.status;
                let mut msg = o.msg.clone();
                if status != 0 && status != ST_DIVERGED && status != ST_INTERNAL {
                    // a counterexample counts only if its schedule reproduces it exactly
                    for _ in 0..2 {
                        let r = replay(c, &o.schedule);
                        if r.status == o.status && r.msg == o.msg { confirmed += 1 }
                    }
                    if confirmed == 2 { note_found() }
                    if confirmed != 2 { status = ST_DIVERGED; msg = format!("counterexample did not replay: {msg}"); }
                }
                let line = format!("{{\"case\":{},\"executions\":{},\"complete\":{},\"pruned\":{},\"transitions\":{},\"nodes\":{},\"outcomes\":{},\"oxor\":{},\"depth\":{},\"exhausted\":{},\"status\":{},\"msg\":{},\"sample\":{},\"schedule\":{},\"trace\":{},\"wall\":{:.3}}}\n",
                    esc(&c.name()), o.executions, o.complete, o.pruned, o.transitions, o.nodes, o.outcomes, o.outcome_xor, o.max_depth, o.exhausted,
                    esc(&if status == 0 { "ok".to_string() } else { status_name(status) }), esc(&msg), esc(&o.sample),
                    esc(&o.schedule.iter().map(|b| (b'0' + b) as char).collect::<String>()), esc(&o.trace), o.wall);
                let _ = (&out).write_all(line.as_bytes());
            });
            if bad > 0 { eprintln!("{bad} workers failed"); std::process::exit(3) }
        }
        _ => std::process::exit(2),
    }
}
