mod contracts;
mod engine;
mod groebner;
mod norm;
mod poly;
mod rat;
mod sc;
mod smt;
mod spec;
mod term;

use engine::{Fail, Outcome};
use sc::{Cx, Skip};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use term::Sym;

pub struct Contract {
    pub name: &'static str,
    pub sym: fn(&mut Cx<Sym>),
    pub conc: fn(&mut Cx<f64>),
}
#[macro_export]
macro_rules! contracts {
    ($pre:literal; $($f:ident),* $(,)?) => {
        vec![$($crate::Contract {
            name: concat!($pre, stringify!($f)),
            sym: $f::<$crate::term::Sym>,
            conc: $f::<f64>,
        }),*]
    };
    (whole $($f:ident $(::<$($c:tt),*>)?),* $(,)?) => {
        vec![$($crate::Contract {
            name: concat!("whole_", stringify!($f) $(, $("_", stringify!($c)),*)?),
            sym: $f::<$crate::term::Sym $($(, $c)*)?>,
            conc: $f::<f64 $($(, $c)*)?>,
        }),*]
    };
    ($($f:ident $(::<$($c:tt),*>)?),* $(,)?) => {
        vec![$($crate::Contract {
            name: concat!(stringify!($f) $(, $("_", stringify!($c)),*)?),
            sym: $f::<$crate::term::Sym $($(, $c)*)?>,
            conc: $f::<f64 $($(, $c)*)?>,
        }),*]
    };
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn num(f: f64) -> String {
    if f.is_finite() {
        format!("{:?}", f)
    } else {
        js(&format!("{}", f))
    }
}

enum Sample {
    Skipped,
    Held,
    Failed(Vec<(String, f64)>, Vec<String>),
}
fn sample(c: &Contract, cx: &mut Cx<f64>) -> Sample {
    let r = catch_unwind(AssertUnwindSafe(|| (c.conc)(cx)));
    match r {
        Ok(()) => {
            if !cx.fails.is_empty() {
                Sample::Failed(cx.used.clone(), cx.fails.clone())
            } else if cx.checked == 0 {
                Sample::Skipped
            } else {
                Sample::Held
            }
        }
        Err(p) if p.is::<Skip>() => Sample::Skipped,
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            Sample::Failed(cx.used.clone(), vec![format!("{}: panicked: {}", cx.site, msg)])
        }
    }
}
type Hit = (Vec<(String, f64)>, Vec<String>);
/// replays a failed obligation on the compiled f64 code
fn replay(c: &Contract, fails: &[Fail], consts: &[f64], seed: u64, budget: Duration) -> Option<Hit> {
    let t0 = Instant::now();
    let mut models: Vec<&Vec<(String, f64)>> = vec![];
    for f in fails {
        if !f.model.is_empty() {
            models.push(&f.model);
        }
    }
    let names = |h: &Hit| h.1.iter().any(|m| !m.contains("NaN"));
    for m in models.iter().take(40) {
        for k in 0..4 {
            let mut cx: Cx<f64> = Cx::new(seed + k);
            cx.vals = m.iter().cloned().collect();
            if k == 2 {
                // snap to nearby simple numbers
                for v in cx.vals.values_mut() {
                    *v = (*v * 4.0).round() / 4.0;
                }
            }
            if let Sample::Failed(a, b) = sample(c, &mut cx) {
                let h = (a, b);
                if names(&h) {
                    return Some(h);
                }
            }
        }
    }
    let mut i = 0u64;
    while t0.elapsed() < budget && i < 200_000 {
        i += 1;
        let mut cx: Cx<f64> = Cx::new(seed.wrapping_mul(1_000_003) + i);
        cx.specials = consts.to_vec();
        // thresholds: every length scaled down together
        if i % 8 == 1 && !["division_", "between", "try_normalize", "persp_"].iter().any(|p| c.name.starts_with(p)) {
            cx.scale = [(2f64).powi(-14), (2f64).powi(-27), (2f64).powi(-30)][(i / 8) as usize % 3];
        }
        if !models.is_empty() && i % 2 == 0 {
            let m = models[(i as usize / 2) % models.len()];
            for (n, v) in m {
                if cx.next() % 4 != 0 {
                    cx.vals.insert(n.clone(), *v);
                }
            }
        }
        if let Sample::Failed(a, b) = sample(c, &mut cx) {
            let h = (a, b);
            if names(&h) {
                return Some(h);
            }
        }
    }
    None
}

struct Res {
    name: &'static str,
    out: Outcome,
    reach: u64,
    tried: u64,
    fuzz_fail: Option<Hit>,
    hit: Option<Hit>,
    ground: u64,
    secs: f64,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let prop = get("--property").expect("--property");
    let only = get("--only");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").map_or(false, |t| t == "thorough");
    engine::THOROUGH.store(thorough, std::sync::atomic::Ordering::Relaxed);
    let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let fuzz: u64 = get("--fuzz").and_then(|s| s.parse().ok()).unwrap_or(0);
    // evaluates the contracts on the compiled code only; no part of a check
    let conc_only = args.iter().any(|a| a == "--conc-only");
    let outp = get("--out");
    let known: Vec<String> = get("--known").map_or(vec![], |s| s.split(',').map(|x| x.to_string()).collect());
    let wall: u64 = get("--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 600 });
    let ms = if thorough { 60_000 } else { 20_000 };
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(wall);
    let cs: Vec<Contract> = contracts::all(&prop).into_iter().filter(|c| only.as_ref().map_or(true, |o| c.name.contains(o.as_str()))).collect();
    if cs.is_empty() {
        eprintln!("no contracts for {}", prop);
        std::process::exit(2);
    }
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<Res>> = Mutex::new(vec![]);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cs.len() {
                        break;
                    }
                    let c = &cs[i];
                    let t = Instant::now();
                    term::WHOLE.with(|w| w.set(c.name.starts_with("whole_")));
                    let mut out = if conc_only { engine::Outcome::empty() } else { engine::run(c.name, &known, ms, deadline, &|| {
                        let mut cx: Cx<Sym> = Cx::new(1);
                        (c.sym)(&mut cx)
                    }) };
                    if let Some(e) = out.error.take() {
                        // an obligation the engine could not decide is an obligation not discharged
                        out.fails.push(Fail { contract: c.name.into(), obligation: "engine".into(), site: c.name.into(), kind: "unproved", detail: e, model: vec![], path: vec![] });
                    }
                    let (mut reach, mut tried) = (0, 0);
                    let mut fuzz_fail = None;
                    let n = if fuzz > 0 { fuzz } else { 4000 };
                    while tried < n && (fuzz > 0 || reach < 3) {
                        tried += 1;
                        let mut cx: Cx<f64> = Cx::new(seed.wrapping_mul(7919) + tried);
                        if fuzz > 0 {
                            cx.scale = scale;
                        }
                        match sample(c, &mut cx) {
                            Sample::Skipped => {}
                            Sample::Held => reach += 1,
                            Sample::Failed(a, b) => {
                                reach += 1;
                                if fuzz_fail.is_none() {
                                    fuzz_fail = Some((a, b));
                                }
                            }
                        }
                    }
                    let (mut ground, mut ground_n) = (None, 0);
                    if c.name.starts_with("f64_") {
                        // obligations on machine numbers: evaluated at fixed ground inputs
                        let mut n = 0;
                        for k in 0..64 {
                            let mut cx: Cx<f64> = Cx::new(k + 1);
                            let r = sample(c, &mut cx);
                            n += cx.checked;
                            if let Sample::Failed(a, b) = r {
                                out.fails.push(Fail { contract: c.name.into(), obligation: "machine numbers".into(), site: cx.site.clone(), kind: "refuted", detail: b[0].clone(), model: a.clone(), path: vec![] });
                                ground = Some((a, b));
                                break;
                            }
                        }
                        ground_n = n;
                    }
                    let hit = if ground.is_some() { ground } else if out.fails.is_empty() { None } else { replay(c, &out.fails, &out.constants, seed, Duration::from_secs(if thorough { 60 } else { 15 })) };
                    results.lock().unwrap().push(Res { name: c.name, out, reach, tried, fuzz_fail, hit, ground: ground_n, secs: t.elapsed().as_secs_f64() });
                })
                .unwrap();
        }
    });
    let mut rs = results.into_inner().unwrap();
    rs.sort_by_key(|r| r.name);
    let mut by: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut total, mut done, mut paths, mut infeas, mut calls, mut secs) = (0, 0, 0, 0, 0, 0.0);
    let mut funs: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors = vec![];
    let mut viol = vec![];
    let mut named = 0;
    for r in &rs {
        paths += r.out.paths;
        infeas += r.out.infeasible;
        calls += r.out.solver_calls;
        secs += r.out.solver_secs;
        named += r.out.obs.len();
        for (k, o) in &r.out.obs {
            let _ = k;
            total += o.n;
            done += o.n - o.failed;
            for (b, n) in &o.by {
                *by.entry(b).or_insert(0) += n;
            }
        }
        for (k, n) in &r.out.sites {
            *funs.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &r.out.known_hits {
            *known_hits.entry(k.clone()).or_insert(0) += n;
        }
        if let Some(e) = &r.out.error {
            errors.push(format!("{}: {}", r.name, e));
        }
        if r.out.obs.is_empty() && r.out.error.is_none() {
            errors.push(format!("{}: no obligations generated", r.name));
        }
        if r.reach == 0 && r.out.fails.is_empty() {
            errors.push(format!("{}: no concrete input satisfied the precondition in {} tries", r.name, r.tried));
        }
        if fuzz > 0 {
            if let Some(h) = &r.fuzz_fail {
                eprintln!("FUZZ {} {:?}\n    {:?}", r.name, h.1, h.0);
            }
        }
        if !r.out.fails.is_empty() {
            viol.push(r);
        }
        if args.iter().any(|a| a == "-v") {
            eprintln!("{:50} paths {:4} obs {:4} solver {:3} {:.1}s reach {}/{} {}", r.name, r.out.paths, r.out.obs.values().map(|o| o.n).sum::<u64>(), r.out.solver_calls, r.secs, r.reach, r.tried, if r.out.fails.is_empty() { "ok" } else { "FAIL" });
            for f in r.out.fails.iter().take(6) {
                eprintln!("    {} | {} | {} | {}\n      model {:?}\n      path {:?}", f.kind, f.site, f.obligation, f.detail, f.model, f.path);
            }
            if let Some(h) = &r.hit {
                eprintln!("    replay: {:?}\n       {:?}", h.1, h.0);
            }
        }
    }
    for e in &errors {
        eprintln!("ERROR {}", e);
    }
    let mut j = String::from("{\n");
    j.push_str(&format!("\"property\": {}, \"contracts\": {}, \"named_obligations\": {}, \"obligations\": {}, \"discharged\": {}, \"paths\": {}, \"infeasible_paths\": {}, \"solver_calls\": {}, \"solver_seconds\": {:.2}, \"wall_s\": {:.2},\n", js(&prop), rs.len(), named, total, done, paths, infeas, calls, secs, t0.elapsed().as_secs_f64()));
    j.push_str(&format!("\"by_backend\": {{{}}},\n", by.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"ground_f64\": {},\n", rs.iter().map(|r| r.ground).sum::<u64>()));
    j.push_str(&format!("\"restricted\": [{}],\n", rs.iter().filter(|r| r.out.restricted).map(|r| js(r.name)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"known_hits\": {{{}}},\n", known_hits.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"functions\": [{}],\n", funs.keys().map(|k| js(k)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"errors\": [{}],\n", errors.iter().map(|k| js(k)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(
        "\"per_contract\": [{}],\n",
        rs.iter().map(|r| format!("{{\"name\": {}, \"paths\": {}, \"obligations\": {}, \"reach\": {}, \"seconds\": {:.2}}}", js(r.name), r.out.paths, r.out.obs.values().map(|o| o.n).sum::<u64>(), r.reach, r.secs)).collect::<Vec<_>>().join(",\n  ")
    ));
    let vs: Vec<String> = viol
        .iter()
        .map(|r| {
            let fails: Vec<String> = r
                .out
                .fails
                .iter()
                .take(8)
                .map(|f| {
                    format!(
                        "{{\"obligation\": {}, \"function\": {}, \"kind\": {}, \"detail\": {}, \"model\": {{{}}}, \"path\": [{}]}}",
                        js(&f.obligation),
                        js(&f.site),
                        js(f.kind),
                        js(&f.detail),
                        f.model.iter().map(|(n, v)| format!("{}: {}", js(n), num(*v))).collect::<Vec<_>>().join(", "),
                        f.path.iter().map(|p| js(p)).collect::<Vec<_>>().join(", ")
                    )
                })
                .collect();
            let hit = match &r.hit {
                None => "null".to_string(),
                Some(h) => format!("{{\"inputs\": {{{}}}, \"observed\": [{}]}}", h.0.iter().map(|(n, v)| format!("{}: {}", js(n), num(*v))).collect::<Vec<_>>().join(", "), h.1.iter().take(6).map(|m| js(m)).collect::<Vec<_>>().join(", ")),
            };
            format!("{{\"contract\": {}, \"fails\": [{}], \"replay\": {}}}", js(r.name), fails.join(",\n    "), hit)
        })
        .collect();
    j.push_str(&format!("\"violations\": [{}]\n}}\n", vs.join(",\n  ")));
    match outp {
        Some(p) => std::fs::write(p, &j).unwrap(),
        None => {
            if !args.iter().any(|a| a == "-v") {
                println!("{}", j)
            }
        }
    }
    eprintln!("{}: {} contracts, {} obligations, {} discharged, {} paths, {:?}, {:.1}s", prop, rs.len(), total, done, paths, by, t0.elapsed().as_secs_f64());
    std::process::exit(if !viol.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    });
}
