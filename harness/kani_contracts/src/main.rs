//! kani_contracts <harness> <tries> [seed]: looks for a failing input of one contract on the compiled code
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    use kani_contracts::any::{Reject, STATE};
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (p, n, _) in kani_contracts::all() {
            println!("{} {}", p, n);
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let tries: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1000);
    let e = kani_contracts::all().into_iter().find(|e| e.1 == a[1]).expect("no such contract");
    let skip: Vec<String> = a[3..].to_vec();
    let mut ran = 0;
    for k in 0..tries {
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.rng = k.wrapping_mul(0x1234567);
            s.drawn.clear();
            s.failed.clear();
        });
        let r = std::panic::catch_unwind(|| (e.2)());
        let mut f = STATE.with(|s| s.borrow().failed.clone());
        match r {
            Ok(()) => ran += 1,
            Err(p) if p.is::<Reject>() => continue,
            Err(p) => {
                if !e.1.contains("panics_") {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    // an operation the stand-in scalar does not have says nothing about the code
                    if m.contains("not implemented") || m.contains("a divisor that is not") {
                        continue;
                    }
                    // overflow is the primitive types' behaviour, except where the precondition excludes it
                    if m.starts_with("attempt to") && m.contains("overflow") && !e.1.starts_with("whole::") {
                        continue;
                    }
                    f.push(format!("panicked: {}", m));
                } else {
                    ran += 1;
                }
            }
        }
        f.retain(|m| !skip.iter().any(|s| m.contains(s.as_str())));
        if !f.is_empty() {
            println!("FAIL");
            println!("{}", f[0]);
            STATE.with(|s| println!("{}", s.borrow().drawn.join(" ")));
            return;
        }
    }
    println!("NONE {}", ran);
}
