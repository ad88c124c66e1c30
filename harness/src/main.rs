//! Bounded executable checks against independent oracles, used to find a concrete
//! failing input when an obligation fails and as labelled bounded stand-ins.
//!
//!   harness run PROP SEED TIER OUT.json [--only TEST] [--trace FILE]
//!   harness case TEST CASE_SEED INDEX
//!   harness list
#[macro_use]
mod fw;
mod oracle;
mod t_mss;
mod t_msg;
mod t_ntru;
mod t_pb3;
mod t_sponge;
mod t_trits;
mod troika_rc;
use fw::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn all() -> Vec<Test> {
    let mut v = vec![];
    v.extend(t_trits::tests());
    v.extend(t_sponge::tests());
    v.extend(t_pb3::tests());
    v.extend(t_msg::tests());
    v.extend(t_ntru::tests());
    v.extend(t_mss::tests());
    v
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hash(seed: u64, name: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng(h ^ i.wrapping_mul(0xD1342543DE82EF95));
    r.next()
}

thread_local!(static PMSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

fn one(t: &Test, cs: u64, i: u64) -> R {
    PMSG.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| (t.f)(&mut Rng(cs), i))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PMSG.with(|p| p.borrow().clone()))),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        let _ = PMSG.try_with(|p| *p.borrow_mut() = m);
    }));
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(a)).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn run(a: Vec<String>) -> i32 {
    let tests = all();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for t in &tests {
                println!("{} {} {} {}", t.prop, t.name, t.quick, t.thorough);
            }
            0
        }
        Some("case") => {
            let t = match tests.iter().find(|t| t.name == a[2]) {
                Some(t) => t,
                None => { println!("no test {}", a[2]); return 2; }
            };
            match one(t, a[3].parse().unwrap(), a[4].parse().unwrap()) {
                Ok(()) => { println!("case holds"); 0 }
                Err(m) => { println!("FAIL {}", m); 1 }
            }
        }
        Some("run") => {
            let prop = &a[2];
            let seed: u64 = a[3].parse().unwrap();
            let thorough = a[4] == "thorough";
            let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
            let trace = a.iter().position(|x| x == "--trace").map(|i| a[i + 1].clone());
            let sel: Vec<&Test> = tests.iter().filter(|t| t.prop == prop && only.as_ref().map_or(true, |o| o == t.name)).collect();
            // work units: (test, chunk of indices)
            let mut units: Vec<(usize, u64, u64)> = vec![];
            for (k, t) in sel.iter().enumerate() {
                let n = if thorough { t.thorough } else { t.quick };
                let step = (n / 32).max(1);
                let mut i = 0;
                while i < n {
                    units.push((k, i, (i + step).min(n)));
                    i += step;
                }
            }
            let next = AtomicUsize::new(0);
            let fails: Mutex<Vec<(usize, u64, u64, String)>> = Mutex::new(vec![]);
            let counts: Vec<AtomicUsize> = sel.iter().map(|_| AtomicUsize::new(0)).collect();
            let stop: Vec<AtomicUsize> = sel.iter().map(|_| AtomicUsize::new(0)).collect();
            let work = || loop {
                let u = next.fetch_add(1, Ordering::SeqCst);
                if u >= units.len() { break; }
                let (k, lo, hi) = units[u];
                for i in lo..hi {
                    if stop[k].load(Ordering::SeqCst) != 0 { break; }
                    let cs = hash(seed, sel[k].name, i);
                    if let Some(tr) = &trace {
                        let _ = std::fs::write(tr, format!("{} {} {}", sel[k].name, cs, i));
                    }
                    let r = one(sel[k], cs, i);
                    counts[k].fetch_add(1, Ordering::SeqCst);
                    if let Err(m) = r {
                        fails.lock().unwrap().push((k, cs, i, m));
                        stop[k].store(1, Ordering::SeqCst);
                        break;
                    }
                }
            };
            let nthr = if trace.is_some() { 1 } else { 8 };
            std::thread::scope(|s| {
                for _ in 0..nthr {
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, &work).unwrap();
                }
            });
            let mut o = std::fs::File::create(&a[5]).unwrap();
            let cs: Vec<String> = sel.iter().zip(&counts).map(|(t, c)| format!("{{\"test\":{},\"cases\":{}}}", esc(t.name), c.load(Ordering::SeqCst))).collect();
            let fs: Vec<String> = fails.lock().unwrap().iter().map(|(k, cs, i, m)| {
                format!("{{\"test\":{},\"case_seed\":\"{}\",\"index\":{},\"message\":{}}}", esc(sel[*k].name), cs, i, esc(m))
            }).collect();
            writeln!(o, "{{\"property\":{},\"tests\":[{}],\"failures\":[{}]}}", esc(prop), cs.join(","), fs.join(",")).unwrap();
            if fs.is_empty() { 0 } else { 1 }
        }
        _ => { eprintln!("usage"); 2 }
    }
}
