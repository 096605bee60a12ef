mod gen;
mod model;
mod props1;
mod props2;
mod props3;
mod world;

pub mod alloc {
    //! Counts the memory allocated by the current thread between `start` and `stop`.
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        static ON: Cell<bool> = const { Cell::new(false) };
        static CUR: Cell<usize> = const { Cell::new(0) };
        static PEAK: Cell<usize> = const { Cell::new(0) };
    }
    pub struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let on = ON.try_with(|c| c.get()).unwrap_or(false);
            if on {
                let _ = CUR.try_with(|c| {
                    c.set(c.get().saturating_add(l.size()));
                    let _ = PEAK.try_with(|p| p.set(p.get().max(c.get())));
                });
                if l.size() > 1 << 31 {
                    return std::ptr::null_mut();
                }
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if ON.try_with(|c| c.get()).unwrap_or(false) {
                let _ = CUR.try_with(|c| c.set(c.get().saturating_sub(l.size())));
            }
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static G: A = A;
    pub fn start() {
        CUR.with(|c| c.set(0));
        PEAK.with(|c| c.set(0));
        ON.with(|c| c.set(true));
    }
    pub fn stop() -> usize {
        ON.with(|c| c.set(false));
        PEAK.with(|c| c.get())
    }
}

use std::{
    collections::HashSet,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

type Case = fn(&mut gen::Rng, bool) -> props1::Res;

fn case_of(p: &str) -> Option<Case> {
    Some(match p {
        "C01" => props1::c01,
        "C02" => props1::c02,
        "C03" => props1::c03,
        "C04" => props1::c04,
        "C05" => props2::c05,
        "C06" => props2::c06,
        "C07" => props2::c07,
        "C08" => props2::c08,
        "C09" => props1::c09,
        "C10" => props3::c10,
        "C11" => props3::c11,
        "C12" => props3::c12,
        "C13" => props3::c13,
        "C14" => props3::c14,
        "C15" => props1::c15,
        "C16" => props1::c16,
        "C17" => props3::c17,
        "C18" => props2::c18,
        _ => return None,
    })
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn hash(d: &str, trace: &[String]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    d.hash(&mut h);
    trace.hash(&mut h);
    h.finish()
}

fn run_case(f: Case, seed: u64, thorough: bool) -> (props1::Res, Vec<String>) {
    model::TRACE.with(|t| t.borrow_mut().clear());
    let r = std::panic::catch_unwind(|| f(&mut gen::Rng(seed), thorough));
    alloc::stop();
    let trace = model::TRACE.with(|t| t.borrow().clone());
    let r = match r {
        Ok(x) => x,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    };
    (r, trace)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m}{at}"));
    }));
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("monitor <property> <seed> <quick|thorough> <seconds> <out.json> | monitor <property> replay <case seed>");
        std::process::exit(2);
    }
    let Some(f) = case_of(&a[1]) else {
        eprintln!("no monitor for {}", a[1]);
        std::process::exit(2);
    };
    if a[2] == "replay" {
        let seed: u64 = a[3].parse().unwrap();
        let (r, trace) = run_case(f, seed, false);
        for t in trace {
            println!("  {t}");
        }
        println!("{r:?}");
        std::process::exit(i32::from(r.is_err()));
    }
    let seed: u64 = a[2].parse().unwrap();
    let thorough = a[3] == "thorough";
    let secs: f64 = a[4].parse().unwrap();
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let failure: Mutex<Option<(u64, String, Vec<String>)>> = Mutex::new(None);
    let done = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    while !stop.load(Ordering::Relaxed) && start.elapsed() < Duration::from_secs_f64(secs) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let cs = gen::Rng(seed.wrapping_mul(0x1_0000_0001).wrapping_add(i)).next();
                        let (r, trace) = run_case(f, cs, thorough);
                        done.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Ok(d) => {
                                let mut s = samples.lock().unwrap();
                                if s.len() < 8 {
                                    s.push((cs, d.clone()));
                                }
                                drop(s);
                                let mut s = seen.lock().unwrap();
                                if s.len() < 1_000_000 {
                                    s.insert(hash(&d, &trace));
                                }
                            }
                            Err(e) => {
                                let mut g = failure.lock().unwrap();
                                // keep the shortest history
                                if g.as_ref().map_or(true, |x| trace.len() < x.2.len()) {
                                    *g = Some((cs, e, trace));
                                }
                                drop(g);
                                if start.elapsed() > Duration::from_secs(3) {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let fail = failure.into_inner().unwrap();
    let mut out = format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}]",
        done.load(Ordering::Relaxed),
        seen.into_inner().unwrap().len(),
        samples.into_inner().unwrap().iter().map(|(s, d)| js(&format!("case {s}: {d}"))).collect::<Vec<_>>().join(", ")
    );
    if let Some((cs, e, trace)) = &fail {
        out += &format!(
            ", \"failure\": {{\"case\": {cs}, \"what\": {}, \"history\": [{}]}}",
            js(e),
            trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(", ")
        );
    }
    out += "}\n";
    std::fs::write(&a[5], out).unwrap();
    std::process::exit(i32::from(fail.is_some()));
}
