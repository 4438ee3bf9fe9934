//! Evaluates the contracts of `contracts/*.vc` on the real, compiled code.
//!
//! Every test draws its input from a seeded generator, small inputs first, so that a failing input
//! is named by (test, seed, size) and reproduced by `replay`.

pub mod scratch;
pub mod text;

use std::any::Any;
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (0 if n is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Err: description of the input and of what went wrong.
pub type Outcome = Result<(), String>;

#[derive(Clone, Copy)]
pub struct Test {
    pub property: &'static str,
    pub name: &'static str,
    pub max_size: usize,
    pub run: fn(&mut Rng, usize) -> Outcome,
}

/// An input on which the unchanged code is known to fail; it is reported, not counted as violation.
#[derive(Clone, Copy)]
pub struct Known {
    pub property: &'static str,
    pub id: &'static str,
    pub run: fn() -> Outcome,
}

thread_local! {
    static TRAIL: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Notes what is being done, so that a panic can be reported with its input.
pub fn note(s: impl Into<String>) {
    TRAIL.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() < 100_000 {
            t.push_str(&s.into());
            t.push('\n');
        }
    });
}

pub fn trail() -> String {
    TRAIL.with(|t| t.borrow().clone())
}

fn message(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let at = PANIC.with(|p| p.borrow().clone());
        format!("panicked: {} {at}", message(&*e))
    })
}

pub fn clear_panic() {
    PANIC.with(|p| p.borrow_mut().clear());
}

/// Where something panicked on this thread, even if that did not get through to the caller.
pub fn seen_panic() -> Option<String> {
    PANIC.with(|p| Some(p.borrow().clone()).filter(|p| !p.is_empty()))
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("HARNESS_DEBUG").is_ok() {
            eprintln!("{info}");
        }
        let _ = PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if !p.is_empty() {
                p.push_str(", then ");
            }
            p.push_str(&at);
        });
    }));
}

fn one(t: &Test, seed: u64, size: usize) -> Outcome {
    TRAIL.with(|t| t.borrow_mut().clear());
    match guarded(|| (t.run)(&mut Rng::new(seed), size)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{}{e}", trail())),
        Err(p) => Err(format!("{}{p}", trail())),
    }
}

fn leave(code: i32) -> ! {
    scratch::cleanup();
    std::process::exit(code)
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// `run --property C01 --seed 1 --seconds 5 [--test NAME]`: prints one JSON object.
/// `replay TEST SEED SIZE`: exit 1 and a description if the input fails.
pub fn harness_main(tests: &[Test], known: &[Known]) -> ! {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("replay") => {
            let name = &args[2];
            if let Some(k) = known.iter().find(|k| k.id == name) {
                match guarded(k.run) {
                    Ok(Ok(())) => leave(0),
                    Ok(Err(e)) | Err(e) => {
                        println!("{e}");
                        leave(1)
                    }
                }
            }
            let t = tests.iter().find(|t| t.name == name).expect("no such test");
            match one(t, args[3].parse().unwrap(), args[4].parse().unwrap()) {
                Ok(()) => {
                    println!("held");
                    leave(0)
                }
                Err(e) => {
                    println!("{e}");
                    leave(1)
                }
            }
        }
        Some("run") => {
            let property = arg(&args, "--property").expect("--property");
            let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let seconds: f64 = arg(&args, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(5.0);
            let only = arg(&args, "--test");
            let mine: Vec<&Test> =
                tests.iter().filter(|t| t.property == property && only.as_deref().map_or(true, |o| o == t.name)).collect();
            let mut report = vec![];
            let mut failures = vec![];
            for t in &mine {
                let budget = Duration::from_secs_f64(seconds / mine.len() as f64);
                let start = Instant::now();
                let mut cases = 0u64;
                'sizes: loop {
                    // Sizes grow and start over, so that small failing inputs are found first.
                    for size in 0..=t.max_size {
                        let repeat = if size <= 3 { 4 } else { 1 };
                        for _ in 0..repeat {
                            let case_seed = seed.wrapping_mul(1_000_003).wrapping_add(cases);
                            cases += 1;
                            if let Err(e) = one(t, case_seed, size) {
                                // Look for a smaller one.
                                let mut best = (case_seed, size, e);
                                for s in 0..size {
                                    for k in 0..30 {
                                        if let Err(e) = one(t, case_seed.wrapping_add(k), s) {
                                            if s < best.1 {
                                                best = (case_seed.wrapping_add(k), s, e);
                                            }
                                        }
                                    }
                                    if best.1 == s || start.elapsed() > 3 * budget {
                                        break;
                                    }
                                }
                                failures.push(serde_json::json!({"test": t.name, "seed": best.0, "size": best.1, "what": best.2}));
                                break 'sizes;
                            }
                            if start.elapsed() > budget {
                                break 'sizes;
                            }
                        }
                    }
                }
                report.push(serde_json::json!({"test": t.name, "cases": cases, "seconds": start.elapsed().as_secs_f64()}));
            }
            let mut findings = vec![];
            for k in known.iter().filter(|k| k.property == property) {
                let r = match guarded(k.run) {
                    Ok(Ok(())) => None,
                    Ok(Err(e)) | Err(e) => Some(e),
                };
                findings.push(serde_json::json!({"id": k.id, "fails": r}));
            }
            let out = serde_json::json!({"property": property, "tests": report, "failures": failures, "known": findings});
            let mut stdout = std::io::stdout();
            let _ = writeln!(stdout, "{out}");
            let _ = stdout.flush();
            leave(0)
        }
        Some("list") => {
            for t in tests {
                println!("{} {}", t.property, t.name);
            }
            leave(0)
        }
        _ => {
            eprintln!("usage: run --property ID --seed N --seconds S | replay TEST SEED SIZE | list");
            leave(2)
        }
    }
}
