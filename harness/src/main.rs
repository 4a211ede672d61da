//! harness run PROPERTY SEED SECONDS REPLAY.json   searches for a violation, exit 1 and a replay file if one is found
//! harness replay REPLAY.json                       runs the recorded case again, exit 1 if it still fails
mod acc;
mod mp4;
mod print;
mod props;
mod rng;

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static BEGUN: AtomicU64 = AtomicU64::new(0);
static INPUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static PROP: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
/// remembers the input of the case that is running
pub fn note(b: &[u8]) { if let Ok(mut i) = INPUT.lock() { i.clear(); i.extend_from_slice(b); } }

/// no case needs more than this at once, apart from the ones which ask for huge values
const BIG: usize = 6 << 30;
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > BIG { over(l.size()) } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if l.size() > BIG { over(l.size()) } System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > BIG { over(n) } System.realloc(p, l, n) }
}
#[global_allocator]
static GLOBAL: A = A;
thread_local!(static IN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
fn over(n: usize) {
    if IN.with(|i| i.replace(true)) { return; }
    fail(&format!("allocation of {n} bytes"));
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o
}
fn fail(msg: &str) -> ! {
    let input = INPUT.try_lock().map(|i| props::hex(&i)).unwrap_or_default();
    let (p, f) = PROP.lock().map(|p| p.clone()).unwrap_or_default();
    let j = format!("{{\"property\": \"{}\", \"seed\": {}, \"case\": {}, \"message\": \"{}\", \"input\": \"{}\"}}\n", p, SEED.load(SeqCst), CASE.load(SeqCst), esc(msg), input);
    if !f.is_empty() { let _ = std::fs::write(&f, j); }
    println!("FAIL property={p} case={} {}", CASE.load(SeqCst), &msg.chars().take(1500).collect::<String>());
    std::process::exit(1)
}
fn one(p: &str, f: props::F, seed: u64, case: u64) {
    CASE.store(case, SeqCst);
    BEGUN.fetch_add(1, SeqCst);
    if let Ok(mut i) = INPUT.lock() { i.clear() }
    let r = std::panic::catch_unwind(|| f(&mut rng::Rng::new(p, seed, case), case));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail(&e),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            fail(&format!("panic: {m}"))
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (p, seed, secs, file, case) = match a.get(1).map(|s| s.as_str()) {
        Some("run") => (a[2].clone(), a[3].parse().unwrap(), a[4].parse::<f64>().unwrap(), a[5].clone(), None),
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let field = |k: &str| -> String { let at = t.find(&format!("\"{k}\": ")).expect("no failing input in the replay file") + k.len() + 4; t[at..].trim_start_matches('"').chars().take_while(|c| c.is_alphanumeric()).collect() };
            (field("property"), field("seed").parse().unwrap(), 0.0, String::new(), Some(field("case").parse::<u64>().unwrap()))
        }
        _ => { eprintln!("usage: harness run PROPERTY SEED SECONDS REPLAY | harness replay REPLAY"); std::process::exit(2) }
    };
    *PROP.lock().unwrap() = (p.clone(), file);
    SEED.store(seed, SeqCst);
    let f = props::get(&p).expect("unknown property");
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| loop {
        let b = BEGUN.load(SeqCst);
        std::thread::sleep(Duration::from_secs(25));
        if b > 0 && b == BEGUN.load(SeqCst) { fail("no result within 25 seconds") }
    });
    if let Some(c) = case { one(&p, f, seed, c); println!("ok"); return; }
    let t = Instant::now();
    let mut n = 0;
    loop {
        one(&p, f, seed, n);
        n += 1;
        if t.elapsed().as_secs_f64() > secs && n > 600 { break; }
    }
    println!("ok property={p} cases={n} seconds={:.1}", t.elapsed().as_secs_f64());
}
