//! Native replay of a counterexample: `replay HARNESS HEXMODEL SCRATCHDIR`.
//! Prints `RESULT ok|assert <id>|panic <msg>|assume|underrun` and `OBS <hex>`; the exit code is 0 for ok.
include!("all.rs");

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// The allocator: a request over the limit ends the run.
struct Limited;
static LIMIT: AtomicUsize = AtomicUsize::new(0);
fn limit(n: usize) {
    let m = LIMIT.load(SeqCst);
    if m > 0 && n > m {
        LIMIT.store(0, SeqCst);
        done(&format!("allocation of {n} bytes"), 13)
    }
}
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        limit(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        limit(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        limit(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Limited = Limited;

extern "C" {
    fn dup(a: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn close(a: i32) -> i32;
}
/// The real standard output when it is replaced.
static OUT: AtomicI32 = AtomicI32::new(-1);
fn restore() {
    let o = OUT.swap(-1, SeqCst);
    if o >= 0 {
        unsafe { dup2(o, 1) };
    }
}
#[no_mangle]
extern "C" fn sym_no_out() {
    let mut p = [0; 2];
    unsafe {
        OUT.store(dup(1), SeqCst);
        pipe(p.as_mut_ptr());
        close(p[0]);
        dup2(p[1], 1);
    }
}
#[no_mangle]
extern "C" fn sym_max_request(n: usize) {
    LIMIT.store(n, SeqCst)
}

static IN: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
static OBS: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static DIR: Mutex<String> = Mutex::new(String::new());

fn done(s: &str, code: i32) -> ! {
    restore();
    LIMIT.store(0, SeqCst);
    let o = OBS.lock().unwrap();
    let h: String = o.iter().map(|b| format!("{b:02x}")).collect();
    println!("OBS {}", if h.is_empty() { "-" } else { &h });
    println!("RESULT {s}");
    std::process::exit(code)
}

#[no_mangle]
extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    let mut g = IN.lock().unwrap();
    for i in 0..n {
        // bytes the solver's path never drew are free: take zero
        let pos = g.1;
        let b = g.0.get(pos).copied().unwrap_or(0);
        g.1 += 1;
        unsafe { *p.add(i) = b };
    }
}
#[no_mangle]
extern "C" fn sym_assume(b: bool) {
    if !b {
        done("assume", 12)
    }
}
#[no_mangle]
extern "C" fn sym_assert(b: bool, id: u32) {
    if !b {
        done(&format!("assert {id}"), 10)
    }
}
#[no_mangle]
extern "C" fn sym_cover(_id: u32) {}
#[no_mangle]
extern "C" fn sym_observe(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    OBS.lock().unwrap().extend_from_slice(s);
}
#[no_mangle]
extern "C" fn sym_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn sym_file(d: *const u8, n: usize, name: *const u8, nlen: usize, out: *mut u8, cap: usize) -> usize {
    let (d, name) = unsafe { (std::slice::from_raw_parts(d, n), std::slice::from_raw_parts(name, nlen)) };
    let p = format!("{}/{}", DIR.lock().unwrap(), std::str::from_utf8(name).unwrap());
    std::fs::write(&p, d).unwrap();
    assert!(p.len() <= cap);
    unsafe { std::ptr::copy_nonoverlapping(p.as_ptr(), out, p.len()) };
    p.len()
}
#[no_mangle]
extern "C" fn sym_dir(out: *mut u8, cap: usize) -> usize {
    let p = format!("{}/d", DIR.lock().unwrap());
    std::fs::create_dir_all(&p).unwrap();
    assert!(p.len() <= cap);
    unsafe { std::ptr::copy_nonoverlapping(p.as_ptr(), out, p.len()) };
    p.len()
}
#[no_mangle]
extern "C" fn sym_full(p: *const u8, n: usize) {
    let p = unsafe { std::slice::from_raw_parts(p, n) };
    std::os::unix::fs::symlink("/dev/full", std::str::from_utf8(p).unwrap()).unwrap();
}
#[no_mangle]
extern "C" fn sym_nodes() -> usize {
    fn count(d: &std::path::Path) -> usize {
        let e: Vec<_> = std::fs::read_dir(d).unwrap().map(|x| x.unwrap()).collect();
        e.iter().map(|x| 1 + if x.file_type().unwrap().is_dir() { count(&x.path()) } else { 0 }).sum()
    }
    count(format!("{}/d", DIR.lock().unwrap()).as_ref())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = a[2].trim_matches('-');
    let data = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    IN.lock().unwrap().0 = data;
    *DIR.lock().unwrap() = a[3].clone();
    let Some((_, f)) = HARNESSES.iter().find(|x| x.0 == a[1]) else {
        println!("RESULT no-such-harness");
        std::process::exit(3)
    };
    std::panic::set_hook(Box::new(|i| {
        restore();
        LIMIT.store(0, SeqCst);
        println!("PANIC {i}");
    }));
    match std::panic::catch_unwind(|| f()) {
        Ok(()) => done("ok", 0),
        Err(_) => done("panic", 11),
    }
}
