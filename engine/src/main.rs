//! irsym: bounded symbolic execution of whole-program LLVM IR with Z3.
mod exec;
mod expr;
mod ir;
mod selftest;
mod solver;

use exec::*;
use std::fmt::Write as _;
use std::os::raw::c_int;
use std::sync::atomic::AtomicU64;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn read(fd: c_int, b: *mut u8, n: usize) -> isize;
    fn write(fd: c_int, b: *const u8, n: usize) -> isize;
    fn fcntl(fd: c_int, cmd: c_int, ...) -> c_int;
    fn _exit(c: c_int) -> !;
    fn getpid() -> c_int;
    fn close(fd: c_int) -> c_int;
    fn mmap(p: *mut u8, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8;
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}

fn report(e: &Exec, dir: &str, t0: Instant) {
    let mut s = String::new();
    let r = &e.rep;
    for (k, v) in &r.paths {
        let _ = writeln!(s, "path {k} {v}");
    }
    for (k, v) in [
        ("asserts", r.asserts),
        ("asserts_trivial", r.asserts_trivial),
        ("forks", r.forks),
        ("instrs", r.instrs),
        ("unknown", r.unknown),
        ("unexplored", r.unexplored),
        ("queries", e.s.st.queries),
        ("cached", e.s.st.cached),
        ("sat", e.s.st.sat),
        ("unsat", e.s.st.unsat),
        ("fp_queries", e.s.st.fp_queries),
        ("relax_unsat", e.s.st.relax_unsat),
        ("solver_us", e.s.st.time_us),
    ] {
        let _ = writeln!(s, "sum {k} {v}");
    }
    for (k, v) in [("solver_max_us", e.s.st.max_us), ("max_path_instrs", r.max_path_instrs), ("max_pc", r.max_pc), ("wall_ms", t0.elapsed().as_millis() as u64)] {
        let _ = writeln!(s, "max {k} {v}");
    }
    for (k, v) in &r.limits {
        let _ = writeln!(s, "limit {v} {k}");
    }
    for c in &r.covers {
        let _ = writeln!(s, "cover {c}");
    }
    for c in &r.assert_ids {
        let _ = writeln!(s, "assertid {c}");
    }
    for (i, f) in e.m.funcs.iter().enumerate() {
        if e.fn_seen[i] && f.user {
            let nb = e.m.body(i as u32).blocks.len();
            let _ = writeln!(s, "fn {} {nb}", f.name);
        }
    }
    let mut bs: Vec<_> = e.blk_seen.keys().collect();
    bs.sort_unstable();
    for (f, b) in bs {
        let _ = writeln!(s, "blk {} {b}", e.m.funcs[*f as usize].name);
    }
    let nf = e.fn_seen.iter().filter(|x| **x).count();
    let _ = writeln!(s, "max fns {nf}");
    for v in &r.viols {
        let _ = writeln!(s, "viol\t{}\t{}\t{}\t{}\t{}", v.kind, v.id, v.loc, hex(&v.model), v.stack);
    }
    for (m, o) in &r.samples {
        let _ = writeln!(s, "sample {} {}", hex(m), hex(o));
    }
    s.push_str("end\n");
    let p = unsafe { getpid() };
    std::fs::write(format!("{dir}/r.{p}"), s).expect("write report");
}

fn real_main() {
    {
        let a: Vec<String> = std::env::args().collect();
        if a.get(1).is_some_and(|x| x == "selftest") {
            let n = |i: usize, d: u64| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
            selftest::run(n(2, 1), n(3, 2000));
            selftest::run_fp(n(2, 1), n(3, 2000) / 10);
            return;
        }
    }

    let t0 = Instant::now();
    let mut args = std::env::args().skip(1);
    let ir = args.next().expect("usage: irsym IR FN OUTDIR [k=v]...");
    let fname = args.next().unwrap();
    let dir = args.next().unwrap();
    let mut o = Opts {
        max_ins: 3_000_000,
        max_alloc: 40 << 20,
        max_depth: 400,
        max_viol: 20,
        samples: 6,
        ite_load_ro: 4096,
        ite_load: 64,
        ite_store: 16,
        timeout_ms: 60_000,
        trace: false,
    };
    let mut time = 300u64;
    let mut procs = 8usize;
    let mut seed = 1u32;
    for a in args {
        let (k, v) = a.split_once('=').expect("k=v");
        let n: u64 = v.parse().unwrap_or(0);
        match k {
            "max_ins" => o.max_ins = n,
            "max_alloc" => o.max_alloc = n,
            "max_depth" => o.max_depth = n as usize,
            "max_viol" => o.max_viol = n as usize,
            "samples" => o.samples = n as usize,
            "ite_load_ro" => o.ite_load_ro = n,
            "ite_load" => o.ite_load = n,
            "ite_store" => o.ite_store = n,
            "timeout_ms" => o.timeout_ms = n as u32,
            "trace" => o.trace = n != 0,
            "time" => time = n,
            "procs" => procs = n as usize,
            "seed" => seed = n as u32,
            _ => panic!("option {k}"),
        }
    }
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ir)));
    let Some(&f) = m.fn_by_name.get(fname.as_str()) else {
        eprintln!("no function {fname}");
        std::process::exit(2);
    };
    let deadline = t0 + Duration::from_secs(time);
    // when the first violation was found, in ms, by any process: the others do not look for long after it
    let found: &'static AtomicU64 = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const AtomicU64)
    };
    let mut e = Exec::new(m, o.clone(), t0, deadline, found, seed);
    e.start(f);
    let mut tok = [0i32; 2];
    let mut live = [0i32; 2];
    unsafe {
        pipe(tok.as_mut_ptr());
        pipe(live.as_mut_ptr());
        fcntl(tok[0], 4, 0o4000); // O_NONBLOCK
        for _ in 1..procs {
            write(tok[1], b"t".as_ptr(), 1);
        }
    }
    let mut root = true;
    let mut last_split = Instant::now();
    loop {
        let Some(st) = e.work.pop() else { break };
        if e.late() {
            e.rep.unexplored += 1 + e.work.len() as u64;
            break;
        }
        if e.rep.viols.len() >= e.o.max_viol {
            e.rep.unexplored += 1 + e.work.len() as u64;
            break;
        }
        if !e.work.is_empty() && last_split.elapsed() > Duration::from_millis(30) {
            last_split = Instant::now();
            let mut b = 0u8;
            if unsafe { read(tok[0], &mut b, 1) } == 1 {
                let pid = unsafe { fork() };
                let n = e.work.len();
                if pid == 0 {
                    // child: take the older part of the worklist
                    root = false;
                    e.work.truncate(n.div_ceil(2));
                    e.rep = Report::default();
                    e.s.st = Default::default();
                    e.blk_seen.clear();
                    e.fn_seen.iter_mut().for_each(|x| *x = false);
                    drop(st);
                    continue;
                } else if pid > 0 {
                    e.work.drain(..n.div_ceil(2));
                } else {
                    unsafe { write(tok[1], b"t".as_ptr(), 1) };
                }
            }
        }
        // what the executor does not know ends the path, not the run
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run_state(st)));
        if let Err(p) = r {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            let m = m.unwrap_or_default().replace('\n', " ");
            *e.rep.limits.entry(format!("executor: {m}")).or_insert(0) += 1;
        }
    }
    report(&e, &dir, t0);
    unsafe {
        write(tok[1], b"t".as_ptr(), 1);
        if !root {
            _exit(0);
        }
        close(live[1]);
        let mut b = 0u8;
        read(live[0], &mut b, 1);
    }
    std::process::exit(0);
}
