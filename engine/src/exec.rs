//! Symbolic execution of the IR: path exploration, memory model, libc model.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

const AFTER_MS: u64 = 15_000;
pub const STACK_BASE: u64 = 0x6000_0000_0000;
pub const HEAP_BASE: u64 = 0x7000_0000_0000;
const NOSYM: E = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Stack,
    Heap,
    Global,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub kind: Kind,
    pub ro: bool,
    pub data: Vec<u8>,
    pub sym: Vec<E>,
    pub nsym: u32,
}

impl Obj {
    // `data` covers a prefix of the object; bytes past it are zero
    fn new(base: u64, size: u64, kind: Kind) -> Obj {
        let n = if size <= 4096 { size as usize } else { 0 };
        Obj { base, size, kind, ro: false, data: vec![0; n], sym: vec![], nsym: 0 }
    }
    fn get(&self, o: usize) -> Result<u8, E> {
        if self.nsym != 0 {
            if let Some(&e) = self.sym.get(o) {
                if e != NOSYM {
                    return Err(e);
                }
            }
        }
        Ok(self.data.get(o).copied().unwrap_or(0))
    }
    fn grow(&mut self, o: usize) {
        let n = ((o + 1).next_power_of_two().max(4096)).min(self.size as usize);
        self.data.resize(n, 0);
    }
    fn put(&mut self, o: usize, b: u8) {
        if o >= self.data.len() {
            if b == 0 && self.sym.get(o).is_none_or(|&e| e == NOSYM) {
                return;
            }
            self.grow(o);
        }
        self.data[o] = b;
        if self.nsym != 0 {
            if let Some(e) = self.sym.get_mut(o) {
                if *e != NOSYM {
                    *e = NOSYM;
                    self.nsym -= 1;
                }
            }
        }
    }
    fn puts(&mut self, o: usize, e: E) {
        if let Some(c) = with(|a| a.cval(e)) {
            return self.put(o, c as u8);
        }
        if o >= self.sym.len() {
            let n = ((o + 1).next_power_of_two().max(16)).min(self.size as usize);
            self.sym.resize(n, NOSYM);
        }
        if self.sym[o] == NOSYM {
            self.nsym += 1;
        }
        self.sym[o] = e;
    }
    fn all_conc(&self, off: usize, n: usize) -> bool {
        self.nsym == 0 || (off..off + n).all(|i| self.sym.get(i).is_none_or(|&e| e == NOSYM))
    }
}

pub struct Model {
    pub bytes: Vec<u8>,
    memo: RefCell<HashMap<E, u128>>,
}
impl Model {
    fn new(bytes: Vec<u8>) -> Rc<Model> {
        Rc::new(Model { bytes, memo: RefCell::new(HashMap::new()) })
    }
    fn eval(&self, e: E) -> u128 {
        with(|a| a.eval(e, &self.bytes, &mut self.memo.borrow_mut()))
    }
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    body: &'static Body,
    regs: Vec<Val>,
    blk: u32,
    ip: u32,
    ret_dst: u32,
    allocas: Vec<u64>,
}

#[derive(Clone)]
struct Fd {
    file: usize,
    pos: u64,
    open: bool,
    acc: u8,
    append: bool,
}

#[derive(Clone)]
struct SymFile {
    path: Vec<u8>,
    kind: Node,
    data: Rc<Vec<(u8, E)>>,
}

/// A node of the modelled file system; `Full` is a file on a device without space left.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Node {
    Gone,
    File,
    Dir,
    Full,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: BTreeMap<u64, Rc<Obj>>,
    next_heap: u64,
    next_stack: u64,
    pc: Vec<E>,
    eqs: Rc<HashMap<E, u128>>,
    rw: Rc<RefCell<HashMap<E, E>>>,
    model: Rc<Model>,
    nvars: u32,
    nins: u64,
    fds: Vec<Fd>,
    files: Vec<SymFile>,
    obs: Vec<Val>,
    covers: BTreeSet<u32>,
    heap_bytes: u64,
    /// largest allocation the harness allows (0: any)
    max_request: u64,
    /// the standard output is closed
    no_out: bool,
    proven: u64,
    errno: u64,
    retval: Option<Val>,
}

pub enum End {
    Done,
    Panic(String, String),
    Abort(String),
    Mem(String),
    Alloc(String),
    Limit(String),
    Assume,
    Unsup(String),
}

enum Stop {
    Fork { cond: E, v: bool, other: Rc<Model> },
    End(End),
    Frame, // frame stack changed (call / ret); continue main loop
}
type R<T> = Result<T, Stop>;

fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(End::Unsup(s.into())))
}

pub struct Violation {
    pub kind: String,
    pub id: String,
    pub loc: String,
    pub stack: String,
    pub model: Vec<u8>,
}

#[derive(Default)]
pub struct Report {
    pub paths: BTreeMap<String, u64>,
    pub viols: Vec<Violation>,
    pub samples: Vec<(Vec<u8>, Vec<u8>)>,
    pub covers: BTreeSet<u32>,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub assert_ids: BTreeSet<u32>,
    pub forks: u64,
    pub instrs: u64,
    pub unknown: u64,
    pub unexplored: u64,
    pub limits: BTreeMap<String, u64>,
    pub max_path_instrs: u64,
    pub max_pc: u64,
}

#[derive(Clone)]
pub struct Opts {
    pub max_ins: u64,
    pub max_alloc: u64,
    pub max_depth: usize,
    pub max_viol: usize,
    pub samples: usize,
    pub ite_load_ro: u64,
    pub ite_load: u64,
    pub ite_store: u64,
    pub timeout_ms: u32,
    pub trace: bool,
}

pub struct Exec {
    pub m: &'static Module,
    pub s: Solver,
    pub o: Opts,
    pub rep: Report,
    gcache: HashMap<u32, Rc<Obj>>,
    bi: Vec<Option<Bi>>,
    pub fn_seen: Vec<bool>,
    pub blk_seen: HashMap<(u32, u32), u64>,
    pub work: Vec<State>,
    t0: Instant,
    deadline: Instant,
    /// when a process found the first violation (ms from t0, 0 if none did)
    found: &'static AtomicU64,
    npaths: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    Defined,
    SymBytes,
    SymAssume,
    SymAssert,
    SymCover,
    SymObserve,
    SymFile,
    SymDir,
    SymFull,
    SymNodes,
    SymNoOut,
    SymMaxRequest,
    Stat,
    Mkdir,
    Unlink,
    Rename,
    SymConcretize,
    SymIsEngine,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Memchr,
    Strlen,
    Nop,
    Ret0,
    RetM1,
    Assume,
    IsConst,
    Threadlocal,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    UMin,
    UMax,
    SMin,
    SMax,
    UCmp,
    SCmp,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    Fshl,
    Fshr,
    Abs,
    Fabs,
    FtoiSat(bool),
    Ftrunc(u32),
    Fmin(bool),
    Trap,
    Abort,
    Open,
    Read,
    Lseek,
    Fstat,
    Close,
    Write,
    Writev,
    Errno,
    Getrandom,
    Syscall,
    KeyCreate,
    StrerrorR,
    Pshufb,
    Psad,
    Pmadd,
    Expect,
    VReduceOr,
    Unsup,
}

fn bi_of(f: &Func) -> Bi {
    let n = f.name.as_str();
    let exact = match n {
        "sym_bytes" => Bi::SymBytes,
        "sym_assume" => Bi::SymAssume,
        "sym_assert" => Bi::SymAssert,
        "sym_cover" => Bi::SymCover,
        "sym_observe" => Bi::SymObserve,
        "sym_file" => Bi::SymFile,
        "sym_dir" => Bi::SymDir,
        "sym_full" => Bi::SymFull,
        "sym_nodes" => Bi::SymNodes,
        "sym_no_out" => Bi::SymNoOut,
        "sym_max_request" => Bi::SymMaxRequest,
        "sym_concretize" => Bi::SymConcretize,
        "sym_is_engine" => Bi::SymIsEngine,
        _ => Bi::Unsup,
    };
    if exact != Bi::Unsup {
        return exact;
    }
    if f.line != usize::MAX {
        return Bi::Defined;
    }
    match n {
        "malloc" => return Bi::Malloc,
        "calloc" => return Bi::Calloc,
        "realloc" => return Bi::Realloc,
        "free" => return Bi::Free,
        "posix_memalign" => return Bi::Memalign,
        "memcmp" => return Bi::Memcmp,
        "bcmp" => return Bi::Bcmp,
        "memchr" => return Bi::Memchr,
        "memcpy" | "memmove" => return Bi::Memcpy,
        "memset" => return Bi::Memset,
        "strlen" => return Bi::Strlen,
        "abort" | "exit" | "_exit" => return Bi::Abort,
        "open64" | "open" => return Bi::Open,
        "read" => return Bi::Read,
        "lseek64" | "lseek" => return Bi::Lseek,
        "fstat64" | "fstat" => return Bi::Fstat,
        "close" => return Bi::Close,
        "write" => return Bi::Write,
        "writev" => return Bi::Writev,
        "getenv" | "pthread_setspecific" | "pthread_key_delete" | "pthread_getspecific" | "munmap" | "poll" => return Bi::Ret0,
        "stat64" | "lstat64" => return Bi::Stat,
        "mkdir" => return Bi::Mkdir,
        "unlink" => return Bi::Unlink,
        "rename" => return Bi::Rename,
        "fsync" | "fdatasync" => return Bi::Ret0,
        "statx" | "readlink" => return Bi::RetM1,
        "realpath" | "getcwd" => return Bi::Ret0,
        "__errno_location" => return Bi::Errno,
        "getrandom" => return Bi::Getrandom,
        "syscall" => return Bi::Syscall,
        "pthread_key_create" => return Bi::KeyCreate,
        "__xpg_strerror_r" => return Bi::StrerrorR,
        _ => {}
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        let table: &[(&str, Bi)] = &[
            ("lifetime.", Bi::Nop),
            ("experimental.noalias", Bi::Nop),
            ("dbg.", Bi::Nop),
            ("x86.sse2.pause", Bi::Nop),
            ("sideeffect", Bi::Nop),
            ("donothing", Bi::Nop),
            ("prefetch", Bi::Nop),
            ("memcpy", Bi::Memcpy),
            ("memmove", Bi::Memcpy),
            ("memset", Bi::Memset),
            ("assume", Bi::Assume),
            ("is.constant", Bi::IsConst),
            ("threadlocal.address", Bi::Threadlocal),
            ("usub.sat", Bi::USubSat),
            ("uadd.sat", Bi::UAddSat),
            ("ssub.sat", Bi::SSubSat),
            ("sadd.sat", Bi::SAddSat),
            ("umin", Bi::UMin),
            ("umax", Bi::UMax),
            ("smin", Bi::SMin),
            ("smax", Bi::SMax),
            ("ucmp", Bi::UCmp),
            ("scmp", Bi::SCmp),
            ("ctlz", Bi::Ctlz),
            ("cttz", Bi::Cttz),
            ("ctpop", Bi::Ctpop),
            ("bswap", Bi::Bswap),
            ("bitreverse", Bi::Bitreverse),
            ("uadd.with.overflow", Bi::AddO(false)),
            ("sadd.with.overflow", Bi::AddO(true)),
            ("usub.with.overflow", Bi::SubO(false)),
            ("ssub.with.overflow", Bi::SubO(true)),
            ("umul.with.overflow", Bi::MulO(false)),
            ("smul.with.overflow", Bi::MulO(true)),
            ("fshl", Bi::Fshl),
            ("fshr", Bi::Fshr),
            ("abs.", Bi::Abs),
            ("fabs", Bi::Fabs),
            ("fptosi.sat", Bi::FtoiSat(true)),
            ("fptoui.sat", Bi::FtoiSat(false)),
            ("trunc.f", Bi::Ftrunc(0)),
            ("floor.f", Bi::Ftrunc(1)),
            ("ceil.f", Bi::Ftrunc(2)),
            ("round.f", Bi::Ftrunc(3)),
            ("roundeven.f", Bi::Ftrunc(4)),
            ("rint.f", Bi::Ftrunc(4)),
            ("nearbyint.f", Bi::Ftrunc(4)),
            ("minnum.f", Bi::Fmin(true)),
            ("maxnum.f", Bi::Fmin(false)),
            ("minimumnum.f", Bi::Fmin(true)),
            ("maximumnum.f", Bi::Fmin(false)),
            ("trap", Bi::Trap),
            ("x86.ssse3.pshuf.b", Bi::Pshufb),
            ("x86.sse2.psad.bw", Bi::Psad),
            ("x86.sse2.pmadd.wd", Bi::Pmadd),
            ("expect", Bi::Expect),
            ("vector.reduce.or", Bi::VReduceOr),
        ];
        for (p, b) in table {
            if st(p) {
                return *b;
            }
        }
    }
    Bi::Unsup
}

fn width(v: &Val) -> u16 {
    match v {
        Val::C(_, w) => *w,
        Val::S(e) => with(|a| a.w(*e)),
        Val::A(_) => 0,
    }
}
fn ex(v: &Val) -> E {
    match v {
        Val::C(c, w) => with(|a| a.k(*c, *w)),
        Val::S(e) => *e,
        Val::A(_) => panic!("aggregate as scalar"),
    }
}
fn vl(e: E) -> Val {
    with(|a| match a.cval(e) {
        Some(c) => Val::C(c, a.w(e)),
        None => Val::S(e),
    })
}
fn c64(x: u64) -> Val {
    Val::C(u128::from(x), 64)
}

pub fn nice(name: &str) -> String {
    // crude reading of a v0-mangled name: the identifiers in order
    let b = name.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    if !name.starts_with("_R") {
        return name.to_string();
    }
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let n: usize = name[i..j].parse().unwrap_or(0);
            let mut st = j;
            if st < b.len() && b[st] == b'_' {
                st += 1;
            }
            if n > 0 && st + n <= b.len() {
                let id = &name[st..st + n];
                out.push(id.to_string());
                i = st + n;
                continue;
            }
            i = j;
            continue;
        }
        if b[i] == b's' || b[i] == b'C' {
            // possible disambiguator "s<base62>_": skip conservatively
            let mut j = i + 1;
            if b[i] == b'C' && j < b.len() && b[j] == b's' {
                j += 1;
            }
            let st = j;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - st < 14 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && (j > st) {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl Exec {
    pub fn new(m: &'static Module, o: Opts, t0: Instant, deadline: Instant, found: &'static AtomicU64, seed: u32) -> Exec {
        let n = m.funcs.len();
        let mut bi = vec![None; n];
        for (i, f) in m.funcs.iter().enumerate() {
            bi[i] = Some(bi_of(f));
        }
        Exec {
            m,
            s: Solver::new(o.timeout_ms, seed),
            o,
            rep: Report::default(),
            gcache: HashMap::new(),
            bi,
            fn_seen: vec![false; n],
            blk_seen: HashMap::new(),
            work: vec![],
            t0,
            deadline,
            found,
            npaths: 0,
        }
    }

    pub fn start(&mut self, f: u32) {
        let mut st = State {
            frames: vec![],
            mem: BTreeMap::new(),
            next_heap: HEAP_BASE,
            next_stack: STACK_BASE,
            pc: vec![],
            eqs: Rc::new(HashMap::new()),
            rw: Rc::new(RefCell::new(HashMap::new())),
            model: Model::new(vec![]),
            nvars: 0,
            nins: 0,
            fds: vec![],
            files: vec![],
            obs: vec![],
            covers: BTreeSet::new(),
            heap_bytes: 0,
            max_request: 0,
            no_out: false,
            proven: 0,
            errno: 0,
            retval: None,
        };
        self.push_frame(&mut st, f, vec![], u32::MAX);
        self.work.push(st);
    }

    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, ret_dst: u32) {
        let body: &'static Body = unsafe { &*Rc::as_ptr(&self.m.body(f)) };
        self.fn_seen[f as usize] = true;
        let mut regs = vec![Val::C(0, 1); body.nslots as usize];
        for (p, a) in body.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.frames.push(Rc::new(Frame { f, body, regs, blk: 0, ip: 0, ret_dst, allocas: vec![] }));
        if self.m.funcs[f as usize].user {
            *self.blk_seen.entry((f, 0)).or_insert(0) += 1;
        }
    }

    // ---------- constraint handling ----------

    fn rewrite(&self, st: &State, e: E) -> E {
        if st.eqs.is_empty() {
            return e;
        }
        if let Some(&v) = st.eqs.get(&e) {
            return with(|a| {
                let w = a.w(e);
                a.k(v, w)
            });
        }
        if let Some(&r) = st.rw.borrow().get(&e) {
            return r;
        }
        let (op, w, aux, args) = with(|a| {
            let n = a.n(e);
            (n.op, n.w, n.aux, n.args.clone())
        });
        if matches!(op, Op::Const | Op::Var) {
            return e;
        }
        let mut na = Vec::with_capacity(args.len());
        let mut ch = false;
        for &x in args.iter() {
            let y = self.rewrite(st, x);
            ch |= y != x;
            na.push(y);
        }
        let mut r = if ch { with(|a| a.rebuild(op, w, aux, &na)) } else { e };
        if r != e {
            if let Some(&v) = st.eqs.get(&r) {
                r = with(|a| {
                    let w = a.w(r);
                    a.k(v, w)
                });
            }
        }
        st.rw.borrow_mut().insert(e, r);
        r
    }

    fn learn(&self, st: &mut State, e: E, v: u128) {
        let mut stack = vec![(e, v)];
        let mut ins = vec![];
        while let Some((e, v)) = stack.pop() {
            let (op, w, args) = with(|a| {
                let n = a.n(e);
                (n.op, n.w, n.args.clone())
            });
            if op == Op::Const {
                continue;
            }
            ins.push((e, v));
            let cv = |x: E| with(|a| a.cval(x));
            match op {
                Op::And if w == 1 && v == 1 => {
                    stack.push((args[0], 1));
                    stack.push((args[1], 1));
                }
                Op::Or if w == 1 && v == 0 => {
                    stack.push((args[0], 0));
                    stack.push((args[1], 0));
                }
                Op::Xor => {
                    if let Some(k) = cv(args[1]) {
                        stack.push((args[0], v ^ k));
                    }
                }
                Op::Eq if v == 1 => {
                    if let Some(k) = cv(args[1]) {
                        stack.push((args[0], k));
                    } else if let Some(k) = cv(args[0]) {
                        stack.push((args[1], k));
                    }
                }
                Op::Add => {
                    if let Some(k) = cv(args[1]) {
                        stack.push((args[0], v.wrapping_sub(k) & mask(w)));
                    } else if let Some(k) = cv(args[0]) {
                        stack.push((args[1], v.wrapping_sub(k) & mask(w)));
                    }
                }
                Op::Sub => {
                    if let Some(k) = cv(args[1]) {
                        stack.push((args[0], v.wrapping_add(k) & mask(w)));
                    } else if let Some(k) = cv(args[0]) {
                        stack.push((args[1], k.wrapping_sub(v) & mask(w)));
                    }
                }
                Op::Concat => {
                    let mut top = w;
                    for &p in args.iter() {
                        let pw = with(|a| a.w(p));
                        let lo = top - pw;
                        stack.push((p, (v >> lo) & mask(pw)));
                        top = lo;
                    }
                }
                Op::SExt => {
                    let iw = with(|a| a.w(args[0]));
                    stack.push((args[0], v & mask(iw)));
                }
                _ => {}
            }
        }
        let m = Rc::make_mut(&mut st.eqs);
        for (e, v) in ins {
            m.insert(e, v);
        }
        st.rw = Rc::new(RefCell::new(HashMap::new()));
    }

    fn constrain(&mut self, st: &mut State, cond: E, v: bool) {
        let c = if v { cond } else { with(|a| a.not1(cond)) };
        self.learn(st, cond, u128::from(v));
        st.pc.push(c);
        self.rep.max_pc = self.rep.max_pc.max(st.pc.len() as u64);
    }

    /// Is pc && extra satisfiable?  On Sat returns a full model.
    fn query(&mut self, st: &State, extra: E) -> Option<Option<Rc<Model>>> {
        if let Some(c) = with(|a| a.cval(extra)) {
            if c == 0 {
                return Some(None);
            }
        }
        let mut q = with(|a| {
            let mut mark = vec![false; st.nvars as usize + 1];
            for &v in a.n(extra).support.iter() {
                mark[v as usize] = true;
            }
            let mut used = vec![false; st.pc.len()];
            let mut q = vec![extra];
            loop {
                let mut ch = false;
                for (i, &c) in st.pc.iter().enumerate() {
                    if used[i] {
                        continue;
                    }
                    let s = &a.n(c).support;
                    if s.iter().any(|&v| mark[v as usize]) {
                        used[i] = true;
                        q.push(c);
                        for &v in s.iter() {
                            if !mark[v as usize] {
                                mark[v as usize] = true;
                                ch = true;
                            }
                        }
                    }
                }
                if !ch {
                    break;
                }
            }
            q
        });
        q.sort_unstable();
        q.dedup();
        match self.s.check(&q) {
            Res::Unsat => Some(None),
            Res::Unknown => None,
            Res::Sat(m) => {
                let mut b = st.model.bytes.clone();
                b.resize(st.nvars as usize, 0);
                for &(v, x) in m.iter() {
                    b[v as usize] = x;
                }
                Some(Some(Model::new(b)))
            }
        }
    }

    fn branch(&mut self, st: &mut State, cond: E) -> R<bool> {
        let c = self.rewrite(st, cond);
        if let Some(k) = with(|a| a.cval(c)) {
            return Ok(k == 1);
        }
        let v = st.model.eval(c) == 1;
        let other = if v { with(|a| a.not1(c)) } else { c };
        match self.query(st, other) {
            Some(None) => {
                self.learn(st, c, u128::from(v));
                Ok(v)
            }
            Some(Some(m)) => Err(Stop::Fork { cond: c, v, other: m }),
            None => {
                // undecided: keep the side the current model witnesses
                self.rep.unknown += 1;
                self.constrain(st, c, v);
                Ok(v)
            }
        }
    }

    fn conc(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::C(c, _) => Ok(*c),
            Val::S(e) => {
                let e = self.rewrite(st, *e);
                if let Some(k) = with(|a| a.cval(e)) {
                    return Ok(k);
                }
                let mv = st.model.eval(e);
                let q = with(|a| {
                    let w = a.w(e);
                    let k = a.k(mv, w);
                    a.eq(e, k)
                });
                if self.branch(st, q)? {
                    self.learn(st, e, mv);
                    Ok(mv)
                } else {
                    unsup("concretisation diverged")
                }
            }
            Val::A(_) => unsup("aggregate scalar"),
        }
    }
    fn conc64(&mut self, st: &mut State, v: &Val) -> R<u64> {
        Ok(self.conc(st, v)? as u64)
    }

    // ---------- memory ----------

    fn find(&mut self, st: &State, addr: u64) -> Option<Rc<Obj>> {
        if let Some((_, o)) = st.mem.range(..=addr).next_back() {
            if addr < o.base + o.size {
                return Some(o.clone());
            }
        }
        if (GLOBAL_BASE..FN_BASE).contains(&addr) {
            let m = self.m;
            if let Some((_, &g)) = m.by_addr.range(..=addr).next_back() {
                let gl = &m.globals[g as usize];
                if addr < gl.addr + gl.size {
                    let o = self.gcache.entry(g).or_insert_with(|| {
                        let d = m.global_data(g);
                        Rc::new(Obj {
                            base: gl.addr,
                            size: gl.size,
                            kind: Kind::Global,
                            ro: gl.constant,
                            data: (*d).clone(),
                            sym: vec![],
                            nsym: 0,
                        })
                    });
                    return Some(o.clone());
                }
            }
        }
        None
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> R<&'a mut Obj> {
        let hit = st.mem.range(..=addr).next_back().map(|(b, o)| (*b, addr < o.base + o.size));
        if let Some((b, true)) = hit {
            return Ok(Rc::make_mut(st.mem.get_mut(&b).unwrap()));
        }
        match self.find(st, addr) {
            Some(o) => {
                if o.ro {
                    return Err(Stop::End(End::Mem(format!("write to constant at {addr:#x}"))));
                }
                let b = o.base;
                st.mem.insert(b, o);
                Ok(Rc::make_mut(st.mem.get_mut(&b).unwrap()))
            }
            None => Err(Stop::End(End::Mem(format!("write to unmapped {addr:#x}")))),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind) -> u64 {
        let p = if kind == Kind::Stack { &mut st.next_stack } else { &mut st.next_heap };
        let al = align.max(16);
        let a = p.div_ceil(al) * al;
        *p = a + size + 32;
        st.mem.insert(a, Rc::new(Obj::new(a, size, kind)));
        a
    }

    /// Resolve an access of `n` bytes. Returns either a concrete address or the set of candidate offsets.
    fn resolve(&mut self, st: &mut State, addr: &Val, n: u64, write: bool) -> R<Tgt> {
        let e = match addr {
            Val::C(c, _) => return Ok(Tgt::C(*c as u64)),
            Val::S(e) => self.rewrite(st, *e),
            Val::A(_) => return unsup("aggregate address"),
        };
        if let Some(k) = with(|a| a.cval(e)) {
            return Ok(Tgt::C(k as u64));
        }
        let mv = st.model.eval(e) as u64;
        let Some(o) = self.find(st, mv) else {
            // the model's address is invalid: pin it down and let the access fail
            let a = self.conc64(st, &Val::S(e))?;
            return Ok(Tgt::C(a));
        };
        if o.size < n {
            let a = self.conc64(st, &Val::S(e))?;
            return Ok(Tgt::C(a));
        }
        // in bounds?
        let inb = with(|a| {
            let b = a.k(u128::from(o.base), 64);
            let off = a.sub(e, b);
            let lim = a.k(u128::from(o.size - n + 1), 64);
            a.ult(off, lim)
        });
        if !self.branch(st, inb)? {
            // model said in-bounds for the first byte but the access straddles the end
            let a = self.conc64(st, &Val::S(e))?;
            return Ok(Tgt::C(a));
        }
        let (cands, off) = with(|a| {
            let (sm, sr) = a.stride(e);
            let nd = a.n(e);
            let lo = nd.umin.max(u128::from(o.base)) as u64;
            let hi = nd.umax.min(u128::from(o.base + o.size - n)) as u64;
            let ones = nd.ones as u64;
            let mut v = vec![];
            if lo <= hi {
                let step = if sm == 0 { 1 } else { sm as u64 };
                let r = (sr % u128::from(step)) as u64;
                let mut x = lo;
                while x % step != r {
                    x += 1;
                }
                while x <= hi {
                    if x & !ones == 0 {
                        v.push(x - o.base);
                    }
                    if v.len() > 5000 {
                        break;
                    }
                    x += step;
                }
            }
            let b = a.k(u128::from(o.base), 64);
            (v, a.sub(e, b))
        });
        let lim = if write {
            self.o.ite_store
        } else if o.nsym == 0 {
            self.o.ite_load_ro
        } else {
            self.o.ite_load
        };
        if cands.len() as u64 > lim {
            let a = self.conc64(st, &Val::S(e))?;
            return Ok(Tgt::C(a));
        }
        Ok(Tgt::S(o, off, cands))
    }

    fn load_bytes(&mut self, st: &State, o: &Obj, off: u64, n: u64) -> Val {
        let off = off as usize;
        let n = n as usize;
        if o.all_conc(off, n) {
            let mut c = 0u128;
            for i in (0..n).rev() {
                c = (c << 8) | u128::from(o.data.get(off + i).copied().unwrap_or(0));
            }
            return Val::C(c, (n * 8) as u16);
        }
        let e = with(|a| {
            let mut parts = Vec::with_capacity(n);
            for i in (0..n).rev() {
                let x = match o.get(off + i) {
                    Ok(b) => a.k(u128::from(b), 8),
                    Err(e) => match st.eqs.get(&e) {
                        Some(&v) => a.k(v, 8),
                        None => e,
                    },
                };
                parts.push(x);
            }
            a.concat(&parts)
        });
        vl(e)
    }

    fn load_scalar(&mut self, st: &mut State, addr: &Val, w: u16) -> R<Val> {
        let n = u64::from(w).div_ceil(8);
        let v = match self.resolve(st, addr, n, false)? {
            Tgt::C(a) => {
                let Some(o) = self.find(st, a) else {
                    return Err(Stop::End(End::Mem(format!("read of unmapped {a:#x}"))));
                };
                if a + n > o.base + o.size {
                    return Err(Stop::End(End::Mem(format!("read of {n} bytes past object at {:#x}+{}", o.base, o.size))));
                }
                self.load_bytes(st, &o, a - o.base, n)
            }
            Tgt::S(o, off, c) => {
                let vals: Vec<(u64, E)> = c
                    .iter()
                    .map(|&x| {
                        let v = self.load_bytes(st, &o, x, n);
                        (x, ex(&v))
                    })
                    .collect();
                let e = with(|a| match fit_table(a, off, &vals, n) {
                    Some(e) => e,
                    None => ite_tree(a, off, &vals),
                });
                vl(e)
            }
        };
        if n * 8 != u64::from(w) {
            return Ok(self.trunc(&v, w));
        }
        Ok(v)
    }
    fn trunc(&self, v: &Val, w: u16) -> Val {
        match v {
            Val::C(c, _) => Val::C(c & mask(w), w),
            Val::S(e) => vl(with(|a| a.trunc(*e, w))),
            Val::A(_) => panic!(),
        }
    }
    fn zext(&self, v: &Val, w: u16) -> Val {
        match v {
            Val::C(c, _) => Val::C(*c, w),
            Val::S(e) => vl(with(|a| a.zext(*e, w))),
            Val::A(_) => panic!(),
        }
    }
    fn addr_add(&self, v: &Val, k: u64) -> Val {
        match v {
            Val::C(c, _) => Val::C((*c as u64).wrapping_add(k).into(), 64),
            Val::S(e) => vl(with(|a| {
                let kk = a.k(u128::from(k), 64);
                a.add(*e, kk)
            })),
            Val::A(_) => panic!(),
        }
    }

    fn load(&mut self, st: &mut State, t: &Ty, addr: &Val) -> R<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => self.load_scalar(st, addr, t.bits()),
            Ty::Vec(n, e) => {
                let eb = e.bits();
                if eb % 8 != 0 {
                    return unsup("bit vector load");
                }
                let mut v = vec![];
                for i in 0..*n {
                    let a = self.addr_add(addr, i * u64::from(eb / 8));
                    v.push(self.load_scalar(st, &a, eb)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..t.count() as u64 {
                    let a = self.addr_add(addr, t.field_off(i));
                    v.push(self.load(st, &t.field(i), &a)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup(format!("load {t:?}")),
        }
    }

    fn store_plan(&mut self, st: &mut State, v: &Val, addr: &Val) -> R<(Tgt, u64)> {
        let n = u64::from(width(v)).div_ceil(8);
        let t = self.resolve(st, addr, n, true)?;
        Ok((t, n))
    }
    fn store_scalar(&mut self, st: &mut State, v: &Val, addr: &Val) -> R<()> {
        let (t, n) = self.store_plan(st, v, addr)?;
        match t {
            Tgt::C(a) => {
                let o = self.obj_mut(st, a)?;
                if a + n > o.base + o.size {
                    return Err(Stop::End(End::Mem(format!("write of {n} bytes past object at {:#x}+{}", o.base, o.size))));
                }
                let off = (a - o.base) as usize;
                match v {
                    Val::C(c, _) => {
                        let b = c.to_le_bytes();
                        for i in 0..n as usize {
                            o.put(off + i, b[i]);
                        }
                    }
                    Val::S(e) => {
                        let parts = split(*e, n);
                        for (i, p) in parts.into_iter().enumerate() {
                            o.puts(off + i, p);
                        }
                    }
                    Val::A(_) => return unsup("aggregate store"),
                }
            }
            Tgt::S(ob, off, cands) => {
                let parts = split(ex(v), n);
                let base = ob.base;
                drop(ob);
                let o = self.obj_mut(st, base)?;
                for c in cands {
                    let sel = with(|a| {
                        let k = a.k(u128::from(c), 64);
                        a.eq(off, k)
                    });
                    for (i, &p) in parts.iter().enumerate() {
                        let i = c as usize + i;
                        let old = match o.get(i) {
                            Ok(b) => with(|a| a.k(u128::from(b), 8)),
                            Err(e) => e,
                        };
                        let nv = with(|a| a.ite(sel, p, old));
                        o.puts(i, nv);
                    }
                }
            }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, t: &Ty, v: &Val, addr: &Val) -> R<()> {
        match (t, v) {
            (Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..), Val::A(x)) => {
                // make the address concrete first: several element stores must not fork midway
                let a = if x.len() > 1 { c64(self.conc64(st, addr)?) } else { addr.clone() };
                for (i, y) in x.iter().enumerate() {
                    let off = match t {
                        Ty::Vec(_, e) => i as u64 * u64::from(e.bits() / 8),
                        _ => t.field_off(i as u64),
                    };
                    let b = self.addr_add(&a, off);
                    self.store(st, &t.field(i as u64), y, &b)?;
                }
                Ok(())
            }
            _ => self.store_scalar(st, v, addr),
        }
    }

    /// Size for an allocation: symbolic sizes get the capacity of their upper bound.
    fn alloc_size(&mut self, st: &mut State, v: &Val) -> R<u64> {
        if let Val::S(e) = v {
            let e = self.rewrite(st, *e);
            if st.max_request > 0 {
                let over = with(|a| {
                    let w = a.w(e);
                    let k = a.k(st.max_request.into(), w);
                    a.ult(k, e)
                });
                if self.branch(st, over)? {
                    return Err(Stop::End(End::Alloc(format!("allocation of more than {} bytes", st.max_request))));
                }
            }
            let m = with(|a| a.n(e).umax);
            if m <= u128::from(self.o.max_alloc) {
                return Ok(m as u64);
            }
            if with(|a| a.cval(e)).is_none() {
                // bound it with the path condition
                let top = self.o.max_alloc;
                let le = with(|a| {
                    let w = a.w(e);
                    let k = a.k(top.into(), w);
                    let t = a.ult(k, e);
                    a.not1(t)
                });
                if !self.branch(st, le)? {
                    return Err(Stop::End(End::Limit("allocation size".into())));
                }
                for k in [8, 16, 24] {
                    if 1u64 << k < top {
                        let gt = with(|a| {
                            let w = a.w(e);
                            let c = a.k(1 << k, w);
                            a.ult(c, e)
                        });
                        let gt = self.rewrite(st, gt);
                        if with(|a| a.cval(gt)) == Some(0) || st.model.eval(gt) == 0 && matches!(self.query(st, gt), Some(None)) {
                            return Ok(1 << k);
                        }
                    }
                }
                return Ok(top);
            }
        }
        self.conc64(st, v)
    }

    fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let Some(o) = self.find(st, a) else {
            return Err(Stop::End(End::Mem(format!("read of unmapped {a:#x}"))));
        };
        if a + n > o.base + o.size {
            return Err(Stop::End(End::Mem(format!("bulk read of {n} bytes past object at {:#x}+{}", o.base, o.size))));
        }
        let off = (a - o.base) as usize;
        Ok((off..off + n as usize)
            .map(|i| match o.get(i) {
                Ok(b) => (b, NOSYM),
                Err(e) => match st.eqs.get(&e) {
                    Some(&v) => (v as u8, NOSYM),
                    None => (0, e),
                },
            })
            .collect())
    }
    fn write_bytes(&mut self, st: &mut State, a: u64, d: &[(u8, E)]) -> R<()> {
        if d.is_empty() {
            return Ok(());
        }
        let o = self.obj_mut(st, a)?;
        if a + d.len() as u64 > o.base + o.size {
            return Err(Stop::End(End::Mem(format!("bulk write of {} bytes past object at {:#x}+{}", d.len(), o.base, o.size))));
        }
        let off = (a - o.base) as usize;
        for (i, &(b, e)) in d.iter().enumerate() {
            if e == NOSYM {
                o.put(off + i, b);
            } else {
                o.puts(off + i, e);
            }
        }
        Ok(())
    }

    // ---------- arithmetic ----------

    fn bin(&mut self, op: Bin, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y.iter()) {
                v.push(self.bin(op, width(p), p, q)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let m = mask(w);
        if let (Val::C(x, _), Val::C(y, _)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => {
                    return Err(Stop::End(End::Mem("division by zero".into())));
                }
                Bin::UDiv => x / y,
                Bin::URem => x % y,
                Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u128,
                Bin::SRem => sx(x, w).wrapping_rem(sx(y, w)) as u128,
                Bin::Shl => {
                    if y >= w.into() {
                        0
                    } else {
                        x << y
                    }
                }
                Bin::LShr => {
                    if y >= w.into() {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => (sx(x, w) >> y.min(u128::from(w) - 1)) as u128,
                _ => {
                    let o = match op {
                        Bin::FAdd => Op::FAdd,
                        Bin::FSub => Op::FSub,
                        Bin::FMul => Op::FMul,
                        Bin::FDiv => Op::FDiv,
                        _ => Op::FRem,
                    };
                    let (x, y) = (with(|a| a.k(x, w)), with(|a| a.k(y, w)));
                    return Ok(vl(with(|a| a.fbin(o, w, x, y))));
                }
            };
            return Ok(Val::C(r & m, w));
        }
        let (x, y) = (ex(a), ex(b));
        Ok(vl(with(|a| match op {
            Bin::Add => a.add(x, y),
            Bin::Sub => a.sub(x, y),
            Bin::Mul => a.mul(x, y),
            Bin::UDiv => a.udivrem(false, x, y),
            Bin::URem => a.udivrem(true, x, y),
            Bin::SDiv => a.sdivrem(false, x, y),
            Bin::SRem => a.sdivrem(true, x, y),
            Bin::And => a.and(x, y),
            Bin::Or => a.or(x, y),
            Bin::Xor => a.xor(x, y),
            Bin::Shl => a.shift(Op::Shl, x, y),
            Bin::LShr => a.shift(Op::LShr, x, y),
            Bin::AShr => a.shift(Op::AShr, x, y),
            Bin::FAdd => a.fbin(Op::FAdd, w, x, y),
            Bin::FSub => a.fbin(Op::FSub, w, x, y),
            Bin::FMul => a.fbin(Op::FMul, w, x, y),
            Bin::FDiv => a.fbin(Op::FDiv, w, x, y),
            Bin::FRem => a.fbin(Op::FRem, w, x, y),
        })))
    }

    fn icmp(&mut self, p: Pred, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            return Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p1, q)| self.icmp(p, p1, q)).collect()));
        }
        if let (Val::C(x, w), Val::C(y, _)) = (a, b) {
            let (x, y, w) = (*x, *y, *w);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
            };
            return Val::C(u128::from(r), 1);
        }
        let (x, y) = (ex(a), ex(b));
        vl(with(|a| match p {
            Pred::Eq => a.eq(x, y),
            Pred::Ne => {
                let q = a.eq(x, y);
                a.not1(q)
            }
            Pred::Ult => a.ult(x, y),
            Pred::Ugt => a.ult(y, x),
            Pred::Ule => {
                let q = a.ult(y, x);
                a.not1(q)
            }
            Pred::Uge => {
                let q = a.ult(x, y);
                a.not1(q)
            }
            Pred::Slt => a.slt(x, y),
            Pred::Sgt => a.slt(y, x),
            Pred::Sle => {
                let q = a.slt(y, x);
                a.not1(q)
            }
            Pred::Sge => {
                let q = a.slt(x, y);
                a.not1(q)
            }
        }))
    }

    fn select(&mut self, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(1, _) => a.clone(),
            Val::C(..) => b.clone(),
            Val::A(cs) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { panic!("vector select") };
                let v = (0..cs.len()).map(|i| self.select(&cs[i], &x[i], &y[i])).collect();
                Val::A(Rc::new(v))
            }
            Val::S(e) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let v = (0..x.len()).map(|i| self.select(c, &x[i], &y[i])).collect();
                    Val::A(Rc::new(v))
                }
                _ => {
                    let (x, y) = (ex(a), ex(b));
                    vl(with(|ar| ar.ite(*e, x, y)))
                }
            },
        }
    }

    /// vector/aggregate-of-scalars to one bit-string
    fn to_bits(&self, v: &Val) -> Val {
        match v {
            Val::A(x) => {
                let parts: Vec<Val> = x.iter().map(|y| self.to_bits(y)).collect();
                let w: u16 = parts.iter().map(width).sum();
                if w <= 128 && parts.iter().all(|p| matches!(p, Val::C(..))) {
                    let mut c = 0u128;
                    for p in parts.iter().rev() {
                        let Val::C(k, pw) = p else { unreachable!() };
                        c = if *pw >= 128 { *k } else { (c << pw) | k };
                    }
                    return Val::C(c, w);
                }
                let es: Vec<E> = parts.iter().rev().map(ex).collect();
                vl(with(|a| a.concat(&es)))
            }
            _ => v.clone(),
        }
    }
    fn bits_extract(&self, v: &Val, lo: u16, w: u16) -> Val {
        match v {
            Val::C(c, _) => Val::C((c >> lo) & mask(w), w),
            Val::S(e) => vl(with(|a| a.extract(*e, lo, w))),
            Val::A(_) => panic!(),
        }
    }
    fn bitcast(&self, v: &Val, from: &Ty, to: &Ty) -> R<Val> {
        if let (Ty::Vec(n, fe), Ty::Vec(m, te)) = (from, to) {
            // wide vectors: regroup elementwise
            let (fb, tb) = (fe.bits(), te.bits());
            let Val::A(x) = v else { return unsup("bitcast") };
            if n == m {
                return Ok(v.clone());
            }
            if fb < tb {
                let k = (tb / fb) as usize;
                let out = x.chunks(k).map(|c| self.to_bits(&Val::A(Rc::new(c.to_vec())))).collect();
                return Ok(Val::A(Rc::new(out)));
            }
            let k = fb / tb;
            let mut out = vec![];
            for e in x.iter() {
                for i in 0..k {
                    out.push(self.bits_extract(e, i * tb, tb));
                }
            }
            return Ok(Val::A(Rc::new(out)));
        }
        match to {
            Ty::Vec(n, te) => {
                let tb = te.bits();
                let mut out = vec![];
                for i in 0..*n {
                    out.push(self.bits_extract(v, i as u16 * tb, tb));
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => Ok(self.to_bits(v)),
        }
    }

    fn cast(&mut self, c: Cast, v: &Val, from: &Ty, to: &Ty) -> R<Val> {
        if let (Val::A(x), Ty::Vec(_, fe), Ty::Vec(_, te)) = (v, from, to) {
            if !matches!(c, Cast::BitCast | Cast::Freeze) {
                let mut out = vec![];
                for y in x.iter() {
                    out.push(self.cast(c, y, fe, te)?);
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        let w = to.bits();
        Ok(match c {
            Cast::Freeze => v.clone(),
            Cast::BitCast => return self.bitcast(v, from, to),
            Cast::ZExt => self.zext(v, w),
            Cast::Trunc => self.trunc(v, w),
            Cast::SExt => match v {
                Val::C(x, fw) => Val::C(sx(*x, *fw) as u128 & mask(w), w),
                Val::S(e) => vl(with(|a| a.sext(*e, w))),
                Val::A(_) => panic!(),
            },
            Cast::PtrToInt | Cast::IntToPtr => {
                let fw = width(v);
                if fw > w {
                    self.trunc(v, w)
                } else {
                    self.zext(v, w)
                }
            }
            Cast::FExt | Cast::FNarrow => {
                let x = ex(v);
                vl(with(|a| a.fop(if c == Cast::FExt { Op::FExt } else { Op::FNarrow }, w, 0, &[x])))
            }
            Cast::UToF | Cast::SToF => {
                let x = ex(v);
                vl(with(|a| a.fop(if c == Cast::UToF { Op::UToF } else { Op::SToF }, w, 0, &[x])))
            }
            Cast::FToU | Cast::FToS => {
                let x = ex(v);
                let x = with(|a| a.wide(x));
                vl(with(|a| a.fop(if c == Cast::FToU { Op::FToU } else { Op::FToS }, w, 0, &[x])))
            }
        })
    }

    // ---------- main loop ----------

    pub fn run_state(&mut self, mut st: State) {
        loop {
            let r = self.step_many(&mut st);
            match r {
                Ok(()) => {}
                Err(Stop::Frame) => {}
                Err(Stop::Fork { cond, v, other }) => {
                    self.rep.forks += 1;
                    let mut ch = st.clone();
                    ch.model = other;
                    self.constrain(&mut ch, cond, !v);
                    self.work.push(ch);
                    self.constrain(&mut st, cond, v);
                }
                Err(Stop::End(e)) => {
                    self.finish(st, e);
                    return;
                }
            }
            if self.late() {
                self.rep.unexplored += 1;
                self.rep.instrs += st.nins;
                return;
            }
        }
    }

    fn stack(&self, st: &State) -> String {
        let mut v: Vec<String> = vec![];
        for fr in st.frames.iter().rev() {
            v.push(nice(&self.m.funcs[fr.f as usize].name));
        }
        v.truncate(14);
        v.join(" < ")
    }

    fn finish(&mut self, st: State, e: End) {
        self.npaths += 1;
        self.rep.instrs += st.nins;
        self.rep.max_path_instrs = self.rep.max_path_instrs.max(st.nins);
        self.rep.covers.extend(st.covers.iter());
        let (k, viol) = match &e {
            End::Done => ("done", None),
            End::Panic(m, l) => ("panic", Some(("PANIC", m.clone(), l.clone()))),
            End::Abort(m) => ("abort", Some(("ABORT", m.clone(), String::new()))),
            End::Mem(m) => ("memory-error", Some(("MEM", m.clone(), String::new()))),
            End::Alloc(m) => ("allocation", Some(("ALLOC", m.clone(), String::new()))),
            End::Limit(m) => {
                *self.rep.limits.entry(m.clone()).or_insert(0) += 1;
                if m.starts_with("instructions") {
                    ("limit", Some(("HANG", m.clone(), String::new())))
                } else {
                    ("limit", None)
                }
            }
            End::Assume => ("assumed-away", None),
            End::Unsup(m) => {
                *self.rep.limits.entry(format!("unsupported: {m} [{}]", self.stack(&st))).or_insert(0) += 1;
                ("unsupported", None)
            }
        };
        *self.rep.paths.entry(k.into()).or_insert(0) += 1;
        let mut mb = st.model.bytes.clone();
        mb.resize(st.nvars as usize, 0);
        if let Some((kind, id, loc)) = viol {
            let stack = self.stack(&st);
            self.violation(kind, id, loc, stack, mb);
        } else if matches!(e, End::Done) {
            let k = self.rep.samples.len();
            if k < self.o.samples || (k < 4 * self.o.samples && self.npaths % 97 == 0) {
                let obs: Vec<u8> = st.obs.iter().map(|v| st.model.eval(ex(v)) as u8).collect();
                self.rep.samples.push((mb, obs));
            }
        }
    }

    /// Whether the time is over: others are not looked for long after a first violation.
    pub fn late(&self) -> bool {
        let now = Instant::now();
        let f = self.found.load(Relaxed);
        now > self.deadline || f > 0 && now.duration_since(self.t0).as_millis() as u64 > f + AFTER_MS
    }

    fn violation(&mut self, kind: &str, id: String, loc: String, stack: String, model: Vec<u8>) {
        if self.o.trace {
            eprintln!("VIOL {kind} {id} {loc} [{stack}] {model:02x?}");
        }
        let _ = self.found.compare_exchange(0, 1 + self.t0.elapsed().as_millis() as u64, Relaxed, Relaxed);
        let same = self.rep.viols.iter().filter(|v| v.kind == kind && v.id == id && v.loc == loc).count();
        if same < 3 && self.rep.viols.len() < 200 {
            self.rep.viols.push(Violation { kind: kind.into(), id, loc, stack, model });
        }
    }

    fn step_many(&mut self, st: &mut State) -> R<()> {
        // run until a fork, an end or a time slice
        for _ in 0..20_000 {
            let fr: &Frame = st.frames.last().unwrap();
            let body = fr.body;
            let ins = &body.blocks[fr.blk as usize].ins[fr.ip as usize];
            if st.nins >= self.o.max_ins {
                return Err(Stop::End(End::Limit(format!("instructions > {}", self.o.max_ins))));
            }
            match self.step(st, ins) {
                Ok(Some(v)) => {
                    st.nins += 1;
                    let f = Rc::make_mut(st.frames.last_mut().unwrap());
                    if ins.dst != u32::MAX {
                        f.regs[ins.dst as usize] = v;
                    }
                    f.ip += 1;
                }
                Ok(None) => st.nins += 1, // control transfer done by step
                Err(Stop::Frame) => st.nins += 1,
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.blk;
        let b = &fr.body.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut nv = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = &inc.iter().find(|(p, _)| *p == from).expect("phi pred").1;
                let v = match o {
                    Opd::L(i) => fr.regs[*i as usize].clone(),
                    Opd::C(v) => v.clone(),
                };
                nv.push((*d, v));
            }
            for (d, v) in nv {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = to;
        fr.ip = 0;
        let f = fr.f;
        if self.m.funcs[f as usize].user {
            *self.blk_seen.entry((f, to)).or_insert(0) += 1;
        }
    }

    fn step(&mut self, st: &mut State, ins: &'static Ins) -> R<Option<Val>> {
        fn ev(st: &State, o: &Opd) -> Val {
            match o {
                Opd::L(i) => st.frames[st.frames.len() - 1].regs[*i as usize].clone(),
                Opd::C(v) => v.clone(),
            }
        }
        Ok(Some(match &ins.k {
            K::Bin(op, t, a, b) => {
                let (x, y) = (ev(st, a), ev(st, b));
                if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                    if let Val::S(e) = &y {
                        let z = with(|a| {
                            let w = a.w(*e);
                            let k = a.k(0, w);
                            a.eq(*e, k)
                        });
                        if self.branch(st, z)? {
                            return Err(Stop::End(End::Mem("division by zero".into())));
                        }
                    }
                }
                let w = if let Ty::Vec(..) = t { 0 } else { t.bits() };
                self.bin(*op, w, &x, &y)?
            }
            K::FNeg(a) => {
                let x = ex(&ev(st, a));
                vl(with(|a| a.fun(Op::FNeg, 0, x)))
            }
            K::Icmp(p, _, a, b) => {
                let (x, y) = (ev(st, a), ev(st, b));
                self.icmp(*p, &x, &y)
            }
            K::Fcmp(p, a, b) => {
                let (x, y) = (ex(&ev(st, a)), ex(&ev(st, b)));
                vl(with(|a| {
                    let (x, y) = (a.wide(x), a.wide(y));
                    a.fop(Op::FCmp, 1, *p, &[x, y])
                }))
            }
            K::Cast(c, from, v, to) => {
                let x = ev(st, v);
                self.cast(*c, &x, from, to)?
            }
            K::Select(c, a, b) => {
                let mut cv = ev(st, c);
                if let Val::S(e) = cv {
                    cv = vl(self.rewrite(st, e));
                }
                let (x, y) = (ev(st, a), ev(st, b));
                self.select(&cv, &x, &y)
            }
            K::Alloca(t, n, al) => {
                let n = self.conc64(st, &ev(st, n))?;
                let a = self.alloc(st, t.size() * n, *al, Kind::Stack);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(a);
                c64(a)
            }
            K::Load(t, a) => {
                let a = ev(st, a);
                self.load(st, t, &a)?
            }
            K::Store(t, v, a) => {
                let (v, a) = (ev(st, v), ev(st, a));
                self.store(st, t, &v, &a)?;
                Val::C(0, 1)
            }
            K::Gep(base, off, dynamic) => {
                let mut b = ev(st, base);
                if *off != 0 {
                    b = self.addr_add(&b, *off);
                }
                for (i, sc) in dynamic {
                    let x = ev(st, i);
                    let w = width(&x);
                    b = match (&b, &x) {
                        (Val::C(bc, _), Val::C(xc, _)) => {
                            let k = (sx(*xc, w) as i64 as u64).wrapping_mul(*sc);
                            c64((*bc as u64).wrapping_add(k))
                        }
                        _ => {
                            let (be, xe) = (ex(&b), ex(&x));
                            vl(with(|a| {
                                let x64 = if w < 64 { a.sext(xe, 64) } else { xe };
                                let s = a.k(u128::from(*sc), 64);
                                let o = a.mul(x64, s);
                                a.add(be, o)
                            }))
                        }
                    };
                }
                b
            }
            K::ExtractValue(a, ix) => {
                let mut v = ev(st, a);
                for &i in ix {
                    let Val::A(x) = &v else { return unsup("extractvalue") };
                    let y = x[i as usize].clone();
                    v = y;
                }
                v
            }
            K::InsertValue(a, b, ix) => {
                let v = ev(st, a);
                let x = ev(st, b);
                insert(&v, x, ix)
            }
            K::ExtractElem(a, i) => {
                let v = ev(st, a);
                let i = self.conc64(st, &ev(st, i))?;
                let Val::A(x) = &v else { return unsup("extractelement") };
                x[i as usize].clone()
            }
            K::InsertElem(a, v, i) => {
                let a = ev(st, a);
                let v = ev(st, v);
                let i = self.conc64(st, &ev(st, i))?;
                insert(&a, v, &[i])
            }
            K::Shuffle(a, b, m) => {
                let (Val::A(x), Val::A(y)) = (ev(st, a), ev(st, b)) else { return unsup("shuffle") };
                let n = x.len();
                let v = m
                    .iter()
                    .map(|&i| {
                        let i = i as usize;
                        if i < n {
                            x[i].clone()
                        } else {
                            y[i - n].clone()
                        }
                    })
                    .collect();
                Val::A(Rc::new(v))
            }
            K::AtomicRmw(op, t, a, v) => {
                let a = ev(st, a);
                let a = c64(self.conc64(st, &a)?);
                let v = ev(st, v);
                let old = self.load(st, t, &a)?;
                let w = t.bits();
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Bin::Add, w, &old, &v)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &v)?,
                    "and" => self.bin(Bin::And, w, &old, &v)?,
                    "or" => self.bin(Bin::Or, w, &old, &v)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &v)?,
                    _ => return unsup(format!("atomicrmw {op}")),
                };
                self.store(st, t, &nv, &a)?;
                old
            }
            K::CmpXchg(t, a, e, n) => {
                let a = ev(st, a);
                let a = c64(self.conc64(st, &a)?);
                let (e, n) = (ev(st, e), ev(st, n));
                let old = self.load(st, t, &a)?;
                let eqv = self.icmp(Pred::Eq, &old, &e);
                let nv = self.select(&eqv, &n, &old);
                self.store(st, t, &nv, &a)?;
                Val::A(Rc::new(vec![old, eqv]))
            }
            K::Fence => Val::C(0, 1),
            K::Br(b) => {
                self.jump(st, *b);
                return Ok(None);
            }
            K::CondBr(c, a, b) => {
                let v = match ev(st, c) {
                    Val::C(x, _) => x == 1,
                    Val::S(e) => self.branch(st, e)?,
                    Val::A(_) => return unsup("vector branch"),
                };
                self.jump(st, if v { *a } else { *b });
                return Ok(None);
            }
            K::Switch(c, d, cases) => {
                let t = match ev(st, c) {
                    Val::C(x, _) => cases.iter().find(|(k, _)| *k == x).map_or(*d, |x| x.1),
                    Val::S(e) => self.switch(st, e, *d, cases)?,
                    Val::A(_) => return unsup("vector switch"),
                };
                self.jump(st, t);
                return Ok(None);
            }
            K::Ret(v) => {
                let v = v.as_ref().map(|x| ev(st, x));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(a);
                }
                let Some(top) = st.frames.last_mut() else {
                    st.retval = v;
                    st.frames.push(fr);
                    return Err(Stop::End(End::Done));
                };
                let top = Rc::make_mut(top);
                if fr.ret_dst != u32::MAX {
                    if let Some(v) = v {
                        top.regs[fr.ret_dst as usize] = v;
                    }
                }
                top.ip += 1;
                return Ok(None);
            }
            K::Unreachable => return Err(Stop::End(End::Mem("unreachable executed".into()))),
            K::Call { callee, args, ret } => {
                let f = match callee {
                    Callee::Asm => return Ok(Some(zero_of(ret))),
                    Callee::Fn(f) => *f,
                    Callee::Ptr(o) => {
                        let p = ev(st, o);
                        let a = self.conc64(st, &p)?;
                        match self.m.fn_at(a) {
                            Some(f) => f,
                            None => return Err(Stop::End(End::Mem(format!("call to {a:#x}")))),
                        }
                    }
                };
                let fun = &self.m.funcs[f as usize];
                if fun.panicfn {
                    let av: Vec<Val> = args.iter().map(|o| ev(st, o)).collect();
                    let (msg, loc) = self.panic_info(st, &av, fun);
                    return Err(Stop::End(End::Panic(msg, loc)));
                }
                let b = self.bi[f as usize].unwrap();
                let av: Vec<Val> = args.iter().map(|o| ev(st, o)).collect();
                if b == Bi::Defined {
                    if st.frames.len() >= self.o.max_depth {
                        return Err(Stop::End(End::Limit("call depth".into())));
                    }
                    self.push_frame(st, f, av, ins.dst);
                    return Ok(None);
                }
                let r = self.builtin(st, b, fun, av, ret)?;
                r
            }
        }))
    }

    fn switch(&mut self, st: &mut State, e: E, d: u32, cases: &[(u128, u32)]) -> R<u32> {
        let e = self.rewrite(st, e);
        if let Some(x) = with(|a| a.cval(e)) {
            return Ok(cases.iter().find(|(k, _)| *k == x).map_or(d, |x| x.1));
        }
        // group by target, model's target first
        let mv = st.model.eval(e);
        let tgt = cases.iter().find(|(k, _)| *k == mv).map_or(d, |x| x.1);
        let cond = with(|a| {
            let w = a.w(e);
            let mut r = a.k(0, 1);
            for (k, t) in cases {
                if (*t == tgt) != (tgt == d) {
                    let kk = a.k(*k, w);
                    let q = a.eq(e, kk);
                    r = a.or(r, q);
                } else if *t == tgt {
                    // target shared with the default: cases to it are not excluded below
                }
            }
            if tgt == d {
                // default: none of the cases leading elsewhere
                let mut n = a.k(1, 1);
                for (k, t) in cases {
                    if *t != d {
                        let kk = a.k(*k, w);
                        let q = a.eq(e, kk);
                        let q = a.not1(q);
                        n = a.and(n, q);
                    }
                }
                n
            } else {
                r
            }
        });
        if self.branch(st, cond)? {
            return Ok(tgt);
        }
        unsup("switch diverged")
    }

    fn panic_info(&mut self, st: &State, args: &[Val], f: &Func) -> (String, String) {
        let mut loc = String::new();
        for a in args {
            let Val::C(p, 64) = a else { continue };
            let p = *p as u64;
            let Ok(b) = self.read_bytes(st, p, 24) else { continue };
            if b.iter().any(|x| x.1 != NOSYM) {
                continue;
            }
            let b: Vec<u8> = b.iter().map(|x| x.0).collect();
            let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
            let (fp, fl) = (g(0), g(8));
            let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
            if fl == 0 || fl > 300 {
                continue;
            }
            if let Ok(s) = self.read_bytes(st, fp, fl) {
                let s: Vec<u8> = s.iter().map(|x| x.0).collect();
                let s = String::from_utf8_lossy(&s).into_owned();
                if s.contains(".rs") {
                    loc = format!("{s}:{line}");
                }
            }
        }
        (nice(&f.name), loc)
    }

    fn builtin(&mut self, st: &mut State, b: Bi, fun: &Func, av: Vec<Val>, ret: &Ty) -> R<Val> {
        let unit = Val::C(0, 1);
        let w = if av.is_empty() { 0 } else { width(&av[0]) };
        Ok(match b {
            Bi::Nop | Bi::Assume => unit,
            Bi::Expect | Bi::Threadlocal => av[0].clone(),
            Bi::IsConst => Val::C(u128::from(matches!(av[0], Val::C(..))), 1),
            Bi::SymIsEngine => Val::C(1, ret.bits()),
            Bi::SymBytes => {
                let p = self.conc64(st, &av[0])?;
                let n = self.conc64(st, &av[1])?;
                let d: Vec<(u8, E)> = (0..n).map(|i| (0, with(|a| a.var(st.nvars + i as u32)))).collect();
                self.write_bytes(st, p, &d)?;
                st.nvars += n as u32;
                unit
            }
            Bi::SymAssume => {
                let e = ex(&av[0]);
                let e = if with(|a| a.w(e)) == 1 { e } else { with(|a| a.extract(e, 0, 1)) };
                let e = self.rewrite(st, e);
                if let Some(k) = with(|a| a.cval(e)) {
                    if k == 0 {
                        return Err(Stop::End(End::Assume));
                    }
                    return Ok(unit);
                }
                if st.model.eval(e) != 1 {
                    match self.query(st, e) {
                        Some(Some(m)) => st.model = m,
                        Some(None) => return Err(Stop::End(End::Assume)),
                        None => {
                            self.rep.unknown += 1;
                            return Err(Stop::End(End::Limit("assumption undecided".into())));
                        }
                    }
                }
                self.constrain(st, e, true);
                unit
            }
            Bi::SymAssert => {
                let e = ex(&av[0]);
                let e = if with(|a| a.w(e)) == 1 { e } else { with(|a| a.extract(e, 0, 1)) };
                let e = self.rewrite(st, e);
                let id = self.conc64(st, &av[1])? as u32;
                self.rep.assert_ids.insert(id);
                let k = with(|a| a.cval(e));
                if k == Some(1) {
                    self.rep.asserts += 1;
                    self.rep.asserts_trivial += 1;
                    return Ok(unit);
                }
                let ne = with(|a| a.not1(e));
                let bad = if k == Some(0) {
                    Some(Some(st.model.clone()))
                } else if st.model.eval(ne) == 1 {
                    Some(Some(st.model.clone()))
                } else {
                    self.query(st, ne)
                };
                self.rep.asserts += 1;
                match bad {
                    None => {
                        self.rep.unknown += 1;
                        *self.rep.limits.entry(format!("assertion {id} undecided")).or_insert(0) += 1;
                        self.constrain(st, e, true);
                    }
                    Some(None) => self.learn(st, e, 1),
                    Some(Some(m)) => {
                        let mut mb = m.bytes.clone();
                        mb.resize(st.nvars as usize, 0);
                        let stack = self.stack(st);
                        self.violation("ASSERT", id.to_string(), String::new(), stack, mb);
                        // continue only where it holds
                        match if k == Some(0) { Some(None) } else { self.query(st, e) } {
                            Some(Some(m2)) => {
                                st.model = m2;
                                self.constrain(st, e, true);
                            }
                            _ => return Err(Stop::End(End::Assume)),
                        }
                    }
                }
                unit
            }
            Bi::SymCover => {
                let id = self.conc64(st, &av[0])? as u32;
                st.covers.insert(id);
                self.rep.covers.insert(id);
                unit
            }
            Bi::SymObserve => {
                let p = self.conc64(st, &av[0])?;
                let n = self.conc64(st, &av[1])?;
                for (b, e) in self.read_bytes(st, p, n)? {
                    st.obs.push(if e == NOSYM { Val::C(b.into(), 8) } else { Val::S(e) });
                }
                unit
            }
            Bi::SymConcretize => {
                let v = self.conc(st, &av[0])?;
                Val::C(v, w)
            }
            Bi::SymFile => {
                // (data, n, name, namelen, out, outcap) -> path length
                let a: Vec<u64> = av.iter().map(|v| self.conc64(st, v)).collect::<R<Vec<_>>>()?;
                let d = self.read_bytes(st, a[0], a[1])?;
                let nm = self.read_bytes(st, a[2], a[3])?;
                let mut path = b"/sym/".to_vec();
                path.extend(nm.iter().map(|x| x.0));
                if path.len() as u64 > a[5] {
                    return unsup("sym_file path");
                }
                let pb: Vec<(u8, E)> = path.iter().map(|&b| (b, NOSYM)).collect();
                self.write_bytes(st, a[4], &pb)?;
                st.files.push(SymFile { path: path.clone(), kind: Node::File, data: Rc::new(d) });
                c64(path.len() as u64)
            }
            Bi::SymDir => {
                // (out, cap) -> length of the scratch folder's path
                let p = self.conc64(st, &av[0])?;
                let pb: Vec<(u8, E)> = b"/sym".iter().map(|&b| (b, NOSYM)).collect();
                self.write_bytes(st, p, &pb)?;
                c64(4)
            }
            Bi::SymFull => {
                let (p, n) = (self.conc64(st, &av[0])?, self.conc64(st, &av[1])?);
                let path = self.read_bytes(st, p, n)?.iter().map(|x| x.0).collect();
                st.files.push(SymFile { path, kind: Node::Full, data: Rc::new(vec![]) });
                Val::C(0, ret.bits().max(1))
            }
            Bi::SymNodes => c64(st.files.iter().filter(|f| f.kind != Node::Gone).count() as u64),
            Bi::SymNoOut => {
                st.no_out = true;
                Val::C(0, ret.bits().max(1))
            }
            Bi::SymMaxRequest => {
                st.max_request = self.conc64(st, &av[0])?;
                Val::C(0, ret.bits().max(1))
            }
            Bi::Malloc | Bi::Calloc | Bi::Memalign => {
                let (sz, al) = match b {
                    Bi::Malloc => (self.alloc_size(st, &av[0])?, 16),
                    Bi::Calloc => {
                        let (a, c) = (self.alloc_size(st, &av[0])?, self.alloc_size(st, &av[1])?);
                        (a.saturating_mul(c), 16)
                    }
                    _ => {
                        let (a, c) = (self.conc64(st, &av[1])?, self.alloc_size(st, &av[2])?);
                        (c, a)
                    }
                };
                if st.max_request > 0 && sz > st.max_request && matches!(av[0], Val::C(..)) {
                    return Err(Stop::End(End::Alloc(format!("allocation of {sz} bytes"))));
                }
                if sz > self.o.max_alloc || st.heap_bytes + sz > 8 * self.o.max_alloc {
                    return Err(Stop::End(End::Limit("allocation size".into())));
                }
                st.heap_bytes += sz;
                let p = self.alloc(st, sz, al, Kind::Heap);
                if b == Bi::Memalign {
                    self.store_scalar(st, &c64(p), &av[0])?;
                    Val::C(0, 32)
                } else {
                    c64(p)
                }
            }
            Bi::Realloc => {
                let p = self.conc64(st, &av[0])?;
                let sz = self.alloc_size(st, &av[1])?;
                if st.max_request > 0 && sz > st.max_request && matches!(av[1], Val::C(..)) {
                    return Err(Stop::End(End::Alloc(format!("allocation of {sz} bytes"))));
                }
                if sz > self.o.max_alloc {
                    return Err(Stop::End(End::Limit("allocation size".into())));
                }
                let old = st.mem.get(&p).cloned();
                let Some(old) = old else { return Err(Stop::End(End::Mem("realloc of non-heap".into()))) };
                st.heap_bytes += sz;
                let q = self.alloc(st, sz, 16, Kind::Heap);
                let mut o = (*old).clone();
                o.base = q;
                o.size = sz;
                o.data.truncate(sz as usize);
                o.sym.truncate(sz as usize);
                o.nsym = o.sym.iter().filter(|&&e| e != NOSYM).count() as u32;
                st.mem.insert(q, Rc::new(o));
                st.mem.remove(&p);
                st.heap_bytes -= old.size;
                c64(q)
            }
            Bi::Free => {
                let p = self.conc64(st, &av[0])?;
                if p != 0 {
                    match st.mem.get(&p) {
                        Some(o) if o.kind == Kind::Heap => {
                            st.heap_bytes = st.heap_bytes.saturating_sub(o.size);
                            st.mem.remove(&p);
                        }
                        _ => return Err(Stop::End(End::Mem(format!("free of {p:#x}")))),
                    }
                }
                unit
            }
            Bi::Memcpy => {
                let n = self.conc64(st, &av[2])?;
                if n == 0 {
                    return Ok(av[0].clone());
                }
                let d = self.conc64(st, &av[0])?;
                // symbolic source: per-byte ITE when small
                let data = match &av[1] {
                    Val::C(s, _) => self.read_bytes(st, *s as u64, n)?,
                    v => match self.resolve(st, v, n, false)? {
                        Tgt::C(s) => self.read_bytes(st, s, n)?,
                        Tgt::S(o, off, cands) => {
                            let mut out = vec![];
                            for i in 0..n {
                                let vals: Vec<(u64, E)> = cands
                                    .iter()
                                    .map(|&c| {
                                        let v = self.load_bytes(st, &o, c + i, 1);
                                        (c, ex(&v))
                                    })
                                    .collect();
                                let e = with(|a| ite_tree(a, off, &vals));
                                out.push(match with(|a| a.cval(e)) {
                                    Some(c) => (c as u8, NOSYM),
                                    None => (0, e),
                                });
                            }
                            out
                        }
                    },
                };
                self.write_bytes(st, d, &data)?;
                av[0].clone()
            }
            Bi::Memset => {
                let n = self.conc64(st, &av[2])?;
                if n == 0 {
                    return Ok(av[0].clone());
                }
                let d = self.conc64(st, &av[0])?;
                let v = self.trunc(&av[1], 8);
                let one = match v {
                    Val::C(c, _) => (c as u8, NOSYM),
                    v => (0, ex(&v)),
                };
                let data = vec![one; n as usize];
                self.write_bytes(st, d, &data)?;
                av[0].clone()
            }
            Bi::Bcmp | Bi::Memcmp => {
                let n = self.conc64(st, &av[2])?;
                if n == 0 {
                    return Ok(Val::C(0, 32));
                }
                let (p, q) = (self.conc64(st, &av[0])?, self.conc64(st, &av[1])?);
                let (x, y) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?);
                let be = |a: &mut Arena, x: &(u8, E)| if x.1 == NOSYM { a.k(x.0.into(), 8) } else { x.1 };
                let e = with(|a| {
                    if b == Bi::Bcmp {
                        let mut r = a.k(1, 1);
                        for (p, q) in x.iter().zip(y.iter()) {
                            let (p, q) = (be(a, p), be(a, q));
                            let t = a.eq(p, q);
                            r = a.and(r, t);
                        }
                        let nr = a.not1(r);
                        a.zext(nr, 32)
                    } else {
                        let mut r = a.k(0, 32);
                        let (lt, gt) = (a.k(0xffff_ffff, 32), a.k(1, 32));
                        for (p, q) in x.iter().zip(y.iter()).rev() {
                            let (p, q) = (be(a, p), be(a, q));
                            let l = a.ult(p, q);
                            let g = a.ult(q, p);
                            let t = a.ite(g, gt, r);
                            r = a.ite(l, lt, t);
                        }
                        r
                    }
                });
                vl(e)
            }
            Bi::Memchr => {
                let (p, n) = (self.conc64(st, &av[0])?, self.conc64(st, &av[2])?);
                let needle = self.trunc(&av[1], 8);
                for (i, (b, e)) in self.read_bytes(st, p, n)?.into_iter().enumerate() {
                    let x = if e == NOSYM { Val::C(b.into(), 8) } else { Val::S(e) };
                    let c = self.icmp(Pred::Eq, &x, &needle);
                    if self.branch(st, ex(&c))? {
                        return Ok(c64(p + i as u64));
                    }
                }
                c64(0)
            }
            Bi::Strlen => {
                let p = self.conc64(st, &av[0])?;
                let mut n = 0;
                loop {
                    let v = self.load_scalar(st, &c64(p + n), 8)?;
                    let c = self.icmp(Pred::Eq, &v, &Val::C(0, 8));
                    if self.branch(st, ex(&c))? {
                        break;
                    }
                    n += 1;
                }
                c64(n)
            }
            Bi::Ret0 => Val::C(0, ret.bits().max(1)),
            Bi::RetM1 => {
                self.set_errno(st, 2)?;
                Val::C(mask(ret.bits()), ret.bits())
            }
            Bi::USubSat | Bi::UAddSat | Bi::SSubSat | Bi::SAddSat => {
                if let (Val::A(x), Val::A(y)) = (&av[0], &av[1]) {
                    let mut o = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        o.push(self.builtin(st, b, fun, vec![p.clone(), q.clone()], ret)?);
                    }
                    return Ok(Val::A(Rc::new(o)));
                }
                let (x, y) = (ex(&av[0]), ex(&av[1]));
                vl(with(|a| match b {
                    Bi::USubSat => {
                        let l = a.ult(x, y);
                        let d = a.sub(x, y);
                        let z = a.k(0, w);
                        a.ite(l, z, d)
                    }
                    Bi::UAddSat => {
                        let s = a.add(x, y);
                        let l = a.ult(s, x);
                        let m = a.k(mask(w), w);
                        a.ite(l, m, s)
                    }
                    _ => {
                        let (x1, y1) = (a.sext(x, w + 1), a.sext(y, w + 1));
                        let s = if b == Bi::SAddSat { a.add(x1, y1) } else { a.sub(x1, y1) };
                        let mx = a.k(mask(w - 1), w + 1);
                        let mn = a.k(mask(w + 1) ^ mask(w - 1), w + 1);
                        let gt = a.slt(mx, s);
                        let lt = a.slt(s, mn);
                        let t = a.ite(gt, mx, s);
                        let t = a.ite(lt, mn, t);
                        a.trunc(t, w)
                    }
                }))
            }
            Bi::UMin | Bi::UMax | Bi::SMin | Bi::SMax => {
                if let (Val::A(x), Val::A(y)) = (&av[0], &av[1]) {
                    let mut o = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        o.push(self.builtin(st, b, fun, vec![p.clone(), q.clone()], ret)?);
                    }
                    return Ok(Val::A(Rc::new(o)));
                }
                let p = match b {
                    Bi::UMin => Pred::Ult,
                    Bi::UMax => Pred::Ugt,
                    Bi::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, &av[0], &av[1]);
                self.select(&c, &av[0], &av[1])
            }
            Bi::UCmp | Bi::SCmp => {
                let (lt, gt) = if b == Bi::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, &av[0], &av[1]);
                let g = self.icmp(gt, &av[0], &av[1]);
                let rw = ret.bits();
                let t = self.select(&g, &Val::C(1, rw), &Val::C(0, rw));
                self.select(&l, &Val::C(mask(rw), rw), &t)
            }
            Bi::Ctlz | Bi::Cttz => {
                let x = ex(&av[0]);
                vl(with(|a| {
                    let mut r = a.k(w.into(), w);
                    let it: Vec<u16> = if b == Bi::Ctlz { (0..w).collect() } else { (0..w).rev().collect() };
                    for i in it {
                        let bit = a.extract(x, i, 1);
                        let k = a.k(u128::from(if b == Bi::Ctlz { w - 1 - i } else { i }), w);
                        r = a.ite(bit, k, r);
                    }
                    r
                }))
            }
            Bi::Ctpop => {
                let x = ex(&av[0]);
                vl(with(|a| {
                    let mut r = a.k(0, w);
                    for i in 0..w {
                        let bit = a.extract(x, i, 1);
                        let z = a.zext(bit, w);
                        r = a.add(r, z);
                    }
                    r
                }))
            }
            Bi::Bswap => {
                let x = ex(&av[0]);
                vl(with(|a| {
                    let p: Vec<E> = (0..w / 8).map(|i| a.extract(x, i * 8, 8)).collect();
                    a.concat(&p)
                }))
            }
            Bi::Bitreverse => {
                let x = ex(&av[0]);
                vl(with(|a| {
                    let p: Vec<E> = (0..w).map(|i| a.extract(x, i, 1)).collect();
                    a.concat(&p)
                }))
            }
            Bi::AddO(s) | Bi::SubO(s) | Bi::MulO(s) => {
                let op = match b {
                    Bi::AddO(_) => Bin::Add,
                    Bi::SubO(_) => Bin::Sub,
                    _ => Bin::Mul,
                };
                let ww = if op == Bin::Mul { 2 * w } else { w + 1 };
                if ww > 128 {
                    if let (Val::C(x, _), Val::C(y, _)) = (&av[0], &av[1]) {
                        let _ = (x, y);
                    } else {
                        return unsup("wide overflow op");
                    }
                }
                let (x, y) = (ex(&av[0]), ex(&av[1]));
                let (r, o) = with(|a| {
                    let (x1, y1) = if s { (a.sext(x, ww), a.sext(y, ww)) } else { (a.zext(x, ww), a.zext(y, ww)) };
                    let z = match op {
                        Bin::Add => a.add(x1, y1),
                        Bin::Sub => a.sub(x1, y1),
                        _ => a.mul(x1, y1),
                    };
                    let r = a.trunc(z, w);
                    let back = if s { a.sext(r, ww) } else { a.zext(r, ww) };
                    let q = a.eq(back, z);
                    (r, a.not1(q))
                });
                Val::A(Rc::new(vec![vl(r), vl(o)]))
            }
            Bi::Fshl | Bi::Fshr => {
                let s = self.conc(st, &av[2])? % u128::from(w);
                let s = s as u16;
                let (x, y) = (ex(&av[0]), ex(&av[1]));
                vl(with(|a| {
                    if b == Bi::Fshl {
                        if s == 0 {
                            x
                        } else {
                            let h = a.extract(x, 0, w - s);
                            let l = a.extract(y, w - s, s);
                            a.concat(&[h, l])
                        }
                    } else if s == 0 {
                        y
                    } else {
                        let h = a.extract(x, 0, s);
                        let l = a.extract(y, s, w - s);
                        a.concat(&[h, l])
                    }
                }))
            }
            Bi::Abs => {
                let x = ex(&av[0]);
                vl(with(|a| {
                    let z = a.k(0, w);
                    let n = a.sub(z, x);
                    let s = a.slt(x, z);
                    a.ite(s, n, x)
                }))
            }
            Bi::Fabs => {
                let x = ex(&av[0]);
                vl(with(|a| a.fun(Op::FAbs, 0, x)))
            }
            Bi::Ftrunc(m) => {
                let x = ex(&av[0]);
                vl(with(|a| a.fun(Op::FTrunc, m, x)))
            }
            Bi::Fmin(min) => {
                let (x, y) = (ex(&av[0]), ex(&av[1]));
                vl(with(|a| {
                    let (p, q) = (a.wide(x), a.wide(y));
                    let c = a.fop(Op::FCmp, 1, FP_UNO | if min { FP_LT } else { FP_GT }, &[p, q]);
                    let nx = a.fop(Op::FCmp, 1, FP_UNO, &[p, p]);
                    // the other one when one is not a number
                    let r = a.ite(c, x, y);
                    a.ite(nx, y, r)
                }))
            }
            Bi::FtoiSat(s) => {
                let x = ex(&av[0]);
                let x = with(|a| a.wide(x));
                let rw = ret.bits();
                vl(with(|a| a.fop(if s { Op::FToS } else { Op::FToU }, rw, 0, &[x])))
            }
            Bi::VReduceOr => {
                let Val::A(x) = &av[0] else { return unsup("reduce") };
                let mut r = x[0].clone();
                for y in x[1..].iter() {
                    r = self.bin(Bin::Or, width(y), &r, y)?;
                }
                r
            }
            Bi::Psad => {
                let (Val::A(x), Val::A(y)) = (&av[0], &av[1]) else { return unsup("psad") };
                let (x, y): (Vec<E>, Vec<E>) = (x.iter().map(ex).collect(), y.iter().map(ex).collect());
                let o = (0..2).map(|h| {
                    vl(with(|a| {
                        let mut r = a.k(0, 64);
                        for i in 8 * h..8 * h + 8 {
                            let (p, q) = (x[i], y[i]);
                            let (c, d, e) = (a.ult(p, q), a.sub(q, p), a.sub(p, q));
                            let t = a.ite(c, d, e);
                            let t = a.zext(t, 64);
                            r = a.add(r, t);
                        }
                        r
                    }))
                });
                Val::A(Rc::new(o.collect()))
            }
            Bi::Pmadd => {
                let (Val::A(x), Val::A(y)) = (&av[0], &av[1]) else { return unsup("pmadd") };
                let (x, y): (Vec<E>, Vec<E>) = (x.iter().map(ex).collect(), y.iter().map(ex).collect());
                let o = (0..4).map(|h| {
                    vl(with(|a| {
                        let mut r = a.k(0, 32);
                        for i in 2 * h..2 * h + 2 {
                            let (p, q) = (x[i], y[i]);
                            let (p, q) = (a.sext(p, 32), a.sext(q, 32));
                            let t = a.mul(p, q);
                            r = a.add(r, t);
                        }
                        r
                    }))
                });
                Val::A(Rc::new(o.collect()))
            }
            Bi::Pshufb => return unsup("pshufb"),
            Bi::Trap | Bi::Abort => return Err(Stop::End(End::Abort(fun.name.clone()))),
            Bi::Open => {
                let path = self.path(st, &av[0])?;
                let fl = self.conc64(st, &av[1])?;
                let (acc, creat, excl, trunc, append) = (fl & 3, fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0);
                let i = match st.lookup(&path) {
                    Err(e) => return self.fail(st, e, 32),
                    Ok(Some(_)) if creat && excl => return self.fail(st, 17, 32),
                    Ok(Some(usize::MAX)) => return self.fail(st, 21, 32),
                    Ok(Some(i)) if st.files[i].kind == Node::Dir && (acc != 0 || creat) => return self.fail(st, 21, 32),
                    Ok(Some(i)) => i,
                    Ok(None) if creat => {
                        st.files.push(SymFile { path, kind: Node::File, data: Rc::new(vec![]) });
                        st.files.len() - 1
                    }
                    Ok(None) => return self.fail(st, 2, 32),
                };
                if trunc && acc != 0 {
                    st.files[i].data = Rc::new(vec![]);
                }
                st.fds.push(Fd { file: i, pos: 0, open: true, acc: acc as u8, append });
                Val::C(st.fds.len() as u128 + 9, 32)
            }
            Bi::Stat => {
                let path = self.path(st, &av[0])?;
                let p = self.conc64(st, &av[1])?;
                let (mode, len) = match st.stat(&path) {
                    Ok(x) => x,
                    Err(e) => return self.fail(st, e, 32),
                };
                let mut b = vec![0u8; 144];
                b[24..28].copy_from_slice(&mode.to_le_bytes());
                b[48..56].copy_from_slice(&len.to_le_bytes());
                let d: Vec<(u8, E)> = b.into_iter().map(|x| (x, NOSYM)).collect();
                self.write_bytes(st, p, &d)?;
                Val::C(0, 32)
            }
            Bi::Mkdir => {
                let path = self.path(st, &av[0])?;
                match st.lookup(&path) {
                    Err(e) => return self.fail(st, e, 32),
                    Ok(Some(_)) => return self.fail(st, 17, 32),
                    Ok(None) => st.files.push(SymFile { path, kind: Node::Dir, data: Rc::new(vec![]) }),
                }
                Val::C(0, 32)
            }
            Bi::Unlink => {
                let path = self.path(st, &av[0])?;
                match st.lookup(&path) {
                    Err(e) => return self.fail(st, e, 32),
                    Ok(None) => return self.fail(st, 2, 32),
                    Ok(Some(i)) if i == usize::MAX || st.files[i].kind == Node::Dir => return self.fail(st, 21, 32),
                    Ok(Some(i)) => st.files[i].kind = Node::Gone,
                }
                Val::C(0, 32)
            }
            Bi::Rename => {
                let (from, to) = (self.path(st, &av[0])?, self.path(st, &av[1])?);
                let i = match st.lookup(&from) {
                    Err(e) => return self.fail(st, e, 32),
                    Ok(None) => return self.fail(st, 2, 32),
                    Ok(Some(i)) if i == usize::MAX || st.files[i].kind == Node::Dir => return unsup("rename of a folder"),
                    Ok(Some(i)) => i,
                };
                match st.lookup(&to) {
                    Err(e) => return self.fail(st, e, 32),
                    Ok(Some(j)) if j == usize::MAX || st.files[j].kind == Node::Dir => return self.fail(st, 21, 32),
                    Ok(Some(j)) if j != i => st.files[j].kind = Node::Gone,
                    _ => {}
                }
                st.files[i].path = to;
                Val::C(0, 32)
            }
            Bi::Read => {
                let fd = self.conc64(st, &av[0])? as usize;
                let p = self.conc64(st, &av[1])?;
                let n = self.conc64(st, &av[2])?;
                let Some(f) = fd.checked_sub(10).and_then(|i| st.fds.get(i)).filter(|f| f.open).cloned() else {
                    self.set_errno(st, 9)?;
                    return Ok(Val::C(mask(64), 64));
                };
                if st.files[f.file].kind == Node::Dir {
                    return self.fail(st, 21, 64);
                }
                let data = st.files[f.file].data.clone();
                let s = (f.pos as usize).min(data.len());
                let e = (s + n as usize).min(data.len());
                self.write_bytes(st, p, &data[s..e])?;
                st.fds[fd - 10].pos = e as u64;
                c64((e - s) as u64)
            }
            Bi::Lseek => {
                let fd = self.conc64(st, &av[0])? as usize;
                let off = self.conc64(st, &av[1])? as i64;
                let wh = self.conc64(st, &av[2])?;
                let Some(f) = fd.checked_sub(10).and_then(|i| st.fds.get(i)).filter(|f| f.open).cloned() else {
                    self.set_errno(st, 9)?;
                    return Ok(Val::C(mask(64), 64));
                };
                let len = st.files[f.file].data.len() as i64;
                let np = match wh {
                    0 => off,
                    1 => f.pos as i64 + off,
                    _ => len + off,
                };
                if np < 0 {
                    self.set_errno(st, 22)?;
                    return Ok(Val::C(mask(64), 64));
                }
                st.fds[fd - 10].pos = np as u64;
                c64(np as u64)
            }
            Bi::Fstat => {
                let fd = self.conc64(st, &av[0])? as usize;
                let p = self.conc64(st, &av[1])?;
                let Some(f) = fd.checked_sub(10).and_then(|i| st.fds.get(i)).filter(|f| f.open).cloned() else {
                    self.set_errno(st, 9)?;
                    return Ok(Val::C(mask(32), 32));
                };
                let mut b = vec![0u8; 144];
                b[24..28].copy_from_slice(&st.files[f.file].kind.mode().to_le_bytes());
                b[48..56].copy_from_slice(&(st.files[f.file].data.len() as u64).to_le_bytes());
                let d: Vec<(u8, E)> = b.into_iter().map(|x| (x, NOSYM)).collect();
                self.write_bytes(st, p, &d)?;
                Val::C(0, 32)
            }
            Bi::Close => {
                let fd = self.conc64(st, &av[0])? as usize;
                if let Some(f) = fd.checked_sub(10).and_then(|i| st.fds.get_mut(i)) {
                    f.open = false;
                }
                Val::C(0, 32)
            }
            Bi::Write => {
                let fd = self.conc64(st, &av[0])?;
                let n = self.conc64(st, &av[2])?;
                if fd == 1 && st.no_out {
                    return self.fail(st, 32, 64);
                }
                if fd <= 2 {
                    return Ok(c64(n));
                }
                let p = self.conc64(st, &av[1])?;
                let d = self.read_bytes(st, p, n)?;
                match st.write(fd, &d) {
                    Ok(()) => c64(n),
                    Err(e) => return self.fail(st, e, 64),
                }
            }
            Bi::Writev => {
                let fd = self.conc64(st, &av[0])?;
                let (iov, n) = (self.conc64(st, &av[1])?, self.conc64(st, &av[2])?);
                let mut d = vec![];
                for i in 0..n {
                    let v = self.load_scalar(st, &c64(iov + 16 * i), 64)?;
                    let p = self.conc64(st, &v)?;
                    let v = self.load_scalar(st, &c64(iov + 16 * i + 8), 64)?;
                    let l = self.conc64(st, &v)?;
                    d.extend(self.read_bytes(st, p, l)?);
                }
                match if fd == 1 && st.no_out { Err(32) } else if fd <= 2 { Ok(()) } else { st.write(fd, &d) } {
                    Ok(()) => c64(d.len() as u64),
                    Err(e) => return self.fail(st, e, 64),
                }
            }
            Bi::Errno => c64(self.errno_addr(st)),
            Bi::Getrandom => {
                let (p, n) = (self.conc64(st, &av[0])?, self.conc64(st, &av[1])?);
                let d = vec![(0x5au8, NOSYM); n as usize];
                self.write_bytes(st, p, &d)?;
                c64(n)
            }
            Bi::Syscall => {
                let nr = self.conc64(st, &av[0])?;
                if nr == 318 {
                    let (p, n) = (self.conc64(st, &av[1])?, self.conc64(st, &av[2])?);
                    let d = vec![(0x5au8, NOSYM); n as usize];
                    self.write_bytes(st, p, &d)?;
                    return Ok(c64(n));
                }
                if nr == 202 {
                    return Ok(c64(0));
                }
                if nr == 332 {
                    // statx(fd, path, flags, mask, buf): of an open file when the path is empty
                    let fd = self.conc64(st, &av[1])? as u32 as i32;
                    let p = self.conc64(st, &av[5])?;
                    let pp = self.conc64(st, &av[2])?;
                    let named = pp != 0 && self.read_bytes(st, pp, 1)?[0].0 != 0;
                    let r = if named {
                        let path = self.path(st, &av[2])?;
                        st.stat(&path)
                    } else {
                        let f = (fd as usize).checked_sub(10).and_then(|i| st.fds.get(i)).filter(|f| f.open);
                        f.map(|f| (st.files[f.file].kind.mode(), st.files[f.file].data.len() as u64)).ok_or(2)
                    };
                    let (mode, len) = match r {
                        Ok(x) => x,
                        Err(e) => return self.fail(st, e, 64),
                    };
                    let mut b = vec![0u8; 256];
                    b[0..4].copy_from_slice(&0x7ffu32.to_le_bytes());
                    b[4..8].copy_from_slice(&4096u32.to_le_bytes());
                    b[16] = 1;
                    b[28..30].copy_from_slice(&(mode as u16).to_le_bytes());
                    b[40..48].copy_from_slice(&len.to_le_bytes());
                    let d: Vec<(u8, E)> = b.into_iter().map(|x| (x, NOSYM)).collect();
                    self.write_bytes(st, p, &d)?;
                    return Ok(c64(0));
                }
                return unsup(format!("syscall {nr}"));
            }
            Bi::KeyCreate => {
                self.store_scalar(st, &Val::C(7, 32), &av[0])?;
                Val::C(0, 32)
            }
            Bi::StrerrorR => {
                let p = self.conc64(st, &av[1])?;
                let d: Vec<(u8, E)> = b"os error\0".iter().map(|&x| (x, NOSYM)).collect();
                self.write_bytes(st, p, &d)?;
                Val::C(0, 32)
            }
            Bi::Defined | Bi::Unsup => return unsup(format!("external {}", fun.name)),
        })
    }
    /// The normalized path in a C string.
    fn path(&mut self, st: &mut State, v: &Val) -> R<Vec<u8>> {
        let p = self.conc64(st, v)?;
        let mut raw = vec![];
        loop {
            let b = self.read_bytes(st, p + raw.len() as u64, 1)?;
            if b[0].1 != NOSYM {
                return unsup("symbolic path");
            }
            if b[0].0 == 0 {
                break;
            }
            raw.push(b[0].0);
        }
        if raw.is_empty() {
            return Ok(raw);
        }
        // the working folder of the modelled process is /sym
        let mut path = if raw[0] == b'/' { vec![] } else { b"/sym".to_vec() };
        for c in raw.split(|&b| b == b'/').filter(|c| !c.is_empty() && *c != b".") {
            if c == b".." {
                return unsup("path with ..");
            }
            path.push(b'/');
            path.extend(c);
        }
        Ok(if path.is_empty() { b"/".to_vec() } else { path })
    }
    fn fail(&mut self, st: &mut State, e: u32, w: u16) -> R<Val> {
        self.set_errno(st, e)?;
        Ok(Val::C(mask(w), w))
    }
    fn errno_addr(&mut self, st: &mut State) -> u64 {
        if st.errno == 0 {
            st.errno = self.alloc(st, 4, 4, Kind::Global);
        }
        st.errno
    }
    fn set_errno(&mut self, st: &mut State, v: u32) -> R<()> {
        let a = self.errno_addr(st);
        self.store_scalar(st, &Val::C(v.into(), 32), &c64(a))
    }
}

impl Node {
    fn mode(self) -> u32 {
        if self == Node::Dir {
            0o40_755
        } else {
            0o100_644
        }
    }
}

impl State {
    fn node(&self, p: &[u8]) -> Option<usize> {
        if p.is_empty() || p == b"/sym" || p == b"/" {
            return Some(usize::MAX);
        }
        self.files.iter().rposition(|f| f.kind != Node::Gone && f.path == p)
    }
    /// The node at a path: `usize::MAX` for the scratch folder, or an errno when it cannot be reached.
    fn lookup(&self, p: &[u8]) -> Result<Option<usize>, u32> {
        if p.is_empty() {
            return Err(2);
        }
        for (k, _) in p.iter().enumerate().filter(|x| *x.1 == b'/') {
            match self.node(&p[..k]) {
                None => return Err(2),
                Some(usize::MAX) => {}
                Some(i) if self.files[i].kind == Node::Dir => {}
                Some(_) => return Err(20),
            }
        }
        Ok(self.node(p))
    }
    fn stat(&self, p: &[u8]) -> Result<(u32, u64), u32> {
        match self.lookup(p)? {
            None => Err(2),
            Some(usize::MAX) => Ok((Node::Dir.mode(), 0)),
            Some(i) => Ok((self.files[i].kind.mode(), self.files[i].data.len() as u64)),
        }
    }
    fn write(&mut self, fd: u64, d: &[(u8, E)]) -> Result<(), u32> {
        let i = (fd as usize).wrapping_sub(10);
        let Some(f) = self.fds.get_mut(i).filter(|f| f.open && f.acc != 0) else { return Err(9) };
        let file = &mut self.files[f.file];
        if file.kind == Node::Full {
            return if d.is_empty() { Ok(()) } else { Err(28) };
        }
        let v = Rc::make_mut(&mut file.data);
        let at = if f.append { v.len() } else { f.pos as usize };
        if v.len() < at + d.len() {
            v.resize(at + d.len(), (0, NOSYM));
        }
        v[at..at + d.len()].copy_from_slice(d);
        f.pos = (at + d.len()) as u64;
        Ok(())
    }
}

fn insert(v: &Val, x: Val, ix: &[u64]) -> Val {
    if ix.is_empty() {
        return x;
    }
    let Val::A(a) = v else { panic!("insert") };
    let mut n = (**a).clone();
    n[ix[0] as usize] = insert(&a[ix[0] as usize], x, &ix[1..]);
    Val::A(Rc::new(n))
}

fn split(e: E, n: u64) -> Vec<E> {
    with(|a| {
        let w = (n * 8) as u16;
        let e = if a.w(e) < w { a.zext(e, w) } else { e };
        (0..n as u16).map(|i| a.extract(e, i * 8, 8)).collect()
    })
}

enum Tgt {
    C(u64),
    S(Rc<Obj>, E, Vec<u64>),
}

/// A table of digits, `base + (index / d) % 10`, read byte by byte: the value as a formula.
fn fit_table(a: &mut Arena, off: E, vals: &[(u64, E)], n: u64) -> Option<E> {
    if vals.len() < 8 {
        return None;
    }
    let step = vals[1].0 - vals[0].0;
    let lo = vals[0].0;
    let mut ks = Vec::with_capacity(vals.len());
    for (i, &(o, e)) in vals.iter().enumerate() {
        if o != lo + i as u64 * step {
            return None;
        }
        ks.push(a.cval(e)?);
    }
    let idx = {
        let l = a.k(u128::from(lo), 64);
        let x = a.sub(off, l);
        let s = a.k(u128::from(step), 64);
        a.udivrem(false, x, s)
    };
    let mut parts = vec![];
    for b in (0..n).rev() {
        let v = |i: usize| (ks[i] >> (b * 8)) & 0xff;
        let base = v(0);
        let (d, m) = [(1u64, 10u64), (10, 10), (100, 10), (1000, 10), (1, 256)]
            .into_iter()
            .find(|&(d, m)| (0..ks.len()).all(|i| v(i) == (base + u128::from((i as u64 / d) % m)) & 0xff))?;
        let dk = a.k(u128::from(d), 64);
        let q = a.udivrem(false, idx, dk);
        let mk = a.k(u128::from(m), 64);
        let r = a.udivrem(true, q, mk);
        let r = a.extract(r, 0, 8);
        let bk = a.k(base, 8);
        parts.push(a.add(r, bk));
    }
    Some(a.concat(&parts))
}

fn ite_tree(a: &mut Arena, off: E, vals: &[(u64, E)]) -> E {
    // merge runs of equal values
    let mut runs: Vec<(u64, E)> = vec![];
    for &(o, e) in vals {
        if let Some(l) = runs.last() {
            if l.1 == e {
                continue;
            }
        }
        runs.push((o, e));
    }
    fn rec(a: &mut Arena, off: E, r: &[(u64, E)]) -> E {
        if r.len() == 1 {
            return r[0].1;
        }
        let m = r.len() / 2;
        let k = a.k(u128::from(r[m].0), 64);
        let c = a.ult(off, k);
        let x = rec(a, off, &r[..m]);
        let y = rec(a, off, &r[m..]);
        a.ite(c, x, y)
    }
    rec(a, off, &runs)
}
