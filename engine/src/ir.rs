//! Parser for textual LLVM IR (as printed by the toolchain's llvm-dis).
//! Globals and function addresses are assigned up front; function bodies are
//! parsed lazily on first call.

use std::cell::{OnceCell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F64,
    F32,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Label,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (u64::from(*w) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(Ty::align).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        let s = self.store_size();
        let a = self.align();
        s.div_ceil(a) * a
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (u64::from(*w) + 7) / 8,
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * u64::from(t.bits()) + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = o_align(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    o_align(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::F64 | Ty::Ptr => 64,
            Ty::F32 => 32,
            _ => (self.store_size() * 8) as u16,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::F64 | Ty::F32 | Ty::Ptr)
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = o_align(o, t.align());
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::Struct(f, _) => f[i as usize].clone(),
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
}
fn o_align(o: u64, a: u64) -> u64 {
    o.div_ceil(a) * a
}

/// Run-time value.
#[derive(Clone, Debug)]
pub enum Val {
    C(u128, u16),
    S(u32),
    A(Rc<Vec<Val>>),
}

pub fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| zero_of(e)).collect())),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_of).collect())),
        Ty::Void | Ty::Meta | Ty::Label => Val::C(0, 1),
        _ => Val::C(0, t.bits()),
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    L(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    PtrToInt,
    IntToPtr,
    BitCast,
    FExt,
    FNarrow,
    UToF,
    SToF,
    FToU,
    FToS,
    Freeze,
}

#[derive(Clone, Debug)]
pub enum K {
    Bin(Bin, Ty, Opd, Opd),
    FNeg(Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Fcmp(u32, Opd, Opd),
    Cast(Cast, Ty, Opd, Ty),
    Select(Opd, Opd, Opd),
    Alloca(Ty, Opd, u64),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u64)>),
    ExtractValue(Opd, Vec<u64>),
    InsertValue(Opd, Opd, Vec<u64>),
    ExtractElem(Opd, Opd),
    InsertElem(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i32>),
    Call { callee: Callee, args: Vec<Opd>, ret: Ty },
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Opd),
    Asm,
}

pub struct Ins {
    pub dst: u32,
    pub k: K,
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}
pub struct Body {
    pub nslots: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}
pub struct Func {
    pub name: String,
    pub addr: u64,
    pub line: usize, // index of define line, usize::MAX for declarations
    pub noreturn: bool,
    pub weak: bool,
    pub panicfn: bool,
    pub user: bool, // belongs to the crate under test
    pub body: OnceCell<Rc<Body>>,
}
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub ty: Ty,
    pub constant: bool,
    pub init: Option<(usize, usize)>, // line, column of initializer
    pub data: OnceCell<Rc<Vec<u8>>>,
}

pub struct Module {
    pub text: &'static str,
    pub lines: Vec<(usize, usize)>,
    pub funcs: Vec<Func>,
    pub fn_by_name: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub gl_by_name: HashMap<&'static str, u32>,
    pub by_addr: BTreeMap<u64, u32>,
    pub types: RefCell<HashMap<String, Ty>>,
}

pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const FN_BASE: u64 = 0x40_0000_0000;

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
    m: &'a Module,
}

type Slots<'a> = Option<&'a mut HashMap<String, u32>>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn word_at(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'-' | b'+')) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.word_at();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, t: &str) -> bool {
        if self.word_at() == t {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            self.fail(&format!("expected {t}"));
        }
    }
    fn fail(&self, msg: &str) -> ! {
        let a = self.i.saturating_sub(80);
        panic!(
            "IR parse: {msg} at: ...{}<<<HERE>>>{}",
            String::from_utf8_lossy(&self.s[a..self.i]),
            String::from_utf8_lossy(&self.s[self.i..(self.i + 120).min(self.s.len())])
        );
    }
    fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// name after % or @ (cursor just past sigil)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            return String::from_utf8_lossy(&self.s[st..j]).into_owned();
        }
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'-' | b'$')) {
            j += 1;
        }
        self.i = j;
        String::from_utf8_lossy(&self.s[st..j]).into_owned()
    }
    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.struct_body(true);
                    self.expect(">");
                    return t;
                }
                let n: u64 = self.word().parse().unwrap();
                self.expect("x");
                let t = self.ty();
                self.expect(">");
                Ty::Vec(n, Rc::new(t))
            }
            b'{' => self.struct_body(false),
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.borrow().get(&n).cloned().unwrap_or_else(|| self.fail("unknown type"))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "metadata" => Ty::Meta,
                    "label" => Ty::Label,
                    _ => {
                        if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse().ok()) {
                            Ty::Int(n)
                        } else {
                            self.fail(&format!("type {w}"))
                        }
                    }
                }
            }
        }
    }
    fn struct_body(&mut self, packed: bool) -> Ty {
        self.expect("{");
        let mut f = vec![];
        if !self.eat("}") {
            loop {
                f.push(self.ty());
                if self.eat("}") {
                    break;
                }
                self.expect(",");
            }
        }
        Ty::Struct(Rc::new(f), packed)
    }
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                // string attribute
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.peek() == b'=' {
                    self.i += 1;
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            let w = self.word_at();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint"
                | "none" | "asm" | "add" | "sub" | "trunc" | "bitcast" | "xor" | "mul" | "shl" | "addrspacecast" => return,
                "c" if self.s.get(self.i + 1) == Some(&b'"') => return,
                _ => {}
            }
            if w.starts_with("f0x") {
                return;
            }
            self.i += w.len();
            if w == "align" {
                if self.peek() == b'(' {
                    self.skip_parens();
                } else {
                    self.word();
                }
                continue;
            }
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    fn scalar_const(&mut self, t: &Ty) -> Option<Val> {
        let w = t.bits();
        let word = self.word_at();
        let v = match word {
            "true" => 1u128,
            "false" | "null" | "none" => 0,
            _ => {
                if matches!(t, Ty::F64 | Ty::F32) {
                    let bits = if let Some(h) = word.strip_prefix("f0x").or(word.strip_prefix("0x")) {
                        u64::from_str_radix(h, 16).ok()?
                    } else {
                        let f: f64 = match word {
                            "+inf" => f64::INFINITY,
                            "-inf" => f64::NEG_INFINITY,
                            "+qnan" | "+nan" | "nan" => f64::NAN,
                            _ => word.parse().ok()?,
                        };
                        if *t == Ty::F32 {
                            u64::from((f as f32).to_bits())
                        } else {
                            f.to_bits()
                        }
                    };
                    u128::from(bits)
                } else if let Some(n) = word.strip_prefix('-') {
                    let x: u128 = n.parse().ok()?;
                    x.wrapping_neg()
                } else {
                    word.parse().ok()?
                }
            }
        };
        self.i += word.len();
        Some(Val::C(v & crate::expr::mask(w), w))
    }
    fn gaddr(&self, n: &str) -> u64 {
        if let Some(&g) = self.m.gl_by_name.get(n) {
            return self.m.globals[g as usize].addr;
        }
        if let Some(&f) = self.m.fn_by_name.get(n) {
            let f = &self.m.funcs[f as usize];
            return if f.weak { 0 } else { f.addr };
        }
        panic!("unknown global @{n}");
    }
    fn cc(&mut self, t: &Ty) -> Val {
        match self.opd(t, &mut None) {
            Opd::C(v) => v,
            _ => self.fail("constant expected"),
        }
    }
    fn cnum(v: &Val) -> u128 {
        match v {
            Val::C(c, _) => *c,
            _ => panic!("numeric constant expected"),
        }
    }
    pub fn opd(&mut self, t: &Ty, slots: &mut Slots) -> Opd {
        let c = self.peek();
        match c {
            b'%' => {
                self.i += 1;
                let n = self.name();
                let s = match slots {
                    Some(s) => slot(s, n),
                    None => self.fail("local in constant"),
                };
                Opd::L(s)
            }
            b'@' => {
                self.i += 1;
                let n = self.name();
                Opd::C(Val::C(u128::from(self.gaddr(&n)), 64))
            }
            b'[' | b'{' | b'<' => {
                let packed = c == b'<' && self.s[self.i + 1] == b'{';
                self.i += if packed { 2 } else { 1 };
                let close = if packed { "}>" } else if c == b'[' { "]" } else if c == b'{' { "}" } else { ">" };
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let t = self.ty();
                        v.push(self.cc(&t));
                        if self.eat(close) {
                            break;
                        }
                        self.expect(",");
                    }
                }
                Opd::C(Val::A(Rc::new(v)))
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                let b = self.cstr();
                Opd::C(Val::A(Rc::new(b.iter().map(|&x| Val::C(u128::from(x), 8)).collect())))
            }
            _ => {
                let w = self.word_at();
                match w {
                    "zeroinitializer" | "undef" | "poison" => {
                        self.i += w.len();
                        return Opd::C(zero_of(t));
                    }
                    "splat" => {
                        self.i += w.len();
                        self.expect("(");
                        let et = self.ty();
                        let v = self.cc(&et);
                        self.expect(")");
                        return Opd::C(Val::A(Rc::new(vec![v; t.count()])));
                    }
                    "getelementptr" => {
                        self.i += w.len();
                        self.attrs_gep();
                        self.expect("(");
                        let st = self.ty();
                        self.expect(",");
                        let bt = self.ty();
                        let base = Self::cnum(&self.cc(&bt)) as u64;
                        let mut off = 0u64;
                        let mut cur = st.clone();
                        let mut first = true;
                        while self.eat(",") {
                            let it = self.ty();
                            let k = crate::expr::sx(Self::cnum(&self.cc(&it)), it.bits()) as i64 as u64;
                            if first {
                                off = off.wrapping_add(k.wrapping_mul(st.size()));
                                first = false;
                            } else {
                                match &cur {
                                    Ty::Struct(..) => off = off.wrapping_add(cur.field_off(k)),
                                    _ => off = off.wrapping_add(k.wrapping_mul(cur.field(0).size())),
                                }
                                cur = cur.field(if matches!(cur, Ty::Struct(..)) { k } else { 0 });
                            }
                        }
                        self.expect(")");
                        return Opd::C(Val::C(u128::from(base.wrapping_add(off)), 64));
                    }
                    "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "addrspacecast" => {
                        self.i += w.len();
                        self.attrs_gep();
                        self.expect("(");
                        let st = self.ty();
                        let v = Self::cnum(&self.cc(&st));
                        self.expect("to");
                        let dt = self.ty();
                        self.expect(")");
                        return Opd::C(Val::C(v & crate::expr::mask(dt.bits()), dt.bits()));
                    }
                    "add" | "sub" | "xor" | "mul" | "shl" => {
                        self.i += w.len();
                        self.attrs_gep();
                        self.expect("(");
                        let at = self.ty();
                        let a = Self::cnum(&self.cc(&at));
                        self.expect(",");
                        let bt = self.ty();
                        let b = Self::cnum(&self.cc(&bt));
                        self.expect(")");
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "xor" => a ^ b,
                            "mul" => a.wrapping_mul(b),
                            _ => a << b,
                        };
                        return Opd::C(Val::C(r & crate::expr::mask(at.bits()), at.bits()));
                    }
                    _ => {}
                }
                match self.scalar_const(t) {
                    Some(v) => Opd::C(v),
                    None => self.fail("operand"),
                }
            }
        }
    }
    fn attrs_gep(&mut self) {
        while self.peek().is_ascii_lowercase() {
            let w = self.word();
            if w == "inrange" {
                self.skip_parens();
            }
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.i += 2;
        let mut v = vec![];
        loop {
            match self.s[self.i] {
                b'"' => {
                    self.i += 1;
                    return v;
                }
                b'\\' if self.s[self.i + 1] == b'\\' => {
                    v.push(b'\\');
                    self.i += 2;
                }
                b'\\' => {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
                c => {
                    v.push(c);
                    self.i += 1;
                }
            }
        }
    }
    /// Materialise a constant into bytes.
    fn init_bytes(&mut self, t: &Ty, out: &mut Vec<u8>) {
        match self.peek() {
            b'c' if self.s[self.i + 1] == b'"' => {
                let b = self.cstr();
                out.extend_from_slice(&b);
            }
            _ => {
                let v = self.cc(t);
                flat(&v, t, out);
            }
        }
    }
}

fn flat(v: &Val, t: &Ty, out: &mut Vec<u8>) {
    match t {
        Ty::Arr(_, e) | Ty::Vec(_, e) => {
            if let Val::A(x) = v {
                for y in x.iter() {
                    flat(y, e, out);
                }
            }
        }
        Ty::Struct(f, packed) => {
            let st = out.len() as u64;
            if let Val::A(x) = v {
                for (k, y) in x.iter().enumerate() {
                    let o = st + t.field_off(k as u64);
                    while (out.len() as u64) < o {
                        out.push(0);
                    }
                    flat(y, &f[k], out);
                }
            }
            if !packed {
                while (out.len() as u64) < st + t.size() {
                    out.push(0);
                }
            }
        }
        _ => {
            let Val::C(c, _) = v else { panic!() };
            let b = c.to_le_bytes();
            out.extend_from_slice(&b[..t.size() as usize]);
        }
    }
}

fn slot(s: &mut HashMap<String, u32>, n: String) -> u32 {
    let l = s.len() as u32;
    *s.entry(n).or_insert(l)
}

impl Module {
    fn line(&self, i: usize) -> &'static str {
        let (a, b) = self.lines[i];
        &self.text[a..b]
    }
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read IR").into_boxed_str());
        let mut lines = vec![];
        let mut st = 0;
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push((st, i));
                st = i + 1;
            }
        }
        let mut m = Module {
            text,
            lines,
            funcs: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            gl_by_name: HashMap::new(),
            by_addr: BTreeMap::new(),
            types: RefCell::new(HashMap::new()),
        };
        // attribute groups that contain noreturn
        let mut noreturn: HashMap<&str, bool> = HashMap::new();
        for i in 0..m.lines.len() {
            let l = m.line(i);
            if l.starts_with("attributes #") {
                let id = l["attributes ".len()..].split(' ').next().unwrap();
                noreturn.insert(id, l.contains(" noreturn "));
            }
        }
        let mut aliases = vec![];
        let mut gaddr = GLOBAL_BASE;
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.line(i);
            if l.starts_with('@') {
                let (name, mut p) = {
                    let mut p = P { s: l.as_bytes(), i: 1, m: &m };
                    let n = p.name();
                    (n, p.i)
                };
                let rest = &l[p..];
                assert!(rest.starts_with(" = "), "global {l}");
                // linkage words until global|constant|alias
                let mut kind = "";
                let mut external = false;
                let b = l.as_bytes();
                p += 3;
                loop {
                    while b[p] == b' ' {
                        p += 1;
                    }
                    let mut j = p;
                    while j < b.len() && b[j] != b' ' && b[j] != b'(' {
                        j += 1;
                    }
                    let w = &l[p..j];
                    p = j;
                    if p < b.len() && b[p] == b'(' {
                        while b[p] != b')' {
                            p += 1;
                        }
                        p += 1;
                    }
                    match w {
                        "global" | "constant" | "alias" => {
                            kind = if w == "global" { "global" } else if w == "alias" { "alias" } else { "constant" };
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        _ => {}
                    }
                    if p >= b.len() {
                        break;
                    }
                }
                if kind == "alias" {
                    aliases.push((name, i, p));
                    i += 1;
                    continue;
                }
                let (ty, q) = {
                    let mut pp = P { s: b, i: p, m: &m };
                    let t = pp.ty();
                    (t, pp.i)
                };
                let size = ty.size();
                let mut al = ty.align();
                if let Some(k) = l.rfind(", align ") {
                    let d: String = l[k + 8..].chars().take_while(char::is_ascii_digit).collect();
                    if let Ok(a) = d.parse::<u64>() {
                        al = al.max(a);
                    }
                }
                gaddr = o_align(gaddr, al.max(16));
                let weaknull = external && l.contains("extern_weak");
                let addr = if weaknull { 0 } else { gaddr };
                let idx = m.globals.len() as u32;
                let nm: &'static str = Box::leak(name.clone().into_boxed_str());
                m.gl_by_name.insert(nm, idx);
                if addr != 0 {
                    m.by_addr.insert(addr, idx);
                }
                m.globals.push(Global {
                    name,
                    addr,
                    size,
                    ty,
                    constant: kind == "constant",
                    init: if external { None } else { Some((i, q)) },
                    data: OnceCell::new(),
                });
                gaddr += size + 32;
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let name = {
                    let mut p = P { s: l.as_bytes(), i: at + 1, m: &m };
                    p.name()
                };
                let idx = m.funcs.len() as u32;
                let def = l.starts_with("define ");
                let nr = l.split(' ').filter(|w| w.starts_with('#')).any(|w| *noreturn.get(w).unwrap_or(&false)) || l.contains(" noreturn ");
                let nm: &'static str = Box::leak(name.clone().into_boxed_str());
                m.fn_by_name.insert(nm, idx);
                let panicfn = nr && def && name.contains("9panicking");
                let user = name.contains("7subtile");
                m.funcs.push(Func {
                    addr: FN_BASE + u64::from(idx) * 16,
                    line: if def { i } else { usize::MAX },
                    noreturn: nr,
                    weak: l.contains(" extern_weak "),
                    panicfn,
                    user,
                    name,
                    body: OnceCell::new(),
                });
                if def {
                    while m.line(i) != "}" {
                        i += 1;
                    }
                }
            } else if l.starts_with('%') && l.contains(" = type ") {
                let (n, p) = {
                    let mut p = P { s: l.as_bytes(), i: 1, m: &m };
                    let n = p.name();
                    p.expect("=");
                    p.expect("type");
                    (n, p.i)
                };
                let t = {
                    let mut p = P { s: l.as_bytes(), i: p, m: &m };
                    p.ty()
                };
                m.types.borrow_mut().insert(n, t);
            }
            i += 1;
        }
        for (name, i, p) in aliases {
            let l = m.line(i);
            // alias TYPE, ptr @target
            let at = l[p..].find("ptr @").map(|x| x + p + 5);
            if let Some(at) = at {
                let tn = {
                    let mut pp = P { s: l.as_bytes(), i: at, m: &m };
                    pp.name()
                };
                let nm: &'static str = Box::leak(name.into_boxed_str());
                if let Some(&f) = m.fn_by_name.get(tn.as_str()) {
                    m.fn_by_name.insert(nm, f);
                } else if let Some(&g) = m.gl_by_name.get(tn.as_str()) {
                    m.gl_by_name.insert(nm, g);
                }
            }
        }
        m
    }
    pub fn global_data(&self, g: u32) -> Rc<Vec<u8>> {
        let gl = &self.globals[g as usize];
        gl.data
            .get_or_init(|| {
                let mut out = vec![];
                if let Some((l, c)) = gl.init {
                    let mut p = P { s: self.line(l).as_bytes(), i: c, m: self };
                    p.init_bytes(&gl.ty, &mut out);
                }
                out.resize(gl.size as usize, 0);
                Rc::new(out)
            })
            .clone()
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        if addr >= FN_BASE && (addr - FN_BASE) % 16 == 0 {
            let i = (addr - FN_BASE) / 16;
            if (i as usize) < self.funcs.len() {
                return Some(i as u32);
            }
        }
        None
    }
    pub fn body(&self, f: u32) -> Rc<Body> {
        self.funcs[f as usize].body.get_or_init(|| Rc::new(self.parse_fn(f))).clone()
    }
    fn parse_fn(&self, f: u32) -> Body {
        let fun = &self.funcs[f as usize];
        let mut li = fun.line;
        let head = self.line(li);
        let mut slots: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut unnamed = 0;
        {
            let at = head.find('@').unwrap();
            let mut p = P { s: head.as_bytes(), i: at + 1, m: self };
            p.name();
            p.expect("(");
            if !p.eat(")") {
                loop {
                    if p.eat("...") {
                        p.expect(")");
                        break;
                    }
                    let t = p.ty();
                    let _ = t;
                    p.attrs();
                    if p.peek() == b'%' {
                        p.i += 1;
                        let n = p.name();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(slot(&mut slots, n));
                    } else {
                        let n = unnamed.to_string();
                        unnamed += 1;
                        params.push(slot(&mut slots, n));
                    }
                    if p.eat(")") {
                        break;
                    }
                    p.expect(",");
                }
            }
        }
        li += 1;
        let mut bmap: HashMap<String, u32> = HashMap::new();
        let mut blocks: Vec<Block> = vec![];
        let mut nblk = 0u32;
        // first pass: block numbering by label
        let start = li;
        {
            let mut j = start;
            let first = self.line(j);
            if first.starts_with(' ') {
                bmap.insert(unnamed.to_string(), 0);
                nblk = 1;
            }
            loop {
                let l = self.line(j);
                if l == "}" {
                    break;
                }
                if !l.is_empty() && !l.starts_with(' ') && !l.starts_with(';') {
                    let c = if let Some(r) = l.strip_prefix('"') { r.find('"').unwrap() + 2 } else { l.find(':').unwrap() };
                    let name = l[..c].trim_matches('"').to_string();
                    bmap.insert(name, nblk);
                    nblk += 1;
                }
                j += 1;
            }
        }
        let mut j = start;
        if self.line(j).starts_with(' ') {
            blocks.push(Block { phis: vec![], ins: vec![] });
        }
        loop {
            let l = self.line(j);
            if l == "}" {
                break;
            }
            if l.is_empty() || l.starts_with(';') {
                j += 1;
                continue;
            }
            if !l.starts_with(' ') {
                blocks.push(Block { phis: vec![], ins: vec![] });
                j += 1;
                continue;
            }
            let b = blocks.last_mut().unwrap();
            let mut full: String;
            let mut text = l;
            // switch spans several lines
            if l.contains(" switch ") || l.trim_start().starts_with("switch ") {
                full = l.to_string();
                while !self.line(j).trim_start().starts_with(']') {
                    j += 1;
                    full.push(' ');
                    full.push_str(self.line(j));
                }
                text = &full;
            }
            let t = text.trim_start();
            if t.starts_with('#') {
                j += 1;
                continue;
            }
            let mut p = P { s: text.as_bytes(), i: 0, m: self };
            self.parse_ins(&mut p, &mut slots, &bmap, b);
            j += 1;
            full = String::new();
            let _ = &full;
        }
        Body { nslots: slots.len() as u32, params, blocks }
    }
    fn parse_ins(&self, p: &mut P, slots: &mut HashMap<String, u32>, bmap: &HashMap<String, u32>, blk: &mut Block) {
        let mut dst = u32::MAX;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            dst = slot(slots, n);
            p.expect("=");
        }
        let mut op = p.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = p.word();
        }
        let lab = |p: &mut P| -> u32 {
            p.expect("label");
            p.expect("%");
            let n = p.name();
            bmap[&n]
        };
        macro_rules! o {
            ($t:expr) => {{
                let mut s: Slots = Some(slots);
                p.opd($t, &mut s)
            }};
        }
        macro_rules! to {
            () => {{
                let t = p.ty();
                p.attrs();
                let v = o!(&t);
                (t, v)
            }};
        }
        fn flags(p: &mut P) {
            loop {
                let w = p.word_at();
                match w {
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "nnan" | "ninf" | "nsz" | "arcp"
                    | "contract" | "afn" | "reassoc" | "fast" | "volatile" | "atomic" | "weak" | "inalloca" => {
                        p.i += w.len();
                    }
                    _ => return,
                }
            }
        }
        let bin = match op {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "fadd" => Some(Bin::FAdd),
            "fsub" => Some(Bin::FSub),
            "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv),
            "frem" => Some(Bin::FRem),
            _ => None,
        };
        if let Some(bop) = bin {
            flags(p);
            let t = p.ty();
            let a = o!(&t);
            p.expect(",");
            let b = o!(&t);
            blk.ins.push(Ins { dst, k: K::Bin(bop, t, a, b) });
            return;
        }
        let cast = match op {
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "trunc" => Some(Cast::Trunc),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" => Some(Cast::BitCast),
            "fpext" => Some(Cast::FExt),
            "fptrunc" => Some(Cast::FNarrow),
            "uitofp" => Some(Cast::UToF),
            "sitofp" => Some(Cast::SToF),
            "fptoui" => Some(Cast::FToU),
            "fptosi" => Some(Cast::FToS),
            _ => None,
        };
        if let Some(c) = cast {
            flags(p);
            let (t, v) = to!();
            p.expect("to");
            let d = p.ty();
            blk.ins.push(Ins { dst, k: K::Cast(c, t, v, d) });
            return;
        }
        let k = match op {
            "freeze" => {
                let (t, v) = to!();
                K::Cast(Cast::Freeze, t.clone(), v, t)
            }
            "fneg" => {
                flags(p);
                let (_, v) = to!();
                K::FNeg(v)
            }
            "icmp" => {
                flags(p);
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => p.fail(x),
                };
                let t = p.ty();
                let a = o!(&t);
                p.expect(",");
                let b = o!(&t);
                K::Icmp(pr, t, a, b)
            }
            "fcmp" => {
                flags(p);
                use crate::expr::{FP_EQ, FP_GT, FP_LT, FP_UNO};
                let pr = match p.word() {
                    "false" => 0,
                    "oeq" => FP_EQ,
                    "ogt" => FP_GT,
                    "oge" => FP_GT | FP_EQ,
                    "olt" => FP_LT,
                    "ole" => FP_LT | FP_EQ,
                    "one" => FP_LT | FP_GT,
                    "ord" => FP_LT | FP_GT | FP_EQ,
                    "uno" => FP_UNO,
                    "ueq" => FP_UNO | FP_EQ,
                    "ugt" => FP_UNO | FP_GT,
                    "uge" => FP_UNO | FP_GT | FP_EQ,
                    "ult" => FP_UNO | FP_LT,
                    "ule" => FP_UNO | FP_LT | FP_EQ,
                    "une" => FP_UNO | FP_LT | FP_GT,
                    "true" => FP_UNO | FP_LT | FP_GT | FP_EQ,
                    x => p.fail(x),
                };
                let t = p.ty();
                let a = o!(&t);
                p.expect(",");
                let b = o!(&t);
                K::Fcmp(pr, a, b)
            }
            "phi" => {
                flags(p);
                let t = p.ty();
                let mut v = vec![];
                loop {
                    p.expect("[");
                    let a = o!(&t);
                    p.expect(",");
                    p.expect("%");
                    let n = p.name();
                    p.expect("]");
                    v.push((bmap[&n], a));
                    if !p.eat(",") {
                        break;
                    }
                    if p.peek() != b'[' {
                        break;
                    }
                }
                blk.phis.push((dst, v));
                return;
            }
            "select" => {
                flags(p);
                let (_, c) = to!();
                p.expect(",");
                let (_, a) = to!();
                p.expect(",");
                let (_, b) = to!();
                K::Select(c, a, b)
            }
            "alloca" => {
                flags(p);
                let t = p.ty();
                let mut n = Opd::C(Val::C(1, 64));
                let mut al = t.align();
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    if p.eat_word("align") {
                        al = p.word().parse().unwrap();
                    } else {
                        let (_, v) = to!();
                        n = v;
                    }
                }
                K::Alloca(t, n, al)
            }
            "load" => {
                flags(p);
                let t = p.ty();
                p.expect(",");
                let (_, a) = to!();
                K::Load(t, a)
            }
            "store" => {
                flags(p);
                let (t, v) = to!();
                p.expect(",");
                let (_, a) = to!();
                K::Store(t, v, a)
            }
            "getelementptr" => {
                flags(p);
                let st = p.ty();
                p.expect(",");
                let (bt, base) = to!();
                if bt != Ty::Ptr {
                    p.fail("vector gep");
                }
                let mut off = 0u64;
                let mut dynamic = vec![];
                let mut cur = st.clone();
                let mut first = true;
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, iv) = to!();
                    let scale;
                    if first {
                        scale = st.size();
                        first = false;
                    } else if let Ty::Struct(..) = cur {
                        let Opd::C(Val::C(k, _)) = iv else { p.fail("struct index") };
                        off = off.wrapping_add(cur.field_off(k as u64));
                        cur = cur.field(k as u64);
                        continue;
                    } else {
                        scale = cur.field(0).size();
                        cur = cur.field(0);
                    }
                    match iv {
                        Opd::C(Val::C(k, _)) => {
                            off = off.wrapping_add((crate::expr::sx(k, it.bits()) as i64 as u64).wrapping_mul(scale));
                        }
                        _ => dynamic.push((iv, scale)),
                    }
                }
                K::Gep(base, off, dynamic)
            }
            "extractvalue" => {
                let (_, a) = to!();
                let mut ix = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                K::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (_, a) = to!();
                p.expect(",");
                let (_, v) = to!();
                let mut ix = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                K::InsertValue(a, v, ix)
            }
            "extractelement" => {
                let (_, a) = to!();
                p.expect(",");
                let (_, i) = to!();
                K::ExtractElem(a, i)
            }
            "insertelement" => {
                let (_, a) = to!();
                p.expect(",");
                let (_, v) = to!();
                p.expect(",");
                let (_, i) = to!();
                K::InsertElem(a, v, i)
            }
            "shufflevector" => {
                let (_, a) = to!();
                p.expect(",");
                let (_, b) = to!();
                p.expect(",");
                let (mt, mk) = to!();
                let Opd::C(Val::A(m)) = mk else { p.fail("mask") };
                let _ = mt;
                let m = m.iter().map(|x| P::cnum(x) as i32).collect();
                K::Shuffle(a, b, m)
            }
            "call" => {
                flags(p);
                // calling convention + return attributes
                loop {
                    let w = p.word_at();
                    match w {
                        "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "tailcc" => {
                            p.i += w.len();
                        }
                        "noundef" | "zeroext" | "signext" | "noalias" | "nonnull" | "inreg" | "nofpclass" | "range" | "align" | "dereferenceable"
                        | "dereferenceable_or_null" | "captures" => {
                            p.i += w.len();
                            if w == "align" {
                                if p.peek() == b'(' {
                                    p.skip_parens();
                                } else {
                                    p.word();
                                }
                            } else if p.peek() == b'(' {
                                p.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let ret = p.ty();
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                let callee;
                if p.eat_word("asm") {
                    callee = Callee::Asm;
                    // skip strings and flags until the argument list
                    loop {
                        match p.peek() {
                            b'"' => {
                                p.i += 1;
                                while p.s[p.i] != b'"' {
                                    p.i += 1;
                                }
                                p.i += 1;
                            }
                            b'(' => break,
                            _ => {
                                p.i += 1;
                            }
                        }
                    }
                } else if p.peek() == b'@' {
                    p.i += 1;
                    let n = p.name();
                    match self.fn_by_name.get(n.as_str()) {
                        Some(&f) => callee = Callee::Fn(f),
                        None => p.fail("unknown callee"),
                    }
                } else {
                    let v = o!(&Ty::Ptr);
                    callee = Callee::Ptr(v);
                }
                p.expect("(");
                let mut args = vec![];
                if !p.eat(")") {
                    loop {
                        let t = p.ty();
                        if t == Ty::Meta {
                            // metadata operand: skip to matching , or )
                            let mut d = 0;
                            loop {
                                match p.s[p.i] {
                                    b'(' => d += 1,
                                    b')' if d == 0 => break,
                                    b')' => d -= 1,
                                    b',' if d == 0 => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                            args.push(Opd::C(Val::C(0, 1)));
                        } else {
                            p.attrs();
                            args.push(o!(&t));
                        }
                        if p.eat(")") {
                            break;
                        }
                        p.expect(",");
                    }
                }
                K::Call { callee, args, ret }
            }
            "atomicrmw" => {
                flags(p);
                let aop = p.word().to_string();
                let (_, a) = to!();
                p.expect(",");
                let (t, v) = to!();
                K::AtomicRmw(aop, t, a, v)
            }
            "cmpxchg" => {
                flags(p);
                let (_, a) = to!();
                p.expect(",");
                let (t, e) = to!();
                p.expect(",");
                let (_, n) = to!();
                K::CmpXchg(t, a, e, n)
            }
            "fence" => K::Fence,
            "br" => {
                if p.word_at() == "label" {
                    K::Br(lab(p))
                } else {
                    let (_, c) = to!();
                    p.expect(",");
                    let a = lab(p);
                    p.expect(",");
                    let b = lab(p);
                    K::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (_, c) = to!();
                p.expect(",");
                let d = lab(p);
                p.expect("[");
                let mut v = vec![];
                while !p.eat("]") {
                    let t = p.ty();
                    let k = P::cnum(&p.cc(&t));
                    p.expect(",");
                    v.push((k, lab(p)));
                }
                K::Switch(c, d, v)
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void {
                    K::Ret(None)
                } else {
                    p.attrs();
                    K::Ret(Some(o!(&t)))
                }
            }
            "unreachable" => K::Unreachable,
            _ => p.fail(&format!("opcode {op}")),
        };
        blk.ins.push(Ins { dst, k });
    }
}
