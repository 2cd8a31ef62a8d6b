//! Harnesses for the `.idx` files, their palette, and the recognition of the files.
use crate::sym;
use image::Rgb;
use std::io::{self, BufReader, Read};
use subtile::vobsub::{is_idx_file, is_sub_file, palette, Index, Palette, VobSubError};

// ---------------------------------------------------------------- recognition

const IDX: &[u8] = b"# VobSub index file";
const SUB: &[u8] = &[0, 0, 1, 0xba];

fn probe<const N: usize>(len: usize) {
    let b = sym::bytes::<N>();
    let d = &b[..len];
    let p = sym::file(d, "probe");
    let starts = |m: &[u8]| -> bool {
        if d.len() < m.len() {
            return false;
        }
        let mut s = true;
        for i in 0..m.len() {
            s &= d[i] == m[i];
        }
        s
    };
    let (i, s) = (starts(IDX), starts(SUB));
    match is_idx_file(&p) {
        Ok(r) => {
            chk!(r == i);
            cov!();
        }
        Err(_) => chk!(len < IDX.len()),
    }
    match is_sub_file(&p) {
        Ok(r) => {
            chk!(r == s);
            cov!();
        }
        Err(_) => chk!(len < SUB.len()),
    }
}
/// A file is recognised exactly when it starts with the mark of its kind.
#[no_mangle]
pub fn h_idx_probe() {
    let len = sym::pick(0, 24);
    probe::<24>(len)
}
#[no_mangle]
pub fn h_idx_probe_l() {
    let len = 600;
    probe::<600>(len)
}
/// A file that is not there is an error with its path.
#[no_mangle]
pub fn h_idx_nofile() {
    let p = "/nonexistent-directory/x.idx";
    let same = |r: Result<bool, VobSubError>| match r {
        Err(VobSubError::Io { path, .. }) => chk!(path.to_str() == Some(p)),
        _ => chk!(false),
    };
    same(is_idx_file(p));
    same(is_sub_file(p));
    match Index::open(p) {
        Err(VobSubError::Io { path, .. }) => chk!(path.to_str() == Some(p)),
        _ => chk!(false),
    }
    cov!();
}

// ---------------------------------------------------------------- palette

fn base() -> Vec<u8> {
    let mut t = Vec::new();
    for i in 0..16u8 {
        if i > 0 {
            t.extend_from_slice(b", ");
        }
        for k in 0..3u8 {
            let v = i.wrapping_mul(47) ^ k.wrapping_mul(89) ^ 0x1b;
            let up = i & 1 == 0;
            for d in [v >> 4, v & 15] {
                t.push(if d < 10 {
                    b'0' + d
                } else if up {
                    b'A' + d - 10
                } else {
                    b'a' + d - 10
                });
            }
        }
    }
    t
}
/// Value of a hexadecimal digit, 16 for other bytes.
fn hex(b: u8) -> u8 {
    if (b >= b'0') & (b <= b'9') {
        b - b'0'
    } else if (b >= b'a') & (b <= b'f') {
        b - b'a' + 10
    } else if (b >= b'A') & (b <= b'F') {
        b - b'A' + 10
    } else {
        16
    }
}
/// The 16 colors at the start of the text, and the number of bytes they take.
fn reference(t: &[u8]) -> Option<([[u8; 3]; 16], usize)> {
    let mut c = [[0; 3]; 16];
    let mut p = 0;
    for i in 0..16 {
        if i > 0 {
            if t.len() < p + 2 || t[p] != b',' || t[p + 1] != b' ' {
                return None;
            }
            p += 2;
        }
        for k in 0..3 {
            if t.len() < p + 2 {
                return None;
            }
            let (x, y) = (hex(t[p]), hex(t[p + 1]));
            if x > 15 || y > 15 {
                return None;
            }
            c[i][k] = x * 16 + y;
            p += 2;
        }
    }
    Some((c, p))
}
/// Is there a 17th color?
fn more(t: &[u8]) -> bool {
    t.len() >= 8 && t[0] == b',' && t[1] == b' ' && t[2..8].iter().all(|b| hex(*b) < 16)
}
fn same(p: &Palette, c: &[[u8; 3]; 16]) -> bool {
    let mut s = true;
    for i in 0..16 {
        for k in 0..3 {
            s &= p[i].0[k] == c[i][k];
        }
    }
    s
}
fn palette_check(t: &[u8]) {
    match (reference(t), palette(t)) {
        (Some((c, n)), Ok((rest, p))) => {
            chk!(!more(&t[n..]));
            chk!(same(&p, &c));
            chk!(rest.len() == t.len() - n);
            cov!();
        }
        (Some((_, n)), Err(_)) => {
            chk!(more(&t[n..]));
        }
        (None, r) => {
            chk!(r.is_err());
            cov!();
        }
    }
}
/// A valid palette where some adjacent bytes are anything.
fn palette_case<const N: usize>(step: usize) {
    let mut t = base();
    let k = sym::pick(0, ((t.len() - N) / step) as u8) * step;
    sym::fill(&mut t[k..k + N]);
    palette_check(&t);
}
#[no_mangle]
pub fn h_idx_palette() {
    palette_case::<2>(1)
}
#[no_mangle]
pub fn h_idx_palette_l() {
    palette_case::<6>(8)
}
#[no_mangle]
pub fn h_idx_palette_x() {
    palette_case::<9>(8)
}
/// Any bytes after the palette, and a palette cut anywhere.
#[no_mangle]
pub fn h_idx_palette_end() {
    let mut t = base();
    if sym::bool() {
        let b = sym::bytes::<3>();
        let n = sym::pick(0, 3);
        t.extend_from_slice(&b[..n]);
        if sym::bool() {
            t.extend_from_slice(b", 123456");
        }
    } else {
        let n = sym::pick(0, 126);
        t.truncate(n);
    }
    palette_check(&t);
}

// ---------------------------------------------------------------- index


fn mkerr(e: io::Error) -> VobSubError {
    VobSubError::Io { source: e, path: "p".into() }
}
fn read(t: &[u8]) -> Result<Index, VobSubError> {
    Index::read_index(BufReader::new(t), &mkerr)
}
/// Build the regular expressions before the paths split.
fn warm() {
    chk!(read(b"id: fr, index: 0\n").is_ok());
}
const DEFAULT: [[u8; 3]; 16] = [
    [0x00, 0x00, 0x00],
    [0xf0, 0xf0, 0xf0],
    [0xcc, 0xcc, 0xcc],
    [0x99, 0x99, 0x99],
    [0x33, 0x33, 0xfa],
    [0x11, 0x11, 0xbb],
    [0xfa, 0x33, 0x33],
    [0xbb, 0x11, 0x11],
    [0x33, 0xfa, 0x33],
    [0x11, 0xbb, 0x11],
    [0xfa, 0xfa, 0x33],
    [0xbb, 0xbb, 0x11],
    [0xfa, 0x33, 0xfa],
    [0xbb, 0x11, 0xbb],
    [0x33, 0xfa, 0xfa],
    [0x11, 0xbb, 0xbb],
];
fn space(b: u8) -> bool {
    (b == b' ') | (b >= 9) & (b <= 13)
}
fn letter(b: u8) -> bool {
    (b >= b'a') & (b <= b'z')
}
fn key_char(b: u8) -> bool {
    letter(b | 0x20) | (b == b'/') | (b == b' ')
}
/// Key and value of a line.
fn key_value(l: &[u8]) -> Option<(&[u8], &[u8])> {
    let mut n = 0;
    while n < l.len() && key_char(l[n]) {
        n += 1;
    }
    if n > 0 && l.len() >= n + 2 && l[n] == b':' && l[n + 1] == b' ' {
        Some((&l[..n], &l[n + 2..]))
    } else {
        None
    }
}
fn lang(v: &[u8]) -> Option<&[u8]> {
    let mut n = 0;
    while n < v.len() && letter(v[n]) {
        n += 1;
    }
    const SEP: &[u8] = b", index: ";
    if n > 0 && v[n..].starts_with(SEP) {
        Some(&v[..n])
    } else {
        None
    }
}
/// What an ASCII index holds: nothing if its palette is wrong.
fn expect(t: &[u8]) -> Option<([[u8; 3]; 16], Option<&[u8]>)> {
    let mut pal = DEFAULT;
    let mut lng = None;
    let mut p = 0;
    while p < t.len() {
        let mut e = p;
        while e < t.len() && t[e] != b'\n' {
            e += 1;
        }
        let mut end = e;
        while end > p && space(t[end - 1]) {
            end -= 1;
        }
        if let Some((k, v)) = key_value(&t[p..end]) {
            if k == b"palette" {
                match reference(v) {
                    Some((c, n)) if n == v.len() => pal = c,
                    _ => return None,
                }
            } else if k == b"id" {
                lng = lang(v);
            }
        }
        p = e + 1;
    }
    Some((pal, lng))
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    let mut s = true;
    for (x, y) in a.iter().zip(b) {
        s &= x == y;
    }
    a.len() == b.len() && s
}
fn index_check(t: &[u8], r: Result<Index, VobSubError>) {
    if let Err(e) = &r {
        sym::tell(e);
    }
    match (expect(t), r) {
        (Some((pal, lng)), Ok(i)) => {
            chk!(same(i.palette(), &pal));
            match (lng, i.lang()) {
                (None, None) => cov!(),
                (Some(l), Some(m)) => {
                    chk!(eq(l, m.lang().as_bytes()));
                    cov!();
                }
                _ => chk!(false),
            }
        }
        (None, Err(VobSubError::PaletteError(_))) => cov!(),
        _ => chk!(false),
    }
}
/// `N` adjacent bytes of the text are any ASCII bytes.
fn index_case<const N: usize>(base: &[u8], lo: usize, hi: usize) {
    warm();
    let mut t = base.to_vec();
    let k = sym::pick(0, (hi - lo - N) as u8) + lo;
    let b = sym::bytes::<N>();
    for x in &b {
        sym::assume(*x < 0x80);
    }
    t[k..k + N].copy_from_slice(&b);
    let r = read(&t);
    index_check(&t, r);
}

/// The language line, its key and its value.
const LANG: &[u8] = b"# VobSub\nid: fr, index: 0\nalt: x\n";
#[no_mangle]
pub fn h_idx_lang() {
    index_case::<2>(LANG, 8, 33)
}
/// Languages of 1 to 8 letters, indices of 0 to 4 characters, one free byte.
#[no_mangle]
pub fn h_idx_lang_len() {
    lang_len::<1>(0)
}
#[no_mangle]
pub fn h_idx_lang_len_l() {
    lang_len::<2>(4)
}
fn lang_len<const N: usize>(from: usize) {
    let mut t = b"id: ".to_vec();
    t.extend_from_slice(&b"portugue"[..sym::pick(1, 8)]);
    t.extend_from_slice(b", index: ");
    t.extend_from_slice(&b"2076"[..sym::pick(0, 4)]);
    t.push(b'\n');
    index_case::<N>(&t, from, t.len())
}
#[no_mangle]
pub fn h_idx_lang_l() {
    index_case::<4>(LANG, 7, 33)
}
fn palette_line(lo: usize, hi: usize) -> (Vec<u8>, usize, usize) {
    let mut t = b"a: b\npalette: ".to_vec();
    t.extend_from_slice(&base());
    t.extend_from_slice(b" \r\nid: de, index: 1\n");
    let n = t.len();
    (t, lo, hi.min(n))
}
/// The palette line: its key, its start, its end.
#[no_mangle]
pub fn h_idx_palette_line() {
    let (t, lo, hi) = if sym::bool() { palette_line(0, 30) } else { palette_line(130, 150) };
    index_case::<2>(&t, lo, hi)
}
#[no_mangle]
pub fn h_idx_palette_line_l() {
    let (t, lo, hi) = if sym::bool() { palette_line(0, 30) } else { palette_line(130, 162) };
    index_case::<3>(&t, lo, hi)
}
/// Any lines in any order: the last palette and the last language count.
fn order(max: u8) {
    warm();
    let n = sym::pick(0, max);
    let mut t = Vec::new();
    let mut pal = DEFAULT;
    let mut lng: Option<&[u8]> = None;
    for i in 0..n {
        let mut b = base();
        match sym::pick(0, 7) {
            0 => {
                b[8 * i] = b'0' + i as u8;
                t.extend_from_slice(b"palette: ");
                t.extend_from_slice(&b);
                pal = reference(&b).unwrap().0;
            }
            1 => {
                t.extend_from_slice(b"id: en, index: 0");
                lng = Some(b"en");
            }
            2 => {
                t.extend_from_slice(b"id: zz");
                lng = None;
            }
            3 => t.extend_from_slice(b"# id: pt, index: 0"),
            4 => t.extend_from_slice(b"timestamp: 00:00:01:000, filepos: 000000000"),
            5 => {
                t.extend_from_slice("id: é, index: 3".as_bytes());
                lng = None;
            }
            6 => t.extend_from_slice("langue: été".as_bytes()),
            _ => {}
        }
        t.extend_from_slice([&b"\n"[..], b"\r\n", b"  \n"][sym::pick(0, if max > 2 { 0 } else { 2 })]);
    }
    if n > 0 && sym::bool() {
        // no end of line at the end of the file
        t.pop();
    }
    match read(&t) {
        Ok(i) => {
            chk!(same(i.palette(), &pal));
            chk!(i.lang().as_ref().map(|l| l.lang().as_bytes()) == lng);
            cov!();
        }
        Err(_) => chk!(false),
    }
}
#[no_mangle]
pub fn h_idx_order_l() {
    order(4)
}
/// Lines longer than the buffers of the reading, with one free byte.
fn long(lens: &[usize]) {
    warm();
    let n = lens[sym::pick(0, lens.len() as u8 - 1)];
    let fill = |t: &mut Vec<u8>, c: u8| t.resize(t.len() + n, c);
    let mut t = b"# ".to_vec();
    let mut free = vec![1];
    let kind = sym::pick(0, 4);
    if kind == 0 {
        fill(&mut t, b'x');
    }
    free.push(t.len() - 1);
    t.extend_from_slice(b"\npalette: ");
    t.extend_from_slice(&base());
    if kind == 1 {
        fill(&mut t, b' ');
    }
    free.push(t.len() - 1);
    t.extend_from_slice(b"\nid: ");
    if kind == 2 {
        fill(&mut t, b'q');
    }
    t.extend_from_slice(b"fr, index: ");
    if kind == 3 {
        fill(&mut t, b'7');
    }
    free.push(t.len() - 1);
    t.extend_from_slice(b"0\n");
    if kind == 4 {
        fill(&mut t, b'k');
    }
    free.push(t.len() - 1);
    t.extend_from_slice(b": v\n");
    let k = free[sym::pick(0, free.len() as u8 - 1)];
    t[k] = sym::u8();
    sym::assume(t[k] < 0x80);
    let cap = [64, 8192][sym::pick(0, 1)];
    let r = Index::read_index(BufReader::with_capacity(cap, &t[..]), &mkerr);
    index_check(&t, r);
}
#[no_mangle]
pub fn h_idx_long() {
    long(&[118, 300])
}
#[no_mangle]
pub fn h_idx_long_l() {
    long(&[118, 255, 256, 257, 1000, 4000])
}
/// Any bytes: never a panic, and an error only for a text that is not UTF-8 or a bad palette.
fn any<const N: usize>() {
    warm();
    let b = sym::bytes::<N>();
    let n = sym::pick(0, N as u8);
    match read(&b[..n]) {
        Ok(i) => {
            chk!(same(i.palette(), &DEFAULT));
            chk!(n >= 15 || i.lang().is_none());
            chk!(std::str::from_utf8(&b[..n]).is_ok());
            cov!();
        }
        Err(VobSubError::Io { source, .. }) => {
            chk!(source.kind() == io::ErrorKind::InvalidData);
            chk!(std::str::from_utf8(&b[..n]).is_err());
            cov!();
        }
        Err(_) => chk!(false),
    }
}
#[no_mangle]
pub fn h_idx_any() {
    any::<4>()
}
#[no_mangle]
pub fn h_idx_any_l() {
    any::<7>()
}

/// A reader that gives `chunk` bytes at once, and fails at one point.
struct Slow<'a> {
    d: &'a [u8],
    chunk: usize,
    fail_at: usize,
    kind: io::ErrorKind,
    ops: usize,
    failed: bool,
}
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.ops += 1;
        if self.ops - 1 == self.fail_at {
            self.failed = true;
            return Err(self.kind.into());
        }
        let n = b.len().min(self.chunk).min(self.d.len());
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}
/// The way the bytes come does not matter; a failure of the reader is reported.
#[no_mangle]
pub fn h_idx_reader_l() {
    reader(200)
}
fn reader(max: u8) {
    warm();
    let mut t = b"id: en, index: 0\r\npalette: ".to_vec();
    t.extend_from_slice(&base());
    t.extend_from_slice(b"\n# end");
    let c = reference(&base()).unwrap().0;
    let mut s = Slow {
        d: &t,
        chunk: [1, 2, 7, 18, 64, 1000][sym::pick(0, 5)],
        fail_at: if sym::bool() { sym::pick(0, max) } else { usize::MAX },
        kind: sym::error_kind(0),
        ops: 0,
        failed: false,
    };
    let cap = [1, 5, 16, 8192][sym::pick(0, 3)];
    let r = Index::read_index(BufReader::with_capacity(cap, &mut s), &mkerr);
    if s.failed && s.kind != io::ErrorKind::Interrupted {
        match r {
            Err(VobSubError::Io { source, path }) => {
                chk!(source.kind() == s.kind);
                chk!(path.to_str() == Some("p"));
                cov!();
            }
            _ => chk!(false),
        }
    } else {
        match r {
            Ok(i) => {
                chk!(same(i.palette(), &c));
                chk!(i.lang().as_ref().map(|l| l.lang()) == Some("en"));
                cov!();
            }
            Err(_) => chk!(false),
        }
    }
}
/// A file gives what its bytes give.
#[no_mangle]
pub fn h_idx_open() {
    warm();
    let mut t = b"# VobSub index file, v7\nid: en, index: 0\npalette: ".to_vec();
    t.extend_from_slice(&base());
    t.extend_from_slice(b"\n");
    let k = sym::pick(40, 60);
    t[k] = sym::u8();
    sym::assume(t[k] < 0x80);
    let r = Index::open(sym::file(&t, "x.idx"));
    index_check(&t, r);
}
/// An index made from its parts.
#[no_mangle]
pub fn h_idx_init() {
    let mut p: Palette = [Rgb([0; 3]); 16];
    for c in &mut p {
        c.0 = sym::bytes();
    }
    let i = Index::init(p, None);
    chk!(i.lang().is_none());
    for k in 0..16 {
        chk!(i.palette()[k].0 == p[k].0);
    }
    cov!();
}

/// The same with all the messages of the log written, and the text of each error.
#[no_mangle]
pub fn h_log_idx() {
    sym::logging();
    index_case::<1>(LANG, 8, 33)
}
#[no_mangle]
pub fn h_log_palette() {
    sym::logging();
    let (t, lo, hi) = if sym::bool() { palette_line(10, 30) } else { palette_line(130, 150) };
    index_case::<1>(&t, lo, hi)
}
