//! Harnesses for the times and the text formats.
use crate::sym;
use std::io::{self, Write};
use subtile::srt::{self, TimePointSrt};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::TimePointIdx;
use subtile::webvtt::{self, TimePointVtt};

// ---------------------------------------------------------------- times

/// `s` is the number `v`, in at least `min` digits.
fn number_is(s: &[u8], v: u64, min: usize) {
    let n = s.len();
    chk!((n >= min) & (n <= 20));
    let mut p = 1u64;
    for k in 0..n {
        chk!(u64::from(s[n - 1 - k]) == 48 + v / p % 10);
        if k + 1 < n {
            p *= 10;
        }
    }
    // not one digit more or less than needed
    chk!(n == min || v >= p);
    chk!(n == 20 || v < p * 10);
}
/// `s` is the text of the time `m`: `-HH:MM:SS.mmm`, with as many hour digits as needed.
fn check_time(s: &[u8], m: i64, sep: u8) {
    let neg = m < 0;
    chk!(s.len() >= 12 + usize::from(neg));
    let s = if neg {
        chk!(s[0] == b'-');
        &s[1..]
    } else {
        s
    };
    let n = s.len();
    chk!(s[n - 10] == b':');
    chk!(s[n - 7] == b':');
    chk!(s[n - 4] == sep);
    let m = m.unsigned_abs();
    number_is(&s[..n - 10], m / 3_600_000, 2);
    number_is(&s[n - 9..n - 7], m / 60_000 % 60, 2);
    number_is(&s[n - 6..n - 4], m / 1000 % 60, 2);
    number_is(&s[n - 3..], m % 1000, 3);
}
/// A time: below 149 hours, or any one.
fn time(big: bool) -> i64 {
    let neg = sym::pick(0, if big { 2 } else { 1 });
    let m = if big { sym::u64() >> 1 } else { u64::from(sym::u32() & 0x1fff_ffff) } as i64;
    match neg {
        0 => m,
        1 => -m,
        _ => i64::MIN,
    }
}
fn fmt<T: std::fmt::Display + From<TimePoint>>(sep: u8, big: bool) {
    let m = time(big);
    let s = T::from(TimePoint::from_msecs(m)).to_string();
    check_time(s.as_bytes(), m, sep);
    cov!();
}
/// The times of a second of an hour, for hours of all lengths.
#[no_mangle]
pub fn h_text_hours() {
    const H: [i64; 22] = [
        99, 100, 127, 128, 149, 255, 256, 596, 597, 999, 1000, 1193, 32767, 32768, 65535, 65536, 999_999, 1 << 24, u32::MAX as i64 + 1, 2_502_999_793, i64::MAX / 3_600_000_000,
        i64::MAX / 3_600_000 - 1,
    ];
    let h = H[sym::pick(0, 21)];
    let near = i64::from(sym::u16() & 0x3ff);
    let mut m = h * 3_600_000 + [0, 59_500, 3_598_976][sym::pick(0, 2)] + near;
    if sym::bool() {
        m = -m;
    }
    let t = TimePoint::from_msecs(m);
    match sym::pick(0, 2) {
        0 => check_time(TimePointSrt::from(t).to_string().as_bytes(), m, b','),
        1 => check_time(TimePointVtt::from(t).to_string().as_bytes(), m, b'.'),
        _ => check_time(TimePointIdx::from(t).to_string().as_bytes(), m, b':'),
    }
    cov!();
}
/// The first and the last times.
#[no_mangle]
pub fn h_text_extremes() {
    let m = [i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 0, 1, -1, -999, -1000][sym::pick(0, 8)];
    check_time(TimePointSrt::from(TimePoint::from_msecs(m)).to_string().as_bytes(), m, b',');
    check_time(TimePointVtt::from(TimePoint::from_msecs(m)).to_string().as_bytes(), m, b'.');
    check_time(TimePointIdx::from(TimePoint::from_msecs(m)).to_string().as_bytes(), m, b':');
    cov!();
}
/// Times below 149 hours.
#[no_mangle]
pub fn h_text_srt_time() {
    fmt::<TimePointSrt>(b',', false)
}
#[no_mangle]
pub fn h_text_vtt_time() {
    fmt::<TimePointVtt>(b'.', false)
}
#[no_mangle]
pub fn h_text_idx_time() {
    fmt::<TimePointIdx>(b':', false)
}
/// All the times.
#[no_mangle]
pub fn h_text_srt_time_l() {
    fmt::<TimePointSrt>(b',', true)
}
#[no_mangle]
pub fn h_text_vtt_time_l() {
    fmt::<TimePointVtt>(b'.', true)
}
#[no_mangle]
pub fn h_text_idx_time_l() {
    fmt::<TimePointIdx>(b':', true)
}

/// Milliseconds, opposite, order.
#[no_mangle]
pub fn h_text_point() {
    let (a, b) = (sym::i64(), sym::i64());
    let (p, q) = (TimePoint::from_msecs(a), TimePoint::from_msecs(b));
    chk!(p.msecs() == a);
    chk!((p == q) == (a == b));
    chk!((p < q) == (a < b));
    chk!(p.cmp(&q) == a.cmp(&b));
    if a != i64::MIN {
        chk!((-p).msecs() == -a);
        chk!(-(-p) == p);
    }
    let s = TimeSpan::new(p, q);
    chk!((s.start == p) & (s.end == q));
    chk!((s == TimeSpan::new(q, p)) == (a == b));
    chk!(TimePoint::default().msecs() == 0);
    cov!();
}
/// Seconds and back: the same to the millisecond.
#[no_mangle]
pub fn h_text_secs() {
    let m = (sym::u64() & ((1 << 42) - 1)) as i64;
    let neg = sym::pick(0, 1) == 1;
    let s = TimePoint::from_msecs(if neg { -m } else { m }).to_secs();
    let r = TimePoint::from_secs(s).msecs();
    let r = if neg { r.wrapping_neg() } else { r };
    chk!(r.wrapping_sub(m).wrapping_add(1) as u64 <= 2);
    cov!();
}
/// Seconds that are 1024ths: their milliseconds.
#[no_mangle]
pub fn h_text_from_secs() {
    let v = (sym::u64() & ((1 << 42) - 1)) as i64;
    let neg = sym::pick(0, 1) == 1;
    let s = v as f64 / 1024.;
    let r = TimePoint::from_secs(if neg { -s } else { s }).msecs();
    let r = if neg { r.wrapping_neg() } else { r };
    let (r, t) = (r as u64, v as u64 * 1000 / 1024);
    chk!(r <= t + 1);
    chk!(t <= r + 1);
    cov!();
}

// ---------------------------------------------------------------- writers

fn ascii<const N: usize>() -> Vec<u8> {
    let b = sym::bytes::<N>();
    let n = sym::pick(0, N as u8);
    for x in &b {
        sym::assume(*x < 0x80);
    }
    b[..n].to_vec()
}
fn text<const N: usize>() -> String {
    let b = ascii::<N>();
    let mut s = unsafe { String::from_utf8_unchecked(b) };
    if sym::bool() {
        s.push_str("é\r\n…");
    }
    s
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut s = true;
    for (x, y) in a.iter().zip(b) {
        s &= x == y;
    }
    s
}
const T: [(i64, &str, &str); 4] = [
    (0, "00:00:00,000", "00:00:00.000"),
    (3_723_004, "01:02:03,004", "01:02:03.004"),
    (-1, "-00:00:00,001", "-00:00:00.001"),
    (359_999_999_999, "99999:59:59,999", "99999:59:59.999"),
];
fn times() -> (TimeSpan, usize, usize) {
    let (i, j) = [(0, 1), (1, 0), (2, 3)][sym::pick(0, 2)];
    (TimeSpan::new(TimePoint::from_msecs(T[i].0), TimePoint::from_msecs(T[j].0)), i, j)
}

/// The layout of the subtitles, their order and their numbers.
fn srt_case<const N: usize>(max: u8) {
    let n = sym::pick(0, max);
    let mut subs = Vec::new();
    let mut want = Vec::new();
    for k in 0..n {
        let (span, i, j) = times();
        let t = text::<N>();
        want.extend_from_slice(&[[b'1', b'2', b'3', b'4'][k], b'\n']);
        want.extend_from_slice(T[i].1.as_bytes());
        want.extend_from_slice(b" --> ");
        want.extend_from_slice(T[j].1.as_bytes());
        want.push(b'\n');
        want.extend_from_slice(t.as_bytes());
        want.extend_from_slice(b"\n\n");
        subs.push((span, t));
    }
    let mut out = Vec::new();
    chk!(srt::write_srt(&mut out, &subs).is_ok());
    chk!(same(&out, &want));
    cov!();
}
#[no_mangle]
pub fn h_text_srt_l() {
    srt_case::<3>(3)
}
#[no_mangle]
pub fn h_text_srt_x() {
    srt_case::<4>(4)
}
/// Long lists: the text of one subtitle anywhere is free.
fn many(n: usize) {
    let span = TimeSpan::new(TimePoint::from_msecs(T[0].0), TimePoint::from_msecs(T[1].0));
    let at = [0, 1, n / 2, n - 1][sym::pick(0, 3)];
    let free = text::<2>();
    let long = "a line that is not short\n".repeat(40);
    let mut subs = Vec::new();
    let mut want = Vec::new();
    for k in 0..n {
        let t = if k == at {
            free.clone()
        } else if k == n / 3 {
            long.clone()
        } else {
            String::from(["ab", "", "<i>x</i>"][k % 3])
        };
        let mut dec = Vec::new();
        let mut m = k + 1;
        while m > 0 {
            dec.insert(0, b'0' + (m % 10) as u8);
            m /= 10;
        }
        want.extend_from_slice(&dec);
        want.push(b'\n');
        want.extend_from_slice(T[0].1.as_bytes());
        want.extend_from_slice(b" --> ");
        want.extend_from_slice(T[1].1.as_bytes());
        want.push(b'\n');
        want.extend_from_slice(t.as_bytes());
        want.extend_from_slice(b"\n\n");
        subs.push((span, t));
    }
    let mut out = Vec::new();
    chk!(srt::write_srt(&mut out, &subs).is_ok());
    chk!(same(&out, &want));
    cov!();
}
#[no_mangle]
pub fn h_text_many() {
    many(300)
}
#[no_mangle]
pub fn h_text_many_l() {
    many(70_000)
}
/// The last lines of a very long list, and the size of what is before.
#[no_mangle]
pub fn h_text_last() {
    const N: usize = 65_540;
    let b = sym::bytes::<2>();
    sym::assume(b.is_ascii());
    let last = String::from_utf8(b.to_vec()).unwrap();
    let mut subs = vec![(TimeSpan::default(), String::new()); N];
    subs[N - 1].1 = last.clone();
    let mut out = Vec::with_capacity(N * 40);
    chk!(srt::write_srt(&mut out, &subs).is_ok());
    const REST: &[u8] = b"\n00:00:00,000 --> 00:00:00,000\n";
    let digits = 9 + 90 * 2 + 900 * 3 + 9_000 * 4 + (N - 9_999) * 5;
    chk!(out.len() == digits + N * (REST.len() + 2) + 2);
    let mut want = Vec::new();
    for k in 0..6usize {
        want.extend_from_slice(if k == 5 { b"65540" } else { [b"65535", b"65536", b"65537", b"65538", b"65539"][k] });
        want.extend_from_slice(REST);
        if k == 5 {
            want.extend_from_slice(&b);
        }
        want.extend_from_slice(b"\n\n");
    }
    chk!(same(&out[out.len() - want.len()..], &want));
    cov!();
}
/// One line with a longer text.
#[no_mangle]
pub fn h_text_line() {
    let (span, i, j) = times();
    let t = text::<5>();
    let mut want = b"7\n".to_vec();
    want.extend_from_slice(T[i].1.as_bytes());
    want.extend_from_slice(b" --> ");
    want.extend_from_slice(T[j].1.as_bytes());
    want.push(b'\n');
    want.extend_from_slice(t.as_bytes());
    want.extend_from_slice(b"\n\n");
    let mut out = Vec::new();
    chk!(srt::write_line(&mut out, 7, &span, &t).is_ok());
    chk!(same(&out, &want));
    cov!();
}
#[no_mangle]
pub fn h_text_vtt() {
    let (span, i, j) = times();
    let t = text::<4>();
    let mut want = Vec::new();
    want.extend_from_slice(T[i].2.as_bytes());
    want.extend_from_slice(b" --> ");
    want.extend_from_slice(T[j].2.as_bytes());
    want.push(b'\n');
    want.extend_from_slice(t.as_bytes());
    want.extend_from_slice(b"\n\n");
    let mut out = Vec::new();
    chk!(webvtt::write_line(&mut out, &span, &t).is_ok());
    chk!(same(&out, &want));
    cov!();
}
/// Any line number.
fn number(bits: u32) {
    let n = sym::u64() >> (64 - bits);
    let mut out = Vec::new();
    let span = TimeSpan::default();
    chk!(srt::write_line(&mut out, n as usize, &span, "x").is_ok());
    const REST: &[u8] = b"\n00:00:00,000 --> 00:00:00,000\nx\n\n";
    let k = out.len() - REST.len();
    chk!(same(&out[k..], REST));
    number_is(&out[..k], n, 1);
    cov!();
}
#[no_mangle]
pub fn h_text_number_l() {
    number(64)
}
/// The times of a written line.
#[no_mangle]
pub fn h_text_line_times() {
    let (a, b) = (i64::from(sym::u32() & 0xfff_ffff), i64::from(sym::u32() & 0xfff_ffff));
    let span = TimeSpan::new(TimePoint::from_msecs(a), TimePoint::from_msecs(b));
    let mut out = Vec::new();
    if sym::bool() {
        chk!(srt::write_line(&mut out, 7, &span, "t").is_ok());
        chk!(out.len() == 2 + 12 + 5 + 12 + 4);
        check_time(&out[2..14], a, b',');
        check_time(&out[19..31], b, b',');
    } else {
        chk!(webvtt::write_line(&mut out, &span, "t").is_ok());
        chk!(out.len() == 12 + 5 + 12 + 4);
        check_time(&out[..12], a, b'.');
        check_time(&out[17..29], b, b'.');
    }
    cov!();
}

/// A writer that takes `chunk` bytes at once, and fails at one point.
struct Slow {
    out: Vec<u8>,
    chunk: usize,
    ops: usize,
    fail_at: usize,
    kind: io::ErrorKind,
    failed: bool,
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.ops += 1;
        if self.ops - 1 == self.fail_at {
            self.failed = true;
            return Err(self.kind.into());
        }
        let n = b.len().min(self.chunk);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Short writes lose nothing; a failure is reported, and nothing is written after it.
#[no_mangle]
pub fn h_text_writer() {
    let (span, _, _) = times();
    let t = text::<2>();
    let vtt = sym::bool();
    let subs = vec![(span, t.clone()), (span, String::from("b"))];
    let put = |w: &mut Slow| {
        if vtt {
            webvtt::write_line(w, &span, &t)
        } else {
            srt::write_srt(w, &subs)
        }
    };
    let mut full = Slow { out: vec![], chunk: usize::MAX, ops: 0, fail_at: usize::MAX, kind: io::ErrorKind::Other, failed: false };
    chk!(put(&mut full).is_ok());
    let mut w = Slow {
        out: vec![],
        chunk: [1, 2, 5, 1000][sym::pick(0, 3)],
        ops: 0,
        fail_at: if sym::bool() { sym::pick(0, 40) } else { usize::MAX },
        kind: sym::error_kind(0),
        failed: false,
    };
    let r = put(&mut w);
    if w.failed && w.kind != io::ErrorKind::Interrupted {
        match r {
            Err(e) => chk!(e.kind() == w.kind),
            Ok(()) => chk!(false),
        }
        chk!(w.ops == w.fail_at + 1);
        chk!(w.out.len() < full.out.len() && same(&w.out, &full.out[..w.out.len()]));
        cov!();
    } else {
        chk!(r.is_ok());
        chk!(same(&w.out, &full.out));
        cov!();
    }
}
/// A writer that is full: an error, not a silent cut.
#[no_mangle]
pub fn h_text_full() {
    let (span, _, _) = times();
    let mut buf = [0u8; 40];
    let n = sym::pick(0, 40);
    let mut w = &mut buf[..n];
    let r = srt::write_line(&mut w, 1, &span, "abc");
    let mut full = Vec::new();
    chk!(srt::write_line(&mut full, 1, &span, "abc").is_ok());
    chk!(r.is_ok() == (full.len() <= n));
    cov!();
}
