//! Interface between harnesses and the symbolic executor (or the native replayer).
#![allow(dead_code)]

extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_observe(p: *const u8, n: usize);
    fn sym_file(d: *const u8, n: usize, name: *const u8, nlen: usize, out: *mut u8, cap: usize) -> usize;
    fn sym_dir(out: *mut u8, cap: usize) -> usize;
    fn sym_full(p: *const u8, n: usize);
    fn sym_nodes() -> usize;
    fn sym_no_out();
    fn sym_max_request(n: usize);
    fn sym_concretize(x: u64) -> u64;
}

/// `N` unconstrained input bytes.
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn i64() -> i64 {
    i64::from_le_bytes(bytes())
}
pub fn bool() -> bool {
    u8() & 1 == 1
}
/// Any value in `lo..=hi`, left symbolic.
pub fn below(lo: u8, hi: u8) -> u8 {
    let b = u8();
    assume(b >= lo && b <= hi);
    b
}
/// Any value in `lo..=hi`, one path per value (for lengths and counts).
pub fn pick(lo: u8, hi: u8) -> usize {
    conc(below(lo, hi) as u64) as usize
}
pub fn conc(x: u64) -> u64 {
    unsafe { sym_concretize(x) }
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
pub fn check(b: bool, id: u32) {
    unsafe { sym_assert(b, id) }
}
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
pub fn observe(b: &[u8]) {
    unsafe { sym_observe(b.as_ptr(), b.len()) }
}
use std::io::ErrorKind as K;
const KINDS: [K; 38] = [
    K::Interrupted, K::UnexpectedEof, K::Other, K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::HostUnreachable,
    K::NetworkUnreachable, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::NetworkDown, K::BrokenPipe,
    K::AlreadyExists, K::WouldBlock, K::NotADirectory, K::IsADirectory, K::DirectoryNotEmpty, K::ReadOnlyFilesystem, K::StaleNetworkFileHandle,
    K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::StorageFull, K::NotSeekable, K::QuotaExceeded, K::FileTooLarge,
    K::ResourceBusy, K::ExecutableFileBusy, K::Deadlock, K::TooManyLinks, K::ArgumentListTooLong, K::Unsupported, K::OutOfMemory,
    K::CrossesDevices,
];
/// Any kind of error of `KINDS` from the index `lo`: 0 for any, 1 without `Interrupted`, 2 without `UnexpectedEof` too.
pub fn error_kind(lo: u8) -> K {
    KINDS[below(lo, KINDS.len() as u8 - 1) as usize]
}

/// Give `data` to the code under test as a file; returns its path.
pub fn file(data: &[u8], name: &str) -> String {
    let mut out = [0u8; 256];
    let n = unsafe { sym_file(data.as_ptr(), data.len(), name.as_ptr(), name.len(), out.as_mut_ptr(), 256) };
    String::from_utf8(out[..n].to_vec()).unwrap()
}

/// The path of a scratch folder, at first empty; `std::fs` works in it.
pub fn dir() -> String {
    let mut out = [0u8; 256];
    let n = unsafe { sym_dir(out.as_mut_ptr(), 256) };
    String::from_utf8(out[..n].to_vec()).unwrap()
}
/// Make `path` a file on a device without space left.
pub fn full(path: &str) {
    unsafe { sym_full(path.as_ptr(), path.len()) }
}
/// How many files and folders the scratch folder holds, at any depth.
pub fn nodes() -> usize {
    unsafe { sym_nodes() }
}

/// From now on, writing to the standard output fails.
pub fn no_out() {
    unsafe { sym_no_out() }
}
/// From now on, an allocation of more than `n` bytes is a violation (0: none is).
pub fn max_request(n: usize) {
    unsafe { sym_max_request(n) }
}

/// Formats what it is given, and drops it.
struct Drop;
impl std::fmt::Write for Drop {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s);
        Ok(())
    }
}
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        check(std::fmt::write(&mut Drop, *r.args()).is_ok(), line!());
    }
    fn flush(&self) {}
}
static TELL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From now on, all the messages of the log are written, and the errors given to `tell`.
pub fn logging() {
    let _ = log::set_logger(&Logger);
    log::set_max_level(log::LevelFilter::Trace);
    TELL.store(true, std::sync::atomic::Ordering::SeqCst);
}
/// Whether the log is written.
pub fn telling() -> bool {
    TELL.load(std::sync::atomic::Ordering::SeqCst)
}
/// The error has a text, and so have its causes.
pub fn tell(e: &dyn std::error::Error) {
    if TELL.load(std::sync::atomic::Ordering::SeqCst) {
        tell_now(e)
    }
}
pub fn tell_now(e: &dyn std::error::Error) {
    let mut e = Some(e);
    for _ in 0..6 {
        if let Some(x) = e {
            check(std::fmt::write(&mut Drop, format_args!("{x:?}")).is_ok(), line!());
            check(!format!("{x}").is_empty(), line!());
            e = x.source();
        }
    }
    check(e.is_none(), line!());
}

/// Assert a property; identified by its source line.
#[macro_export]
macro_rules! chk {
    ($c:expr) => {
        $crate::sym::check($c, line!())
    };
}
/// Mark a point that at least one path must reach (vacuity guard).
#[macro_export]
macro_rules! cov {
    () => {
        $crate::sym::cover(line!())
    };
}
