//! Opening files: those that cannot be read, and those larger than the buffers.
use crate::sym;
use image::{LumaA, Rgb};
use std::ffi::OsStr;
use std::io::{BufReader, ErrorKind};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use subtile::image::ImageSize;
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError};
use subtile::time::TimeSpan;
use subtile::vobsub::{is_idx_file, is_sub_file, Index, Sub, VobSubError, VobSubIndexedImage};
use subtile::SupParser;

type File = BufReader<std::fs::File>;

fn vob<T>(r: Result<T, VobSubError>, p: &Path, missing: bool) {
    match r {
        Err(VobSubError::Io { source, path }) => {
            chk!(path == p);
            chk!(!missing || source.kind() == ErrorKind::NotFound);
            cov!();
        }
        _ => chk!(false),
    }
}

fn pgs<D: subtile::pgs::PgsDecoder>(p: &Path, missing: bool) {
    match SupParser::<File, D>::from_file(p) {
        Err(PgsError::Io { source, path }) => {
            chk!(path == p);
            chk!(!missing || source.kind() == ErrorKind::NotFound);
            cov!();
        }
        Err(_) => chk!(false),
        // a folder is opened by the system, but not read
        Ok(mut s) => {
            chk!(!missing);
            chk!(matches!(s.next(), Some(Err(_))));
            cov!();
        }
    }
}

/// A path that leads to no file: each function that opens files says so, with the path it was given.
#[no_mangle]
pub fn h_open_faults() {
    let d = sym::dir();
    let mut p = PathBuf::from(&d);
    let b = sym::conc(sym::u8() as u64) as u8;
    sym::assume(b != 0 && b != b'/' && b != b'.');
    let mut missing = true;
    match sym::pick(0, 5) {
        // nothing with this name, whatever the bytes of the name
        0 => p.push(OsStr::from_bytes(&[b'n', b])),
        1 => p.push(OsStr::from_bytes(&[b])),
        // nor the folder where it should be
        2 => p.push("none/x.sub"),
        // a file in place of the folder
        3 => {
            p = PathBuf::from(format!("{}/x.idx", sym::file(&[0, 0, 1, 0xba], "f")));
            missing = false;
        }
        // a folder in place of the file
        4 => {
            p.push("x.sup");
            std::fs::create_dir(&p).unwrap();
            missing = false;
        }
        // a name that no file can have
        _ => {
            p.push(OsStr::from_bytes(&[b'a', 0, b]));
            missing = false;
        }
    }
    match sym::pick(0, 5) {
        0 => vob(is_idx_file(&p), &p, missing),
        1 => vob(is_sub_file(&p), &p, missing),
        2 => vob(Index::open(&p), &p, missing),
        3 => vob(Sub::open(&p), &p, missing),
        4 => pgs::<DecodeTimeOnly>(&p, missing),
        _ => pgs::<DecodeTimeImage>(&p, missing),
    }
    // nothing is made in its place
    chk!(sym::nodes() <= 2);
}

fn seg(d: &mut Vec<u8>, pts: u32, kind: u8, body: &[u8]) {
    d.extend_from_slice(b"PG");
    d.extend_from_slice(&pts.to_be_bytes());
    d.extend_from_slice(&[0; 4]);
    d.push(kind);
    d.extend_from_slice(&(body.len() as u16).to_be_bytes());
    d.extend_from_slice(body);
}

/// A `.sup` file larger than the buffer of its reader, with segments to skip and an object that go past it.
#[no_mangle]
pub fn h_open_sup() {
    let mut d = Vec::with_capacity(70_000);
    let n = [8100, 8192 - 13, 8192 - 12, 8192, 20_000][sym::pick(0, 4)];
    let m = [0, 4000, 8192][sym::pick(0, 2)];
    let skipped = vec![0x50; n];
    let (t, u) = (sym::u32(), sym::u32());
    let e = sym::bytes::<5>();
    for k in 0..2u8 {
        seg(&mut d, 0, 0x16, &skipped);
        let mut pal = vec![0, 0];
        pal.extend_from_slice(&e);
        pal[2] = 7 + k;
        seg(&mut d, 0, 0x14, &pal);
        // one pixel, then data in excess
        let mut o = vec![0, 0, 0, 0xc0, 0, ((m + 5) >> 8) as u8, (m + 5) as u8, 0, 1, 0, 1, 7 + k];
        o.extend_from_slice(&skipped[..m.min(n)]);
        o.resize(12 + m, 0x50);
        seg(&mut d, 0, 0x15, &o);
        seg(&mut d, t, 0x80, &[]);
        seg(&mut d, 0, 0x17, &skipped[..n / 2]);
        seg(&mut d, u, 0x80, &[]);
    }
    let span = |s: TimeSpan| {
        chk!(s.start.msecs() == i64::from(t / 90));
        chk!(s.end.msecs() == i64::from(u / 90));
    };
    let path = sym::file(&d, "a.sup");
    if sym::bool() {
        let Ok(mut s) = SupParser::<File, DecodeTimeImage>::from_file(&path) else {
            chk!(false);
            return;
        };
        for _ in 0..2 {
            match s.next() {
                Some(Ok((time, img))) => {
                    span(time);
                    chk!(img.width() == 1 && img.height() == 1);
                    let p: Vec<LumaA<u8>> = img.iter().collect();
                    chk!(p.len() == 1 && p[0].0[0] == e[1] && p[0].0[1] == e[4]);
                    cov!();
                }
                _ => chk!(false),
            }
        }
        chk!(s.next().is_none());
    } else {
        let Ok(mut s) = SupParser::<File, DecodeTimeOnly>::from_file(&path) else {
            chk!(false);
            return;
        };
        for _ in 0..2 {
            match s.next() {
                Some(Ok(time)) => {
                    span(time);
                    cov!();
                }
                _ => chk!(false),
            }
        }
        chk!(s.next().is_none());
    }
}

/// A `.sub` file larger than any buffer gives what its bytes give, after many bytes that are not its own.
#[no_mangle]
pub fn h_open_sub() {
    let n = [100, 8170, 8191, 8192, 70_000][sym::pick(0, 4)];
    let mut d = vec![0x11; n];
    let (pal, al) = (sym::u16(), sym::u16());
    let pts = 49_876u16;
    let mut p = vec![0, 0, 0, 6, 0x55, 0x55, 0, 0, 0, 6, 1, 3];
    p.extend_from_slice(&pal.to_be_bytes());
    p.push(4);
    p.extend_from_slice(&al.to_be_bytes());
    p.extend_from_slice(&[5, 0, 0, 1, 0, 0, 1, 6, 0, 4, 0, 5, 2, 0xff]);
    p[1] = p.len() as u8;
    let (hi, lo) = ((pts >> 8) as u8, pts as u8);
    for k in 0..2 {
        d.extend_from_slice(&[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 3, 0xf8, 0, 0, 1, 0xbd, 0, p.len() as u8 + 9, 0x81, 0x80, 5]);
        d.extend_from_slice(&[0x21, 0, 1 | (hi & 0x80) >> 6, (hi & 0x7f) << 1 | lo >> 7, (lo & 0x7f) << 1 | 1, 0x20]);
        d.extend_from_slice(&p);
        if k == 0 {
            d.extend_from_slice(&vec![0x22; n / 2]);
        }
    }
    let path = sym::file(&d, "a.sub");
    let Ok(s) = Sub::open(&path) else {
        chk!(false);
        return;
    };
    let mut it = s.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    for _ in 0..2 {
        match it.next() {
            Some(Ok((t, img))) => {
                let want = i64::from(pts) / 90;
                chk!((t.start.msecs() - want).abs() <= 1);
                for i in 0..4 {
                    chk!(img.palette()[i] == (pal >> (4 * i)) as u8 & 15);
                    chk!(img.alpha()[i] == (al >> (4 * i)) as u8 & 15);
                }
                chk!(img.raw_image().len() == 4);
                cov!();
            }
            _ => chk!(false),
        }
    }
    chk!(it.next().is_none());
}

/// An index file larger than the buffer of its reader, with the palette line across its end.
#[no_mangle]
pub fn h_open_idx() {
    let n = [8000, 8100, 8192 - 9, 8192, 9000][sym::pick(0, 4)];
    let mut d = Vec::with_capacity(10_000);
    while d.len() + 64 < n {
        d.extend_from_slice(b"# some comment that has nothing to say, and has no end of..... \n");
    }
    d.resize(n - 1, b'#');
    d.push(b'\n');
    d.extend_from_slice(b"palette: ");
    let c = sym::below(b'0', b'9');
    for k in 0..16 {
        d.extend_from_slice(if k == 0 { b"0" } else { b", 0" });
        d.push(c);
        d.extend_from_slice(b"a1b2");
    }
    d.extend_from_slice(b"\nid: fr, index: 0\n");
    match Index::open(sym::file(&d, "x.idx")) {
        Ok(i) => {
            for k in 0..16 {
                chk!(i.palette()[k] == Rgb([c - b'0', 0xa1, 0xb2]));
            }
            chk!(i.lang().as_ref().map(|l| l.lang()) == Some("fr"));
            cov!();
        }
        Err(_) => chk!(false),
    }
}
