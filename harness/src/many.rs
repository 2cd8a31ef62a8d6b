//! Long inputs: hundreds of subtitles, parts, segments, commands or lines, with free contents.
use crate::sym;
use image::{LumaA, Rgb};
use std::io::{BufReader, Cursor};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly};
use subtile::time::TimeSpan;
use subtile::vobsub::{Index, Sub, VobSubError, VobSubIndexedImage};
use subtile::SupParser;

fn seg(d: &mut Vec<u8>, pts: u32, kind: u8, body: &[u8]) {
    d.extend_from_slice(b"PG");
    d.extend_from_slice(&pts.to_be_bytes());
    d.extend_from_slice(&[0; 4]);
    d.push(kind);
    d.extend_from_slice(&(body.len() as u16).to_be_bytes());
    d.extend_from_slice(body);
}
/// An image of one pixel in one or two segments.
fn object(d: &mut Vec<u8>, id: u8, parts: bool) {
    if parts {
        seg(d, 0, 0x15, &[0, 0, 0, 0x80, 0, 0, 5, 0, 1, 0, 1]);
        seg(d, 0, 0x15, &[0, 0, 0, 0x40, id]);
    } else {
        seg(d, 0, 0x15, &[0, 0, 0, 0xc0, 0, 0, 5, 0, 1, 0, 1, id]);
    }
}

/// Hundreds of subtitles, with one at a place among them that has no image.
#[no_mangle]
pub fn h_pgs_many() {
    const N: usize = 300;
    let t = u32::from(sym::u16());
    let l = sym::bytes::<2>();
    let bad = [0, 127, 128, 254, 255, 256, N - 1, N][sym::pick(0, 7)];
    let mut d = vec![];
    for k in 0..N {
        seg(&mut d, 0, 0x16, &[7; 11]);
        if k != bad {
            seg(&mut d, 0, 0x14, &[0, 0, 9, l[k % 2], 1, 1, l[k / 2 % 2]]);
            object(&mut d, 9, k % 3 == 0);
        }
        seg(&mut d, (t + 1000 * k as u32) * 90, 0x80, &[]);
        seg(&mut d, 0, 0x17, &[]);
        seg(&mut d, (t + 1000 * k as u32 + 500) * 90, 0x80, &[]);
    }
    let mut p = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    let mut q = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&d[..]));
    let time = |k: usize, s: TimeSpan| {
        let at = i64::from(t) + 1000 * k as i64;
        chk!((s.start.msecs() == at) & (s.end.msecs() == at + 500));
    };
    for k in 0..N {
        match p.next() {
            Some(Ok((s, i))) => {
                chk!(k != bad);
                time(k, s);
                let mut i = i.iter();
                let v = i.next().unwrap_or(LumaA([0, 0])).0;
                chk!((v[0] == l[k % 2]) & (v[1] == l[k / 2 % 2]));
                chk!(i.next().is_none());
                cov!();
            }
            Some(Err(_)) => chk!(k == bad),
            None => chk!(false),
        }
        match q.next() {
            Some(Ok(s)) => time(k, s),
            _ => chk!(false),
        }
    }
    chk!(p.next().is_none() && q.next().is_none());
}
/// A subtitle made of hundreds of palettes, objects and other segments.
#[no_mangle]
pub fn h_pgs_many_segs() {
    const N: usize = 300;
    let last = sym::bytes::<2>();
    let kind = sym::pick(0, 3);
    let n = [1, 127, 128, 255, 256, 257, N][sym::pick(0, 6)];
    let mut d = vec![];
    let pal = |d: &mut Vec<u8>, v: [u8; 2]| seg(d, 0, 0x14, &[0, 0, 9, v[0], 1, 1, v[1]]);
    if kind != 3 {
        for k in 0..n {
            let v = [k as u8, 3];
            match kind {
                0 => pal(&mut d, v),
                1 => {
                    pal(&mut d, v);
                    object(&mut d, 9, k % 2 == 0);
                }
                _ => seg(&mut d, 5, if k % 2 == 0 { 0x16 } else { 0x17 }, &[0x50, 0x47, k as u8]),
            }
        }
    }
    pal(&mut d, last);
    if kind == 3 {
        seg(&mut d, 0, 0x15, &[0, 0, 0, 0x80, 0, 0, 5, 0, 1, 0, 1]);
        for k in 0..n {
            seg(&mut d, 5, if k % 2 == 0 { 0x16 } else { 0x17 }, &[0x50, 0x47, k as u8]);
        }
        seg(&mut d, 0, 0x15, &[0, 0, 0, 0x40, 9]);
    } else {
        object(&mut d, 9, false);
    }
    seg(&mut d, 90, 0x80, &[]);
    seg(&mut d, 180, 0x80, &[]);
    let mut p = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    match p.next() {
        Some(Ok((s, i))) => {
            chk!(s.start.msecs() == 1 && s.end.msecs() == 2);
            let v = i.iter().next().unwrap_or(LumaA([0, 0])).0;
            chk!((v[0] == last[0]) & (v[1] == last[1]));
            cov!();
        }
        _ => chk!(false),
    }
    chk!(p.next().is_none());
    let mut q = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&d[..]));
    chk!(matches!(q.next(), Some(Ok(s)) if s.start.msecs() == 1 && s.end.msecs() == 2));
    chk!(q.next().is_none());
}

/// Commands of a subtitle of 2x2 pixels.
fn cmds(pal: [u8; 2], al: [u8; 2]) -> Vec<u8> {
    let mut c = vec![1];
    c.extend_from_slice(&[3, pal[0], pal[1], 4, al[0], al[1], 5, 0, 0, 1, 0, 0, 1, 6, 0, 4, 0, 5]);
    c
}
fn packet(control: &[u8]) -> Vec<u8> {
    let mut p = vec![0, 0, 0, 6, 0x45, 0x67];
    p.extend_from_slice(control);
    let n = (p.len() as u16).to_be_bytes();
    p[..2].copy_from_slice(&n);
    p
}
fn pack(d: &mut Vec<u8>, t: Option<u16>, sub: u8, p: &[u8]) {
    d.extend_from_slice(&[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 3, 0xf8, 0, 0, 1, 0xbd]);
    let n = p.len() as u16 + if t.is_some() { 9 } else { 4 };
    d.extend_from_slice(&n.to_be_bytes());
    match t {
        // in units of 2^15 ticks
        Some(t) => d.extend_from_slice(&[0x81, 0x80, 5, 0x21, (t >> 7) as u8, (t << 1) as u8 | 1, 0, 1, sub]),
        None => d.extend_from_slice(&[0x81, 0, 0, sub]),
    }
    d.extend_from_slice(p);
}
fn sub(d: &[u8]) -> Sub {
    match Sub::open(sym::file(d, "a.sub")) {
        Ok(s) => s,
        Err(_) => panic!(),
    }
}
fn good(item: Option<Result<(TimeSpan, VobSubIndexedImage), VobSubError>>, ticks: i64, pal: [u8; 2], al: [u8; 2]) {
    match item {
        Some(Ok((t, i))) => {
            let want = ticks / 90;
            chk!((t.start.msecs() - want).abs() <= 1);
            chk!((t.end.msecs() - want - 5000).abs() <= 1);
            let mut same = true;
            for k in 0..4 {
                same &= i.palette()[k] == pal[1 - k / 2] >> (4 * (k % 2)) & 15;
                same &= i.alpha()[k] == al[1 - k / 2] >> (4 * (k % 2)) & 15;
            }
            chk!(same);
            chk!(i.raw_image() == [0, 1, 2, 3]);
            cov!();
        }
        _ => chk!(false),
    }
}

/// Hundreds of subtitles with, at a place among them, a damaged one.
#[no_mangle]
pub fn h_vob_many() {
    const N: usize = 300;
    let (pal, al) = ([sym::bytes::<2>(), sym::bytes::<2>()], sym::bytes::<2>());
    let bad = [0, 127, 128, 254, 255, 256, N - 1, N][sym::pick(0, 7)];
    let how = if bad == N { 0 } else { sym::pick(0, 1) };
    let mut d = vec![];
    for k in 0..N {
        let mut c = vec![0, 0, 0, 6];
        c.extend_from_slice(&cmds(pal[k % 2], al));
        c.push(0xff);
        let mut p = packet(&c);
        if k == bad && how == 0 {
            p[2] = 9;
        }
        let t = if k == bad && how == 1 { None } else { Some(k as u16 + 1) };
        pack(&mut d, t, 0x20, &p);
    }
    let s = sub(&d);
    let mut it = s.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    for k in 0..N {
        let x = it.next();
        if k == bad {
            chk!(matches!(x, Some(Err(_))));
        } else {
            good(x, (k as i64 + 1) << 15, pal[k % 2], al);
        }
    }
    chk!(it.next().is_none());
}
/// A subtitle in parts of one byte, with packets of another stream between them.
#[no_mangle]
pub fn h_vob_many_parts() {
    let (pal, al) = (sym::bytes::<2>(), sym::bytes::<2>());
    let mut c = vec![0, 0, 0, 6];
    c.extend_from_slice(&cmds(pal, al));
    c.push(0xff);
    let p = packet(&c);
    // size of the parts, packets between them
    let (part, other) = ([1, 2, 7][sym::pick(0, 2)], [0, 1, 20][sym::pick(0, 2)]);
    let mut d = vec![];
    pack(&mut d, Some(3), 0x21, &p[..2]);
    for q in p[2..].chunks(part) {
        for k in 0..other {
            pack(&mut d, if k % 2 == 0 { Some(1) } else { None }, 0x22, &[0, 9, 1, 2, 3, 4, k]);
        }
        pack(&mut d, None, 0x21, q);
    }
    let s = sub(&d);
    let mut it = s.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    good(it.next(), 3 << 15, pal, al);
}
/// Hundreds of commands in a sequence, or hundreds of sequences.
#[no_mangle]
pub fn h_vob_many_cmds() {
    let (pal, al) = (sym::bytes::<2>(), sym::bytes::<2>());
    let n = [1, 100, 127, 128, 254, 255, 256, 300][sym::pick(0, 7)];
    let mut c = vec![];
    if sym::bool() {
        c.extend_from_slice(&[0, 0, 0, 6]);
        for k in 0..n {
            // Force, or coordinates, after the ones that count
            if k == n / 2 {
                c.extend_from_slice(&cmds(pal, al));
            } else if k < n / 2 {
                c.push(0);
            } else {
                c.extend_from_slice(&[3, k as u8, 0]);
            }
        }
        if n == 1 {
            cov!();
        }
        c.push(0xff);
    } else {
        let full = sym::pick(0, 1) * (n - 1);
        for k in 0..n {
            let at = 6 + c.len();
            let mut s = if k == full { cmds(pal, al) } else { vec![0, 0] };
            s.push(0xff);
            let next = if k == n - 1 { at } else { at + 4 + s.len() } as u16;
            c.extend_from_slice(&[0, 0, (next >> 8) as u8, next as u8]);
            c.extend_from_slice(&s);
        }
    }
    let mut d = vec![];
    pack(&mut d, Some(3), 0x21, &packet(&c));
    let s = sub(&d);
    let mut it = s.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    good(it.next(), 3 << 15, pal, al);
    chk!(it.next().is_none());
}
/// Tens of kilobytes of other bytes, or hundreds of other packs, between two subtitles.
#[no_mangle]
pub fn h_vob_many_other() {
    let (pal, al) = (sym::bytes::<2>(), sym::bytes::<2>());
    let mut c = vec![0, 0, 0, 6];
    c.extend_from_slice(&cmds(pal, al));
    c.push(0xff);
    let p = packet(&c);
    let kind = sym::pick(0, 4);
    let n = [1, 255, 256, 300][sym::pick(0, 3)];
    let mut d = vec![];
    pack(&mut d, Some(3), 0x20, &p);
    for k in 0..n {
        match kind {
            // padding of a sector
            0 => {
                d.extend_from_slice(&[0, 0, 1, 0xbe, 0x00, 0xfa]);
                d.extend_from_slice(&[0xff; 250]);
            }
            // zeros, start codes of other kinds
            1 => d.extend_from_slice(&[0, 0, 0, 0, 1, 0xb9, 0, 0, 1, k as u8 & 0x7f]),
            // packs without packet
            2 => d.extend_from_slice(&[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 3, 0xf8]),
            // packs of video
            3 => {
                d.extend_from_slice(&[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 3, 0xf8, 0, 0, 1, 0xe0, 0, 9]);
                d.extend_from_slice(&[0x81, 0, 0, 1, 2, 3, 4, 5, k as u8]);
            }
            // packs cut in their header
            _ => d.extend_from_slice(&[0, 0, 1, 0xba, 0x44, 0, 4]),
        }
    }
    pack(&mut d, Some(4), 0x20, &p);
    let s = sub(&d);
    let mut it = s.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    good(it.next(), 3 << 15, pal, al);
    good(it.next(), 4 << 15, pal, al);
    chk!(it.next().is_none());
}

/// An index with hundreds of lines before, between and after those that count.
#[no_mangle]
pub fn h_idx_many() {
    let c = sym::below(b'0', b'9');
    let n = [0, 130, 300][sym::pick(0, 2)];
    let place = sym::pick(0, 2);
    let mut t = b"# VobSub index file, v7\n".to_vec();
    for k in 0..3 {
        if k == place {
            t.extend_from_slice(b"palette: ");
            for k in 0..16 {
                t.extend_from_slice(if k == 0 { b"7" } else { b", 7" });
                t.push(c);
                t.extend_from_slice(b"a1b2");
            }
            t.push(b'\n');
        } else {
            t.extend_from_slice(if k == 1 { b"id: fr, index: 1\n" } else { b"langidx: 0\n" });
        }
        for j in 0..n {
            if j % 2 == 0 {
                t.extend_from_slice(b"timestamp: 00:00:01:101, filepos: 000000000\n");
            } else {
                t.extend_from_slice(&[b'#'; 300]);
                t.push(b'\n');
            }
        }
    }
    match Index::read_index(BufReader::new(&t[..]), &|_| VobSubError::LangParsing) {
        Ok(i) => {
            for k in 0..16 {
                chk!(i.palette()[k] == Rgb([c - b'0' + 0x70, 0xa1, 0xb2]));
            }
            chk!(i.lang().as_ref().map(|l| l.lang()) == if place == 1 { None } else { Some("fr") });
            cov!();
        }
        Err(_) => chk!(false),
    }
}
