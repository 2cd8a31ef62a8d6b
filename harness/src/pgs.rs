//! Harnesses for the Presentation Graphic Stream (`.sup`) side.
use crate::sym;
use image::{Luma, LumaA};
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom};
use subtile::image::{ImageSize, ToImage, ToOcrImage, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder, PgsError, RleEncodedImage, RleToImage, SupParser};
use subtile::time::TimeSpan;

pub const PDS: u8 = 0x14;
pub const ODS: u8 = 0x15;
pub const PCS: u8 = 0x16;
pub const WDS: u8 = 0x17;
pub const END: u8 = 0x80;

fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
fn be16(b: &[u8]) -> u16 {
    u16::from_be_bytes([b[0], b[1]])
}
fn ms(pts: u32) -> i64 {
    i64::from(pts / 90)
}

/// One segment with unconstrained time stamps; the PTS is the one given.
fn seg(out: &mut Vec<u8>, pts: u32, kind: u8, body: &[u8]) {
    out.extend_from_slice(b"PG");
    out.extend_from_slice(&pts.to_be_bytes());
    out.extend_from_slice(&sym::bytes::<4>());
    out.push(kind);
    out.extend_from_slice(&(body.len() as u16).to_be_bytes());
    out.extend_from_slice(body);
}

#[derive(PartialEq, Eq, Clone, Copy)]
enum Ev {
    Sub(i64, i64),
    Err,
    None,
}
fn ev<T>(r: &Result<Option<T>, PgsError>, span: impl Fn(&T) -> TimeSpan) -> Ev {
    match r {
        Ok(Some(t)) => {
            let s = span(t);
            Ev::Sub(s.start.msecs(), s.end.msecs())
        }
        Ok(None) => Ev::None,
        Err(_) => Ev::Err,
    }
}

// ---------------------------------------------------------------- times

/// One path per length up to `room`, one more for all the lengths past it.
fn near(n: usize, room: usize) -> usize {
    if n > room {
        room + 1
    } else {
        sym::conc(n as u64) as usize
    }
}

/// Reference for the times: a byte level reading of the format.
fn ref_time(d: &[u8], pos: &mut usize) -> Ev {
    let mut start = None;
    loop {
        if *pos > d.len() || d.len() - *pos < 13 {
            *pos = d.len();
            return Ev::None;
        }
        let h = &d[*pos..*pos + 13];
        *pos += 13;
        if h[0] != b'P' || h[1] != b'G' {
            return Ev::Err;
        }
        let t = i64::from(be32(&h[2..6])) / 90;
        match h[10] {
            END => match start {
                None => start = Some(t),
                Some(s) => return Ev::Sub(s, t),
            },
            PDS | ODS | PCS | WDS => *pos += near(be16(&h[11..13]) as usize, d.len() - *pos),
            _ => return Ev::Err,
        }
    }
}

fn time_any<const N: usize>(calls: usize) {
    let d = sym::bytes::<N>();
    let mut r = Cursor::new(&d[..]);
    let mut pos = 0;
    for _ in 0..calls {
        let want = ref_time(&d, &mut pos);
        let got = ev(&DecodeTimeOnly::parse_next(&mut r), |t| *t);
        chk!(got == want);
        if want == Ev::None {
            break;
        }
        if matches!(want, Ev::Sub(..)) {
            cov!();
        }
    }
}

/// Every 39-byte stream.
/// Every 54-byte stream.
#[no_mangle]
pub fn h_pgs_time_any_l() {
    time_any::<54>(4)
}
#[no_mangle]
pub fn h_pgs_time_any_x() {
    time_any::<66>(5)
}

// ---------------------------------------------------------------- images

/// A subtitle whose object is carried by one segment.
struct Set<'a> {
    pal: &'a [[u8; 5]], // id, Y, Cr, Cb, alpha
    w: u16,
    h: u16,
    rle: &'a [u8],
}

fn pds_body(pal: &[[u8; 5]]) -> Vec<u8> {
    let mut b = sym::bytes::<2>().to_vec();
    for e in pal {
        b.extend_from_slice(e);
    }
    b
}
fn ods_head(flag: u8) -> Vec<u8> {
    let mut b = sym::bytes::<3>().to_vec(); // object id and version
    b.push(flag);
    b
}
fn ods_first(flag: u8, w: u16, h: u16, total: usize, data: &[u8]) -> Vec<u8> {
    let mut b = ods_head(flag);
    b.extend_from_slice(&(total as u32 + 4).to_be_bytes()[1..]);
    b.extend_from_slice(&w.to_be_bytes());
    b.extend_from_slice(&h.to_be_bytes());
    b.extend_from_slice(data);
    b
}
impl Set<'_> {
    /// The display set that shows the image and the one that clears the screen.
    fn put(&self, out: &mut Vec<u8>, start: u32, end: u32) {
        seg(out, sym::u32(), PDS, &pds_body(self.pal));
        seg(out, sym::u32(), ODS, &ods_first(0xc0, self.w, self.h, self.rle.len(), self.rle));
        seg(out, start, END, &[]);
        seg(out, end, END, &[]);
    }
    fn decode(&self) -> (TimeSpan, RleEncodedImage) {
        let mut d = Vec::new();
        self.put(&mut d, 90, 180);
        let r = DecodeTimeImage::parse_next(&mut Cursor::new(&d[..]));
        chk!(matches!(r, Ok(Some(_))));
        match r {
            Ok(Some(x)) => x,
            _ => unreachable!(),
        }
    }
}

const CLEAR: LumaA<u8> = LumaA([255, 0]);

/// Reference run-length decoding: the color ids of the image, in order, until the data end.
fn ref_rle(d: &[u8], max: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < d.len() && out.len() < max {
        let b = d[i];
        i += 1;
        if b != 0 {
            out.push(b);
            continue;
        }
        if i >= d.len() {
            break;
        }
        let f = d[i];
        i += 1;
        if f == 0 {
            continue; // end of line
        }
        let mut n = (f & 0x3f) as usize;
        if f & 0x40 != 0 {
            if i >= d.len() {
                break;
            }
            n = n << 8 | d[i] as usize;
            i += 1;
        }
        let mut c = 0;
        if f & 0x80 != 0 {
            if i >= d.len() {
                break;
            }
            c = d[i];
            i += 1;
        }
        let mut k = 0;
        while k < n && out.len() < max {
            out.push(c);
            k += 1;
        }
    }
    out
}

/// Reference color of an id, without branches on the id.
fn ref_color(pal: &[[u8; 5]], id: u8) -> LumaA<u8> {
    let (mut y, mut a) = (255u8, 0u8);
    for e in pal.iter().rev() {
        let m = 0u8.wrapping_sub((e[0] == id) as u8);
        y = y & !m | e[1] & m;
        a = a & !m | e[4] & m;
    }
    LumaA([y, a])
}
fn ref_pixels(s: &Set, n: usize) -> Vec<LumaA<u8>> {
    let ids = ref_rle(s.rle, n);
    (0..n).map(|i| if i < ids.len() { ref_color(s.pal, ids[i]) } else { CLEAR }).collect()
}

/// The pixels seen through the iterator, with the length contract checked at each step.
fn iter_pixels(img: &RleEncodedImage, n: usize) -> Vec<LumaA<u8>> {
    let mut it = img.iter();
    let mut v = Vec::new();
    loop {
        chk!(it.size_hint() == (n - v.len(), Some(n - v.len())));
        match it.next() {
            Some(p) => v.push(p),
            None => break,
        }
        if v.len() > n {
            break;
        }
    }
    chk!(v.len() == n);
    chk!(it.next().is_none() && it.next().is_none());
    v
}

fn rle_case<const L: usize>(wmax: u8, hmax: u8) {
    let w = sym::pick(0, wmax) as u16;
    let h = sym::pick(0, hmax) as u16;
    let pal = [sym::bytes::<5>()];
    let rle = sym::bytes::<L>();
    let s = Set { pal: &pal, w, h, rle: &rle };
    let n = w as usize * h as usize;
    let want = ref_pixels(&s, n);
    let (_, img) = s.decode();
    chk!(img.width() == w as u32 && img.height() == h as u32);
    let got = iter_pixels(&img, n);
    for (g, w) in got.iter().zip(&want) {
        chk!(g.0[0] == w.0[0]);
        chk!(g.0[1] == w.0[1]);
    }
    cov!();
    for g in got.iter().take(4) {
        sym::observe(&g.0);
    }
}
/// Pixels of every image up to 3x2 whose RLE data are any 5 bytes.
#[no_mangle]
pub fn h_pgs_rle() {
    rle_case::<5>(3, 2)
}
#[no_mangle]
pub fn h_pgs_rle_l() {
    rle_case::<8>(4, 3)
}

/// Long runs: an RLE code of any count, in an image wide enough to hold it.
#[no_mangle]
pub fn h_pgs_rle_run() {
    let pal = [sym::bytes::<5>(), sym::bytes::<5>()];
    sym::assume(pal[0][0] == 1 && pal[1][0] == 2);
    let f = sym::below(1, 255);
    let mut rle = vec![0, f, sym::u8()];
    rle.push(sym::u8());
    rle.push(2);
    rle.push(1);
    // count encoded, and position of the code that follows
    let long = f & 0x40 != 0;
    let mut n = (f & 0x3f) as u16;
    let mut c = 0;
    let mut at = 2;
    if long {
        n = n << 8 | rle[2] as u16;
        at = 3;
    }
    if f & 0x80 != 0 {
        c = rle[at];
        at += 1;
    }
    sym::assume(n <= 300 && rle[at] != 0);
    let n = sym::conc(n as u64) as u16;
    let s = Set { pal: &pal, w: n + 1, h: 1, rle: &rle };
    let (_, img) = s.decode();
    let want = ref_color(&pal, c);
    let next = ref_color(&pal, rle[at]);
    let mut same = true;
    let mut k = 0;
    for p in img.iter() {
        let e = if k < n { want } else { next };
        same &= (p.0[0] == e.0[0]) & (p.0[1] == e.0[1]);
        k += 1;
    }
    chk!(k == n + 1);
    chk!(same);
    cov!();
}

/// Runs of any length, in the widest image: the color changes after exactly that many pixels.
fn run_any(hi: u8) {
    // the upper six bits of the count, one path each; the lower ones are free
    let h = sym::pick(0, hi) as u8;
    let lo = sym::u8();
    let n = u16::from(h) << 8 | u16::from(lo);
    sym::assume(n > 0);
    let (mut pal, id) = ([sym::bytes::<5>(), sym::bytes::<5>()], sym::bool());
    (pal[0][0], pal[0][1], pal[1][0], pal[1][1]) = (7, 10, 9, 20);
    let mut rle = if id { vec![0, 0xc0 | h, lo, 7] } else { vec![0, 0x40 | h, lo] };
    if !id {
        pal[0][0] = 0;
    }
    rle.push(9);
    let s = Set { pal: &pal, w: 16385, h: 1, rle: &rle };
    let (_, img) = s.decode();
    let mut it = img.iter();
    let mut k = 0;
    loop {
        match it.next() {
            Some(LumaA([10, _])) => k += 1,
            Some(LumaA([20, a])) => {
                chk!(k == n);
                chk!(a == pal[1][4]);
                break;
            }
            _ => {
                chk!(false);
                break;
            }
        }
    }
    chk!(it.len() == 16384 - usize::from(k));
    chk!(matches!(it.next(), Some(CLEAR)));
    cov!();
}
#[no_mangle]
pub fn h_pgs_rle_long() {
    run_any(63)
}

/// Palette lookups: any ids, in any order and with gaps, for any pixel colors.
fn palette_case<const E: usize, const P: usize>() {
    let mut pal = [[0u8; 5]; E];
    for e in pal.iter_mut() {
        *e = sym::bytes::<5>();
    }
    for i in 0..E {
        for j in 0..i {
            sym::assume(pal[i][0] != pal[j][0]);
        }
    }
    let mut rle = Vec::new();
    for i in 0..P {
        let c = sym::u8();
        if i == 0 {
            // the color may be zero through the run form
            rle.extend_from_slice(&[0, 0x81, c]);
        } else {
            sym::assume(c != 0);
            rle.push(c);
        }
    }
    let s = Set { pal: &pal, w: P as u16, h: 1, rle: &rle };
    let want = ref_pixels(&s, P);
    let (_, img) = s.decode();
    let mut k = 0;
    for p in img.iter() {
        chk!(p.0[0] == want[k].0[0] && p.0[1] == want[k].0[1]);
        k += 1;
    }
    chk!(k == P);
    let mut k = 0;
    // the caller's own conversion sees the entry of the pixel, transparent white when there is none
    for p in img.pixels::<u8>(|e| LumaA([e.luminance, e.transparency])) {
        chk!(p.0[0] == want[k].0[0] && p.0[1] == want[k].0[1]);
        k += 1;
    }
    chk!(k == P);
    // and in another type of subpixels
    let mut k = 0;
    for p in img.clone().pixels::<u16>(|e| LumaA([u16::from(e.transparency), 257 * u16::from(e.luminance)])) {
        let w = want[k].0;
        let none = w[0] == 255 && w[1] == 0;
        chk!((p.0[1] == 257 * u16::from(w[0]) && p.0[0] == u16::from(w[1])) | (none && p.0[0] == 65535 && p.0[1] == 0));
        k += 1;
    }
    chk!(k == P);
    cov!();
}
#[no_mangle]
pub fn h_pgs_palette() {
    palette_case::<3, 2>()
}
#[no_mangle]
pub fn h_pgs_palette_l() {
    palette_case::<6, 3>()
}
/// Large palettes: every id, in several orders, whatever the number of entries.
#[no_mangle]
pub fn h_pgs_palette_full() {
    let n = [1usize, 127, 128, 129, 255, 256, 300, 2000][sym::pick(0, 7)];
    let step = [1u8, 255, 77][sym::pick(0, 2)];
    let first = sym::below(0, 255);
    let first = sym::conc(u64::from(first & 0x81)) as u8;
    let (l, a) = (sym::u8(), sym::u8());
    let mut pal = Vec::with_capacity(n);
    for k in 0..n {
        // entries over 256 repeat the ones before
        let id = first.wrapping_add((k as u8).wrapping_mul(step));
        pal.push([id, l.wrapping_add(id), 0, 0, a ^ id]);
    }
    let c = sym::u8();
    let rle = [0, 0x82, c];
    let s = Set { pal: &pal, w: 2, h: 1, rle: &rle };
    let (_, img) = s.decode();
    let rank = |c: u8| {
        let mut r = 256;
        for k in 0..n.min(256) {
            if pal[k][0] == c {
                r = k;
            }
        }
        r
    };
    let known = rank(c) < 256;
    let mut k = 0;
    for p in img.iter() {
        if known {
            chk!(p.0[0] == l.wrapping_add(c) && p.0[1] == a ^ c);
            cov!();
        } else {
            chk!(p.0[0] == 255 && p.0[1] == 0);
            cov!();
        }
        k += 1;
    }
    chk!(k == 2);
}
#[no_mangle]
pub fn h_pgs_palette_x() {
    palette_case::<9, 4>()
}
/// A palette of any size: refused when it is not one of whole entries.
#[no_mangle]
pub fn h_pgs_palette_size() {
    let n = sym::pick(0, 23);
    let b = sym::bytes::<23>();
    let mut d = vec![];
    seg(&mut d, 0, 0x14, &b[..n]);
    let good = n >= 2 && n % 5 == 2;
    seg(&mut d, 0, 0x15, &[0, 0, 0, 0xc0, 0, 0, 5, 0, 1, 0, 1, 9]);
    seg(&mut d, 90, 0x80, &[]);
    seg(&mut d, 180, 0x80, &[]);
    let mut p = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    match p.next() {
        Some(Ok((_, i))) => {
            chk!(good);
            let g = i.iter().next().unwrap_or(LumaA([0, 0])).0;
            let (mut any, mut same) = (false, false);
            for e in b[2.min(n)..n].chunks(5) {
                any |= e[0] == 9;
                same |= (e[0] == 9) & (e[1] == g[0]) & (e[4] == g[1]);
            }
            chk!(same | (!any & (g[1] == 0)));
            cov!();
        }
        Some(Err(_)) => chk!(!good),
        None => chk!(false),
    }
}
#[no_mangle]
pub fn h_pgs_palette_xx() {
    palette_case::<14, 4>()
}

/// Generated images against the pixels, for any border and colors.
fn image_case(wmax: u8, hmax: u8, bmax: u8) {
    let w = sym::pick(0, wmax) as u16;
    let h = sym::pick(0, hmax) as u16;
    let n = w as usize * h as usize;
    let pal = [sym::bytes::<5>()];
    let data: Vec<u8> = (0..sym::pick(0, n as u8 + 1)).map(|_| sym::below(1, 255)).collect();
    let s = Set { pal: &pal, w, h, rle: &data };
    let px = ref_pixels(&s, n);
    let (_, img) = s.decode();
    // a conversion that keeps all the information, and one per channel
    let rgba = RleToImage::new(&img, |p: LumaA<u8>| image::Rgba([p.0[0], p.0[1], p.0[0] ^ 0x55, !p.0[1]])).to_image();
    chk!(rgba.width() == w as u32 && rgba.height() == h as u32);
    chk!(rgba.as_raw().len() == n * 4);
    let mut same = true;
    for (i, p) in px.iter().enumerate() {
        let q = &rgba.as_raw()[i * 4..i * 4 + 4];
        same &= (q[0] == p.0[0]) & (q[1] == p.0[1]) & (q[2] == p.0[0] ^ 0x55) & (q[3] == !p.0[1]);
    }
    chk!(same);
    let border = sym::pick(0, bmax) as u32;
    let opt = ToOcrImageOpt { border, text_color: Luma([sym::u8()]), background_color: Luma([sym::u8()]) };
    let g = RleToImage::new(&img, |p: LumaA<u8>| Luma([p.0[0].wrapping_add(p.0[1].wrapping_mul(3))])).image(&opt);
    let (gw, gh) = (w as u32 + 2 * border, h as u32 + 2 * border);
    chk!(g.width() == gw && g.height() == gh);
    let mut same = true;
    for y in 0..gh {
        for x in 0..gw {
            let v = g.as_raw()[(y * gw + x) as usize];
            let inside = x >= border && y >= border && x - border < w as u32 && y - border < h as u32;
            let e = if inside {
                let p = px[((y - border) * w as u32 + (x - border)) as usize];
                p.0[0].wrapping_add(p.0[1].wrapping_mul(3))
            } else {
                opt.background_color.0[0]
            };
            same &= v == e;
        }
    }
    chk!(same);
    cov!();
}
/// An image of more than 65535 pixels, its runs of all lengths up to its width, in two fragments, or one byte per pixel.
fn big(w: u16, h: u16, raw: bool) {
    let mut pal = [[0u8; 5]; 4];
    for (i, e) in pal.iter_mut().enumerate() {
        *e = sym::bytes();
        e[0] = [3, 200, 17, 0][i];
    }
    let mut rle = Vec::new();
    let mut at = Vec::new(); // palette position of each pixel
    for y in 0..h {
        let n = (y * 7) % w + 1;
        for (i, k) in [(y as usize % if raw { 3 } else { 4 }, n), ((y as usize + 1) % 3, w - n)] {
            let id = pal[i][0];
            if raw {
                (0..k).for_each(|_| rle.push(id));
            } else if k > 0 {
                let f = if id == 0 { 0 } else { 0x80 };
                if k < 64 && y % 2 == 0 {
                    rle.extend_from_slice(&[0, f | k as u8]);
                } else {
                    rle.extend_from_slice(&[0, f | 0x40 | (k >> 8) as u8, k as u8]);
                }
                if id != 0 {
                    rle.push(id);
                }
            }
            (0..k).for_each(|_| at.push(i));
        }
        rle.extend_from_slice(&[0, 0]);
    }
    let cut = if raw { 60_000 } else { rle.len() / 2 };
    let mut d = Vec::new();
    seg(&mut d, 0, PDS, &pds_body(&pal));
    seg(&mut d, 0, ODS, &ods_first(0x80, w, h, rle.len(), &rle[..cut]));
    let mut last = ods_head(0x40);
    last.extend_from_slice(&rle[cut..]);
    seg(&mut d, 0, ODS, &last);
    seg(&mut d, 90, END, &[]);
    seg(&mut d, 180, END, &[]);
    let Ok(Some((_, img))) = DecodeTimeImage::parse_next(&mut Cursor::new(&d[..])) else {
        chk!(false);
        return;
    };
    chk!(img.width() == u32::from(w) && img.height() == u32::from(h));
    let mut same = true;
    let mut n = 0;
    for p in img.iter() {
        let e = &pal[at[n]];
        same &= (p.0[0] == e[1]) & (p.0[1] == e[4]);
        n += 1;
    }
    chk!(n == at.len());
    chk!(same);
    let g = RleToImage::new(&img, |p: LumaA<u8>| p).to_image();
    chk!(g.dimensions() == (w.into(), h.into()));
    let mut same = true;
    for (p, &i) in g.as_raw().chunks(2).zip(&at) {
        same &= (p[0] == pal[i][1]) & (p[1] == pal[i][4]);
    }
    chk!(same);
    let opt = ToOcrImageOpt { border: 3, ..ToOcrImageOpt::default() };
    let g = RleToImage::new(&img, |p: LumaA<u8>| Luma([p.0[0] ^ p.0[1]])).image(&opt);
    let (gw, gh) = (usize::from(w) + 6, usize::from(h) + 6);
    chk!(g.dimensions() == (gw as u32, gh as u32));
    let mut same = true;
    for (k, p) in g.as_raw().iter().enumerate() {
        let (x, y) = (k % gw, k / gw);
        let e = if x < 3 || y < 3 || x >= gw - 3 || y >= gh - 3 {
            255
        } else {
            let e = &pal[at[(y - 3) * usize::from(w) + x - 3]];
            e[1] ^ e[4]
        };
        same &= *p == e;
    }
    chk!(same);
    cov!();
}
#[no_mangle]
pub fn h_pgs_big() {
    if sym::bool() {
        big(700, 100, false)
    } else {
        big(260, 256, true)
    }
}
#[no_mangle]
pub fn h_pgs_big_l() {
    big(1920, 200, false)
}
#[no_mangle]
pub fn h_pgs_big_x() {
    big(1920, 1080, false)
}
#[no_mangle]
pub fn h_pgs_image_l() {
    image_case(3, 3, 3)
}
#[no_mangle]
pub fn h_pgs_image_x() {
    image_case(4, 4, 4)
}

/// An object split over two segments is the object of one segment.
fn frag_case<const L: usize>() {
    let w = sym::u16();
    let h = sym::u16();
    let pal = [sym::bytes::<5>()];
    let rle = sym::bytes::<L>();
    let k = sym::pick(0, L as u8);
    let (start, end) = (sym::u32(), sym::u32());
    let mut d = Vec::new();
    let pds_late = sym::bool();
    if !pds_late {
        seg(&mut d, sym::u32(), PDS, &pds_body(&pal));
    }
    seg(&mut d, sym::u32(), ODS, &ods_first(0x80, w, h, L, &rle[..k]));
    if pds_late {
        seg(&mut d, sym::u32(), PDS, &pds_body(&pal));
    }
    let mut last = ods_head(0x40);
    last.extend_from_slice(&rle[k..]);
    seg(&mut d, sym::u32(), ODS, &last);
    seg(&mut d, start, END, &[]);
    seg(&mut d, end, END, &[]);
    let mut c = Cursor::new(&d[..]);
    match DecodeTimeImage::parse_next(&mut c) {
        Ok(Some((t, img))) => {
            chk!(t.start.msecs() == ms(start) && t.end.msecs() == ms(end));
            chk!(img.width() == w as u32 && img.height() == h as u32);
            sym::assume(w == 1 && h == 4 || w == 3 && h == 1);
            let n = sym::conc(w as u64 * h as u64) as usize;
            let s = Set { pal: &pal, w, h, rle: &rle };
            let want = ref_pixels(&s, n);
            let mut i = 0;
            for p in img.iter() {
                chk!(p.0[0] == want[i].0[0] && p.0[1] == want[i].0[1]);
                i += 1;
            }
            chk!(i == n);
            cov!();
        }
        _ => chk!(false),
    }
    chk!(matches!(DecodeTimeImage::parse_next(&mut c), Ok(None)));
}
#[no_mangle]
pub fn h_pgs_frag() {
    frag_case::<4>()
}
#[no_mangle]
pub fn h_pgs_frag_l() {
    frag_case::<7>()
}
#[no_mangle]
pub fn h_pgs_frag_x() {
    frag_case::<9>()
}

/// An object in one or two segments, with any sequence flags: only whole, and first then last, make an image.
#[no_mangle]
pub fn h_pgs_frag_flags() {
    let rle = [0x80 | sym::u8(), 3];
    let pal = [[3, 50, 0, 0, 60]];
    let two = sym::bool();
    let (a, b) = (sym::u8(), sym::u8());
    let mut d = Vec::new();
    seg(&mut d, 0, PDS, &pds_body(&pal));
    seg(&mut d, 0, ODS, &ods_first(a, 1, 1, 2, &rle[..if two { sym::pick(0, 1) } else { 2 }]));
    if two {
        let mut last = ods_head(b);
        // enough for the flag alone, and as much as a first segment has
        match sym::pick(0, 1) {
            0 => last = ods_first(b, 1, 1, 2, &rle),
            _ => last.extend_from_slice(&rle[1..]),
        }
        seg(&mut d, 0, ODS, &last);
    }
    seg(&mut d, 90, END, &[]);
    seg(&mut d, 180, END, &[]);
    let mut c = Cursor::new(&d[..]);
    match DecodeTimeImage::parse_next(&mut c) {
        Ok(Some((_, img))) => {
            if two {
                chk!((a == 0x80) & (b == 0x40));
            } else {
                chk!(a == 0xc0);
            }
            chk!(img.width() == 1 && img.height() == 1);
            cov!();
        }
        // the sizes may be wrong too
        Err(_) => chk!(two || a != 0xc0),
        Ok(None) => chk!(false),
    }
}
/// Fragments whose declared and carried sizes disagree are refused.
#[no_mangle]
pub fn h_pgs_frag_sizes() {
    let pal = [sym::bytes::<5>()];
    let total = sym::u32() & 0xff_ffff;
    let (k, l) = (sym::pick(0, 3), sym::pick(0, 3));
    let one = sym::bool();
    let mut d = Vec::new();
    seg(&mut d, 0, PDS, &pds_body(&pal));
    let data = sym::bytes::<6>();
    let mut b = ods_head(if one { 0xc0 } else { 0x80 });
    b.extend_from_slice(&total.to_be_bytes()[1..]);
    b.extend_from_slice(&[0, 1, 0, 2]);
    b.extend_from_slice(&data[..k]);
    seg(&mut d, 0, ODS, &b);
    if !one {
        let mut b = ods_head(0x40);
        b.extend_from_slice(&data[k..k + l]);
        seg(&mut d, 0, ODS, &b);
    }
    seg(&mut d, 0, END, &[]);
    seg(&mut d, 0, END, &[]);
    let r = DecodeTimeImage::parse_next(&mut Cursor::new(&d[..]));
    let carried = if one { k } else { k + l } as u32;
    let ok = matches!(r, Ok(Some(_)));
    chk!(ok == (total == carried + 4));
    if ok {
        cov!();
    } else {
        chk!(r.is_err());
        cov!();
    }
}

// ---------------------------------------------------------------- sequences

fn skip_seg(d: &mut Vec<u8>) {
    let k = sym::u8();
    sym::assume(k == PCS || k == WDS);
    let body = sym::bytes::<3>();
    let n = sym::pick(0, 3);
    seg(d, sym::u32(), k, &body[..n]);
}

/// Several subtitles in a stream: each one has its own times, size and colors, in both decoders.
fn seq_case(subs: usize) {
    let mut d = Vec::new();
    let mut want = Vec::new();
    for _ in 0..subs {
        let (start, end) = (sym::u32(), sym::u32());
        let (w, h) = (sym::u16(), sym::u16());
        let pal = [sym::bytes::<5>()];
        let (has_pal, has_img) = (sym::bool(), sym::bool());
        skip_seg(&mut d);
        if has_pal {
            seg(&mut d, sym::u32(), PDS, &pds_body(&pal));
        }
        if has_img {
            seg(&mut d, sym::u32(), ODS, &ods_first(0xc0, w, h, 1, &[7]));
        }
        seg(&mut d, start, END, &[]);
        seg(&mut d, end, END, &[]);
        want.push((start, end, w, h, pal, has_pal, has_img));
    }
    let mut times = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&d[..]));
    let mut imgs = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    for &(start, end, w, h, pal, has_pal, has_img) in &want {
        match times.next() {
            Some(Ok(t)) => chk!(t.start.msecs() == ms(start) && t.end.msecs() == ms(end)),
            _ => chk!(false),
        }
        let r = imgs.next();
        if has_img && has_pal {
            match r {
                Some(Ok((t, img))) => {
                    chk!(t.start.msecs() == ms(start) && t.end.msecs() == ms(end));
                    chk!(img.width() == w as u32 && img.height() == h as u32);
                    sym::assume(w > 0 && h > 0);
                    let p = img.iter().next().unwrap();
                    let e = ref_color(&pal, 7);
                    chk!(p.0[0] == e.0[0] && p.0[1] == e.0[1]);
                    cov!();
                }
                _ => chk!(false),
            }
        } else if !has_img {
            chk!(matches!(r, Some(Err(PgsError::MissingImage))));
            cov!();
        } else {
            // the object has no palette in its own subtitle: never an image with other colors
            chk!(matches!(r, Some(Err(PgsError::MissingPalette))));
            cov!();
            return;
        }
    }
    chk!(times.next().is_none() && times.next().is_none());
    chk!(imgs.next().is_none() && imgs.next().is_none());
    cov!();
}
#[no_mangle]
pub fn h_pgs_seq_l() {
    seq_case(3)
}
#[no_mangle]
pub fn h_pgs_seq_x() {
    seq_case(4)
}

/// Several palettes and images in a subtitle, in any order: the last ones count.
fn repeat_case(n: usize) {
    let mut d = Vec::new();
    let (start, end) = (sym::u32(), sym::u32());
    let at = sym::pick(0, n as u8);
    let mut pal = None;
    let mut img = None;
    let mut missing = false;
    for i in 0..n {
        if i == at {
            seg(&mut d, start, END, &[]);
        }
        match sym::pick(0, 2) {
            0 => {
                let e = [sym::bytes::<5>()];
                seg(&mut d, 0, PDS, &pds_body(&e));
                pal = Some(e);
            }
            1 => {
                let (w, h) = (sym::u16(), sym::u16());
                seg(&mut d, 0, ODS, &ods_first(0xc0, w, h, 1, &[7]));
                match pal.take() {
                    Some(p) => img = Some((w, h, p)),
                    None => missing = true,
                }
            }
            _ => skip_seg(&mut d),
        }
        if missing {
            break;
        }
    }
    if !missing && at == n {
        seg(&mut d, start, END, &[]);
    }
    seg(&mut d, end, END, &[]);
    let r = DecodeTimeImage::parse_next(&mut Cursor::new(&d[..]));
    if missing {
        chk!(matches!(r, Err(PgsError::MissingPalette)));
        cov!();
        return;
    }
    match (r, img) {
        (Ok(Some((t, g))), Some((w, h, p))) => {
            chk!(t.start.msecs() == ms(start) && t.end.msecs() == ms(end));
            chk!(g.width() == w.into() && g.height() == h.into());
            sym::assume(w > 0 && h > 0);
            let x = g.iter().next().unwrap();
            let e = ref_color(&p, 7);
            chk!(x.0[0] == e.0[0] && x.0[1] == e.0[1]);
            cov!();
        }
        (Err(PgsError::MissingImage), None) => cov!(),
        _ => chk!(false),
    }
}
#[no_mangle]
pub fn h_pgs_repeat() {
    repeat_case(4)
}
#[no_mangle]
pub fn h_pgs_repeat_l() {
    repeat_case(5)
}

// ---------------------------------------------------------------- totality

fn drain_image(img: &RleEncodedImage) {
    let (w, h) = (img.width(), img.height());
    chk!(img.iter().len() == w as usize * h as usize);
    if w == 1 && h <= 2 {
        // small images are generated entirely
        let h = sym::conc(h as u64) as u32;
        match sym::pick(0, 2) {
            0 => chk!(img.iter().count() == h as usize),
            1 => {
                let i = RleToImage::new(img, |p| p).to_image();
                chk!(i.width() == 1 && i.height() == h);
            }
            _ => {
                let o = ToOcrImageOpt { border: 1, ..Default::default() };
                let g = RleToImage::new(img, |p: LumaA<u8>| Luma([p.0[0]])).image(&o);
                chk!(g.width() == 3 && g.height() == h + 2);
            }
        }
    } else if w == 65535 {
        // the first pixels of big ones
        let mut k = 0;
        for _ in img.iter().take(4) {
            k += 1;
        }
        chk!(k == if h == 0 { 0 } else { 4 });
    }
}

/// `SEGS` segments of any kind, with any body up to `max` bytes, after `tail` bytes are cut from the end.
fn segs_any(segs: usize, lens: &[usize]) {
    let mut d = Vec::new();
    let mut buf = [0u8; 32];
    for _ in 0..segs {
        let n = lens[sym::pick(0, lens.len() as u8 - 1)];
        sym::fill(&mut buf[..n]);
        seg(&mut d, sym::u32(), sym::u8(), &buf[..n]);
    }
    let mut p = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    for _ in 0..=d.len() / 13 {
        match p.next() {
            None => {
                chk!(p.next().is_none());
                cov!();
                return;
            }
            Some(Ok((_, img))) => {
                drain_image(&img);
                cov!();
            }
            Some(Err(_)) => {}
        }
    }
    // each item takes at least one segment header
    chk!(p.next().is_none());
}
/// Segments with sizes around the ones of empty, palette and object segments.
#[no_mangle]
pub fn h_pgs_segs() {
    segs_any(2, &[0, 1, 2, 3, 4, 7, 10, 11, 12])
}

/// Well framed segments, made up when the parser asks for them.
struct Lazy {
    d: Vec<u8>,
    pos: usize,
    left: usize,
    ods: &'static [usize],
    pds: &'static [usize],
}
impl Lazy {
    fn more(&mut self) {
        while self.pos >= self.d.len() && self.left > 0 {
            self.left -= 1;
            let (kind, lens): (u8, &[usize]) = match sym::pick(0, 4) {
                0 => (PDS, self.pds),
                1 => (ODS, self.ods),
                2 => (END, &[0]),
                3 => (WDS, &[3]),
                _ => {
                    let k = sym::u8();
                    sym::assume(k != PDS && k != ODS && k != END && k != WDS);
                    (k, &[0])
                }
            };
            let n = lens[sym::pick(0, lens.len() as u8 - 1)];
            let mut buf = [0u8; 32];
            sym::fill(&mut buf[..n]);
            seg(&mut self.d, sym::u32(), kind, &buf[..n]);
        }
    }
}
impl Read for Lazy {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let s = self.fill_buf()?;
        let n = s.len().min(b.len());
        b[..n].copy_from_slice(&s[..n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Lazy {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.more();
        Ok(&self.d[self.pos.min(self.d.len())..])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Seek for Lazy {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let p = match s {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(x) => self.pos as i64 + x,
            SeekFrom::End(x) => self.d.len() as i64 + x,
        };
        if p < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}
fn segs_lazy(segs: usize, ods: &'static [usize], pds: &'static [usize], first: bool) {
    let mut r = Lazy { d: Vec::new(), pos: 0, left: segs, ods, pds };
    if first {
        seg(&mut r.d, sym::u32(), PDS, &sym::bytes::<7>());
    }
    for _ in 0..=segs {
        match DecodeTimeImage::parse_next(&mut r) {
            Ok(None) => {
                chk!(r.left == 0);
                cov!();
                return;
            }
            Ok(Some((_, img))) => {
                drain_image(&img);
                cov!();
            }
            Err(_) => {
                cov!();
                return;
            }
        }
    }
    chk!(false);
}
/// Segments of any kinds.
#[no_mangle]
pub fn h_pgs_segs_n() {
    segs_lazy(4, &[0, 3, 4, 5, 10, 11, 12, 13], &[0, 1, 2, 6, 7, 12], false)
}
/// A palette, then segments of any kinds.
#[no_mangle]
pub fn h_pgs_segs_f() {
    segs_lazy(4, &[4, 5, 11, 12], &[7], true)
}
#[no_mangle]
pub fn h_pgs_segs_n_l() {
    segs_lazy(5, &[4, 5, 11, 12], &[1, 2, 7], false)
}
#[no_mangle]
pub fn h_pgs_segs_f_l() {
    segs_lazy(5, &[4, 11, 12], &[7], true)
}

/// Any stream of bytes.
fn img_any<const N: usize>() {
    let d = sym::bytes::<N>();
    let mut p = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    for _ in 0..=N / 13 {
        match p.next() {
            None => {
                chk!(p.next().is_none());
                cov!();
                return;
            }
            Some(Ok((_, img))) => drain_image(&img),
            Some(Err(_)) => {}
        }
    }
    chk!(p.next().is_none());
}
#[no_mangle]
pub fn h_pgs_img_any_l() {
    img_any::<44>()
}
#[no_mangle]
pub fn h_pgs_img_any_x() {
    img_any::<56>()
}

// ---------------------------------------------------------------- readers

/// A reader over `d` that gives at most `chunk` bytes at once, and may fail at one point.
struct Chunky<'a> {
    d: &'a [u8],
    pos: usize,
    chunk: usize,
    lazy: u8,         // how many sizes are still free
    other: usize,     // gives `chunk` bytes and `other` bytes in turn
    ops: usize,       // operations done
    fail_at: usize,   // operation that fails
    kind: io::ErrorKind,
    failed: bool,
}
impl Chunky<'_> {
    fn new(d: &[u8], chunk: usize) -> Chunky<'_> {
        Chunky { d, pos: 0, chunk, lazy: 0, other: chunk, ops: 0, fail_at: usize::MAX, kind: io::ErrorKind::Other, failed: false }
    }
    fn turn(&mut self) {
        if self.lazy > 0 {
            self.lazy -= 1;
            self.chunk = [1, 6, 64][sym::pick(0, 2)];
        } else {
            std::mem::swap(&mut self.chunk, &mut self.other);
        }
    }
    fn op(&mut self) -> io::Result<()> {
        self.ops += 1;
        if self.ops - 1 == self.fail_at {
            self.failed = true;
            return Err(self.kind.into());
        }
        Ok(())
    }
}
impl Read for Chunky<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.op()?;
        let p = self.pos.min(self.d.len());
        let n = (self.d.len() - p).min(b.len()).min(self.chunk);
        b[..n].copy_from_slice(&self.d[p..p + n]);
        self.pos += n;
        self.turn();
        Ok(n)
    }
}
impl BufRead for Chunky<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.op()?;
        let p = self.pos.min(self.d.len());
        let n = (self.d.len() - p).min(self.chunk);
        Ok(&self.d[p..p + n])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        self.turn();
    }
}
impl Seek for Chunky<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.op()?;
        let p = match s {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(x) => self.pos as i64 + x,
            SeekFrom::End(x) => self.d.len() as i64 + x,
        };
        if p < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

fn same_item(a: &Option<Result<(TimeSpan, RleEncodedImage), PgsError>>, b: &Option<Result<(TimeSpan, RleEncodedImage), PgsError>>, n: usize) {
    match (a, b) {
        (None, None) => {}
        (Some(Err(_)), Some(Err(_))) => {}
        (Some(Ok((t, i))), Some(Ok((u, j)))) => {
            chk!(t == u);
            chk!(i.width() == j.width() && i.height() == j.height());
            let (mut x, mut y) = (i.iter(), j.iter());
            for _ in 0..n {
                let (p, q) = (x.next(), y.next());
                chk!(p.is_some() == q.is_some());
                if let (Some(p), Some(q)) = (p, q) {
                    chk!(p.0[0] == q.0[0] && p.0[1] == q.0[1]);
                }
            }
            cov!();
        }
        _ => chk!(false),
    }
}

/// A subtitle with skipped segments, a palette and a split object; all the contents are free.
fn stream<const L: usize>() -> Vec<u8> {
    let mut d = Vec::new();
    let pal = [sym::bytes::<5>()];
    let rle = sym::bytes::<L>();
    let body = sym::bytes::<19>();
    seg(&mut d, 0, PCS, &body);
    seg(&mut d, 0, PDS, &pds_body(&pal));
    seg(&mut d, 0, ODS, &ods_first(0x80, 1, 2, L, &rle[..1]));
    let mut last = ods_head(0x40);
    last.extend_from_slice(&rle[1..]);
    seg(&mut d, 0, ODS, &last);
    seg(&mut d, sym::u32(), END, &[]);
    seg(&mut d, 0, WDS, &body[..2]);
    seg(&mut d, sym::u32(), END, &[]);
    d
}

/// The items do not depend on how the reader delivers the bytes.
#[no_mangle]
pub fn h_pgs_chunks() {
    let d = stream::<3>();
    let cut = d.len() - if sym::bool() { sym::pick(0, 30) } else { 0 };
    let d = &d[..cut];
    let mut a = SupParser::<_, DecodeTimeImage>::new(Cursor::new(d));
    let mut c = Chunky::new(d, sym::pick(1, 20));
    if sym::bool() {
        c.other = [1, 3, 12, 40][sym::pick(0, 3)];
    }
    let mut b = SupParser::<_, DecodeTimeImage>::new(c);
    for _ in 0..3 {
        let (x, y) = (a.next(), b.next());
        same_item(&x, &y, 3);
        if x.is_none() {
            break;
        }
    }
}
/// A reader whose every piece has a size of its own.
fn free_chunks(k: u8) {
    let d = stream::<2>();
    let mut a = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    let mut c = Chunky::new(&d, [1, 6, 64][sym::pick(0, 2)]);
    c.lazy = k;
    c.other = [3, 64][sym::pick(0, 1)];
    let mut b = SupParser::<_, DecodeTimeImage>::new(c);
    for _ in 0..2 {
        let (x, y) = (a.next(), b.next());
        same_item(&x, &y, 3);
    }
}
#[no_mangle]
pub fn h_pgs_chunks_free() {
    free_chunks(6)
}
#[no_mangle]
pub fn h_pgs_chunks_free_l() {
    free_chunks(9)
}
#[no_mangle]
pub fn h_pgs_bufreader() {
    let d = stream::<3>();
    let mut a = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    let cap = [1, 2, 5, 13, 14, 32, 64][sym::pick(0, 6)];
    let mut b = SupParser::<_, DecodeTimeImage>::new(BufReader::with_capacity(cap, Chunky::new(&d[..], sym::pick(1, 4) * 7)));
    let mut t = SupParser::<_, DecodeTimeOnly>::new(BufReader::with_capacity(cap, Chunky::new(&d[..], 9)));
    for _ in 0..2 {
        let (x, y) = (a.next(), b.next());
        same_item(&x, &y, 3);
        match (t.next(), x) {
            (Some(Ok(t)), Some(Ok((u, _)))) => chk!(t == u),
            (None, None) => {}
            _ => chk!(false),
        }
    }
}
/// Same for any bytes.
fn chunks_any<const N: usize>() {
    let d = sym::bytes::<N>();
    let mut pos = 0;
    let mut r = Chunky::new(&d, sym::pick(1, 15));
    for _ in 0..3 {
        let want = ref_time(&d, &mut pos);
        let got = ev(&DecodeTimeOnly::parse_next(&mut r), |t| *t);
        chk!(got == want);
        if want == Ev::None {
            cov!();
            break;
        }
    }
}
#[no_mangle]
pub fn h_pgs_chunks_any_l() {
    chunks_any::<42>()
}
#[no_mangle]
pub fn h_pgs_chunks_any_x() {
    chunks_any::<52>()
}

/// Skipping and reading data move in the reader by what is asked, or say why not.
#[no_mangle]
pub fn h_pgs_skip() {
    use subtile::pgs::{ReadError, ReadExt};
    let d = sym::bytes::<24>();
    let mut c = Chunky::new(&d, [1, 3, 7, 24][sym::pick(0, 3)]);
    c.fail_at = sym::pick(0, 5);
    c.kind = sym::error_kind(1);
    let kind = c.kind;
    let mut r = BufReader::with_capacity([1, 4, 9, 32][sym::pick(0, 3)], c);
    // First some bytes are read, so that the buffer is partly consumed.
    let first = sym::pick(0, 5);
    let mut b = [0; 5];
    if let Err(e) = r.read_buffer(&mut b[..first]) {
        match e {
            ReadError::FailedReadBuffer { source, buffer_size } => chk!(source.kind() == kind && buffer_size == first),
            _ => chk!(false),
        }
        chk!(r.get_ref().failed);
        return;
    }
    for i in 0..first {
        chk!(b[i] == d[i]);
    }
    // The count is small, or any number that cannot be a position.
    let n = if sym::bool() { sym::pick(0, 12) as u64 } else { sym::u64() | 1 << 63 };
    match r.skip_data(n as usize) {
        Ok(()) => {
            chk!(n <= 12);
            let mut b = [0];
            match r.read_buffer(&mut b) {
                Ok(()) => chk!(b[0] == d[first + n as usize]),
                Err(ReadError::FailedReadBuffer { source, buffer_size }) => {
                    chk!(r.get_ref().failed && source.kind() == kind && buffer_size == 1);
                    cov!();
                }
                Err(_) => chk!(false),
            }
            cov!();
        }
        Err(ReadError::InvalidSeekValue { value, .. }) => {
            chk!(n > 12 && value as u64 == n);
            cov!();
        }
        Err(ReadError::FailedFillBuf(e) | ReadError::FailedSeek(e)) => {
            chk!(r.get_ref().failed && e.kind() == kind);
            cov!();
        }
        Err(_) => chk!(false),
    }
}
/// A reader that fails: the failure is reported, at the item it prevents, and nothing is made up.
#[no_mangle]
pub fn h_pgs_fault() {
    let d = stream::<3>();
    if sym::bool() {
        fault_image(&d);
    } else {
        fault_time(&d);
    }
}
/// The same without standard output, and with the text of each error.
#[no_mangle]
pub fn h_pgs_fault_out() {
    let d = stream::<3>();
    sym::no_out();
    let mut r = Chunky::new(&d, 40);
    r.fail_at = sym::pick(0, 24);
    let x = DecodeTimeImage::parse_next(&mut r);
    chk!(x.is_err() == r.failed);
    if let Err(e) = &x {
        sym::tell_now(e);
        cov!();
    }
    let mut r = Chunky::new(&d, 40);
    r.fail_at = sym::pick(0, 18);
    let x = DecodeTimeOnly::parse_next(&mut r);
    chk!(x.is_err() == r.failed);
    if let Err(e) = &x {
        sym::tell_now(e);
        cov!();
    }
}
fn fault_image(d: &[u8]) {
    let mut a = SupParser::<_, DecodeTimeImage>::new(Cursor::new(d));
    let mut r = Chunky::new(d, 40);
    r.fail_at = sym::pick(0, 24);
    r.kind = sym::error_kind(2);
    let x = DecodeTimeImage::parse_next(&mut r);
    if r.failed {
        chk!(x.is_err());
        cov!();
        return;
    }
    same_item(&a.next(), &x.transpose(), 3);
    let y = DecodeTimeImage::parse_next(&mut r);
    if r.failed {
        chk!(y.is_err());
        cov!();
    } else {
        chk!(matches!(y, Ok(None)));
    }
}
fn fault_time(d: &[u8]) {
    let mut r = Chunky::new(d, 40);
    r.fail_at = sym::pick(0, 18);
    r.kind = sym::error_kind(2);
    for _ in 0..2 {
        let x = DecodeTimeOnly::parse_next(&mut r);
        if r.failed {
            chk!(x.is_err());
            cov!();
            return;
        }
        chk!(x.is_ok());
    }
}
/// An interrupted read is not a failure.
#[no_mangle]
pub fn h_pgs_interrupted() {
    let d = stream::<3>();
    let mut a = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    let mut r = BufReader::with_capacity(16, Chunky::new(&d, 40));
    r.get_mut().fail_at = sym::pick(0, 24);
    r.get_mut().kind = io::ErrorKind::Interrupted;
    let x = DecodeTimeImage::parse_next(&mut r);
    if x.is_ok() {
        same_item(&a.next(), &x.transpose(), 3);
        cov!();
    } else {
        // only through operations that do not retry by themselves
        chk!(r.get_ref().failed);
    }
}

/// Parsing from a file gives what parsing from memory gives.
#[no_mangle]
pub fn h_pgs_file() {
    let d = stream::<3>();
    let path = sym::file(&d, "a.sup");
    let mut a = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    match SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(&path) {
        Ok(mut b) => {
            for _ in 0..2 {
                same_item(&a.next(), &b.next(), 3);
            }
        }
        Err(_) => chk!(false),
    }
    let none = format!("{path}.missing");
    chk!(matches!(SupParser::<BufReader<std::fs::File>, DecodeTimeOnly>::from_file(&none), Err(PgsError::Io { .. })));
}

// ---------------------------------------------------------------- memory

/// A header whose size is `n`, whatever follows it.
fn head(out: &mut Vec<u8>, kind: u8, n: u16) {
    out.extend_from_slice(b"PG");
    out.extend_from_slice(&[0, 0, 0, 90, 0, 0, 0, 0, kind]);
    out.extend_from_slice(&n.to_be_bytes());
}
/// A few bytes that announce any sizes.
#[no_mangle]
pub fn h_mem_pgs() {
    let mut d = Vec::with_capacity(200);
    let which = sym::pick(0, 3);
    head(&mut d, PDS, 7);
    d.extend_from_slice(&sym::bytes::<7>());
    match which {
        // a palette of any size
        0 => {
            head(&mut d, PDS, sym::u16());
            d.extend_from_slice(&sym::bytes::<7>());
        }
        // an object of any sizes
        1 => {
            head(&mut d, ODS, sym::u16());
            d.extend_from_slice(&sym::bytes::<14>());
        }
        // two fragments of any sizes
        2 => {
            head(&mut d, ODS, 13);
            d.extend_from_slice(&sym::bytes::<3>());
            d.push(0x80);
            d.extend_from_slice(&sym::bytes::<9>());
            head(&mut d, ODS, sym::u16());
            d.extend_from_slice(&sym::bytes::<3>());
            d.push(0x40);
            d.extend_from_slice(&sym::bytes::<2>());
        }
        // any segment of any size
        _ => {
            head(&mut d, sym::u8(), sym::u16());
            d.extend_from_slice(&sym::bytes::<3>());
        }
    }
    head(&mut d, END, 0);
    head(&mut d, END, 0);
    sym::max_request(1 << 16);
    let mut r = Cursor::new(&d[..]);
    for _ in 0..2 {
        let _ = DecodeTimeOnly::parse_next(&mut r);
    }
    sym::max_request(1 << 24);
    let mut r = Cursor::new(&d[..]);
    for _ in 0..2 {
        let x = DecodeTimeImage::parse_next(&mut r);
        if let Ok(Some((_, img))) = &x {
            sym::max_request(1);
            for p in img.iter().take(3) {
                sym::observe(&p.0);
            }
            sym::max_request(1 << 24);
            cov!();
        }
    }
    cov!();
}

// ---------------------------------------------------------------- end

/// A reader that has no data at one moment, and has the rest of them later (a file being written).
struct Gap<'a> {
    d: &'a [u8],
    pos: usize,
    at: usize,
    empty: u8,
}
impl Gap<'_> {
    fn left(&mut self) -> usize {
        if self.pos == self.at && self.empty > 0 {
            self.empty -= 1;
            return 0;
        }
        let to = if self.pos < self.at { self.at } else { self.d.len() };
        to.saturating_sub(self.pos)
    }
}
impl Read for Gap<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.left().min(b.len());
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Gap<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let n = self.left();
        Ok(&self.d[self.pos..self.pos + n])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Seek for Gap<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if let SeekFrom::Current(x) = s {
            self.pos = (self.pos + x as usize).min(self.d.len());
        }
        Ok(self.pos as u64)
    }
}
fn stays<D: subtile::pgs::PgsDecoder>(d: &[u8], at: usize, n: u8) {
    let mut p = SupParser::<_, D>::new(Gap { d, pos: 0, at, empty: n });
    let mut end = false;
    for _ in 0..5 {
        match p.next() {
            None => {
                end = true;
                cov!();
            }
            Some(_) => chk!(!end),
        }
    }
}
/// Once the end is given, it is given for ever, even when the reader has data again.
#[no_mangle]
pub fn h_pgs_fused() {
    let mut d = stream::<2>();
    let e = stream::<2>();
    d.extend_from_slice(&e);
    let at = sym::pick(0, d.len() as u8);
    let n = sym::pick(0, 3) as u8;
    if sym::bool() {
        stays::<DecodeTimeImage>(&d, at, n)
    } else {
        stays::<DecodeTimeOnly>(&d, at, n)
    }
}
