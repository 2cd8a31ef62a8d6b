//! Histories: what is read, written or made does not depend on what was before, nor on what is at the same time.
use crate::sym;
use image::{ImageBuffer, Luma, LumaA, Rgb, Rgba};
use std::io::{BufReader, Cursor};
use subtile::image::{dump_images, ToImage, ToOcrImage, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, RleToImage};
use subtile::srt::write_srt;
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{conv_to_rgba, palette_rgb_to_luminance, Index, Palette, Sub, VobSubError, VobSubIndexedImage, VobSubOcrImage, VobSubToImage};
use subtile::SupParser;

// ---------------------------------------------------------------- PGS

/// A stream of two subtitles of one line of three pixels (one color, then free ids), in its own palette or without it.
struct Stream {
    d: Vec<u8>,
    t: [u32; 4],
    lum: [u8; 2],
    ids: [[u8; 2]; 2],
    good: [bool; 2],
}
fn seg(d: &mut Vec<u8>, pts: u32, kind: u8, body: &[u8]) {
    d.extend_from_slice(b"PG");
    d.extend_from_slice(&pts.to_be_bytes());
    d.extend_from_slice(&[0; 4]);
    d.push(kind);
    d.extend_from_slice(&(body.len() as u16).to_be_bytes());
    d.extend_from_slice(body);
}
impl Stream {
    fn new() -> Stream {
        let mut s = Stream { d: vec![], t: [0; 4], lum: sym::bytes(), ids: [sym::bytes(), sym::bytes()], good: [true; 2] };
        // in one of the two an object is missing, or not
        let bad = sym::pick(0, 2);
        for k in 0..2 {
            seg(&mut s.d, 0, 0x14, &[0, 0, 7, s.lum[k], 0, 0, 200]);
            s.good[k] = bad != k;
            if s.good[k] {
                let [a, b] = s.ids[k];
                seg(&mut s.d, 0, 0x15, &[0, 0, 0, 0xc0, 0, 0, 12, 0, 3, 0, 1, 7, 0, 0x81, a, 0, 0x81, b]);
            }
            for j in 0..2 {
                s.t[2 * k + j] = sym::u32();
                seg(&mut s.d, s.t[2 * k + j], 0x80, &[]);
            }
        }
        // the length of an object holds the size of the image
        for i in 0..s.d.len() - 18 {
            if s.d[i..i + 4] == [0, 0, 0, 0xc0] {
                s.d[i + 6] = 7 + 4;
            }
        }
        s
    }
    fn time(&self, k: usize, t: TimeSpan) {
        chk!(t.start.msecs() == i64::from(self.t[2 * k] / 90));
        chk!(t.end.msecs() == i64::from(self.t[2 * k + 1] / 90));
    }
    fn color(&self, k: usize, i: usize) -> (u8, u8) {
        let m = if i == 0 { 0xff } else { 0u8.wrapping_sub((self.ids[k][i - 1] == 7) as u8) };
        (self.lum[k] & m | !m, 200 & m)
    }
    fn image<R: std::io::BufRead + std::io::Seek>(&self, k: usize, p: &mut SupParser<R, DecodeTimeImage>) -> Option<subtile::pgs::RleEncodedImage> {
        match p.next() {
            Some(Ok((t, img))) => {
                chk!(self.good[k]);
                self.time(k, t);
                cov!();
                Some(img)
            }
            Some(Err(_)) => {
                chk!(!self.good[k]);
                None
            }
            None => {
                chk!(false);
                None
            }
        }
    }
}
/// Two streams read in turn, by both decoders, their images iterated in turn.
#[no_mangle]
pub fn h_hist_pgs() {
    let (a, b) = (Stream::new(), Stream::new());
    let mut p = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&a.d[..]));
    let mut q = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b.d[..]));
    let mut r = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&a.d[..]));
    for k in 0..2 {
        let x = a.image(k, &mut p);
        match r.next() {
            Some(Ok(t)) => a.time(k, t),
            _ => chk!(false),
        }
        let y = b.image(k, &mut q);
        if let (Some(x), Some(y)) = (&x, &y) {
            let (mut i, mut j, mut l) = (x.iter(), y.iter(), x.iter());
            for n in 0..3 {
                for (z, s) in [(i.next(), &a), (j.next(), &b), (l.next(), &a)] {
                    match z {
                        Some(LumaA(v)) => {
                            let w = s.color(k, n);
                            chk!(v[0] == w.0);
                            chk!(v[1] == w.1);
                        }
                        None => chk!(false),
                    }
                }
            }
            chk!(i.next().is_none() && j.next().is_none() && l.next().is_none());
            cov!();
        }
    }
    chk!(p.next().is_none() && q.next().is_none() && r.next().is_none());
}

/// A stream of one subtitle, whose object is in two fragments, cut at any place; then another one, from which a segment is missing.
fn after_cut<D: subtile::pgs::PgsDecoder>() {
    let mut d = vec![];
    seg(&mut d, 0, 0x14, &[0, 0, 7, sym::u8(), 0, 0, 200]);
    seg(&mut d, 0, 0x15, &[0, 0, 0, 0x80, 0, 0, 6, 0, 2, 0, 1, 7]);
    seg(&mut d, 0, 0x15, &[0, 0, 0, 0x40, 9]);
    seg(&mut d, sym::u32(), 0x80, &[]);
    seg(&mut d, sym::u32(), 0x80, &[]);
    let at = sym::pick(0, d.len() as u8);
    let full = at == d.len();
    let mut p = SupParser::<_, D>::new(Cursor::new(&d[..at]));
    match p.next() {
        Some(Ok(_)) => chk!(full),
        _ => chk!(!full),
    }
    // the parser may still be there
    let p = if sym::bool() { Some(p) } else { None };

    let lum = sym::u8();
    let t = [sym::u32(), sym::u32()];
    let miss = sym::pick(0, 5);
    let mut e = vec![];
    for k in (0..5).filter(|k| *k != miss) {
        match k {
            0 => seg(&mut e, 0, 0x14, &[0, 0, 7, lum, 0, 0, 200]),
            1 => seg(&mut e, 0, 0x15, &[0, 0, 0, 0x80, 0, 0, 6, 0, 2, 0, 1, 7]),
            2 => seg(&mut e, 0, 0x15, &[0, 0, 0, 0x40, 9]),
            _ => seg(&mut e, t[k - 3], 0x80, &[]),
        }
    }
    let mut q = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&e[..]));
    match q.next() {
        Some(Ok((s, i))) => {
            chk!(miss == 5);
            chk!(s.start.msecs() == i64::from(t[0] / 90));
            chk!(s.end.msecs() == i64::from(t[1] / 90));
            let mut i = i.iter();
            chk!(i.next() == Some(LumaA([lum, 200])));
            cov!();
        }
        Some(Err(_)) => chk!(miss < 3),
        None => chk!(miss == 3 || miss == 4),
    }
    let mut q = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&e[..]));
    match q.next() {
        Some(Ok(s)) => {
            chk!(miss < 3 || miss == 5);
            chk!(s.start.msecs() == i64::from(t[0] / 90));
            chk!(s.end.msecs() == i64::from(t[1] / 90));
        }
        Some(Err(_)) => chk!(false),
        None => chk!(miss == 3 || miss == 4),
    }
    chk!(q.next().is_none());
    if let Some(mut p) = p {
        if full {
            chk!(p.next().is_none());
        }
    }
}
#[no_mangle]
pub fn h_hist_pgs_cut() {
    if sym::bool() {
        after_cut::<DecodeTimeImage>()
    } else {
        after_cut::<DecodeTimeOnly>()
    }
}

// ---------------------------------------------------------------- VobSub

/// A file of two subtitles of 2x2 free pixels with free palette and alpha; the first one can be without stamp.
struct Pair {
    d: Vec<u8>,
    px: [[u8; 4]; 2],
    pal: [u16; 2],
    date: u16,
    good: bool,
}
impl Pair {
    fn new(date: u16) -> Pair {
        let good = sym::bool();
        let mut d = vec![];
        let mut px = [[0; 4]; 2];
        let pal = [sym::u16(), sym::u16()];
        for k in 0..2 {
            for v in &mut px[k] {
                *v = sym::u8() & 3;
            }
            let w = px[k];
            let line = |a: u8, b: u8| 0x44 | a << 4 | b;
            let mut p = vec![0, 0, 0, 6, line(w[0], w[1]), line(w[2], w[3]), (date >> 8) as u8, date as u8, 0, 6, 1, 3];
            p.extend_from_slice(&pal[k].to_be_bytes());
            p.push(4);
            p.extend_from_slice(&(!pal[k]).to_be_bytes());
            p.extend_from_slice(&[5, 0, 0, 1, 0, 0, 1, 6, 0, 4, 0, 5, 0xff]);
            p[1] = p.len() as u8;
            d.extend_from_slice(&[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 3, 0xf8, 0, 0, 1, 0xbd, 0]);
            if good || k == 1 {
                d.extend_from_slice(&[p.len() as u8 + 9, 0x81, 0x80, 5, 0x21, 0, 1, 0, 1, 0x20]);
            } else {
                d.extend_from_slice(&[p.len() as u8 + 4, 0x81, 0, 0, 0x20]);
            }
            d.extend_from_slice(&p);
        }
        Pair { d, px, pal, date, good }
    }
    fn check(&self, k: usize, item: Option<Result<(TimeSpan, VobSubIndexedImage), VobSubError>>) -> Option<VobSubIndexedImage> {
        match item {
            Some(Ok((t, img))) => {
                chk!(self.good || k == 1);
                chk!(t.start.msecs() == i64::from(self.date) * 10);
                chk!(t.end.msecs() == i64::from(self.date) * 10 + 5000);
                chk!(img.raw_image().len() == 4);
                for i in 0..4 {
                    chk!(img.raw_image()[i] == self.px[k][i]);
                    chk!(img.palette()[i] == (self.pal[k] >> (4 * i)) as u8 & 15);
                    chk!(img.alpha()[i] == (!self.pal[k] >> (4 * i)) as u8 & 15);
                }
                cov!();
                Some(img)
            }
            Some(Err(_)) => {
                chk!(k == 0 && !self.good);
                None
            }
            None => {
                chk!(false);
                None
            }
        }
    }
}
fn sub(p: &Pair, name: &str) -> Sub {
    match Sub::open(sym::file(&p.d, name)) {
        Ok(s) => s,
        Err(_) => panic!(),
    }
}
/// Two files read in turn, and one of them twice at the same time.
#[no_mangle]
pub fn h_hist_vob() {
    let (a, b) = (Pair::new(100), Pair::new(25));
    let (s, r) = (sub(&a, "a.sub"), sub(&b, "b.sub"));
    let (mut p, mut q) = (s.subtitles::<(TimeSpan, VobSubIndexedImage)>(), r.subtitles::<(TimeSpan, VobSubIndexedImage)>());
    let mut late = None;
    for k in 0..2 {
        a.check(k, p.next());
        b.check(k, q.next());
        if k == 0 {
            late = Some(s.subtitles::<(TimeSpan, VobSubIndexedImage)>());
        }
        if let Some(l) = &mut late {
            a.check(k, l.next());
        }
    }
    chk!(p.next().is_none() && q.next().is_none());
    chk!(late.map(|mut l| l.next().is_none()) == Some(true));
}

/// A subtitle in two packets, in a file cut at any place; then another one, from which a command is missing.
#[no_mangle]
pub fn h_hist_vob_cut() {
    fn packet(miss: usize, c: u8) -> Vec<u8> {
        let mut p = vec![0, 0, 0, 6, 0x44 | c, 0x44, 0, 0, 0, 6];
        for (k, cmd) in [&[1][..], &[3, c, c], &[4, 0xff, 0xf0 | c], &[5, 0, 0, 1, 0, 0, 1], &[6, 0, 4, 0, 5]].into_iter().enumerate() {
            if k != miss {
                p.extend_from_slice(cmd);
            }
        }
        p.push(0xff);
        p[1] = p.len() as u8;
        p
    }
    fn pack(d: &mut Vec<u8>, first: bool, p: &[u8]) {
        d.extend_from_slice(&[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 3, 0xf8, 0, 0, 1, 0xbd, 0]);
        if first {
            d.extend_from_slice(&[p.len() as u8 + 9, 0x81, 0x80, 5, 0x21, 0, 1, 0, 1, 0x20]);
        } else {
            d.extend_from_slice(&[p.len() as u8 + 4, 0x81, 0, 0, 0x20]);
        }
        d.extend_from_slice(p);
    }
    let p = packet(5, 1);
    let mut d = vec![];
    pack(&mut d, true, &p[..20]);
    pack(&mut d, false, &p[20..]);
    let at = sym::pick(0, d.len() as u8);
    let Ok(s) = Sub::open(sym::file(&d[..at], "a.sub")) else { return chk!(false) };
    let mut it = s.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    match it.next() {
        Some(Ok(_)) => chk!(at == d.len()),
        _ => chk!(at < d.len()),
    }
    let (miss, c) = (sym::pick(0, 5), sym::u8() & 3);
    let mut e = vec![];
    pack(&mut e, true, &packet(miss, c));
    let Ok(r) = Sub::open(sym::file(&e, "b.sub")) else { return chk!(false) };
    let mut jt = r.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    match jt.next() {
        Some(Ok((t, i))) => {
            chk!(miss == 5);
            chk!(t.start.msecs() == 0 && t.end.msecs() == 5000);
            chk!(i.palette()[0] == c && i.alpha()[0] == c);
            chk!(i.raw_image()[1] == c && i.raw_image()[2] == 0);
            cov!();
        }
        Some(Err(_)) => chk!(miss < 5),
        None => chk!(false),
    }
    chk!(jt.next().is_none());
    if at == d.len() {
        chk!(it.next().is_none());
    }
}

// ---------------------------------------------------------------- index

/// Indexes read one after the other: each has its own palette and language, or none; some cannot be read.
#[no_mangle]
pub fn h_hist_idx() {
    for n in 0..3 {
        let bad = if n < 2 { sym::pick(0, 2) } else { 0 };
        let (pal, lang) = (sym::bool(), sym::pick(0, 2));
        let c = sym::below(b'0', b'9');
        let mut t = b"# VobSub index file, v7\n".to_vec();
        if pal {
            t.extend_from_slice(b"palette: ");
            for k in 0..16 {
                t.extend_from_slice(if k == 0 { b"7" } else { b", 7" });
                t.push(c);
                t.extend_from_slice(b"a1b2");
            }
            t.push(b'\n');
        }
        t.extend_from_slice([&b""[..], b"id: fr, index: 0\n", b"id: --, index: 0\n"][lang]);
        t.extend_from_slice([&b""[..], b"palette: 0\n", b"\xff\n"][bad]);
        match Index::read_index(BufReader::new(&t[..]), &|_| VobSubError::LangParsing) {
            Ok(i) => {
                for k in 0..16 {
                    if pal {
                        chk!(i.palette()[k] == Rgb([c - b'0' + 0x70, 0xa1, 0xb2]));
                    }
                }
                if !pal {
                    chk!(i.palette()[1] == Rgb([0xf0, 0xf0, 0xf0]) && i.palette()[15] == Rgb([0x11, 0xbb, 0xbb]));
                }
                chk!(i.lang().as_ref().map(|l| l.lang()) == if lang == 1 { Some("fr") } else { None });
                chk!(bad == 0);
                cov!();
            }
            Err(_) => chk!(bad > 0),
        }
    }
}

// ---------------------------------------------------------------- texts, images

/// Lists written one after the other, possibly with failures, are each numbered from 1, and have nothing of the others.
#[no_mangle]
pub fn h_hist_srt() {
    for k in 0..3 {
        let n = sym::pick(0, 2);
        let c = sym::below(b' ', b'~');
        let t = TimeSpan::new(TimePoint::from_msecs(1), TimePoint::from_msecs(2));
        let subs: Vec<(TimeSpan, String)> = (0..n).map(|_| (t, String::from(c as char))).collect();
        let mut want = Vec::new();
        for k in 0..n {
            want.extend_from_slice(&[b'1' + k as u8]);
            want.extend_from_slice(b"\n00:00:00,001 --> 00:00:00,002\n");
            want.push(c);
            want.extend_from_slice(b"\n\n");
        }
        // a place that can be too small (the first time)
        let room = if k == 0 { sym::pick(0, 72) } else { 72 };
        let mut place = [0u8; 72];
        let mut rest = &mut place[..room];
        let r = write_srt(&mut rest, &subs);
        let done = room - rest.len();
        chk!(r.is_ok() == (room >= want.len()));
        chk!(done == want.len().min(room));
        for (x, y) in place[..done].iter().zip(&want) {
            chk!(x == y);
        }
        cov!();
    }
}
/// Images made one after the other from the same subtitle, with other palettes and options, and again with the first ones.
#[no_mangle]
pub fn h_hist_img() {
    let a = Pair::new(0);
    let s = sub(&a, "a.sub");
    let mut it = s.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    let one = a.check(0, it.next());
    let Some(two) = a.check(1, it.next()) else { return };
    let mut pal: [Palette; 2] = [[Rgb([0; 3]); 16]; 2];
    for p in &mut pal {
        for c in p {
            c.0[0] = sym::u8();
            c.0[1] = c.0[0];
            c.0[2] = c.0[0];
        }
    }
    let opts = [0, 1].map(|border| ToOcrImageOpt { border, text_color: Luma([sym::u8()]), background_color: Luma([sym::u8()]) });
    for n in 0..3 {
        let p = &pal[n & 1];
        let img = if n == 1 { one.as_ref().unwrap_or(&two) } else { &two };
        let k = if n == 1 && one.is_some() { 0 } else { 1 };
        let g: ImageBuffer<Rgba<u8>, Vec<u8>> = VobSubToImage::new(img, p, conv_to_rgba).to_image();
        chk!(g.dimensions() == (2, 2));
        let l = palette_rgb_to_luminance(p);
        let o = VobSubOcrImage::new(img, &l).image(&opts[n & 1]);
        let b = opts[n & 1].border;
        chk!(o.dimensions() == (2 + 2 * b, 2 + 2 * b));
        for i in 0..4usize {
            let v = u32::from(a.px[k][i]) * 4;
            let c = p[usize::from((a.pal[k] >> v) & 15)];
            let al = (!a.pal[k] >> v) as u8 & 15;
            let q = &g.as_raw()[4 * i..4 * i + 4];
            chk!((q[0] == c.0[0]) & (q[3] == al));
            let text = (al > 0) & (l[usize::from((a.pal[k] >> v) & 15)].0[0] > 0);
            let (x, y) = (i as u32 % 2 + b, i as u32 / 2 + b);
            let want = if text { opts[n & 1].text_color.0[0] } else { opts[n & 1].background_color.0[0] };
            chk!(o.as_raw()[(y * (2 + 2 * b) + x) as usize] == want);
        }
        cov!();
    }
}
/// The same for PGS, with two images of other sizes.
#[no_mangle]
pub fn h_hist_img_pgs() {
    let mut d = vec![];
    let (l, t) = (sym::bytes::<2>(), sym::u8());
    for k in 0..2u8 {
        seg(&mut d, 0, 0x14, &[0, 0, 7, l[k as usize], 0, 0, 255]);
        seg(&mut d, 0, 0x15, &[0, 0, 0, 0xc0, 0, 0, 8, 0, 2 - k, 0, 1 + k, 7, 0, 0x81, 9]);
        seg(&mut d, 0, 0x80, &[]);
        seg(&mut d, 0, 0x80, &[]);
    }
    let mut p = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d[..]));
    let mut imgs = vec![];
    for _ in 0..2 {
        match p.next() {
            Some(Ok((_, i))) => imgs.push(i),
            _ => chk!(false),
        }
    }
    for n in 0..3 {
        let k = n & 1;
        let i = &imgs[k];
        let conv = move |x: LumaA<u8>| Luma([x.0[0] ^ t]);
        let m = RleToImage::new(i, conv);
        let g = m.to_image();
        chk!(g.dimensions() == (2 - k as u32, 1 + k as u32));
        chk!(g.as_raw()[0] == l[k] ^ t && g.as_raw()[1] == 255 ^ t);
        let b = n as u32;
        let o = m.image(&ToOcrImageOpt { border: b, text_color: Luma([1]), background_color: Luma([t]) });
        let w = 2 - k as u32 + 2 * b;
        chk!(o.dimensions() == (w, 1 + k as u32 + 2 * b));
        chk!(o.as_raw()[(b * w + b) as usize] == l[k] ^ t);
        if b > 0 {
            chk!(o.as_raw()[0] == t);
        }
        cov!();
    }
}
/// Two dumps in two folders, and one over another: each is numbered from 0. Before them, another one that can fail.
#[no_mangle]
pub fn h_hist_dump() {
    let base = sym::dir();
    let fail = sym::pick(0, 2);
    if fail < 2 {
        chk!(std::fs::create_dir_all(format!("{base}/c/00000{fail}.png")).is_ok());
    }
    let imgs = [ImageBuffer::from_pixel(1, 1, Luma([1u8])), ImageBuffer::from_pixel(1, 1, Luma([2u8]))];
    chk!(dump_images(&format!("{base}/c"), &imgs).is_ok() == (fail == 2));
    let before = sym::nodes();
    let n = [sym::pick(0, 2), sym::pick(0, 2), sym::pick(0, 2)];
    for (k, folder) in ["a", "b", "a"].into_iter().enumerate() {
        let imgs: Vec<ImageBuffer<Luma<u8>, Vec<u8>>> = (0..n[k]).map(|i| ImageBuffer::from_raw(1, 1, vec![(40 * k + i) as u8]).unwrap()).collect();
        let path = format!("{base}/{folder}");
        chk!(dump_images(&path, &imgs).is_ok());
        for (i, img) in imgs.iter().enumerate() {
            let Ok(d) = std::fs::read(format!("{path}/{i:06}.png")) else { return chk!(false) };
            let Ok(g) = image::load_from_memory_with_format(&d, image::ImageFormat::Png) else { return chk!(false) };
            chk!(g.as_luma8() == Some(img));
        }
        cov!();
    }
    chk!(sym::nodes() == before + 2 + n[1] + n[0].max(n[2]));
}
