//! Harnesses for the `VobSub` (`.sub`) side.
use crate::sym;
use subtile::content::AreaValues;
use subtile::image::{ImageArea, ImageSize};
use subtile::time::TimeSpan;
use subtile::vobsub::{ErrorMissing, Sub, VobSubError, VobSubIndexedImage};

type Item = Result<(TimeSpan, VobSubIndexedImage), VobSubError>;

fn be16(b: &[u8]) -> u16 {
    u16::from_be_bytes([b[0], b[1]])
}
/// The value if it is at most `room`, one value past it otherwise.
fn near(n: usize, room: usize) -> usize {
    if n > room {
        room + 1
    } else {
        sym::conc(n as u64) as usize
    }
}

// ---------------------------------------------------------------- writing of streams

/// Header of a pack: the clock, the rate and the stuffing are free.
fn pack_head(d: &mut Vec<u8>, stuffing: usize) {
    d.extend_from_slice(&[0, 0, 1, 0xba]);
    let f = if sym::telling() { [9; 10] } else { sym::bytes::<10>() };
    d.push(f[0] & 0x3b | 0x44);
    d.push(f[1]);
    d.push(f[2] | 0x04);
    d.push(f[3]);
    d.push(f[4] | 0x04);
    d.push(f[5] | 0x01);
    d.push(f[6]);
    d.push(f[7]);
    d.push(f[8] | 0x03);
    d.push(f[9] & 0xf8 | stuffing as u8);
    let mut s = [0u8; 8];
    sym::fill(&mut s[..stuffing]);
    d.extend_from_slice(&s[..stuffing]);
}
fn stamp(d: &mut Vec<u8>, tag: u8, t: u64) {
    d.push(tag << 4 | ((t >> 30) as u8 & 7) << 1 | 1);
    d.push((t >> 22) as u8);
    d.push(((t >> 15) as u8) << 1 | 1);
    d.push((t >> 7) as u8);
    d.push((t as u8) << 1 | 1);
}
#[derive(Clone, Copy)]
enum Stamps {
    No,
    Pts(u64),
    Both(u64, u64),
}
/// A packet of the private stream; the flags that do not matter are free.
fn pes(d: &mut Vec<u8>, s: Stamps, extra: usize, sub: u8, data: &[u8]) {
    d.extend_from_slice(&[0, 0, 1, 0xbd]);
    let n = match s {
        Stamps::No => 0,
        Stamps::Pts(_) => 5,
        Stamps::Both(..) => 10,
    } + extra;
    d.extend_from_slice(&((3 + n + 1 + data.len()) as u16).to_be_bytes());
    let f = if sym::telling() { 0x15 } else { sym::u8() & 0x3f };
    d.push(if sym::telling() { 0x81 } else { sym::u8() & 0x3f | 0x80 });
    match s {
        Stamps::No => d.extend_from_slice(&[f, n as u8]),
        Stamps::Pts(t) => {
            d.extend_from_slice(&[f | 0x80, n as u8]);
            stamp(d, 2, t);
        }
        Stamps::Both(t, u) => {
            d.extend_from_slice(&[f | 0xc0, n as u8]);
            stamp(d, 3, t);
            stamp(d, 1, u);
        }
    }
    let mut s = [0u8; 8];
    sym::fill(&mut s[..extra]);
    d.extend_from_slice(&s[..extra]);
    d.push(sub);
    d.extend_from_slice(data);
}
fn pack(d: &mut Vec<u8>, pts: u64, sub: u8, data: &[u8]) {
    pack_head(d, 0);
    pes(d, Stamps::Pts(pts), 0, sub, data);
}
/// Any 33-bit time stamp.
fn pts() -> u64 {
    let t = u64::from(sym::u32());
    if sym::bool() {
        t | 1 << 32
    } else {
        t
    }
}
const PTS: u64 = 90_000;

/// Bytes of a command.
fn c_area(x1: u16, x2: u16, y1: u16, y2: u16) -> [u8; 7] {
    [
        5,
        (x1 >> 4) as u8,
        (x1 << 4) as u8 | (x2 >> 8) as u8 & 15,
        x2 as u8,
        (y1 >> 4) as u8,
        (y1 << 4) as u8 | (y2 >> 8) as u8 & 15,
        y2 as u8,
    ]
}
/// A subtitle packet: image data, then control sequences `(date, commands)`.
fn packet(rle: &[u8], seqs: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut p = vec![0, 0];
    let mut at = 4 + rle.len();
    p.extend_from_slice(&(at as u16).to_be_bytes());
    p.extend_from_slice(rle);
    for (i, (date, cmds)) in seqs.iter().enumerate() {
        p.extend_from_slice(&date.to_be_bytes());
        let next = at + 4 + cmds.len() + 1;
        p.extend_from_slice(&(if i + 1 < seqs.len() { next } else { at } as u16).to_be_bytes());
        p.extend_from_slice(cmds);
        p.push(0xff);
        at = next;
    }
    let n = p.len() as u16;
    p[..2].copy_from_slice(&n.to_be_bytes());
    p
}
/// Commands of a complete subtitle.
fn cmds(stop: bool, pal: [u8; 2], alpha: [u8; 2], area: [u8; 7], rle: [u16; 2]) -> Vec<u8> {
    let mut c = vec![1];
    if stop {
        c.push(2);
    }
    c.extend_from_slice(&[3, pal[0], pal[1], 4, alpha[0], alpha[1]]);
    c.extend_from_slice(&area);
    c.push(6);
    c.extend_from_slice(&rle[0].to_be_bytes());
    c.extend_from_slice(&rle[1].to_be_bytes());
    c
}
fn open(d: &[u8]) -> Sub {
    let p = sym::file(d, "a.sub");
    match Sub::open(&p) {
        Ok(s) => s,
        Err(_) => {
            chk!(false);
            unreachable!()
        }
    }
}
fn items(s: &Sub) -> impl Iterator<Item = Item> + '_ {
    s.subtitles::<(TimeSpan, VobSubIndexedImage)>()
}

// ---------------------------------------------------------------- reference reading

struct Pkt {
    pts: Option<u64>,
    sub: u8,
    at: usize,
    end: usize,
}
enum Next {
    Pkt(Pkt),
    Cut,
    End,
}
fn ref_stamp(b: &[u8], tag: u8) -> Option<u64> {
    let ok = (b[0] >> 4 == tag) & (b[0] & 1 == 1) & (b[2] & 1 == 1) & (b[4] & 1 == 1);
    let hi = u64::from(b[0] >> 1 & 7) << 30;
    let mid = u64::from(be16(&b[1..3]) >> 1) << 15;
    let lo = u64::from(be16(&b[3..5]) >> 1);
    if ok {
        Some(hi | mid | lo)
    } else {
        None
    }
}
/// The next packet of the private stream.
fn ref_pes(d: &[u8], pos: &mut usize) -> Next {
    loop {
        loop {
            if *pos + 4 > d.len() {
                *pos = d.len();
                return Next::End;
            }
            let b = &d[*pos..*pos + 4];
            if (b[0] == 0) & (b[1] == 0) & (b[2] == 1) & (b[3] == 0xba) {
                break;
            }
            *pos += 1;
        }
        let h = &d[*pos..];
        *pos += 4; // where the search goes on if this is not a packet
        if h.len() < 14 {
            continue;
        }
        let marks = (h[4] & 0xc4 == 0x44) & (h[6] & 4 == 4) & (h[8] & 4 == 4) & (h[9] & 1 == 1) & (h[12] & 3 == 3);
        if !marks {
            continue;
        }
        let p = 14 + sym::conc(u64::from(h[13] & 7)) as usize;
        if h.len() < p + 6 {
            continue;
        }
        if !((h[p] == 0) & (h[p + 1] == 0) & (h[p + 2] == 1) & (h[p + 3] == 0xbd)) {
            continue;
        }
        let room = h.len() - p - 6;
        let n = near(usize::from(be16(&h[p + 4..p + 6])), room);
        if n > room {
            *pos = d.len();
            return Next::Cut;
        }
        let q = &h[p + 6..p + 6 + n];
        if n < 4 || q[0] >> 6 != 2 || q[1] >> 6 == 1 {
            continue;
        }
        let k = near(usize::from(q[2]), n - 4);
        if k > n - 4 {
            continue;
        }
        let pts = if q[1] & 0x80 == 0 {
            None
        } else {
            let both = q[1] & 0x40 != 0;
            let r = if both {
                if k < 10 || ref_stamp(&q[8..13], 1).is_none() {
                    continue;
                }
                ref_stamp(&q[3..8], 3)
            } else {
                if k < 5 {
                    continue;
                }
                ref_stamp(&q[3..8], 2)
            };
            if r.is_none() {
                continue;
            }
            r
        };
        let at = *pos - 4 + p + 6;
        *pos = at + n;
        return Next::Pkt(Pkt { pts, sub: q[3 + k], at: at + 3 + k + 1, end: at + n });
    }
}

struct RefSub {
    start: u16, // 1/100 s after the PTS
    end: Option<u16>,
    area: AreaValues,
    palette: [u8; 4],
    alpha: [u8; 4],
    lines: RefImg,
}
/// Result of the decoding of an image.
enum RefImg {
    Ok(Vec<u8>),
    Bad,
    /// A code word is cut by the end of the data: what it gives is not specified.
    Cut,
}
/// Why a subtitle is refused.
#[derive(PartialEq, Clone, Copy)]
enum Why {
    Short,
    /// A control offset out of the packet.
    Outside,
    Control,
    Area,
    Backwards,
    Missing(u8),
    Offsets,
}
fn nibbles(b: u16) -> [u8; 4] {
    // the last nibble is the one of the color 0
    [b as u8 & 15, (b >> 4) as u8 & 15, (b >> 8) as u8 & 15, (b >> 12) as u8]
}
fn ref_line(d: &[u8], at: &mut usize, w: usize, out: &mut Vec<u8>) -> u8 {
    let mut nib = 0; // position in half bytes from `at`
    let mut x = 0;
    while x < w {
        let mut v = 0u16;
        let mut len = 0;
        loop {
            let i = *at + nib / 2;
            if i >= d.len() {
                return 2;
            }
            let half = if nib % 2 == 0 { d[i] >> 4 } else { d[i] & 15 };
            v = v << 4 | u16::from(half);
            nib += 1;
            len += 1;
            if len == 4 || v >= [4, 16, 64][len - 1] {
                break;
            }
        }
        let val = v as u8 & 3;
        let cnt = v >> 2;
        if usize::from(cnt) > w - x {
            return 1;
        }
        let cnt = sym::conc(cnt.into()) as usize;
        for _ in 0..if cnt == 0 { w - x } else { cnt } {
            out.push(val);
            x += 1;
        }
    }
    *at += nib.div_ceil(2);
    0
}
fn ref_image(d: [&[u8]; 2], w: usize, h: usize) -> RefImg {
    let mut at = [0; 2];
    let mut out = Vec::new();
    for y in 0..h {
        match ref_line(d[y % 2], &mut at[y % 2], w, &mut out) {
            0 => {}
            1 => return RefImg::Bad,
            _ => return RefImg::Cut,
        }
    }
    RefImg::Ok(out)
}
/// Reference reading of a subtitle packet. Images are decoded up to 4x4.
fn ref_sub(r: &[u8]) -> Result<RefSub, Why> {
    if r.len() < 4 {
        return Err(Why::Short);
    }
    let first = near(usize::from(be16(&r[2..4])), r.len());
    let mut off = first;
    let (mut start, mut end, mut area, mut pal, mut alpha, mut rle) = (None, None, None, None, None, None);
    loop {
        if off >= r.len() {
            return Err(Why::Outside);
        }
        if off + 4 > r.len() {
            return Err(Why::Control);
        }
        let date = be16(&r[off..]);
        let next = be16(&r[off + 2..]);
        let mut p = off + 4;
        let mut bad_area = false;
        loop {
            if p >= r.len() {
                return Err(Why::Control);
            }
            let c = r[p];
            if c == 0xff {
                break;
            }
            let n = match c {
                0..=2 => 0,
                3 | 4 => 2,
                5 => 6,
                6 => 4,
                _ => 99,
            };
            if p + 1 + n > r.len() {
                // unknown command, up to the end mark
                while p < r.len() && r[p] != 0xff {
                    p += 1;
                }
                continue;
            }
            let a = &r[p + 1..p + 1 + n];
            p += 1 + n;
            match c {
                1 => start = start.or(Some(date)),
                2 => end = end.or(Some(date)),
                3 => pal = pal.or(Some(nibbles(be16(a)))),
                4 => alpha = alpha.or(Some(nibbles(be16(a)))),
                5 => {
                    let v = AreaValues {
                        x1: be16(a) >> 4,
                        x2: be16(&a[1..]) & 0xfff,
                        y1: be16(&a[3..]) >> 4,
                        y2: be16(&a[4..]) & 0xfff,
                    };
                    bad_area |= (v.x2 <= v.x1) | (v.y2 <= v.y1);
                    area = area.or(Some(v));
                }
                6 => rle = Some((be16(a), be16(&a[2..]))),
                _ => {}
            }
        }
        if bad_area {
            return Err(Why::Area);
        }
        if usize::from(next) < off {
            return Err(Why::Backwards);
        }
        let next = near(usize::from(next), r.len());
        if next == off {
            break;
        }
        off = next;
    }
    let start = start.ok_or(Why::Missing(0))?;
    let area: AreaValues = area.ok_or(Why::Missing(1))?;
    let palette = pal.ok_or(Why::Missing(2))?;
    let alpha = alpha.ok_or(Why::Missing(3))?;
    let (r0, r1) = rle.ok_or(Why::Missing(4))?;
    let stop = first + 2;
    if (r0 > r1) | (usize::from(r1) > stop) {
        return Err(Why::Offsets);
    }
    let (r0, r1) = (sym::conc(r0.into()) as usize, sym::conc(r1.into()) as usize);
    let (w, h) = (area.x2 - area.x1 + 1, area.y2 - area.y1 + 1);
    sym::assume(w <= 4 && h <= 4);
    let (w, h) = (sym::conc(w.into()) as usize, sym::conc(h.into()) as usize);
    let lines = ref_image([&r[r0..stop], &r[r1..stop]], w, h);
    Ok(RefSub { start, end, area, palette, alpha, lines })
}

enum Want {
    Sub(u64, RefSub),
    Err(Option<Why>),
    None,
}
/// Reference for the next item of a stream.
fn ref_item(d: &[u8], pos: &mut usize) -> Want {
    let p = match ref_pes(d, pos) {
        Next::Pkt(p) => p,
        Next::Cut => return Want::Err(None),
        Next::End => return Want::None,
    };
    let Some(t) = p.pts else { return Want::Err(None) };
    let mut r = d[p.at..p.end].to_vec();
    if r.len() < 2 {
        return Want::Err(None);
    }
    let n = usize::from(be16(&r));
    while n > r.len() {
        match ref_pes(d, pos) {
            Next::Pkt(q) => {
                if q.sub == p.sub {
                    r.extend_from_slice(&d[q.at..q.end]);
                }
            }
            Next::Cut => return Want::Err(None),
            Next::End => return Want::None,
        }
    }
    let n = sym::conc(n as u64) as usize;
    match ref_sub(&r[..n]) {
        Ok(s) => Want::Sub(t, s),
        Err(w) => Want::Err(Some(w)),
    }
}

/// Milliseconds of a date after a time stamp.
fn ms(pts: u64, date: u16) -> i64 {
    (pts / 90) as i64 + i64::from(date) * 10
}
fn close(got: i64, want: i64) -> bool {
    (got - want + 1) as u64 <= 2
}

fn same_sub(got: &(TimeSpan, VobSubIndexedImage), t: u64, r: &RefSub, times: bool) {
    let (span, img) = got;
    if times {
        chk!(close(span.start.msecs(), ms(t, r.start)));
        chk!(close(span.end.msecs(), match r.end {
            Some(e) => ms(t, e),
            None => ms(t, r.start) + 5000,
        }));
    }
    let a = img.area();
    chk!((a.left() == r.area.x1) & (a.top() == r.area.y1));
    chk!((a.width() == r.area.x2 - r.area.x1 + 1) & (a.height() == r.area.y2 - r.area.y1 + 1));
    chk!((img.width() == u32::from(a.width())) & (img.height() == u32::from(a.height())));
    for i in 0..4 {
        chk!((img.palette()[i] == r.palette[i]) & (img.alpha()[i] == r.alpha[i]));
    }
    match &r.lines {
        RefImg::Ok(l) => {
            let raw = img.raw_image();
            chk!(raw.len() == l.len());
            let mut same = true;
            for (x, y) in raw.iter().zip(l) {
                same &= x == y;
            }
            chk!(same);
        }
        RefImg::Bad => chk!(false),
        RefImg::Cut => {
            let raw = img.raw_image();
            chk!(raw.len() == usize::from(a.width()) * usize::from(a.height()));
            let mut good = true;
            for x in raw {
                good &= *x < 4;
            }
            chk!(good);
        }
    }
}
fn why(e: &VobSubError, w: Why) -> bool {
    match w {
        Why::Short => true,
        Why::Outside => matches!(e, VobSubError::ControlOffsetBiggerThanPacket { .. }),
        Why::Control => matches!(e, VobSubError::ControlSequence(_)),
        Why::Area => matches!(e, VobSubError::Content(_)),
        Why::Backwards => matches!(e, VobSubError::ControlOffsetWentBackwards),
        Why::Missing(k) => match e {
            VobSubError::MissingSubtitleParsing(m) => match m {
                ErrorMissing::StartTime => k == 0,
                ErrorMissing::Area => k == 1,
                ErrorMissing::Palette => k == 2,
                ErrorMissing::AlphaPalette => k == 3,
                ErrorMissing::RleOffset => k == 4,
                _ => false,
            },
            _ => false,
        },
        Why::Offsets => matches!(e, VobSubError::InvalidScanLineOffsets { .. }),
    }
}
/// The item is the expected one; true for a subtitle.
fn same_item(got: Option<Item>, want: &Want, times: bool) -> bool {
    if let Some(Err(e)) = &got {
        sym::tell(e);
    }
    match (got, want) {
        (None, Want::None) => {}
        (Some(Err(e)), Want::Err(Some(w))) => chk!(why(&e, *w)),
        (Some(Err(_)), Want::Err(None)) => {}
        (Some(Ok(s)), Want::Sub(t, r)) => {
            same_sub(&s, *t, r, times);
            return true;
        }
        (Some(Err(e)), Want::Sub(_, r)) => {
            chk!(!matches!(r.lines, RefImg::Ok(_)));
            chk!(matches!(e, VobSubError::Image(_)));
        }
        _ => chk!(false),
    }
    false
}

// ---------------------------------------------------------------- any bytes

fn any<const N: usize>() {
    let d = sym::bytes::<N>();
    let mut pos = 0;
    let s = open(&d);
    let mut it = items(&s);
    for _ in 0..=N / 20 + 1 {
        let want = ref_item(&d, &mut pos);
        let last = matches!(want, Want::None);
        same_item(it.next(), &want, true);
        if last {
            chk!(it.next().is_none());
            cov!();
            return;
        }
        cov!();
    }
    chk!(false);
}
/// Every file of some length.
#[no_mangle]
pub fn h_vob_any_l() {
    any::<26>()
}
#[no_mangle]
pub fn h_vob_any_x() {
    any::<30>()
}
/// Any bytes after the start code of a pack.
fn any_pack<const N: usize>() {
    let mut d = vec![0, 0, 1, 0xba];
    d.extend_from_slice(&sym::bytes::<N>());
    let mut pos = 0;
    let s = open(&d);
    let mut it = items(&s);
    for _ in 0..=d.len() / 24 {
        let want = ref_item(&d, &mut pos);
        let last = matches!(want, Want::None);
        same_item(it.next(), &want, true);
        if last {
            return;
        }
        cov!();
    }
}
#[no_mangle]
pub fn h_vob_any_pack() {
    any_pack::<23>()
}
#[no_mangle]
pub fn h_vob_any_pack_l() {
    any_pack::<26>()
}

/// Any subtitle packet of N bytes.
fn any_packet<const N: usize>() {
    let mut d = Vec::new();
    let r = sym::bytes::<N>();
    sym::assume(usize::from(be16(&r)) <= N);
    pack(&mut d, PTS, 0x20, &r);
    let mut pos = 0;
    let want = ref_item(&d, &mut pos);
    let s = open(&d);
    let mut it = items(&s);
    same_item(it.next(), &want, true);
    chk!(it.next().is_none());
    cov!();
}
#[no_mangle]
pub fn h_vob_any_packet() {
    any_packet::<9>()
}
#[no_mangle]
pub fn h_vob_any_packet_l() {
    any_packet::<12>()
}

// ---------------------------------------------------------------- times

/// The times of a subtitle with any time stamp and any dates.
#[no_mangle]
pub fn h_vob_times() {
    let t = pts();
    let (d0, d1) = (sym::u16(), sym::u16());
    let (pal, alpha) = (sym::bytes(), sym::bytes());
    let a = c_area(1, 2, 3, 4);
    let p = match sym::pick(0, 2) {
        0 => packet(&[0xaa], &[(d0, cmds(false, pal, alpha, a, [4, 4])), (d1, vec![2])]),
        1 => packet(&[0xaa], &[(d0, cmds(false, pal, alpha, a, [4, 4]))]),
        _ => packet(&[0xaa], &[(d0, vec![2]), (d1, cmds(false, pal, alpha, a, [4, 4]))]),
    };
    let mut d = Vec::new();
    pack(&mut d, t, 0x20, &p);
    let mut pos = 0;
    let want = ref_item(&d, &mut pos);
    let s = open(&d);
    let got = items(&s).next();
    if same_item(got, &want, true) {
        cov!();
    }
}
/// The time stamp is read whatever surrounds it.
#[no_mangle]
pub fn h_vob_stamps() {
    let t = pts();
    let a = c_area(1, 2, 3, 4);
    let p = packet(&[0xaa], &[(0, cmds(true, sym::bytes(), sym::bytes(), a, [4, 4]))]);
    let mut d = Vec::new();
    pack_head(&mut d, sym::pick(0, 7));
    let st = if sym::bool() { Stamps::Pts(t) } else { Stamps::Both(t, pts()) };
    pes(&mut d, st, sym::pick(0, 3), sym::u8(), &p);
    let s = open(&d);
    let got = items(&s).next();
    match got {
        Some(Ok((span, _))) => {
            chk!(close(span.start.msecs(), ms(t, 0)));
            chk!(close(span.end.msecs(), ms(t, 0)));
            cov!();
        }
        _ => chk!(false),
    }
}

// ---------------------------------------------------------------- control sequences

/// A command of any kind, with free arguments.
fn any_cmd(c: &mut Vec<u8>) {
    match sym::pick(0, 6) {
        0 => c.push(0),
        1 => c.push(1),
        2 => c.push(2),
        3 => {
            c.push(3);
            c.extend_from_slice(&sym::bytes::<2>());
        }
        4 => {
            c.push(4);
            c.extend_from_slice(&sym::bytes::<2>());
        }
        5 => {
            let (x, y) = (sym::u16() & 0x7ff, sym::u16() & 0x7ff);
            c.extend_from_slice(&c_area(x, x + 1, y, y + 1));
        }
        _ => c.extend_from_slice(&[6, 0, 4, 0, 4 + (sym::u8() & 1)]),
    }
}
/// Commands repeated, before and after a complete set: which one is used.
fn control(before: usize, after: usize) {
    let full = cmds(true, sym::bytes(), sym::bytes(), c_area(1, 2, 1, 2), [4, 5]);
    let mut first = Vec::new();
    for _ in 0..before {
        any_cmd(&mut first);
    }
    let mut last = Vec::new();
    for _ in 0..after {
        any_cmd(&mut last);
    }
    // in the same sequence or in others
    let p = match sym::pick(0, 2) {
        0 => {
            first.extend_from_slice(&full);
            first.extend_from_slice(&last);
            packet(&[0x56, 0x65], &[(1, first)])
        }
        1 => packet(&[0x56, 0x65], &[(1, first), (2, full), (3, last)]),
        _ => {
            first.extend_from_slice(&full);
            packet(&[0x56, 0x65], &[(7, first), (2, last)])
        }
    };
    let mut d = Vec::new();
    pack(&mut d, PTS, 0x20, &p);
    let mut pos = 0;
    let want = ref_item(&d, &mut pos);
    chk!(matches!(want, Want::Sub(..)));
    let s = open(&d);
    let got = items(&s).next();
    if same_item(got, &want, true) {
        cov!();
    }
}
#[no_mangle]
pub fn h_vob_control_l() {
    control(2, 2)
}

/// A subtitle without one of its parts, or with a free sequence of commands.
fn parts(n: usize) {
    let mut c = Vec::new();
    for _ in 0..n {
        any_cmd(&mut c);
    }
    let p = packet(&[0x56, 0x65], &[(sym::u16() & 0xff, c)]);
    let mut d = Vec::new();
    pack(&mut d, PTS, 0x20, &p);
    let mut pos = 0;
    let want = ref_item(&d, &mut pos);
    let s = open(&d);
    let mut it = items(&s);
    if same_item(it.next(), &want, true) {
        cov!();
    }
    chk!(it.next().is_none());
}
#[no_mangle]
pub fn h_vob_parts() {
    parts(5)
}
#[no_mangle]
pub fn h_vob_parts_l() {
    parts(6)
}

/// Any area, any palette and any alpha.
#[no_mangle]
pub fn h_vob_area() {
    let (x1, x2, y1, y2) = (sym::u16() & 0xfff, sym::u16() & 0xfff, sym::u16() & 0xfff, sym::u16() & 0xfff);
    let (pal, alpha) = (sym::bytes::<2>(), sym::bytes::<2>());
    let mut d = Vec::new();
    // lines of the background color: a "fill the line" code for each
    pack(&mut d, PTS, 0x20, &packet(&[0, 0], &[(0, cmds(true, pal, alpha, c_area(x1, x2, y1, y2), [4, 4]))]));
    let s = open(&d);
    if (x2 <= x1) | (y2 <= y1) {
        let got = items(&s).next();
    match got {
            Some(Err(e)) => chk!(matches!(e, VobSubError::Content(_))),
            _ => chk!(false),
        }
        cov!();
        return;
    }
    sym::assume(x2 - x1 <= 3 && y2 - y1 == 1);
    sym::conc((x2 - x1).into());
    let got = items(&s).next();
    match got {
        Some(Ok((_, img))) => {
            let a = img.area();
            chk!((a.left() == x1) & (a.top() == y1) & (a.width() == x2 - x1 + 1) & (a.height() == 2));
            let (p, q) = (nibbles(be16(&pal)), nibbles(be16(&alpha)));
            for i in 0..4 {
                chk!((img.palette()[i] == p[i]) & (img.alpha()[i] == q[i]));
            }
            cov!();
        }
        _ => chk!(false),
    }
}

/// Any offsets of the control sequences and of the image lines.
#[no_mangle]
pub fn h_vob_offsets() {
    let mut p = packet(
        &[0x56, 0x65],
        &[(0, vec![1, 3, 0x12, 0x34, 4, 0xff, 0xff, 2]), (5, cmds(true, [1, 2], [3, 4], c_area(0, 1, 0, 1), [4, 5])), (9, vec![2])],
    );
    // free: one of the offsets
    let n = p.len();
    let at = [2, 8, 21, 21 + 19, n - 4][sym::pick(0, 4)];
    let f = sym::bytes::<2>();
    let at = at.min(n - 2);
    p[at] = f[0];
    p[at + 1] = f[1];
    if sym::bool() {
        let o = n - 7 - 4;
        let g = sym::bytes::<4>();
        p[o..o + 4].copy_from_slice(&g);
    }
    let mut d = Vec::new();
    pack(&mut d, PTS, 0x20, &p);
    let mut pos = 0;
    let want = ref_item(&d, &mut pos);
    let s = open(&d);
    let got = items(&s).next();
    if same_item(got, &want, true) {
        cov!();
    }
}

// ---------------------------------------------------------------- image data

fn rle_case<const L: usize>(w: u16, h: u16) {
    let w = sym::pick(2, w as u8) as u16;
    let h = sym::pick(2, h as u8) as u16;
    let rle = sym::bytes::<L>();
    let o1 = sym::pick(0, L as u8) as u16;
    let mut d = Vec::new();
    let p = packet(&rle, &[(0, cmds(true, [0, 0], [0, 0], c_area(9, 9 + w - 1, 7, 7 + h - 1), [4, 4 + o1]))]);
    pack(&mut d, PTS, 0x20, &p);
    let mut pos = 0;
    let want = ref_item(&d, &mut pos);
    let s = open(&d);
    let got = items(&s).next();
    if same_item(got, &want, false) {
        cov!();
    }
}
/// Images up to 3x3 with any 3 bytes of data.
#[no_mangle]
pub fn h_vob_rle() {
    rle_case::<3>(3, 3)
}
#[no_mangle]
pub fn h_vob_rle_l() {
    rle_case::<5>(4, 4)
}
/// One code of any length in a wide image, and the code after it.
#[no_mangle]
pub fn h_vob_rle_run() {
    let v = sym::u16();
    let color = v as u8 & 3;
    let cnt = v >> 2;
    sym::assume(v < 0x400 && cnt > 0 || v < 4);
    let cnt = sym::conc(cnt.into()) as u16;
    let w: u16 = if cnt == 0 { 300 } else { cnt + 1 };
    let mut nib = Vec::new();
    let len = if v < 4 || v >= 0x100 { 4 } else if v >= 0x40 { 3 } else if v >= 0x10 { 2 } else { 1 };
    for i in (0..len).rev() {
        nib.push((v >> (4 * i)) as u8 & 15);
    }
    let after = sym::u8() & 3;
    if cnt > 0 {
        nib.push(4 | after);
    }
    if nib.len() % 2 == 1 {
        nib.push(sym::u8() & 15);
    }
    let line: Vec<u8> = nib.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
    let n = line.len() as u16;
    let mut rle = line.clone();
    rle.extend_from_slice(&line);
    let p = packet(&rle, &[(0, cmds(true, [0, 0], [0, 0], c_area(0, w - 1, 0, 1), [4, 4 + n]))]);
    let mut d = Vec::new();
    pack(&mut d, PTS, 0x20, &p);
    let s = open(&d);
    let got = items(&s).next();
    match got {
        Some(Ok((_, img))) => {
            let raw = img.raw_image();
            chk!(raw.len() == usize::from(w) * 2);
            let mut same = true;
            for (i, &x) in raw.iter().enumerate() {
                let x0 = (i % usize::from(w)) as u16;
                same &= x == if cnt == 0 || x0 < cnt { color } else { after };
            }
            chk!(same);
            cov!();
        }
        _ => chk!(false),
    }
}

/// A big image, in a subtitle packet carried by several PES packets with others between them.
fn big(w: u16, h: u16, chunk: usize) {
    let colors: [u8; 5] = std::array::from_fn(|_| sym::u8() & 3);
    let mut f = [Vec::new(), Vec::new()];
    let mut want = Vec::new();
    for y in 0..h {
        let mut nib = Vec::new();
        let mut x = 0;
        let mut k = y % 255 + 1;
        let mut i = usize::from(y) % 5;
        while x < w {
            let n = k.min(w - x);
            let c = colors[i % 5];
            // to the end of the line by its own code, on some lines
            let fill = x + n == w && y % 3 == 0;
            let v = if fill { 0 } else { n << 2 };
            let len = if fill || n >= 64 { 4 } else if n >= 16 { 3 } else if n >= 4 { 2 } else { 1 };
            for j in (1..len).rev() {
                nib.push((v >> (4 * j)) as u8 & 15);
            }
            nib.push(v as u8 & 12 | c);
            (0..n).for_each(|_| want.push(c));
            x += n;
            k = 255 - k % 250;
            i += 1;
        }
        if nib.len() % 2 == 1 {
            nib.push(0);
        }
        f[usize::from(y % 2)].extend(nib.chunks(2).map(|c| c[0] << 4 | c[1]));
    }
    let n = f[0].len() as u16;
    let mut rle = f[0].clone();
    rle.extend_from_slice(&f[1]);
    let p = packet(&rle, &[(1, cmds(true, [1, 2], [3, 4], c_area(2, w + 1, 3, h + 2), [4, 4 + n]))]);
    let mut d = Vec::new();
    for (i, c) in p.chunks(chunk).enumerate() {
        pack_head(&mut d, i % 8);
        pes(&mut d, if i == 0 { Stamps::Pts(PTS) } else { Stamps::No }, i % 3, 0x21, c);
        if i % 2 == 0 {
            pack(&mut d, 7, 0x22, &[0, 9, 8, 7]);
        }
    }
    let s = open(&d);
    let mut it = items(&s);
    match it.next() {
        Some(Ok((t, img))) => {
            chk!(close(t.start.msecs(), 1010));
            chk!(img.width() == u32::from(w) && img.height() == u32::from(h));
            let raw = img.raw_image();
            chk!(raw.len() == want.len());
            let mut same = true;
            for (x, y) in raw.iter().zip(&want) {
                same &= x == y;
            }
            chk!(same);
            cov!();
        }
        _ => chk!(false),
    }
}
#[no_mangle]
pub fn h_vob_big() {
    if sym::bool() {
        big(720, 200, 2000)
    } else {
        big(301, 301, 700)
    }
}
#[no_mangle]
pub fn h_vob_big_l() {
    big(1920, 1080, 2010)
}

// ---------------------------------------------------------------- packets

/// A small subtitle, with free palette, alpha and image line.
fn sample(date: u16) -> Vec<u8> {
    if sym::telling() {
        return packet(&[0x55, 0x66], &[(date, cmds(true, [1, 2], [3, 4], c_area(300, 301, 5, 6), [4, 5]))]);
    }
    let x = sym::u16() & 0x3ff;
    let pal = sym::bytes();
    packet(&[sym::u8() & 0x33 | 0x44, sym::u8() & 0x33 | 0x44], &[(date, cmds(true, pal, sym::bytes(), c_area(x, x + 1, 5, 6), [4, 5]))])
}

/// A subtitle split over packets, with others in between.
fn split(pieces: usize) {
    let p = sample(3);
    let quiet = !sym::telling();
    let id = if quiet { sym::u8() } else { 0x20 };
    let t = if quiet { u64::from(sym::u16()) } else { 9 };
    let mut d = Vec::new();
    let mut at = 0;
    let extra = if sym::bool() { 1 } else { 0 };
    for i in 0..pieces {
        let end = if i + 1 == pieces { p.len() } else { at + sym::pick(if i == 0 { 2 } else { 0 }, (p.len() - at) as u8) };
        if i > 0 && sym::bool() {
            // a packet of another stream
            let o = sym::u8();
            sym::assume(o != id);
            pack_head(&mut d, 0);
            pes(&mut d, Stamps::Pts(PTS), 0, o, &if quiet { sym::bytes::<3>() } else { [1, 20, 255] });
        }
        pack_head(&mut d, extra);
        let st = if i == 0 || extra == 1 { Stamps::Pts(t + 7 * i as u64) } else { Stamps::No };
        pes(&mut d, st, extra, id, &p[at..end]);
        at = end;
        if at == p.len() {
            break;
        }
    }
    let s = open(&d);
    let mut it = items(&s);
    match (it.next(), ref_sub(&p)) {
        (Some(Ok(g)), Ok(r)) => {
            same_sub(&g, t, &r, true);
            cov!();
        }
        _ => chk!(false),
    }
    chk!(it.next().is_none());
}
#[no_mangle]
pub fn h_vob_split_l() {
    split(3)
}

/// Bytes that are not part of a packet are skipped.
fn garbage<const N: usize>() {
    let p = sample(0);
    let g = sym::bytes::<N>();
    let k = sym::pick(0, N as u8);
    let mut d = Vec::new();
    d.extend_from_slice(&g[..k]);
    pack(&mut d, PTS, 0x20, &p);
    d.extend_from_slice(&g[k..]);
    pack(&mut d, PTS * 2, 0x21, &p);
    // no start code in the garbage, nor across its end
    let mut bad = false;
    let body = (d.len() - N) / 2;
    for i in 0..N {
        let at = if i < k { i } else { i + body };
        bad |= (d[at] == 0) & (d[at + 1] == 0) & (d[at + 2] == 1) & (d[at + 3] == 0xba);
    }
    sym::assume(!bad);
    let s = open(&d);
    let mut it = items(&s);
    let r = ref_sub(&p);
    for i in 1..=2 {
        match (it.next(), &r) {
            (Some(Ok(g)), Ok(r)) => {
                same_sub(&g, PTS * i, r, true);
                cov!();
            }
            _ => chk!(false),
        }
    }
    chk!(it.next().is_none());
}
#[no_mangle]
pub fn h_vob_garbage_l() {
    garbage::<9>()
}
#[no_mangle]
pub fn h_vob_garbage_x() {
    garbage::<14>()
}
#[no_mangle]
pub fn h_vob_garbage_xx() {
    garbage::<24>()
}
#[no_mangle]
pub fn h_vob_garbage_xxx() {
    garbage::<60>()
}
/// Packs that do not hold a packet of the private stream, or a damaged one, are skipped.
#[no_mangle]
pub fn h_vob_skip() {
    let p = sample(0);
    let mut d = Vec::new();
    match sym::pick(0, 3) {
        0 => {
            // another kind of packet: its contents have no start code
            pack_head(&mut d, 0);
            let k = sym::u8();
            sym::assume(k != 0xbd && k != 0xba);
            d.extend_from_slice(&[0, 0, 1, k, 0, 4]);
            let b = sym::bytes::<4>();
            sym::assume(b[3] != 0 && b[3] != 1);
            d.extend_from_slice(&b);
        }
        1 => {
            // two headers in a row
            pack_head(&mut d, 0);
        }
        2 => {
            // MPEG-1 pack
            d.extend_from_slice(&[0, 0, 1, 0xba, sym::u8() & 0x0f | 0x20, 9, 9, 9, 9, 9, 9, 9]);
        }
        _ => {
            // header data longer than the packet
            pack_head(&mut d, 0);
            let n = sym::u8();
            sym::assume(n > 1);
            d.extend_from_slice(&[0, 0, 1, 0xbd, 0, 5, 0x80, 0, n, 8, 8]);
        }
    }
    pack(&mut d, PTS, 0x20, &p);
    let s = open(&d);
    let mut it = items(&s);
    match (it.next(), ref_sub(&p)) {
        (Some(Ok(g)), Ok(r)) => {
            same_sub(&g, PTS, &r, true);
            cov!();
        }
        _ => chk!(false),
    }
    chk!(it.next().is_none());
}

/// Subtitles in a row, some of them damaged: each one has its own result.
fn row(n: usize) {
    let mut d = Vec::new();
    let mut want = Vec::new();
    for i in 0..n {
        let t = u64::from(sym::u16());
        let mut p = sample(i as u16);
        match sym::pick(0, 4) {
            0 => {
                want.push((t, Some(p.clone())));
                // bytes after the subtitle
                p.push(sym::u8());
                pack(&mut d, t, 0x20, &p);
            }
            1 => {
                want.push((t, Some(p.clone())));
                pack(&mut d, t, 0x20 + i as u8, &p);
            }
            2 => {
                // no time stamp
                want.push((t, None));
                pack_head(&mut d, 0);
                pes(&mut d, Stamps::No, 0, 0x20, &p);
            }
            3 => {
                // no size
                want.push((t, None));
                pack(&mut d, t, 0x20, &p[..sym::pick(0, 1)]);
            }
            _ => {
                // control offset out of the packet
                want.push((t, None));
                p[2] = 0x10;
                pack(&mut d, t, 0x20, &p);
            }
        }
    }
    let s = open(&d);
    let mut it = items(&s);
    for (t, p) in &want {
        match (it.next(), p) {
            (Some(Err(_)), None) => cov!(),
            (Some(Ok(g)), Some(p)) => match ref_sub(p) {
                Ok(r) => {
                    same_sub(&g, *t, &r, true);
                    cov!();
                }
                Err(_) => chk!(false),
            },
            _ => chk!(false),
        }
    }
    chk!(it.next().is_none() && it.next().is_none());
    // a second pass over the same data gives the same number of items
    chk!(items(&s).count() == n);
}
#[no_mangle]
pub fn h_vob_row_l() {
    row(3)
}
#[no_mangle]
pub fn h_vob_row_x() {
    row(4)
}

#[no_mangle]
pub fn h_vob_row_xx() {
    row(5)
}

/// A file cut anywhere: the complete subtitles are there, and nothing else.
#[no_mangle]
pub fn h_vob_cut() {
    let (p, q) = (sample(0), sample(4));
    let mut d = Vec::new();
    pack(&mut d, PTS, 0x20, &p);
    let first = d.len();
    pack(&mut d, PTS * 3, 0x20, &q[..9]);
    pack_head(&mut d, 0);
    pes(&mut d, Stamps::No, 0, 0x20, &q[9..]);
    let n = sym::pick(0, d.len() as u8);
    let s = open(&d[..n]);
    let mut it = items(&s);
    if n >= first {
        match (it.next(), ref_sub(&p)) {
            (Some(Ok(g)), Ok(r)) => same_sub(&g, PTS, &r, true),
            _ => chk!(false),
        }
    }
    let x = it.next();
    if n == d.len() {
        match (x, ref_sub(&q)) {
            (Some(Ok(g)), Ok(r)) => {
                same_sub(&g, PTS * 3, &r, true);
                cov!();
            }
            _ => chk!(false),
        }
    } else {
        chk!(!matches!(x, Some(Ok(_))));
        cov!();
    }
    chk!(it.next().is_none());
}

/// A file that is not there is an error with its path.
#[no_mangle]
pub fn h_vob_open() {
    let p = format!("{}.missing", sym::file(&[0], "x.sub"));
    match Sub::open(&p) {
        Err(VobSubError::Io { path, .. }) => chk!(path.to_str() == Some(p.as_str())),
        _ => chk!(false),
    }
}

// ---------------------------------------------------------------- with a log

/// The same with all the messages of the log written, and the text of each error.
/// A file of a subtitle between two packets of other kinds, with any K adjacent bytes at any place.
fn near_file<const K: usize>(step: usize) {
    let mut d = Vec::new();
    let p = packet(&[0x56, 0x65], &[(0, vec![1, 3, 0x12, 0x34, 4, 0xff, 0xff, 2]), (5, cmds(true, [1, 2], [3, 4], c_area(0, 1, 0, 1), [4, 5])), (9, vec![2])]);
    let head = [0, 0, 1, 0xba, 0x44, 1, 4, 2, 4, 1, 3, 5, 0xfb, 0xf8];
    d.extend_from_slice(&head);
    d.extend_from_slice(&[0, 0, 1, 0xbd, 0, 12, 0x81, 0x80, 5, 0x21, 0, 1, 0, 1, 0x20]);
    d.extend_from_slice(&p[..3]);
    d.extend_from_slice(&head);
    d.extend_from_slice(&[0, 0, 1, 0xbd, 0, p.len() as u8 + 1, 0x81, 0, 0, 0x20]);
    d.extend_from_slice(&p[3..]);
    let at = (sym::pick(0, ((d.len() - K) / step) as u8)) * step;
    sym::fill(&mut d[at..at + K]);
    let mut pos = 0;
    let s = open(&d);
    let mut it = items(&s);
    for _ in 0..4 {
        let want = ref_item(&d, &mut pos);
        let last = matches!(want, Want::None);
        same_item(it.next(), &want, true);
        if last {
            return;
        }
        cov!();
    }
    chk!(false);
}
#[no_mangle]
pub fn h_vob_near() {
    near_file::<2>(1)
}
#[no_mangle]
pub fn h_vob_near_l() {
    near_file::<3>(1)
}
#[no_mangle]
pub fn h_log_near() {
    sym::logging();
    near_file::<1>(1)
}
#[no_mangle]
pub fn h_log_near_l() {
    sym::logging();
    near_file::<2>(1)
}
#[no_mangle]
pub fn h_log_packet() {
    sym::logging();
    any_packet::<7>()
}
#[no_mangle]
pub fn h_log_split() {
    sym::logging();
    split(2)
}
#[no_mangle]
pub fn h_log_skip() {
    sym::logging();
    h_vob_skip()
}
#[no_mangle]
pub fn h_log_rle() {
    sym::logging();
    rle_case::<2>(2, 2)
}
#[no_mangle]
pub fn h_log_rle_l() {
    sym::logging();
    rle_case::<3>(3, 3)
}
/// A packet that announces any size, and an area of any size without data.
#[no_mangle]
pub fn h_mem_vob() {
    let mut d = Vec::with_capacity(400);
    let mut p = packet(&[0x56, 0x65], &[(0, vec![3, 0x12, 0x34, 4, 0xff, 0xff, 1]), (5, cmds(true, [1, 2], [3, 4], c_area(0, 1, 0, 1), [4, 5])), (9, vec![2])]);
    let at = p.len() - 12;
    chk!(p[at - 7] == 5);
    match sym::pick(0, 3) {
        0 => p[at - 6..at].copy_from_slice(&[0, 0x0f, 0xff, 0, 0x0f, 0xff]),
        // any width, and any height
        1 => p[at - 5] = sym::u8(),
        2 => p[at - 2] = sym::u8(),
        // any size of the packet
        _ => sym::fill(&mut p[..2]),
    }
    pack(&mut d, PTS, 0x20, &p);
    let s = open(&d);
    sym::max_request(1 << 24);
    let mut it = items(&s);
    for _ in 0..2 {
        if let Some(Ok((_, i))) = it.next() {
            let _ = i;
            cov!();
        }
    }
    let _ = s.subtitles::<TimeSpan>().next();
    cov!();
}
/// Data of any length after the two lines of an image: the messages that show them.
#[no_mangle]
pub fn h_log_lengths() {
    sym::logging();
    let n = sym::pick(0, 40);
    let mut image = vec![0x90, 0xa0];
    image.resize(2 + n, 0x55);
    let mut p = packet(&image, &[(0, cmds(true, [0, 1], [2, 3], c_area(0, 1, 0, 1), [4, 5])), (9, vec![2])]);
    // bytes after the packet
    let extra = if n == 1 { sym::pick(0, 20) } else { 0 };
    p.resize(p.len() + extra, 7);
    let mut d = Vec::new();
    pack(&mut d, PTS, 0x20, &p);
    let mut pos = 0;
    let want = ref_item(&d, &mut pos);
    let s = open(&d);
    if same_item(items(&s).next(), &want, true) {
        cov!();
    }
}
