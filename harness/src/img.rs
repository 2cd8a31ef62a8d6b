//! Harnesses for the images made from subtitles, and for the areas.
use crate::sym;
use image::{LumaA, Rgb, Rgba};
use subtile::content::{Area, AreaValues};
use subtile::image::{luma_a_to_luma, luma_a_to_luma_convertor, ImageArea, ImageSize, Luma, ToImage, ToOcrImage, ToOcrImageOpt};
use subtile::vobsub::{conv_to_rgba, palette_rgb_to_luminance, Palette, VobSubIndexedImage, VobSubOcrImage, VobSubToImage};

fn nibbles() -> [u8; 4] {
    let b = sym::bytes::<2>();
    [b[0] >> 4, b[0] & 15, b[1] >> 4, b[1] & 15]
}
/// An image of any content, anywhere.
fn indexed(wmax: u8, hmax: u8) -> (VobSubIndexedImage, usize, usize, [u8; 4], [u8; 4], Vec<u8>) {
    let (w, h) = (sym::pick(2, wmax), sym::pick(2, hmax));
    let (x1, y1) = (sym::u16(), sym::u16());
    sym::assume((x1 < 65_000) & (y1 < 65_000));
    let a = AreaValues { x1, y1, x2: x1 + w as u16 - 1, y2: y1 + h as u16 - 1 };
    let (pal, alpha) = (nibbles(), nibbles());
    let mut raw = vec![0u8; w * h];
    sym::fill(&mut raw);
    for b in &mut raw {
        *b &= 3;
    }
    let area = Area::try_from(a).unwrap();
    (VobSubIndexedImage::new(area, pal, alpha, raw.clone()), w, h, pal, alpha, raw)
}
fn mix(c: Rgb<u8>, a: u8) -> LumaA<u8> {
    LumaA([c.0[0] ^ c.0[1].rotate_left(3) ^ c.0[2].rotate_left(5), a ^ 0xa5])
}

fn vob_to_image(wmax: u8, hmax: u8) {
    let (img, w, h, pal, alpha, raw) = indexed(wmax, hmax);
    let mut palette: Palette = [Rgb([0; 3]); 16];
    for c in &mut palette {
        c.0 = sym::bytes();
    }
    chk!(img.width() == w as u32 && img.height() == h as u32);
    chk!(img.raw_image().len() == w * h);
    let rgba = VobSubToImage::new(&img, &palette, conv_to_rgba).to_image();
    let other = VobSubToImage::new(&img, &palette, mix).to_image();
    chk!(rgba.dimensions() == (w as u32, h as u32) && other.dimensions() == (w as u32, h as u32));
    chk!(rgba.as_raw().len() == 4 * w * h && other.as_raw().len() == 2 * w * h);
    for i in 0..w * h {
        let v = raw[i] as usize;
        let c = palette[pal[v] as usize];
        let a = alpha[v];
        let p = &rgba.as_raw()[4 * i..4 * i + 4];
        chk!(p[0] == c.0[0]);
        chk!(p[1] == c.0[1]);
        chk!(p[2] == c.0[2]);
        chk!(p[3] == a);
        let q = &other.as_raw()[2 * i..2 * i + 2];
        let m = mix(c, a);
        chk!(q[0] == m.0[0]);
        chk!(q[1] == m.0[1]);
    }
    cov!();
}
/// Every pixel of the image has the color and the alpha of its index.
#[no_mangle]
pub fn h_img_vob_l() {
    vob_to_image(4, 4)
}
#[no_mangle]
pub fn h_img_vob_x() {
    vob_to_image(6, 5)
}

fn vob_to_ocr(wmax: u8, hmax: u8, bmax: u8) {
    let (img, w, h, pal, alpha, raw) = indexed(wmax, hmax);
    let border = sym::pick(0, bmax) as u32;
    let mut palette = [Luma([0u8]); 16];
    for c in &mut palette {
        c.0 = sym::bytes();
    }
    let opt = ToOcrImageOpt { border, text_color: Luma([sym::u8()]), background_color: Luma([sym::u8()]) };
    let g = VobSubOcrImage::new(&img, &palette).image(&opt);
    let (gw, gh) = (w as u32 + 2 * border, h as u32 + 2 * border);
    chk!(g.dimensions() == (gw, gh));
    chk!(g.as_raw().len() == (gw * gh) as usize);
    for y in 0..gh {
        for x in 0..gw {
            let got = g.as_raw()[(y * gw + x) as usize];
            let inside = x >= border && y >= border && x - border < w as u32 && y - border < h as u32;
            let want = if inside {
                let v = raw[((y - border) * w as u32 + (x - border)) as usize] as usize;
                let text = (alpha[v] > 0) & (palette[pal[v] as usize].0[0] > 0);
                if text {
                    opt.text_color.0[0]
                } else {
                    opt.background_color.0[0]
                }
            } else {
                opt.background_color.0[0]
            };
            chk!(got == want);
        }
    }
    cov!();
}
/// The image for OCR: text where the pixel can be seen, and the border around.
#[no_mangle]
pub fn h_img_ocr_l() {
    vob_to_ocr(3, 3, 2)
}
#[no_mangle]
pub fn h_img_ocr_x() {
    vob_to_ocr(5, 4, 3)
}
#[no_mangle]
pub fn h_img_ocr_xx() {
    vob_to_ocr(8, 7, 4)
}
/// Images of many pixels: every place.
fn vob_big(w: u16, h: u16, border: u32) {
    let area = Area::try_from(AreaValues { x1: 5, y1: 6, x2: w + 4, y2: h + 5 }).unwrap();
    let (pal, alpha) = ([3, 9, 0, 15], nibbles());
    let raw: Vec<u8> = (0..usize::from(w) * usize::from(h)).map(|i| (i * 7 / 5 % 11 % 4) as u8).collect();
    let img = VobSubIndexedImage::new(area, pal, alpha, raw.clone());
    let mut palette: Palette = [Rgb([0; 3]); 16];
    for i in pal {
        palette[usize::from(i)].0 = sym::bytes();
    }
    let rgba = VobSubToImage::new(&img, &palette, conv_to_rgba).to_image();
    chk!(rgba.dimensions() == (w.into(), h.into()));
    let mut same = rgba.as_raw().len() == 4 * raw.len();
    for (p, v) in rgba.as_raw().chunks(4).zip(&raw) {
        let c = palette[usize::from(pal[usize::from(*v)])];
        same &= (p[0] == c.0[0]) & (p[1] == c.0[1]) & (p[2] == c.0[2]) & (p[3] == alpha[usize::from(*v)]);
    }
    chk!(same);
    let mut lum = [Luma([0u8]); 16];
    for i in pal {
        lum[usize::from(i)].0 = sym::bytes();
    }
    let opt = ToOcrImageOpt { border, text_color: Luma([sym::u8()]), background_color: Luma([sym::u8()]) };
    // the four colors, once
    let mut color = [0; 4];
    for v in 0..4 {
        color[v] = if (alpha[v] > 0) & (lum[usize::from(pal[v])].0[0] > 0) { opt.text_color.0[0] } else { opt.background_color.0[0] };
    }
    let g = VobSubOcrImage::new(&img, &lum).image(&opt);
    let (gw, gh) = (u32::from(w) + 2 * border, u32::from(h) + 2 * border);
    chk!(g.dimensions() == (gw, gh));
    let mut same = true;
    for (k, p) in g.as_raw().iter().enumerate() {
        let (x, y) = (k as u32 % gw, k as u32 / gw);
        let inside = x >= border && y >= border && x - border < w.into() && y - border < h.into();
        let e = if inside {
            color[usize::from(raw[((y - border) * u32::from(w) + x - border) as usize])]
        } else {
            opt.background_color.0[0]
        };
        same &= *p == e;
    }
    chk!(same);
    cov!();
}
#[no_mangle]
pub fn h_img_big() {
    if sym::bool() {
        vob_big(700, 100, 5)
    } else {
        vob_big(3, 300, 300)
    }
}

/// The default options.
#[no_mangle]
pub fn h_img_opt() {
    let o = ToOcrImageOpt::default();
    chk!((o.border == 5) & (o.text_color.0[0] == 0) & (o.background_color.0[0] == 255));
    let c = Rgb(sym::bytes());
    let a = sym::u8();
    let Rgba([r, g, b, x]) = conv_to_rgba(c, a);
    chk!((r == c.0[0]) & (g == c.0[1]) & (b == c.0[2]) & (x == a));
    cov!();
}

fn bw(black: bool) -> u8 {
    if black {
        0
    } else {
        255
    }
}
fn fixed<const A: u8, const L: u8>(p: LumaA<u8>, q: LumaA<u16>) {
    let want = bw((p.0[1] >= A) & (p.0[0] >= L));
    chk!(luma_a_to_luma::<_, u8, A, L>(p).0[0] == want);
    chk!(luma_a_to_luma::<_, u8, A, L>(&p).0[0] == want);
    let black = (q.0[1] >= u16::from(A)) & (q.0[0] >= u16::from(L));
    chk!(luma_a_to_luma::<_, u16, A, L>(q).0[0] == if black { 0 } else { 65_535 });
}
/// Thresholds: black when the luminance and the alpha reach them.
#[no_mangle]
pub fn h_img_threshold() {
    let p = LumaA(sym::bytes::<2>());
    let q = LumaA([sym::u16(), sym::u16()]);
    let (a, l) = (sym::u8(), sym::u8());
    let conv = luma_a_to_luma_convertor::<u8, LumaA<u8>>(a, l);
    let want = bw((p.0[1] >= a) & (p.0[0] >= l));
    chk!(conv(p).0[0] == want);
    chk!(conv(p).0[0] == want);
    chk!(luma_a_to_luma_convertor::<u8, &LumaA<u8>>(a, l)(&p).0[0] == want);
    let (ta, tl) = (sym::u16(), sym::u16());
    let black = (q.0[1] >= ta) & (q.0[0] >= tl);
    chk!(luma_a_to_luma_convertor::<u16, LumaA<u16>>(ta, tl)(q).0[0] == if black { 0 } else { 65_535 });
    // pixels in floating point: NaN reaches no threshold
    let f = LumaA([f32::from_bits(sym::u32()), f32::from_bits(sym::u32())]);
    let (fa, fl) = (f32::from_bits(sym::u32()), f32::from_bits(sym::u32()));
    let black = (f.0[1] >= fa) & (f.0[0] >= fl);
    chk!(luma_a_to_luma_convertor::<f32, LumaA<f32>>(fa, fl)(f).0[0] == if black { 0.0 } else { 1.0 });
    let black = (f.0[1] >= 0.0) & (f.0[0] >= 1.0);
    chk!(luma_a_to_luma::<_, f32, 0, 1>(f).0[0] == if black { 0.0 } else { 1.0 });
    fixed::<0, 0>(p, q);
    fixed::<1, 0>(p, q);
    fixed::<0, 1>(p, q);
    fixed::<100, 101>(p, q);
    fixed::<128, 127>(p, q);
    fixed::<255, 254>(p, q);
    fixed::<255, 255>(p, q);
    cov!();
}
/// Luminance of a palette: the Rec. 709 weights, cut or rounded.
#[no_mangle]
pub fn h_img_luminance() {
    let mut palette: Palette = [Rgb([0; 3]); 16];
    let k = sym::pick(0, 15);
    for (i, c) in palette.iter_mut().enumerate() {
        c.0 = if i == k { sym::bytes() } else { [i as u8 * 16; 3] };
    }
    let l = palette_rgb_to_luminance(&palette);
    for i in 0..16 {
        if i == k {
            let c = palette[i].0;
            let sum = 2126 * u32::from(c[0]) + 7152 * u32::from(c[1]) + 722 * u32::from(c[2]);
            let v = 10_000 * u32::from(l[i].0[0]);
            chk!((v <= sum + 5000) & (sum < v + 10_000));
        } else {
            chk!(l[i].0[0] == i as u8 * 16);
        }
    }
    cov!();
}

/// Every area.
#[no_mangle]
pub fn h_img_area() {
    let v = AreaValues { x1: sym::u16(), y1: sym::u16(), x2: sym::u16(), y2: sym::u16() };
    match Area::try_from(v) {
        Ok(a) => {
            chk!((v.x1 < v.x2) & (v.y1 < v.y2));
            let (w, h) = (u32::from(v.x2) - u32::from(v.x1) + 1, u32::from(v.y2) - u32::from(v.y1) + 1);
            chk!((u32::from(a.width()) == w) & (u32::from(a.height()) == h));
            chk!((a.left() == v.x1) & (a.top() == v.y1));
            let s = a.size();
            chk!((s.w == w as usize) & (s.h == h as usize));
            let img = VobSubIndexedImage::new(a, [1, 2, 3, 4], [5, 6, 7, 8], vec![9]);
            chk!(img.area() == a);
            chk!((ImageSize::width(&img) == w) & (ImageSize::height(&img) == h));
            chk!(*img.palette() == [1, 2, 3, 4] && *img.alpha() == [5, 6, 7, 8] && img.raw_image() == [9]);
            cov!();
        }
        Err(e) => {
            // nothing that can be displayed is refused, save the sizes a 16-bit number cannot hold
            chk!((v.x1 >= v.x2) | (v.y1 >= v.y2) | (v.x2 - v.x1.min(v.x2) == 65_535) | (v.y2 - v.y1.min(v.y2) == 65_535));
            chk!(matches!(e, subtile::content::ContentError::InvalidAreaBounding));
            cov!();
        }
    }
}

