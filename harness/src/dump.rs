//! Harnesses for the dump of images in a folder.
use crate::sym;
use image::{ImageBuffer, Luma, LumaA, Pixel, PixelWithColorType, Rgb, Rgba};
use std::error::Error;
use std::path::Path;
use subtile::image::{dump_images, DumpError};
use subtile::SubtileError;

/// Image number `i` of a series: each of its own size and content, the first bytes free.
fn picture<P: Pixel<Subpixel = u8>>(i: usize, free: usize) -> ImageBuffer<P, Vec<u8>> {
    let (w, h) = [(3, 2), (1, 4), (5, 1)][i % 3];
    let n = w * h * P::CHANNEL_COUNT as usize;
    let mut d: Vec<u8> = (0..n).map(|k| (k * 37 + i * 101 + k * k * 11) as u8).collect();
    let k = free.min(n);
    sym::fill(&mut d[..k]);
    ImageBuffer::from_raw(w as u32, h as u32, d).unwrap()
}

fn decodes<P: Pixel<Subpixel = u8>>(data: &[u8], img: &ImageBuffer<P, Vec<u8>>) -> bool {
    let Ok(got) = image::load_from_memory_with_format(data, image::ImageFormat::Png) else { return false };
    let kind = match P::CHANNEL_COUNT {
        1 => got.as_luma8().map(|x| x.as_raw()),
        2 => got.as_luma_alpha8().map(|x| x.as_raw()),
        3 => got.as_rgb8().map(|x| x.as_raw()),
        _ => got.as_rgba8().map(|x| x.as_raw()),
    };
    kind == Some(img.as_raw()) && got.width() == img.width() && got.height() == img.height()
}

/// What the folder is before the dump, as (path after the scratch folder, folders to make, whether it can be made).
const FOLDERS: [(&str, usize, bool); 8] = [
    ("o", 0, true),      // there
    ("o", 0, true),      // there, with files in it
    ("o", 1, true),      // missing
    ("o/", 1, true),     // missing
    ("a/o", 2, true),    // missing, as is its parent
    ("a/b/c/o", 4, true),
    ("o", 0, false),     // a file
    ("f/o", 0, false),   // in a file
];

fn dump<P: Pixel<Subpixel = u8> + PixelWithColorType + 'static>(nmax: u8, free: usize) {
    let base = sym::dir();
    let state = sym::pick(0, FOLDERS.len() as u8 - 1);
    let (rel, made, possible) = FOLDERS[state];
    let path = format!("{base}/{rel}");
    let old = vec![0x77u8; 3000];
    let n = sym::pick(0, nmax);
    match state {
        0 => std::fs::create_dir(&path).unwrap(),
        1 => {
            std::fs::create_dir(&path).unwrap();
            std::fs::write(format!("{path}/000000.png"), &old).unwrap();
            std::fs::write(format!("{path}/keep"), &old).unwrap();
        }
        6 => std::fs::write(&path, &old).unwrap(),
        7 => std::fs::write(format!("{base}/f"), &old).unwrap(),
        _ => {}
    }
    // the image whose dump cannot work: in place of its file is a folder, or the device of its file is full, or it is empty
    let fault = if state == 0 { sym::pick(0, 3) } else { 0 };
    let bad = if fault > 0 { sym::pick(0, nmax - 1) } else { usize::MAX };
    let bad_path = format!("{base}/o/00000{bad}.png");
    match fault {
        1 => std::fs::create_dir(&bad_path).unwrap(),
        2 => sym::full(&bad_path),
        _ => {}
    }
    let mut imgs: Vec<ImageBuffer<P, Vec<u8>>> = (0..n).map(|i| picture(i, free)).collect();
    if fault == 3 && bad < n {
        imgs[bad] = ImageBuffer::new(0, 2);
    }
    let before = sym::nodes();
    let owned = sym::bool();
    let r = if owned { dump_images(&path, imgs.clone()) } else { dump_images(&path, imgs.iter()) };
    let after = sym::nodes();
    let name = |i: usize| format!("{base}/{}/00000{i}.png", rel.trim_end_matches('/'));
    if !possible {
        let Err(e) = r else { return chk!(false) };
        sym::tell_now(&e);
        let SubtileError::ImageDump(e) = e else { return chk!(false) };
        chk!(e.source().is_some() && e.to_string().contains(&path));
        let DumpError::Folder { path: p, .. } = e else { return chk!(false) };
        chk!(p == Path::new(&path));
        chk!(after == before);
        let f = if state == 6 { path } else { format!("{base}/f") };
        chk!(std::fs::read(f).unwrap() == old);
        cov!();
        return;
    }
    for (i, img) in imgs.iter().enumerate().take(bad) {
        let Ok(d) = std::fs::read(name(i)) else { return chk!(false) };
        chk!(decodes(&d, img));
    }
    if state == 1 {
        chk!(std::fs::read(format!("{path}/keep")).is_ok_and(|x| x == old));
    }
    if bad < n {
        let Err(e) = r else { return chk!(false) };
        sym::tell_now(&e);
        let SubtileError::ImageDump(e) = e else { return chk!(false) };
        chk!(e.source().is_some() && e.to_string().contains(&name(bad)));
        let DumpError::DumpImage { filename, .. } = e else { return chk!(false) };
        chk!(filename == Path::new(&name(bad)));
        cov!();
        return;
    }
    chk!(r.is_ok());
    let replaced = usize::from(state == 1 && n > 0);
    chk!(after - before == made + n - replaced);
    if n == nmax as usize {
        cov!();
    }
}
#[no_mangle]
pub fn h_dump_rgba() {
    dump::<Rgba<u8>>(3, 0)
}
#[no_mangle]
pub fn h_dump_luma() {
    dump::<Luma<u8>>(3, 0)
}
#[no_mangle]
pub fn h_dump_luma_a() {
    dump::<LumaA<u8>>(3, 0)
}
#[no_mangle]
pub fn h_dump_free() {
    dump::<Luma<u8>>(1, 1)
}
#[no_mangle]
pub fn h_dump_free_l() {
    dump::<Luma<u8>>(1, 2)
}
/// Many images: the numbers in the names.
#[no_mangle]
pub fn h_dump_many() {
    let base = sym::dir();
    let n = [9usize, 10, 11, 101][sym::pick(0, 3)];
    let imgs: Vec<ImageBuffer<Luma<u8>, Vec<u8>>> = (0..n).map(|i| ImageBuffer::from_raw(1, 1, vec![i as u8]).unwrap()).collect();
    chk!(dump_images(&base, &imgs).is_ok());
    chk!(sym::nodes() == n);
    for (i, img) in imgs.iter().enumerate() {
        let Ok(d) = std::fs::read(format!("{base}/{i:06}.png")) else { return chk!(false) };
        chk!(decodes(&d, img));
    }
    cov!();
}
/// Images of 16 bits per channel, and larger ones.
#[no_mangle]
pub fn h_dump_kinds() {
    let path = format!("{}/x", sym::dir());
    let v = sym::u16();
    match sym::pick(0, 2) {
        0 => {
            let img: ImageBuffer<Luma<u16>, Vec<u16>> = ImageBuffer::from_raw(2, 1, vec![v, 0x1234]).unwrap();
            chk!(dump_images(&path, [&img]).is_ok());
            let Ok(d) = std::fs::read(format!("{path}/000000.png")) else { return chk!(false) };
            let Ok(g) = image::load_from_memory_with_format(&d, image::ImageFormat::Png) else { return chk!(false) };
            chk!(g.as_luma16() == Some(&img));
        }
        1 => {
            let d: Vec<u16> = (0..5 * 3 * 3u16).map(|k| k.wrapping_mul(4099)).collect();
            let img: ImageBuffer<Rgb<u16>, &[u16]> = ImageBuffer::from_raw(5, 3, &d[..]).unwrap();
            chk!(dump_images(&path, [&img]).is_ok());
            let Ok(f) = std::fs::read(format!("{path}/000000.png")) else { return chk!(false) };
            let Ok(g) = image::load_from_memory_with_format(&f, image::ImageFormat::Png) else { return chk!(false) };
            chk!(g.as_rgb16().is_some_and(|x| x.as_raw() == &d && x.width() == 5));
        }
        _ => {
            let imgs: Vec<_> = [(300, 7), (2, 260)].iter().map(|&(w, h)| ImageBuffer::from_fn(w, h, |x, y| Rgba([(x * 7 + y) as u8, (x * y) as u8, (x ^ y) as u8, (y * 3) as u8]))).collect();
            chk!(dump_images(&path, &imgs).is_ok());
            for (i, img) in imgs.iter().enumerate() {
                let Ok(d) = std::fs::read(format!("{path}/{i:06}.png")) else { return chk!(false) };
                chk!(decodes(&d, img));
            }
            cov!();
        }
    }
}
