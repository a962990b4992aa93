//! C08, C19, C20: the stages of the pipeline by themselves.

use super::image::*;
use super::many::*;
use super::scene::*;
use crate::api::*;
use crate::ensure;
use crate::refqr::*;
use crate::render::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use image::SubImage;

// ---------------------------------------------------------------- C08

fn anything_rgba(r: &mut Rng) -> RgbaImage {
    let g = anything(r, true);
    match r.below(4) {
        0 => {
            // colours and transparency at random, the shapes stay in one channel or another
            let ch = r.below(4);
            let mut q = r.clone();
            RgbaImage::from_fn(g.width(), g.height(), |x, y| {
                let mut p = [q.byte(), q.byte(), q.byte(), q.byte()];
                p[ch] = g.get_pixel(x, y)[0];
                Rgba(p)
            })
        }
        _ => rgba(&g),
    }
}

/// Memory a call may use: pictures and what is found in them are copied a few times.
fn within_memory(peak: i64, w: u32, h: u32) -> bool {
    peak <= (4 << 20) + 64 * i64::from(w) * i64::from(h)
}

/// CPU time a call may use, in nanoseconds: the slowest use some 40 ns per pixel, and a small picture 20 ms.
fn within_time(ns: u64, w: u32, h: u32) -> bool {
    ns <= 1_500_000_000 + 400 * u64::from(w) * u64::from(h)
}

fn watch_decode(c: &mut Case, img: &RgbaImage, what: &dyn Fn() -> String) -> Res {
    c.seen(fp_rgba(img));
    c.count("pictures");
    let fail = |c: &mut Case, p: String| {
        keep_image(c, img);
        Err(format!("{}: {}", what(), p))
    };
    let r = c.call(|| peak_of(|| bardecoder::default_decoder().decode(img).into_iter().map(|r| r.map_err(|e| e.to_string())).collect::<Vec<_>>()));
    let (a, peak) = match r {
        Ok(a) => a,
        Err(p) => return fail(c, p),
    };
    if !within_memory(peak, img.width(), img.height()) {
        return fail(c, format!("used {} bytes of memory", peak));
    }
    if !within_time(c.last, img.width(), img.height()) {
        return fail(c, format!("used {} ms of CPU time", c.last / 1_000_000));
    }
    c.add("results_text", a.iter().filter(|x| x.is_ok()).count() as u64);
    c.add("results_error", a.iter().filter(|x| x.is_err()).count() as u64);
    let r = c.call(|| bardecoder::default_decoder_with_info().decode(img).len());
    match r {
        Ok(n) => ensure!(n == a.len(), "{}: {} results, but {} with information", what(), a.len(), n),
        Err(p) => return fail(c, p),
    }
    Ok(())
}

fn c08_any(c: &mut Case) -> Res {
    let img = anything_rgba(&mut c.rng);
    c.note(|| format!("{}x{}", img.width(), img.height()));
    let what = || format!("picture of {}x{}", img.width(), img.height());
    watch_decode(c, &img, &what)
}

/// Every size from nothing to 16x16, and long thin ones.
fn c08_tiny(c: &mut Case) -> Res {
    let i = c.idx as u32;
    let (w, h) = if i % 600 < 289 {
        (i % 600 % 17, i % 600 / 17)
    } else {
        let long = c.rng.range(17, 3000) as u32;
        let thin = c.rng.below(8) as u32;
        if c.rng.chance(0.5) { (long, thin) } else { (thin, long) }
    };
    let kind = c.rng.below(4);
    let mut q = c.rng.clone();
    let run = [1u32, 1, 3, 1, 1];
    let s = c.rng.range(1, 12) as u32;
    let img = RgbaImage::from_fn(w, h, |x, y| match kind {
        0 => Rgba([q.byte(), q.byte(), q.byte(), q.byte()]),
        1 => {
            let v = if q.chance(0.5) { 255 } else { 0 };
            Rgba([v, v, v, 255])
        }
        2 => {
            let t = (if w > h { x } else { y }) / s % 9;
            let mut e = 0;
            let mut v = 255;
            for (k, n) in run.iter().enumerate() {
                if (e..e + n).contains(&t) {
                    v = if k % 2 == 0 { 0 } else { 255 };
                }
                e += n;
            }
            Rgba([v, v, v, 255])
        }
        _ => Rgba([7, 7, 7, 0]),
    });
    c.note(|| format!("{}x{} of kind {}", w, h, kind));
    let what = || format!("picture of {}x{}, kind {}", w, h, kind);
    c.count(if w == 0 || h == 0 { "empty_pictures" } else { "tiny_or_thin_pictures" });
    watch_decode(c, &img, &what)
}

/// A readable code cut off at, or just next to, its edges, or turned so that its corners are outside.
fn c08_cut(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let v = r.range(1, 9) as u32;
    let (d, _) = symbol(r, v);
    let s = r.frange(1.5, 8.0);
    let n = d.m.side as f64 * s;
    let a = if r.chance(0.5) { r.frange(0.0, 360.0) } else { 90.0 * r.below(4) as f64 + r.frange(-12.0, 12.0) };
    let (w, h) = ((n * r.frange(0.5, 1.5)) as u32 + 1, (n * r.frange(0.5, 1.5)) as u32 + 1);
    let near = r.chance(0.6);
    let (cx, cy) = if near {
        let e = 2.0 * s;
        (r.frange(-e, e), r.frange(-e, e))
    } else {
        (r.frange(-n / 2.0, f64::from(w)), r.frange(-n / 2.0, f64::from(h)))
    };
    // the outermost corner of the turned code lies at (cx, cy)
    let h0 = Homo::similar(s, a, 0.0, 0.0);
    let side = d.m.side as f64;
    let pts = [(0.0, 0.0), (side, 0.0), (0.0, side), (side, side)].map(|(x, y)| h0.map(x, y));
    let (mx, my) = (pts.iter().map(|p| p.0).fold(f64::MAX, f64::min), pts.iter().map(|p| p.1).fold(f64::MAX, f64::min));
    let (w, h) = if near {
        let (xx, yy) = (pts.iter().map(|p| p.0).fold(f64::MIN, f64::max), pts.iter().map(|p| p.1).fold(f64::MIN, f64::max));
        (((xx - mx + cx + r.frange(-3.0, 3.0) * s).max(1.0)) as u32, ((yy - my + cy + r.frange(-3.0, 3.0) * s).max(1.0)) as u32)
    } else {
        (w, h)
    };
    let hm = Homo::similar(s, a, cx - mx, cy - my);
    let mut cv = Canvas::new(w, h);
    cv.draw(&d.m, &hm, 2);
    let img = rgba(&cv.black_white());
    let what = || format!("{} with {:.2} pixels per module, turned by {:.1} degrees, cut off at {}x{}", describe(&d), s, a, w, h);
    c.note(|| what());
    c.count("cut_off_codes");
    watch_decode(c, &img, &what)
}

/// The scanner on any gray picture (it is not told that only 0 and 255 are to be expected).
fn c08_scan(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut g = anything(r, true);
    let levels = *r.pick(&[2usize, 3, 4, 256]);
    if levels > 2 {
        let key = r.next();
        let keep = r.chance(0.5);
        for (x, y, p) in g.enumerate_pixels_mut() {
            let z = mix(key ^ (u64::from(x / 3) << 32 | u64::from(y / 3)));
            if !keep || z % 16 == 0 {
                p[0] = match levels {
                    3 => [0, 127, 255][(z >> 8) as usize % 3],
                    4 => [0, 126, 127, 128][(z >> 8) as usize % 4],
                    _ => (z >> 8) as u8,
                };
            }
        }
    }
    c.seen(fp_image(&g));
    c.count("scans");
    c.note(|| format!("{}x{} with {} levels", g.width(), g.height(), levels));
    let l = c.call(|| LineScan::new().detect(&g).len());
    match l {
        Ok(n) => {
            c.add("locations", n as u64);
            Ok(())
        }
        Err(p) => {
            keep_gray(c, &g);
            Err(format!("scanning {}x{}: {}", g.width(), g.height(), p))
        }
    }
}

fn anywhere(r: &mut Rng, w: f64, h: f64) -> Point {
    match r.below(8) {
        0 => Point { x: r.frange(-1e9, 1e9), y: r.frange(-1e9, 1e9) },
        1 => Point { x: r.frange(-2.0 * w - 5.0, 3.0 * w + 5.0), y: r.frange(-2.0 * h - 5.0, 3.0 * h + 5.0) },
        2 => Point { x: *r.pick(&[0.0, -0.5, 0.5, w, w - 0.5, w - 1.0, -1.0]), y: *r.pick(&[0.0, -0.5, 0.5, h, h - 0.5, h - 1.0, -1.0]) },
        _ => Point { x: r.frange(0.0, w), y: r.frange(0.0, h) },
    }
}

/// Any place of any picture, or a code drawn close to the borders and its true place.
pub fn hostile_extract(r: &mut Rng) -> (GrayImage, QRLocation) {
    if r.chance(0.15) {
        let v = r.range(1, 4) as u32;
        let (d, _) = symbol(r, v);
        let s = r.range(1, 4) as u32;
        let mut edge = || r.below(2) as u32 * r.below(3) as u32;
        let (left, top, right, bottom) = (edge(), edge(), edge(), edge());
        let g = plain(&d.m, s, left, top, right, bottom);
        let at = |k: u32, off: u32| f64::from(off) + f64::from(k * s) + f64::from(s - 1) / 2.0;
        let far = d.m.side as u32 - 4;
        let p = |x, y| Point { x: at(x, left), y: at(y, top) };
        return (g, QRLocation { top_left: p(3, 3), top_right: p(far, 3), bottom_left: p(3, far), module_size: f64::from(s), version: v });
    }
    let g = match r.below(5) {
        0 => GrayImage::new(r.below(4) as u32, r.below(4) as u32),
        1 => GrayImage::from_pixel(r.range(1, 200) as u32, r.range(1, 200) as u32, Luma([[0, 255][r.below(2)]])),
        2 => {
            // many alignment patterns, so that the search for one succeeds
            let (w, h) = (r.range(5, 200) as u32, r.range(5, 200) as u32);
            let s = r.range(1, 5) as u32;
            GrayImage::from_fn(w, h, |x, y| {
                let (a, b) = (x / s % 5, y / s % 5);
                let ring = a.min(4 - a).min(b.min(4 - b));
                Luma([if ring == 1 { 255 } else { 0 }])
            })
        }
        _ => anything(r, true),
    };
    let (w, h) = (f64::from(g.width()), f64::from(g.height()));
    let version = match r.below(20) {
        0..=9 => r.range(1, 3),
        10..=18 => r.range(1, 40),
        _ => *r.pick(&[0, 41, 42, 60, 100]),
    } as u32;
    let (tl, tr, bl) = if r.chance(0.5) {
        (anywhere(r, w, h), anywhere(r, w, h), anywhere(r, w, h))
    } else {
        // a square at any angle and place
        let tl = anywhere(r, w, h);
        let (sin, cos) = (r.below(16) as f64 * 22.5 + r.frange(-5.0, 5.0)).to_radians().sin_cos();
        let n = f64::from(4 * version + 10) * r.frange(0.3, 6.0);
        (tl, Point { x: tl.x + n * cos, y: tl.y + n * sin }, Point { x: tl.x - n * sin, y: tl.y + n * cos })
    };
    let ms = if r.chance(0.8) { r.frange(0.5, 12.0) } else { r.frange(-10.0, 1e6) };
    (g, QRLocation { top_left: tl, top_right: tr, bottom_left: bl, module_size: ms, version })
}

/// The extractor, pointed at any place of any picture.
fn c08_extract(c: &mut Case) -> Res {
    let (g, loc) = hostile_extract(&mut c.rng);
    let (w, h) = g.dimensions();
    let (tl, tr, bl, version) = (loc.top_left, loc.top_right, loc.bottom_left, loc.version);
    c.seen(fp_image(&g) ^ mix(tl.x.to_bits() ^ tr.y.to_bits().rotate_left(17) ^ bl.x.to_bits().rotate_left(31)));
    let what = format!("extracting version {} at {:?} {:?} {:?} from {}x{}", version, tl, tr, bl, w, h);
    c.note(|| what.clone());
    c.count("extractions");
    let res = c.call(|| peak_of(|| QRExtractor::new().extract(&g, loc)));
    let (res, peak) = match res {
        Ok(x) => x,
        Err(p) => {
            keep_gray(c, &g);
            return Err(format!("{}: {}", what, p));
        }
    };
    ensure!(within_memory(peak, g.width(), g.height()), "{}: used {} bytes of memory", what, peak);
    match res {
        Ok(d) => {
            c.count("extracted");
            let n = (17 + 4 * version) as usize;
            ensure!(d.version == version && d.side as usize == n && d.data.len() == n * n, "{}: version {} side {} with {} modules", what, d.version, d.side, d.data.len());
            let t = c.call(|| QRDecoder::new().decode(Ok(d)).is_ok());
            ensure!(t.is_ok(), "{}: then decoding: {}", what, t.unwrap_err());
        }
        Err(e) => {
            c.count("refused");
            ensure!(!e.msg.is_empty(), "{}: an error without a message", what);
        }
    }
    Ok(())
}

/// Binarization with any block sizes.
fn c08_prepare(c: &mut Case) -> Res {
    let img = if c.rng.chance(0.3) {
        let (w, h) = (c.rng.below(40) as u32, c.rng.below(40) as u32);
        let mut q = c.rng.clone();
        RgbaImage::from_fn(w, h, |_, _| Rgba([q.byte(), q.byte(), q.byte(), q.byte()]))
    } else {
        anything_rgba(&mut c.rng)
    };
    let r = &mut c.rng;
    let any = |r: &mut Rng| match r.below(6) {
        0 => 1,
        1 => r.range(1, 300) as u32,
        2 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 65535, 65536]),
        _ => r.range(1, 20) as u32,
    };
    let (bs, mut bms) = (any(r), any(r));
    // every block looks at its whole neighbourhood
    if u64::from(img.width() / bs + 1) * u64::from(img.height() / bs + 1) > 2000 {
        bms = bms.min(20);
    }
    c.seen(fp_rgba(&img) ^ mix(u64::from(bs) << 32 | u64::from(bms)));
    c.count("binarizations");
    c.note(|| format!("{}x{} in blocks of {}, {} by {} blocks", img.width(), img.height(), bs, bms, bms));
    let r: Result<GrayImage, String> = c.call(|| BlockedMean::new(bs, bms).prepare(&img));
    match r {
        Ok(g) => {
            ensure!(g.dimensions() == img.dimensions(), "{:?} became {:?}", img.dimensions(), g.dimensions());
            Ok(())
        }
        Err(p) => {
            keep_image(c, &img);
            Err(format!("{}x{} in blocks of {}, {} by {} blocks: {}", img.width(), img.height(), bs, bms, bms, p))
        }
    }
}

/// Large pictures.
fn c08_large(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (w, h) = match r.below(4) {
        0 => (r.range(20_000, 70_000) as u32, r.range(1, 60) as u32),
        1 => (r.range(1, 60) as u32, r.range(20_000, 70_000) as u32),
        _ => (r.range(1200, 2600) as u32, r.range(1200, 2600) as u32),
    };
    let key = r.next();
    let kind = r.below(4);
    let mut g = GrayImage::from_fn(w, h, |x, y| {
        let z = mix(key ^ (u64::from(x / 7) << 32 | u64::from(y / 7)));
        Luma([match kind {
            0 => 255,
            1 => (z >> 56) as u8,
            2 => 128 + (f64::from(x) / 50.0).sin().mul_add(60.0, f64::from(y % 64)) as u8,
            _ => if z % 23 == 0 { 0 } else { 250 },
        }])
    });
    let v = r.range(1, 40) as u32;
    let (d, _) = symbol(r, v);
    let s = r.range(2, 6) as u32;
    let n = d.m.side as u32 * s;
    if n < w && n < h {
        put(&mut g, &d.m, r.below((w - n) as usize) as u32, r.below((h - n) as usize) as u32, s);
    }
    let img = rgba(&g);
    let what = || format!("picture of {}x{}, kind {}, with version {} in it", w, h, kind, v);
    c.note(|| what());
    c.count("large_pictures");
    watch_decode(c, &img, &what)
}

/// Rows and columns of finder patterns, which any three that stand at right angles make a possible code.
fn c08_lattice(c: &mut Case) -> Res {
    let k = [2, 3, 4, 5, 6, 7, 8, 13][c.idx as usize];
    let n = 10 * k + 10;
    let g = GrayImage::from_fn(n, n, |x, y| {
        let d = (x as i32 % 10 - 5).abs().max((y as i32 % 10 - 5).abs());
        Luma([if x < 10 * k && y < 10 * k && (d <= 1 || d == 3) { 0 } else { 255 }])
    });
    let what = || format!("lattice of {}x{} finder patterns", k, k);
    c.note(|| what());
    c.count("lattices");
    watch_decode(c, &rgba(&g), &what)
}

// ---------------------------------------------------------------- C19

/// What the binarization has to be, computed by the definition: for each pixel the exact sums over its neighbourhood.
pub fn binarize(img: &RgbaImage, bs: u32, bms: u32) -> GrayImage {
    let (w, h) = img.dimensions();
    if w == 0 || h == 0 {
        return GrayImage::new(w, h);
    }
    let luma: Vec<u64> = img.pixels().map(|p| (2126 * u64::from(p[0]) + 7152 * u64::from(p[1]) + 722 * u64::from(p[2])) / 10000).collect();
    // the block of the last column and row may lie just outside of the picture
    let (bw, bh) = (w / bs, h / bs);
    let st = bms.saturating_sub(1) / 2;
    // pixel range covered by the neighbourhood of block b
    let span = |b: u32, last: u32, size: u32| -> (u32, u32) {
        let first = b.saturating_sub(st);
        let end = last.min(b.saturating_add(st)).max(first + 1);
        let px = |k: u32| (u64::from(k) * u64::from(bs)).min(u64::from(size)) as u32;
        (px(first), px(end))
    };
    // sums of luma over rectangles
    let (sw, sh) = (w as usize + 1, h as usize + 1);
    let mut sum = vec![0u64; sw * sh];
    for y in 0..h as usize {
        for x in 0..w as usize {
            sum[(y + 1) * sw + x + 1] = sum[y * sw + x + 1] + sum[(y + 1) * sw + x] - sum[y * sw + x] + luma[y * w as usize + x];
        }
    }
    GrayImage::from_fn(w, h, |x, y| {
        let (x0, x1) = span(x / bs, bw, w);
        let (y0, y1) = span(y / bs, bh, h);
        let at = |x: u32, y: u32| sum[y as usize * sw + x as usize];
        let total = at(x1, y1) + at(x0, y0) - at(x0, y1) - at(x1, y0);
        let count = u64::from(x1 - x0) * u64::from(y1 - y0);
        let l = luma[(y * w + x) as usize];
        let white = if total > 250 * count {
            true
        } else if total < 5 * count {
            false
        } else {
            l * count > total
        };
        Luma([if white { 255 } else { 0 }])
    })
}

fn c19_judge(c: &mut Case, img: &RgbaImage, bs: u32, bms: u32, what: &dyn Fn() -> String) -> Res {
    c.seen(fp_rgba(img) ^ mix(u64::from(bs) << 32 | u64::from(bms)));
    c.note(|| what());
    let before = fp_rgba(img);
    let g: GrayImage = c.call(|| BlockedMean::new(bs, bms).prepare(img)).map_err(|p| format!("{}: {}", what(), p))?;
    ensure!(fp_rgba(img) == before, "{}: the picture was changed", what());
    ensure!(g.dimensions() == img.dimensions(), "{}: became {:?}", what(), g.dimensions());
    let want = binarize(img, bs, bms);
    let (mut black, mut white, mut bad) = (0u64, 0u64, vec![]);
    for (x, y, p) in g.enumerate_pixels() {
        match p[0] {
            0 => black += 1,
            255 => white += 1,
            v => return Err(format!("{}: value {} at ({}, {})", what(), v, x, y)),
        }
        if p != want.get_pixel(x, y) {
            bad.push((x, y, p[0]));
        }
    }
    c.add("pixels_black", black);
    c.add("pixels_white", white);
    c.count("pictures");
    if !bad.is_empty() {
        keep_image(c, img);
        return Err(format!("{}: {} pixels are not as defined, first at {:?}", what(), bad.len(), &bad[..bad.len().min(5)]));
    }
    Ok(())
}

fn c19_picture(r: &mut Rng) -> RgbaImage {
    let (w, h) = (r.range(1, 90) as u32, r.range(1, 90) as u32);
    let base = [r.byte(), r.byte(), r.byte()];
    let (a, b) = (r.frange(-4.0, 4.0), r.frange(-4.0, 4.0));
    let kind = r.below(8);
    let amp = *r.pick(&[0.0, 1.0, 3.0, 20.0, 120.0]);
    let edge = *r.pick(&[4.0, 5.0, 6.0, 249.0, 250.0, 251.0]);
    let mut q = r.clone();
    RgbaImage::from_fn(w, h, |x, y| {
        let noise = amp * (q.f() - 0.5);
        let alpha = if kind == 7 { q.byte() } else { 255 };
        let c = |v: f64| v.clamp(0.0, 255.0) as u8;
        match kind {
            0 => Rgba([q.byte(), q.byte(), q.byte(), alpha]),
            1 => {
                let v = c(edge + noise);
                Rgba([v, v, v, alpha])
            }
            2 => {
                let v = c(f64::from(base[0]) + a * f64::from(x) + b * f64::from(y) + noise);
                Rgba([v, v, v, alpha])
            }
            3 => {
                let v = if (x / 3 + y / 3) % 2 == 0 { 0 } else { 255 };
                Rgba([v, v, v, alpha])
            }
            4 => {
                // a dark shape on white, a bright one on black
                let inside = x > w / 3 && x < 2 * w / 3 && y > h / 4 && y < 3 * h / 4;
                let v = if inside == (base[0] > 127) { c(noise.abs()) } else { c(255.0 - noise.abs()) };
                Rgba([v, v, v, alpha])
            }
            _ => Rgba([c(f64::from(base[0]) + noise), c(f64::from(base[1]) + a * f64::from(x)), c(f64::from(base[2]) + b * f64::from(y) + noise), alpha]),
        }
    })
}

fn c19_any(c: &mut Case) -> Res {
    let img = c19_picture(&mut c.rng);
    let (bs, bms) = if c.rng.chance(0.3) { (5, 7) } else { (c.rng.range(1, 24) as u32, c.rng.range(1, 15) as u32) };
    let what = || format!("{}x{} in blocks of {}, {} by {} of them", img.width(), img.height(), bs, bms, bms);
    c.count(if bms % 2 == 0 { "even_neighbourhoods" } else { "odd_neighbourhoods" });
    if bs > img.width() || bs > img.height() {
        c.count("blocks_larger_than_the_picture");
    }
    c19_judge(c, &img, bs, bms, &what)
}
fn c19_sizes(c: &mut Case) -> Res {
    // all small sizes
    let (w, h) = ((c.idx % 33) as u32, (c.idx / 33 % 33) as u32);
    let mut q = c.rng.clone();
    let img = RgbaImage::from_fn(w, h, |_, _| Rgba([q.byte(), q.byte(), q.byte(), 255]));
    let (bs, bms) = if c.rng.chance(0.5) { (5, 7) } else { (c.rng.range(1, 12) as u32, c.rng.range(1, 9) as u32) };
    let what = || format!("{}x{} in blocks of {}, {} by {} of them", w, h, bs, bms, bms);
    c19_judge(c, &img, bs, bms, &what)
}
/// Sums of more than 32 bits.
fn c19_large(c: &mut Case) -> Res {
    let (w, h) = (c.rng.range(4110, 4300) as u32, c.rng.range(4110, 4300) as u32);
    let base = [255u8, 254, 246, 128][c.idx as usize % 4];
    let key = c.rng.next();
    let img = RgbaImage::from_fn(w, h, |x, y| {
        let z = mix(key ^ (u64::from(x / 8) << 32 | u64::from(y / 8)));
        let v = if z % 97 == 0 { (z >> 20) as u8 } else { base };
        Rgba([v, v, v, 255])
    });
    let (bs, bms) = *c.rng.pick(&[(100_000u32, 7u32), (4100, 7), (4100, 1), (1400, 9), (2048, 5)]);
    let what = || format!("{}x{} in blocks of {}, {} by {} of them", w, h, bs, bms, bms);
    c.count("large_pictures");
    c19_judge(c, &img, bs, bms, &what)
}
fn c19_codes(c: &mut Case) -> Res {
    let class = LIT[c.idx as usize % LIT.len()];
    let (d, _) = symbol(&mut c.rng, 1 + (c.idx / 8 % 8) as u32);
    let s = c.rng.frange(2.0, 7.0);
    let (hm, w, h) = bent(&mut c.rng, "turned", d.m.side, s);
    let mut cv = Canvas::new(w, h);
    cv.draw(&d.m, &hm, 2);
    let img = lit(&mut c.rng, class, &mut cv);
    let what = || format!("{} picture of a code, {}x{}", class, w, h);
    c.count("pictures_of_codes");
    c19_judge(c, &img, 5, 7, &what)
}

// ---------------------------------------------------------------- C20

/// Any content around which there are the patterns the extractor looks for.
fn c20_grid(r: &mut Rng, v: u32) -> Matrix {
    let (d, _) = symbol(r, v);
    let mut m = d.m;
    let n = m.side;
    let p = *r.pick(&[0.0, 0.05, 0.5, 0.9, 1.0]);
    for y in 0..n {
        for x in 0..n {
            let alignment = v > 1 && x + 10 >= n && x + 3 < n && y + 10 >= n && y + 3 < n;
            if !alignment && r.chance(0.7) {
                m.set(x, y, u8::from(r.chance(p)));
            }
        }
    }
    m
}
fn same_modules(d: &QRData, m: &Matrix) -> Result<(), (usize, usize, usize)> {
    let mut bad = 0;
    let mut first = (0, 0);
    for y in 0..m.side {
        for x in 0..m.side {
            if d[[x as u32, y as u32]] != m.get(x, y) {
                if bad == 0 {
                    first = (x, y);
                }
                bad += 1;
            }
        }
    }
    if bad == 0 { Ok(()) } else { Err((bad, first.0, first.1)) }
}
fn at(p: (f64, f64)) -> Point {
    Point { x: p.0, y: p.1 }
}
fn c20_extract(c: &mut Case, g: &GrayImage, loc: QRLocation, m: &Matrix, what: &dyn Fn() -> String) -> Result<bool, String> {
    let v = loc.version;
    c.seen(fp_image(g));
    c.count("extractions");
    let before = fp_image(g);
    let r = c.call(|| QRExtractor::new().extract(g, loc)).map_err(|p| format!("{}: {}", what(), p))?;
    ensure!(fp_image(g) == before, "{}: the picture was changed", what());
    match r {
        Err(e) => {
            if std::env::var("VH_DEV").is_ok() { eprintln!("C20 {} {} {}", c.idx, what(), e.msg); }
            c.count("extractions_refused");
            Ok(false)
        }
        Ok(d) => {
            if d.version != v || d.side != 17 + 4 * v || d.data.len() != m.side * m.side {
                return Err(format!("{}: version {}, side {}, {} modules", what(), d.version, d.side, d.data.len()));
            }
            match same_modules(&d, m) {
                Ok(()) => {
                    c.count("extracted_exactly");
                    c.add("modules", (m.side * m.side) as u64);
                    Ok(true)
                }
                Err((n, x, y)) => {
                    if std::env::var("VH_DEV").is_ok() { eprintln!("C20 {} {}: {} wrong, {} {}", c.idx, what(), n, x, y); }
                    c.count("extractions_differing");
                    c.note(|| format!("{}: {} modules differ, first ({}, {})", what(), n, x, y));
                    Ok(false)
                }
            }
        }
    }
}

fn c20_flat(c: &mut Case) -> Res {
    let v = 1 + (c.idx % 40) as u32;
    let k = (c.idx / 40 % 4) as usize;
    let s = c.rng.range(3, if v <= 6 { 12 } else { 6 }) as u32;
    let m = c20_grid(&mut c.rng, v);
    let f = flat(&mut c.rng, s, k);
    let g = plain(&turn(&m, k), s, f.margins[0], f.margins[1], f.margins[2], f.margins[3]);
    let sf = f64::from(s);
    let o = if s % 2 == 1 { 0.5 } else { 0.0 };
    let [tl, tr, bl] = finders(m.side, k).map(|p| at((p.0 * sf + f64::from(f.margins[0]) - o, p.1 * sf + f64::from(f.margins[1]) - o)));
    let loc = QRLocation { top_left: tl, top_right: tr, bottom_left: bl, module_size: sf, version: v };
    let what = || format!("grid of version {} with {} pixels per module, margins {:?}, turned by {} degrees", v, s, f.margins, k * 90);
    c.note(|| what());
    c.count(&format!("turned_{}", k * 90));
    if !c20_extract(c, &g, loc, &m, &what)? {
        keep_gray(c, &g);
        return Err(format!("{}: not extracted as drawn", what()));
    }
    Ok(())
}

const C20_BENT: [&str; 10] = ["turned", "tilted", "scaled", "slanted", "stretched", "fourth_corner", "fourth_corner_larger", "fourth_corner_far", "fourth_corner_farthest", "fourth_corner_largest"];
fn c20_bent(c: &mut Case) -> Res {
    let class = C20_BENT[c.idx as usize % C20_BENT.len()];
    let k = c.idx as usize / C20_BENT.len();
    let v = match class {
        "fourth_corner" => 2 + k % 5,
        "fourth_corner_larger" => 7 + k % 8,
        "fourth_corner_far" => 5 + k % 4,
        "fourth_corner_farthest" => 8 + k % 33,
        "fourth_corner_largest" => 15 + k % 26,
        _ => 1 + k % 14,
    } as u32;
    let m = c20_grid(&mut c.rng, v);
    let s = c.rng.frange(5.0, 12.0);
    let (hm, w, h) = bent(&mut c.rng, class, m.side, s);
    let mut cv = Canvas::new(w, h);
    cv.draw(&m, &hm, 2);
    let g = cv.luma(|_, _, d| if d > 0.5 { 0.0 } else { 255.0 });
    let [tl, tr, bl] = finders(m.side, 0).map(|p| {
        let q = hm.map(p.0, p.1);
        at((q.0 - 0.5, q.1 - 0.5))
    });
    let loc = QRLocation { top_left: tl, top_right: tr, bottom_left: bl, module_size: s, version: v };
    let what = || format!("grid of version {} {} with {:.2} pixels per module, {}x{}, map {:?}", v, class, s, w, h, hm.0);
    c.note(|| what());
    c.count(class);
    c.count(&format!("version_{}", v));
    if !c20_extract(c, &g, loc, &m, &what)? {
        c.count(&format!("{}_not_extracted", class));
        if !class.starts_with("fourth_corner_far") {
            c.count(&format!("version_{}_not_extracted", v));
        }
    }
    Ok(())
}

/// A grid that reaches beyond the picture is refused.
fn c20_outside(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let v = if r.chance(0.5) { 1 } else { r.range(2, 8) } as u32;
    let m = c20_grid(r, v);
    let s = r.range(3, 8) as u32;
    let g = plain(&m, s, 3 * s, 3 * s, 3 * s, 3 * s);
    let (w, h) = g.dimensions();
    // cut away a strip with at least one row or column of modules, on one side
    let side = r.below(4);
    let cut = 3 * s + s / 2 + 1 + r.below((s * 4) as usize) as u32;
    let (x, y, cw, ch) = match side {
        0 => (cut, 0, w - cut, h),
        1 => (0, cut, w, h - cut),
        2 => (0, 0, w - cut, h),
        _ => (0, 0, w, h - cut),
    };
    let g = image::imageops::crop_imm(&g, x, y, cw, ch).to_image();
    let sf = f64::from(s);
    let o = if s % 2 == 1 { 0.5 } else { 0.0 };
    let [tl, tr, bl] = finders(m.side, 0).map(|p| at((p.0 * sf + 3.0 * sf - f64::from(x) - o, p.1 * sf + 3.0 * sf - f64::from(y) - o)));
    let loc = QRLocation { top_left: tl, top_right: tr, bottom_left: bl, module_size: sf, version: v };
    let what = format!("grid of version {} with {} pixels per module, of which {} pixels on side {} are cut off", v, s, cut - 3 * s, side);
    c.note(|| what.clone());
    c.seen(fp_image(&g));
    c.count("outside");
    c.count(&format!("outside_side_{}", side));
    match c.call(|| QRExtractor::new().extract(&g, loc)).map_err(|p| format!("{}: {}", what, p))? {
        Err(e) => {
            ensure!(!e.msg.is_empty(), "{}: an error without a message", what);
            Ok(())
        }
        Ok(_) => {
            keep_gray(c, &g);
            Err(format!("{}: modules outside of the picture were made up", what))
        }
    }
}

pub fn props() -> Vec<Prop> {
    let mut l20 = vec![];
    for k in C20_BENT {
        let share = if k.starts_with("fourth_corner_far") { 0.003 } else { 0.0005 };
        l20.push(limit(&format!("{}_not_extracted", k), k, share, 1));
    }
    for v in 1..=14 {
        l20.push(limit(&format!("version_{}_not_extracted", v), &format!("version_{}", v), 0.0005, 1));
    }
    vec![
        Prop {
            id: "C08",
            rule: "a call of the decoder or one of its stages on an arbitrary picture; distinct by the pixels (and parameters)",
            stages: vec![
                stage("any", 6_000, 300_000, c08_any),
                stage("tiny", 2_400, 60_000, c08_tiny),
                stage("cut", 6_000, 300_000, c08_cut),
                stage("scan", 4_000, 200_000, c08_scan),
                stage("extract", 30_000, 1_000_000, c08_extract),
                stage("prepare", 4_000, 200_000, c08_prepare),
                stage("large", 24, 600, c08_large),
                stage("lattice", 8, 8, c08_lattice),
            ],
            need: vec![("results_text", 300), ("results_error", 1000), ("lattices", 8), ("empty_pictures", 50), ("extracted", 100), ("refused", 300)],
            assumptions: vec!["a call that uses more CPU time than the limit does not terminate in practice; the slowest call of these workloads takes a small fraction of it"],
            limits: vec![],
        },
        Prop {
            id: "C19",
            rule: "a picture and block sizes, compared with the definition pixel by pixel; distinct by the pixels and sizes",
            stages: vec![stage("any", 12_000, 600_000, c19_any), stage("sizes", 33 * 33, 33 * 33 * 30, c19_sizes), stage("codes", 800, 40_000, c19_codes), stage("large", 8, 200, c19_large)],
            need: vec![("pixels_black", 1_000_000), ("pixels_white", 1_000_000), ("even_neighbourhoods", 300), ("blocks_larger_than_the_picture", 100)],
            assumptions: vec!["luma is (2126 R + 7152 G + 722 B) / 10000, rounded down"],
            limits: vec![],
        },
        Prop {
            id: "C20",
            rule: "a grid drawn at a known place; distinct by the pixels",
            stages: vec![stage("flat", 160 * 20, 160 * 1000, c20_flat), stage("bent", 10_000, 400_000, c20_bent), stage("outside", 3_000, 100_000, c20_outside)],
            need: vec![("extracted_exactly", 5000), ("outside", 1000)],
            assumptions: vec![],
            limits: l20,
        },
    ]
}
