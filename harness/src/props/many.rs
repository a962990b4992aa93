//! C12, C13, C21: several codes in a picture, where they are found, and texts that were never drawn.

use super::image::*;
use super::scene::*;
use crate::api::*;
use crate::ensure;
use crate::refqr::*;
use crate::render::*;
use crate::rng::{mix, Rng};
use crate::run::*;

// ---------------------------------------------------------------- C12

/// A code at a place of a picture.
pub struct Put {
    pub d: Drawn,
    pub x: u32,
    pub y: u32,
    pub s: u32,
    pub k: usize,
}

pub fn put(g: &mut GrayImage, m: &Matrix, x0: u32, y0: u32, s: u32) {
    let n = m.side as u32 * s;
    for y in 0..n {
        for x in 0..n {
            if m.get((x / s) as usize, (y / s) as usize) == 1 {
                g.put_pixel(x0 + x, y0 + y, Luma([0]));
            }
        }
    }
}

/// Puts the codes in rows, with at least `gap` modules of the larger neighbour between them and to the edge.
pub fn arrange(r: &mut Rng, codes: Vec<(Drawn, u32, usize)>, per_row: usize, gap: u32) -> (GrayImage, Vec<Put>) {
    let big = codes.iter().map(|c| c.1).max().unwrap();
    let pad = |r: &mut Rng| gap * big + r.below(20) as u32;
    let mut puts = vec![];
    let (mut y, mut width) = (pad(r), 0);
    let mut it = codes.into_iter().peekable();
    while it.peek().is_some() {
        let (mut x, mut tall) = (pad(r), 0);
        for _ in 0..per_row {
            let Some((d, s, k)) = it.next() else { break };
            let n = d.m.side as u32 * s;
            let down = r.below(12) as u32;
            tall = tall.max(n + down);
            puts.push(Put { d, x, y: y + down, s, k });
            x += n + pad(r);
        }
        width = width.max(x);
        y += tall + pad(r);
    }
    let mut g = GrayImage::from_pixel(width, y, Luma([255]));
    for p in &puts {
        put(&mut g, &turn(&p.d.m, p.k), p.x, p.y, p.s);
    }
    (g, puts)
}

fn describe_puts(p: &[Put]) -> String {
    p.iter().map(|p| format!("[{}, {} pixels per module, turned by {}, at ({}, {})]", describe(&p.d), p.s, p.k * 90, p.x, p.y)).collect::<Vec<_>>().join(" ")
}

/// Every text exactly as often as it was drawn.
fn c12_judge(c: &mut Case, g: &GrayImage, want: &[&str], class: &str, what: &dyn Fn() -> String) -> Res {
    c.seen(fp_image(g));
    c.count("pictures");
    c.count(class);
    c.add("codes", want.len() as u64);
    let a = decode_gray(c, g).map_err(|p| format!("{}: {}", what(), p))?;
    let mut got: Vec<&str> = oks(&a);
    got.sort_unstable();
    let mut want = want.to_vec();
    want.sort_unstable();
    c.add("further_results_that_are_errors", a.iter().filter(|x| x.is_err()).count() as u64);
    if got == want {
        c.count("all_read");
        return Ok(());
    }
    // a result too many is wrong; a code missed may happen now and then
    let mut left = want.clone();
    for t in &got {
        match left.iter().position(|w| w == t) {
            Some(i) => {
                left.remove(i);
            }
            None => {
                keep_gray(c, g);
                return Err(format!("{}: the text {} is reported more often than it was drawn; {}", what(), short(t), show_answer(&a)));
            }
        }
    }
    c.add("codes_missed", left.len() as u64);
    c.add(&format!("{}_missed", class), left.len() as u64);
    if left.len() >= 2 && left.len() == want.len() {
        c.count("pictures_without_any_code_read");
    }
    Ok(())
}

const MANY: [&str; 6] = ["two", "three_or_four", "different_sizes", "same_code_again", "with_damaged", "with_clutter"];

fn c12(c: &mut Case) -> Res {
    let class = MANY[c.idx as usize % MANY.len()];
    let r = &mut c.rng;
    let n = match class {
        "two" => 2,
        "three_or_four" => r.range(3, 4),
        "different_sizes" => r.range(2, 3),
        "same_code_again" => r.range(2, 3),
        _ => r.range(2, 3),
    } as usize;
    let s0 = r.range(3, 6) as u32;
    let mut codes = vec![];
    for i in 0..n {
        let v = r.range(1, 6) as u32;
        let s = if class == "different_sizes" { [3, 5, 7][(i + (s0 as usize)) % 3] } else { s0 };
        let k = r.below(4);
        codes.push((symbol(r, v).0, s, k));
    }
    if class == "same_code_again" {
        let (a, s, _) = &codes[0];
        let (a, s) = (Drawn { version: a.version, level: a.level, mask: a.mask, text: a.text.clone(), m: a.m.clone() }, *s);
        let k = r.below(4);
        let at = 1 + r.below(codes.len());
        codes.insert(at, (a, s, k));
    }
    let mut damaged = usize::MAX;
    if class == "with_damaged" {
        // most data modules of one of them are random, its patterns stay
        damaged = r.below(codes.len());
        let v = r.range(3, 6) as u32;
        let (mut d, _) = symbol(r, v);
        let side = d.m.side;
        for y in 0..side {
            for x in 0..side {
                let corner = |x: usize, y: usize| x < 8 && y < 8;
                let alignment = (side - 9..side - 4).contains(&x) && (side - 9..side - 4).contains(&y);
                if !(corner(x, y) || corner(side - 1 - x, y) || corner(x, side - 1 - y) || alignment) {
                    d.m.set(x, y, r.below(2) as u8);
                }
            }
        }
        let (_, s, k) = codes[damaged];
        codes[damaged] = (d, s, k);
    }
    let per_row = r.range(1, 3) as usize;
    let gap = 8;
    let (mut g, puts) = arrange(r, codes, per_row, gap);
    if class == "with_clutter" {
        // lines of "text" above and below
        let (w, h) = g.dimensions();
        let mut big = GrayImage::from_pixel(w, h + 80, Luma([255]));
        image::imageops::replace(&mut big, &g, 0, 40);
        for y in (4..28).chain(h + 52..h + 76) {
            for x in 4..w - 4 {
                if mix(u64::from(y / 3) << 32 | u64::from(x / 2) ^ u64::from(w)) % 3 == 0 && (y / 3) % 4 != 0 {
                    big.put_pixel(x, y, Luma([0]));
                }
            }
        }
        g = big;
    }
    let what = || format!("{}: {}{} in {}x{}", class, describe_puts(&puts), if damaged < 9 { format!(" (number {} is damaged)", damaged) } else { String::new() }, g.width(), g.height());
    c.note(|| what());
    let want: Vec<&str> = puts.iter().enumerate().filter(|(i, _)| *i != damaged).map(|(_, p)| p.d.text.as_str()).collect();
    c12_judge(c, &g, &want, class, &what)
}

/// Sheets of codes, in rows or irregular, up to sixty of them.
fn c12_crowd(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n = if c.idx % 8 == 0 { r.range(25, 60) } else { r.range(5, 24) } as usize;
    let same_version = if r.chance(0.4) { Some(r.range(1, 4) as u32) } else { None };
    let s = r.range(3, 4) as u32;
    let turned = r.chance(0.4);
    let mut codes = vec![];
    for _ in 0..n {
        let v = same_version.unwrap_or_else(|| r.range(1, 5) as u32);
        let k = if turned { r.below(4) } else { 0 };
        codes.push((symbol(r, v).0, s, k));
    }
    let per_row = r.range(3, 30) as usize;
    let (g, puts) = arrange(r, codes, per_row, 8);
    let what = || format!("{} codes, {} in a row, in {}x{}: {}", n, per_row, g.width(), g.height(), describe_puts(&puts));
    c.note(|| what());
    c.add("codes_in_crowds", n as u64);
    let want: Vec<&str> = puts.iter().map(|p| p.d.text.as_str()).collect();
    c12_judge(c, &g, &want, "crowd", &what)
}

// ---------------------------------------------------------------- C13

fn locations(c: &mut Case, g: &GrayImage) -> Result<Vec<QRLocation>, String> {
    c.call(|| {
        LineScan::new()
            .detect(g)
            .into_iter()
            .map(|l| match l {
                Location::QR(q) => q,
            })
            .collect()
    })
}
fn binarized(c: &mut Case, g: &GrayImage) -> Result<GrayImage, String> {
    let img = rgba(g);
    c.call(|| BlockedMean::new(5, 7).prepare(&img))
}

/// What every reported location must be, whatever the picture.
pub fn sane_location(q: &QRLocation, g: &GrayImage) -> Res {
    let (w, h) = (f64::from(g.width()), f64::from(g.height()));
    let t = || format!("location {:?} in {}x{}", q, w, h);
    ensure!((1..=40).contains(&q.version), "{}: not a version", t());
    ensure!(q.module_size.is_finite() && q.module_size >= 1.0 && q.module_size <= w.max(h) / 7.0 + 1.0, "{}: not a module size", t());
    for p in [&q.top_left, &q.top_right, &q.bottom_left] {
        ensure!(p.x >= 0.0 && p.y >= 0.0 && p.x <= w && p.y <= h, "{}: outside of the picture", t());
    }
    let (ax, ay) = (q.top_right.x - q.top_left.x, q.top_right.y - q.top_left.y);
    let (bx, by) = (q.bottom_left.x - q.top_left.x, q.bottom_left.y - q.top_left.y);
    let (la, lb) = (ax.hypot(ay), bx.hypot(by));
    ensure!((la - lb).abs() / la.max(lb) <= 0.15 + 1e-9, "{}: the sides have different lengths", t());
    let sine = (ax * by - ay * bx) / la / lb;
    ensure!(sine > 0.0, "{}: mirrored", t());
    ensure!(sine >= 0.95 - 1e-9, "{}: the sides are not perpendicular", t());
    let modules = f64::from(q.version * 4 + 17 - 7);
    // one of the sides gave the version
    let off = (la / q.module_size - modules).abs().min((lb / q.module_size - modules).abs());
    ensure!(off <= 2.0 + 1e-9, "{}: the sides are {:.1} and {:.1} modules long, which is another version", t(), la / q.module_size, lb / q.module_size);
    Ok(())
}

struct Truth {
    version: u32,
    centres: [(f64, f64); 3],
    s: f64,
}
/// How far off (in modules) the best location for the drawn code is.
fn off_by(q: &QRLocation, t: &Truth) -> f64 {
    [q.top_left, q.top_right, q.bottom_left].iter().zip(&t.centres).map(|(p, c)| (p.x - c.0).hypot(p.y - c.1)).fold(0.0, f64::max) / t.s
}

fn c13_judge(c: &mut Case, g: &GrayImage, truth: &Truth, tol: f64, class: &str, what: &dyn Fn() -> String) -> Res {
    c.seen(fp_image(g));
    c.count(class);
    c.count("pictures");
    let bent = !matches!(class, "axis_aligned" | "scanned_directly");
    if bent {
        c.count(&format!("version_{}", truth.version));
    }
    let b = if class == "scanned_directly" { g.clone() } else { binarized(c, g).map_err(|p| format!("{}: {}", what(), p))? };
    let l = locations(c, &b).map_err(|p| format!("{}: {}", what(), p))?;
    for q in &l {
        c.count("locations");
        if let Err(e) = sane_location(q, &b) {
            keep_gray(c, g);
            return Err(format!("{}: {}", what(), e));
        }
    }
    let good = l.iter().filter(|q| q.version == truth.version && off_by(q, truth) <= tol && (q.module_size / truth.s - 1.0).abs() <= 0.13).count();
    if good == 1 {
        c.count("located");
        return Ok(());
    }
    if good > 1 {
        keep_gray(c, g);
        return Err(format!("{}: located {} times: {:?}", what(), good, l));
    }
    let near = l.iter().map(|q| off_by(q, truth)).fold(f64::MAX, f64::min);
    if std::env::var("VH_DEV").is_ok() {
        eprintln!("C13 {} {:?} near {:.2} s {:.2} ms {:?} v {:?} true {}", class, c.idx, near, truth.s, l.iter().map(|q| q.module_size / truth.s).collect::<Vec<_>>(), l.iter().map(|q| q.version).collect::<Vec<_>>(), truth.version);
    }
    c.count(&format!("{}_missed", class));
    if bent {
        c.count(&format!("version_{}_missed", truth.version));
    }
    Ok(())
}

fn c13_flat(c: &mut Case) -> Res {
    let v = 1 + (c.idx % 40) as u32;
    let k = (c.idx / 40 % 4) as usize;
    let s = c.rng.range(3, if v <= 6 { 12 } else { 6 }) as u32;
    let class = if c.idx / 160 % 2 == 0 { "axis_aligned" } else { "scanned_directly" };
    let (d, _) = symbol(&mut c.rng, v);
    let f = flat(&mut c.rng, s, k);
    let g = draw_flat(&d, &f);
    let sf = f64::from(s);
    let centres = finders(d.m.side, k).map(|p| (p.0 * sf + f64::from(f.margins[0]), p.1 * sf + f64::from(f.margins[1])));
    let what = || format!("{}: {} with {} pixels per module, margins {:?}, turned by {} degrees", class, describe(&d), s, f.margins, k * 90);
    c.note(|| what());
    c13_judge(c, &g, &Truth { version: v, centres, s: sf }, (1.3 / sf).max(0.35), class, &what)
}

fn c13_bent(c: &mut Case) -> Res {
    let class = BENT[c.idx as usize % BENT.len()];
    let k = c.idx as usize / BENT.len();
    let v = if class == "larger_codes" { 7 + k % 8 } else { 1 + k % 6 } as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let s = c.rng.frange(4.0, 10.0);
    let (hm, w, h) = bent(&mut c.rng, class, d.m.side, s);
    let mut cv = Canvas::new(w, h);
    cv.draw(&d.m, &hm, 3);
    let g = cv.black_white();
    let centres = finders(d.m.side, 0).map(|p| hm.map(p.0, p.1));
    let what = || format!("{}: {} with {:.2} pixels per module, {}x{}, map {:?}", class, describe(&d), s, w, h, hm.0);
    c.note(|| what());
    c13_judge(c, &g, &Truth { version: v, centres, s }, 1.0, class, &what)
}

/// Any black and white picture: whatever is located must look like a code's three corners.
fn c13_any(c: &mut Case) -> Res {
    let g = anything(&mut c.rng, true);
    let g = if c.rng.chance(0.5) { binarized(c, &g)? } else { g };
    c.seen(fp_image(&g));
    c.count("arbitrary_pictures");
    let l = locations(c, &g)?;
    c.note(|| format!("{}x{} with {} locations", g.width(), g.height(), l.len()));
    for q in &l {
        c.count("locations_in_arbitrary_pictures");
        for p in [&q.top_left, &q.top_right, &q.bottom_left] {
            let (x, y) = (p.x.round() as u32, p.y.round() as u32);
            if x < g.width() && y < g.height() && g.get_pixel(x, y)[0] != 0 {
                c.count("light_centres");
            }
        }
        if let Err(e) = sane_location(q, &g) {
            keep_gray(c, &g);
            return Err(e);
        }
    }
    Ok(())
}

/// Finder patterns scattered about, with other shapes between them.
pub fn scattered(r: &mut Rng, most: usize) -> GrayImage {
    let (w, h) = (r.range(60, 420) as u32, r.range(60, 420) as u32);
    let mut g = GrayImage::from_pixel(w, h, Luma([255]));
    let s = r.range(1, 6) as u32;
    let grid = r.chance(0.5);
    let step = s * r.range(8, 30) as u32;
    for _ in 0..r.below(most) + 1 {
        let t = if r.chance(0.7) { s } else { r.range(1, 7) as u32 };
        let (mut x0, mut y0) = (r.below(w as usize) as u32, r.below(h as usize) as u32);
        if grid {
            x0 -= x0 % step;
            y0 -= y0 % step;
        }
        let kind = r.below(8);
        for y in 0..7 * t {
            for x in 0..7 * t {
                let (a, b) = (x / t, y / t);
                let ring = a.min(6 - a).min(b.min(6 - b));
                let dark = match kind {
                    0 => a % 2 == 0,
                    1 => ring == 0,
                    _ => ring != 1,
                };
                if x0 + x < w && y0 + y < h {
                    g.put_pixel(x0 + x, y0 + y, Luma([if dark { 0 } else { 255 }]));
                }
            }
        }
    }
    g
}

/// Pictures that are not meant to hold a readable code.
pub fn anything(r: &mut Rng, codes: bool) -> GrayImage {
    match r.below(if codes { 7 } else { 5 }) {
        0 | 1 => scattered(r, 14),
        2 => {
            let (w, h) = (r.range(1, 200) as u32, r.range(1, 200) as u32);
            let p = r.f();
            let cell = r.range(1, 6) as u32;
            let key = r.next();
            GrayImage::from_fn(w, h, |x, y| {
                let z = mix(key ^ (u64::from(x / cell) << 32 | u64::from(y / cell)));
                Luma([if (z >> 11) as f64 / (1u64 << 53) as f64 <= p { 0 } else { 255 }])
            })
        }
        3 => {
            // stripes, some of them in the proportions of a finder pattern
            // (not more than some dozens of these, as the combinations of three of them are tried)
            let s = r.range(1, 6) as u32;
            let (w, h) = (r.range(20, 20 + 22 * i64::from(s)) as u32, r.range(20, 20 + 22 * i64::from(s)) as u32);
            let run = [1u32, 1, 3, 1, 1, r.range(1, 5) as u32];
            let mut line = vec![];
            while line.len() < (w + h) as usize {
                for (i, n) in run.iter().enumerate() {
                    for _ in 0..n * s {
                        line.push(if i % 2 == 0 { 0u8 } else { 255 });
                    }
                }
            }
            let (a, b) = *r.pick(&[(1u32, 0u32), (0, 1), (1, 1)]);
            GrayImage::from_fn(w, h, |x, y| Luma([line[(a * x + b * y) as usize]]))
        }
        4 => {
            // gray noise and slopes
            let (w, h) = (r.range(1, 150) as u32, r.range(1, 150) as u32);
            let (a, b, n) = (r.frange(-3.0, 3.0), r.frange(-3.0, 3.0), r.frange(0.0, 120.0));
            let base = r.frange(0.0, 255.0);
            let mut q = r.clone();
            GrayImage::from_fn(w, h, |x, y| Luma([(base + a * f64::from(x) + b * f64::from(y) + n * (q.f() - 0.5)).clamp(0.0, 255.0) as u8]))
        }
        _ => {
            // a code, mistreated
            let v = r.range(1, 8) as u32;
            let (d, _) = symbol(r, v);
            let s = r.range(1, 6) as u32;
            let k = r.below(4);
            let f = flat(r, s, k);
            let mut g = draw_flat(&d, &f);
            for _ in 0..r.below(4) {
                mistreat(r, &mut g);
            }
            g
        }
    }
}

/// Crops, covers, smears, scales or dirties a picture.
pub fn mistreat(r: &mut Rng, g: &mut GrayImage) {
    let (w, h) = g.dimensions();
    if w < 4 || h < 4 {
        return;
    }
    match r.below(8) {
        0 => {
            let (x, y) = (r.below(w as usize / 2) as u32, r.below(h as usize / 2) as u32);
            let (a, b) = (r.range(1, i64::from(w - x)) as u32, r.range(1, i64::from(h - y)) as u32);
            *g = image::imageops::crop_imm(g, x, y, a, b).to_image();
        }
        1 | 2 => {
            let (x, y) = (r.below(w as usize) as u32, r.below(h as usize) as u32);
            let (a, b) = (r.below(w as usize / 2) as u32 + 1, r.below(h as usize / 2) as u32 + 1);
            let v = [0, 255, 128][r.below(3)];
            for j in y..(y + b).min(h) {
                for i in x..(x + a).min(w) {
                    g.put_pixel(i, j, Luma([v]));
                }
            }
        }
        3 => {
            let p = r.frange(0.0, 0.3);
            for q in g.pixels_mut() {
                if r.chance(p) {
                    q[0] = 255 - q[0];
                }
            }
        }
        4 => {
            let (a, b) = (r.range(1, 300) as u32, r.range(1, 300) as u32);
            *g = image::imageops::resize(g, a, b, *r.pick(&[image::imageops::FilterType::Nearest, image::imageops::FilterType::Triangle]));
        }
        5 => *g = image::imageops::flip_horizontal(g),
        6 => {
            let a = r.below(w as usize) as u32;
            let d = r.range(1, 12) as u32;
            // shift a part of the picture
            let src = g.clone();
            for y in 0..h {
                for x in a..w {
                    let v = if x >= d { src.get_pixel(x - d, y)[0] } else { 255 };
                    g.put_pixel(x, y, Luma([v]));
                }
            }
        }
        _ => {
            for q in g.pixels_mut() {
                q[0] = 255 - q[0];
            }
        }
    }
}

// ---------------------------------------------------------------- C21

/// Only texts that were drawn.
fn c21_judge(c: &mut Case, g: &GrayImage, drawn: &[&str], what: &dyn Fn() -> String) -> Res {
    c.seen(fp_image(g));
    c.count("pictures");
    let a = decode_gray(c, g).map_err(|p| format!("{}: {}", what(), p))?;
    let o = oks(&a);
    c.add("texts", o.len() as u64);
    c.add("errors", a.iter().filter(|x| x.is_err()).count() as u64);
    for t in &o {
        if !drawn.contains(t) {
            keep_gray(c, g);
            return Err(format!("{}: the text {} was never drawn; {}", what(), short(t), show_answer(&a)));
        }
    }
    for t in drawn {
        if o.iter().filter(|x| *x == t).count() > drawn.iter().filter(|x| *x == t).count() {
            keep_gray(c, g);
            return Err(format!("{}: the text {} is reported too often; {}", what(), short(t), show_answer(&a)));
        }
    }
    Ok(())
}

/// A code whose modules are disturbed in the proportion to be barely correctable or not at all.
fn c21_damaged(c: &mut Case) -> Res {
    let v = c.rng.range(1, 10) as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let s = c.rng.range(3, 6) as u32;
    let k = c.rng.below(4);
    let f = flat(&mut c.rng, s, k);
    let r = &mut c.rng;
    let mut m = d.m.clone();
    let n = m.side;
    let how = r.below(4);
    let p = r.frange(0.0, 0.25);
    let keep = |x: usize, y: usize| (x < 9 && y < 9) || (x >= n - 8 && y < 9) || (x < 9 && y >= n - 8) || (v > 1 && x + 9 >= n && x + 4 < n && y + 9 >= n && y + 4 < n);
    let (bx, by, bw, bh) = (r.below(n), r.below(n), r.below(n / 2) + 1, r.below(n / 2) + 1);
    let colour = r.below(3) as u8;
    for y in 0..n {
        for x in 0..n {
            if keep(x, y) {
                continue;
            }
            let hit = match how {
                0 => r.chance(p),
                1 => (bx..bx + bw).contains(&x) && (by..by + bh).contains(&y),
                2 => y >= by && r.chance(p * 2.0),
                _ => (x + y) % 7 == bx % 7 && r.chance(p * 3.0),
            };
            if hit {
                let b = m.get(x, y);
                m.set(x, y, match (how, colour) { (1, 0) => 0, (1, 1) => 1, _ => 1 - b });
            }
        }
    }
    let g = plain(&turn(&m, k), s, f.margins[0], f.margins[1], f.margins[2], f.margins[3]);
    let what = || format!("{} with damaged modules ({}), {} pixels per module, turned by {} degrees", describe(&d), how, s, k * 90);
    c.note(|| what());
    c.count("damaged_codes");
    c21_judge(c, &g, &[&d.text], &what)
}

/// A picture with codes, mistreated.
fn c21_mistreated(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let v = r.range(1, 8) as u32;
    let (d, _) = symbol(r, v);
    let s = r.range(2, 7) as u32;
    let k = r.below(4);
    let f = flat(r, s, k);
    let mut g = draw_flat(&d, &f);
    for _ in 0..r.range(1, 4) {
        mistreat(r, &mut g);
    }
    let what = || format!("{} with {} pixels per module, mistreated into {}x{}", describe(&d), s, g.width(), g.height());
    c.note(|| what());
    c.count("mistreated_codes");
    c21_judge(c, &g, &[&d.text], &what)
}

/// Codes over each other, and one split in two halves of different codes.
fn c21_mixed(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let v = r.range(1, 6) as u32;
    let (a, _) = symbol(r, v);
    let w = if r.chance(0.6) { v } else { r.range(1, 6) as u32 };
    let (b, _) = symbol(r, w);
    let s = r.range(3, 6) as u32;
    let how = r.below(3);
    let g = match how {
        0 => {
            // upper part of one, lower part of the other
            let cut = r.below(a.m.side);
            let mut m = a.m.clone();
            for y in cut..a.m.side.min(b.m.side) {
                for x in 0..a.m.side.min(b.m.side) {
                    m.set(x, y, b.m.get(x, y));
                }
            }
            plain(&m, s, 20, 20, 20, 20)
        }
        1 => {
            // overlapping
            let side = (a.m.side + b.m.side) as u32 * s + 60;
            let mut g = GrayImage::from_pixel(side, side, Luma([255]));
            put(&mut g, &a.m, 20, 20, s);
            let o = r.below(a.m.side * s as usize + 20) as u32;
            let p = r.below(a.m.side * s as usize + 20) as u32;
            put(&mut g, &b.m, 20 + o, 20 + p, s);
            g
        }
        _ => {
            // side by side without any space between them
            let side = (a.m.side + b.m.side) as u32 * s + 60;
            let mut g = GrayImage::from_pixel(side, side, Luma([255]));
            put(&mut g, &a.m, 24, 24, s);
            let gap = r.below(3) as u32 * s;
            put(&mut g, &b.m, 24 + a.m.side as u32 * s + gap, 24, s);
            g
        }
    };
    let what = || format!("{} and {} mixed ({}), {} pixels per module", describe(&a), describe(&b), how, s);
    c.note(|| what());
    c.count("mixed_codes");
    c21_judge(c, &g, &[&a.text, &b.text], &what)
}

fn c21_nothing(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let g = match r.below(6) {
        0 => scattered(r, 30),
        1 | 2 => {
            // three corners and an alignment pattern around random modules
            let v = r.range(1, 6) as u32;
            let (d, _) = symbol(r, v);
            let mut m = d.m.clone();
            let n = m.side;
            for y in 0..n {
                for x in 0..n {
                    let keep = (x < 8 && y < 8) || (x >= n - 8 && y < 8) || (x < 8 && y >= n - 8) || (v > 1 && x + 9 >= n && x + 4 < n && y + 9 >= n && y + 4 < n);
                    if !keep {
                        m.set(x, y, r.below(2) as u8);
                    }
                }
            }
            let s = r.range(3, 6) as u32;
            plain(&m, s, 24, 24, 24, 24)
        }
        _ => anything(r, false),
    };
    let what = || format!("a picture of {}x{} without a code", g.width(), g.height());
    c.note(|| what());
    c.count("pictures_without_codes");
    c21_judge(c, &g, &[], &what)
}

pub fn props() -> Vec<Prop> {
    let mut l12 = vec![limit("pictures_without_any_code_read", "pictures", 0.0005, 1)];
    for k in MANY {
        l12.push(limit(&format!("{}_missed", k), k, 0.0002, 1));
    }
    l12.push(limit("crowd_missed", "codes_in_crowds", 0.0002, 1));
    let mut l13 = vec![limit("axis_aligned_missed", "axis_aligned", 0.0002, 1), limit("scanned_directly_missed", "scanned_directly", 0.0002, 1)];
    l13.push(limit("light_centres", "locations_in_arbitrary_pictures", 0.001, 1));
    for k in BENT {
        l13.push(limit(&format!("{}_missed", k), k, 0.005, 2));
    }
    for v in 1..=14 {
        l13.push(limit(&format!("version_{}_missed", v), &format!("version_{}", v), 0.005, 2));
    }
    vec![
        Prop {
            id: "C12",
            rule: "a picture with two to four codes, or up to sixty, on white, eight modules or more apart; distinct by its pixels",
            stages: vec![stage("many", 12_000, 200_000, c12), stage("crowd", 400, 12_000, c12_crowd)],
            need: vec![("two", 300), ("same_code_again", 300), ("with_damaged", 300), ("different_sizes", 300), ("all_read", 2000), ("codes_in_crowds", 3000)],
            assumptions: vec![],
            limits: l12,
        },
        Prop {
            id: "C13",
            rule: "a picture with one code whose place is known, or an arbitrary picture; distinct by its pixels",
            stages: vec![stage("flat", 160 * 20, 160 * 400, c13_flat), stage("bent", 8_000, 200_000, c13_bent), stage("any", 6_000, 300_000, c13_any)],
            need: vec![("located", 5000), ("locations_in_arbitrary_pictures", 300)],
            assumptions: vec![],
            limits: l13,
        },
        Prop {
            id: "C21",
            rule: "a picture of damaged, mistreated or mixed codes, or of none; distinct by its pixels",
            stages: vec![
                stage("damaged", 8_000, 400_000, c21_damaged),
                stage("mistreated", 8_000, 400_000, c21_mistreated),
                stage("mixed", 4_000, 200_000, c21_mixed),
                stage("nothing", 8_000, 400_000, c21_nothing),
            ],
            need: vec![("texts", 1000), ("errors", 1000)],
            assumptions: vec![],
            limits: vec![],
        },
    ]
}
