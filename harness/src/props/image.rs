//! C09-C13, C21: pictures of codes.

use super::scene::*;
use crate::api::*;
use crate::ensure;
use crate::refqr::*;
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;

// ---------------------------------------------------------------- C09

pub struct Flat {
    pub s: u32,
    pub k: usize,
    pub margins: [u32; 4],
}

pub fn flat(r: &mut Rng, s: u32, k: usize) -> Flat {
    let mut margins = [0; 4];
    let extra = [0, 1, 5, 40][r.below(4)];
    for m in margins.iter_mut() {
        *m = 4 * s + r.below(extra + 1) as u32;
    }
    if r.chance(0.1) {
        margins[r.below(4)] += 300;
    }
    Flat { s, k, margins }
}
pub fn draw_flat(d: &Drawn, f: &Flat) -> GrayImage {
    plain(&turn(&d.m, f.k), f.s, f.margins[0], f.margins[1], f.margins[2], f.margins[3])
}

/// What a picture of one code gave: it must be its text, once; further results may only be errors.
pub enum Seen {
    Read,
    Missed,
}
fn one_text(c: &mut Case, g: &GrayImage, want: &str, what: &dyn Fn() -> String) -> Result<Seen, String> {
    one_text_rgba(c, &rgba(g), want, what)
}
pub fn one_text_rgba(c: &mut Case, g: &RgbaImage, want: &str, what: &dyn Fn() -> String) -> Result<Seen, String> {
    c.seen(fp_rgba(g));
    c.count("pictures");
    let a = match decode_rgba(c, g) {
        Ok(a) => a,
        Err(p) => {
            keep_image(c, g);
            return Err(format!("{}: {}", what(), p));
        }
    };
    c.add("further_results_that_are_errors", a.iter().filter(|x| x.is_err()).count() as u64);
    let o = oks(&a);
    if o == [want] {
        c.count("read");
        return Ok(Seen::Read);
    }
    if o.is_empty() {
        if std::env::var("VH_DEV").is_ok() {
            eprintln!("missed {} {}: {}", c.idx, what(), show_answer(&a));
            let _ = g.save(c.scratch.join(format!("missed-{}.png", c.idx)));
        }
        return Ok(Seen::Missed);
    }
    keep_image(c, g);
    Err(format!("{}: {}", what(), show_answer(&a)))
}

/// The same code, drawn in eight other ways: how many of them are missed?
fn redrawn(c: &mut Case, d: &Drawn) -> Result<usize, String> {
    let mut missed = 0;
    for i in 0..8 {
        let f = flat(&mut c.rng, 3 + i / 4 * 2 + u32::from(d.version <= 6), i as usize % 4);
        let g = draw_flat(d, &f);
        let what = || format!("{} drawn again with {} pixels per module, turned by {} degrees", describe(d), f.s, f.k * 90);
        if let Seen::Missed = one_text(c, &g, &d.text, &what)? {
            missed += 1;
        }
    }
    Ok(missed)
}

fn c09_case(c: &mut Case, v: u32, s: u32, k: usize) -> Res {
    let (d, _) = symbol(&mut c.rng, v);
    let f = flat(&mut c.rng, s, k);
    let g = draw_flat(&d, &f);
    c.count(&format!("turned_{}", k * 90));
    c.count(if v <= 6 { "versions_1_to_6" } else if v <= 20 { "versions_7_to_20" } else { "versions_21_to_40" });
    let what = || format!("{} drawn with {} pixels per module, margins {:?}, turned by {} degrees, {}x{}", describe(&d), f.s, f.margins, k * 90, g.width(), g.height());
    c.note(|| what());
    if let Seen::Missed = one_text(c, &g, &d.text, &what)? {
        let e = excuse(&d.m, k).unwrap_or("missed_for_another_reason");
        c.count(e);
        let again = redrawn(c, &d)?;
        if again >= 5 {
            keep_gray(c, &g);
            return Err(format!("{}: not read, and neither are {} of 8 other drawings of it", what(), again));
        }
    }
    Ok(())
}
fn c09_versions(c: &mut Case) -> Res {
    let v = 1 + (c.idx % 40) as u32;
    let k = (c.idx / 40 % 4) as usize;
    let s = if v <= 6 { c.rng.range(3, 9) } else if v <= 20 { c.rng.range(3, 6) } else { c.rng.range(3, 5) } as u32;
    c09_case(c, v, s, k)
}
fn c09_small(c: &mut Case) -> Res {
    let v = c.rng.range(1, 6) as u32;
    let k = c.rng.below(4);
    let s = if k == 0 { c.rng.range(2, 12) } else { c.rng.range(3, 12) } as u32;
    c09_case(c, v, s, k)
}
fn c09_sizes(c: &mut Case) -> Res {
    let v = c.rng.range(1, 3) as u32;
    let s = 2 + (c.idx % 39) as u32;
    let k = if s == 2 { 0 } else { c.rng.below(4) };
    c09_case(c, v, s, k)
}
/// Symbols that are mostly padding, or one character over and over: every version up to 10, level, mask and turn.
/// Their modules repeat, and so do shapes in them that nearly look like parts of a finder pattern.
fn c09_plain(c: &mut Case) -> Res {
    let i = c.idx as usize;
    let (k, mask, level, v) = (i % 4, (i / 4 % 8) as u16, Level::from_bits((i / 32 % 4) as u16), 1 + (i / 128 % 10) as u32);
    let kind = i / 1280 % 8;
    let room = data_codewords(v, level);
    let many = if c.rng.chance(0.5) { room * 8 } else { c.rng.below(room * 8) };
    let fits = |segs: Vec<Seg>| (segs.iter().map(|s| s.bits(v)).sum::<usize>() <= room * 8).then_some(segs);
    let made = |n: usize| match kind {
        0 => vec![],
        1 => vec![Seg::Num("0".repeat(n))],
        2 => vec![Seg::Num("8".repeat(n))],
        3 => vec![Seg::Alnum("A".repeat(n))],
        4 => vec![Seg::Alnum(":".repeat(n))],
        5 => vec![Seg::Byte(vec![b' '; n])],
        6 => vec![Seg::Byte(vec![b'U'; n])],
        _ => vec![Seg::Byte(vec![b'x'; n])],
    };
    let segs = (0..=many).rev().find_map(|n| fits(made(n))).unwrap_or_default();
    let text = segs_text(&segs).unwrap();
    let data = data_for(&segs, v, level);
    let m = Symbol::new(&data, v, level, mask).matrix();
    let d = Drawn { version: v, level, mask, text, m };
    let s = c.rng.range(3, 5) as u32;
    let f = flat(&mut c.rng, s, k);
    let g = draw_flat(&d, &f);
    c.count("plain_symbols");
    let what = || format!("{} drawn with {} pixels per module, margins {:?}, turned by {} degrees", describe(&d), f.s, f.margins, k * 90);
    c.note(|| what());
    if let Seen::Missed = one_text(c, &g, &d.text, &what)? {
        c.count("plain_symbols_missed");
        c.count(excuse(&d.m, k).unwrap_or("missed_for_another_reason"));
    }
    Ok(())
}
/// Symbols in which other modules, five to seven modules from a finder pattern, pass for one themselves.
/// (About one symbol in a thousand is of this kind, so these were looked for.)
const LOOKALIKES: [(u32, Level, u16, &str); 35] = [
    (2, Level::M, 3, "IT_p;ZVFo+WaJ}TCI\"HR\"|9|h"),
    (6, Level::H, 0, "3444257532478149957838033"),
    (1, Level::L, 0, "3R0R%/+RJTMC1.Y7:TM:V7C"),
    (1, Level::M, 2, "/yy,v[;<Hu<\\|7"),
    (4, Level::Q, 6, "gW8ÍaF?bTEP:678Sto8+&w"),
    (21, Level::H, 4, "XMc,V2d*HyW&N%-a{TCT\\"),
    (3, Level::Q, 6, "U0KZ0.6WDR5 9OPCY5%:8UXZ7F0B"),
    (4, Level::Q, 4, "i~+~EJ0Rc"),
    (6, Level::H, 2, "4;Yzu=;XF;aL)svig6(,32jSdy1$@Q)"),
    (1, Level::Q, 4, ":\"%dA@iB)aF"),
    (5, Level::Q, 4, "oj4BO3R^Xp J5:kcQ1R6G5$EekYBuS'KFYIWxc5QO[>B)`5!i3X#"),
    (3, Level::Q, 1, "bJ0H,1EQDlQx80&nLz~í_FmHl"),
    (3, Level::Q, 4, "G26DDR+GO7R3PO5.*R+HWKU6MPO9QNT5A:BZQAHV3WGL/1"),
    (1, Level::M, 0, "++L/"),
    (4, Level::Q, 7, "5*R.7N+H6H*Z7ZAE/J4-LR*ZDYGB3AD:5P+4PB3-1V"),
    (6, Level::H, 3, "t'pARl!vHnevqA2.s$VUb\\N5zR\"HC*S2s2x_:WPn&s?D"),
    (4, Level::Q, 4, "8728254173454134369299272946297921958688845149237134918535"),
    (1, Level::M, 2, "B-B:SK7K-RTT.MW$ZF-J"),
    (2, Level::M, 2, "$?Å"),
    (5, Level::Q, 6, "sfBwa=yk8qh(y3aP_6HgtP0{ZioP$GDx^-\\R=zxz#d` +"),
    (4, Level::Q, 4, "26/24T:%F3%4A"),
    (1, Level::Q, 4, "41246434460206466932104"),
    (2, Level::Q, 6, "/U1I0S8XVW+A%MWX6Q7V3H.UQ36 "),
    (1, Level::Q, 2, "270066375609156"),
    (4, Level::Q, 4, "WO-BN6ZL/7%98T/U+**T4IXBKLE4."),
    (10, Level::H, 0, "C*TQZ02.HTAMP:E3RQ9"),
    (3, Level::Q, 4, ")]QXPhrAwu*E2}eI3s"),
    (2, Level::L, 7, "N.bi]sF<i+@*ig0AW>"),
    (1, Level::Q, 0, "J V:BJB3DCW."),
    (4, Level::Q, 6, "23641113492329789787533802"),
    (4, Level::Q, 4, "UIZYCT00B+.68A$6UL*NS*7"),
    (3, Level::L, 7, "pSxd;^]E;_Qd K)|tu#DrgAbi:FK4M|O}jwç&@`Vv9xrUHg5j69T"),
    (5, Level::L, 6, ""),
    (6, Level::H, 0, ""),
    (6, Level::Q, 4, ""),
];
fn c09_lookalikes(c: &mut Case) -> Res {
    let i = c.idx as usize;
    let (k, s) = (i % 4, 3 + (i / 4 % 8) as u32);
    let (v, level, mask, text) = LOOKALIKES[i / 32 % LOOKALIKES.len()];
    let modes = if text.is_empty() { 3 } else { 1 };
    for mode in 0..modes {
        let seg = match text {
            "" => [Seg::Num(String::new()), Seg::Alnum(String::new()), Seg::Byte(vec![])][mode].clone(),
            t if t.bytes().all(|b| b.is_ascii_digit()) => Seg::Num(t.to_string()),
            t if t.bytes().all(|b| ALNUM.contains(&b)) => Seg::Alnum(t.to_string()),
            t => Seg::Byte(t.bytes().collect()),
        };
        let data = data_for(&[seg], v, level);
        let m = Symbol::new(&data, v, level, mask).matrix();
        let d = Drawn { version: v, level, mask, text: text.to_string(), m };
        let g = draw_flat(&d, &Flat { s, k, margins: [4 * s; 4] });
        c.count("lookalikes");
        let what = || format!("{} drawn with {} pixels per module and a margin of four modules, turned by {} degrees", describe(&d), s, k * 90);
        c.note(|| what());
        if let Seen::Missed = one_text(c, &g, &d.text, &what)? {
            keep_gray(c, &g);
            return Err(format!("{}: not read", what()));
        }
    }
    Ok(())
}
/// Very wide and very tall pictures, with the code anywhere along them.
fn c09_long(c: &mut Case) -> Res {
    let v = c.rng.range(1, 5) as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let s = c.rng.range(3, 4) as u32;
    let k = c.rng.below(4);
    let mut f = flat(&mut c.rng, s, k);
    let far = *c.rng.pick(&[4_000u32, 33_000, 66_000]);
    let before = if c.rng.chance(0.7) { far } else { c.rng.below(far as usize) as u32 };
    let i = c.idx as usize % 2;
    for m in f.margins.iter_mut() {
        *m = (*m).min(60);
    }
    f.margins[i] += before;
    f.margins[i + 2] += far - before;
    let g = draw_flat(&d, &f);
    c.count("long_pictures");
    let what = || format!("{} drawn with {} pixels per module, margins {:?}, turned by {} degrees, {}x{}", describe(&d), f.s, f.margins, k * 90, g.width(), g.height());
    c.note(|| what());
    if let Seen::Missed = one_text(c, &g, &d.text, &what)? {
        let again = redrawn(c, &d)?;
        if again == 0 {
            return Err(format!("{}: not read, but 8 other drawings of it are", what()));
        }
        c.count(excuse(&d.m, k).unwrap_or("missed_for_another_reason"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

/// How a picture of one code is distorted.
pub const BENT: [&str; 8] = ["turned", "tilted", "scaled", "stretched", "slanted", "perspective", "all_together", "larger_codes"];

/// Map of the modules of an `n` x `n` code with about `s` pixels per module, and the size of the picture.
pub fn bent(r: &mut Rng, class: &str, n: usize, s: f64) -> (Homo, u32, u32) {
    let side = n as f64;
    let mut q = [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)].map(|(x, y): (f64, f64)| (x * side * s, y * side * s));
    fn turn(q: &mut [(f64, f64); 4], deg: f64) {
        let (sin, cos) = deg.to_radians().sin_cos();
        for p in q.iter_mut() {
            *p = (p.0 * cos - p.1 * sin, p.0 * sin + p.1 * cos);
        }
    }
    fn stretch(q: &mut [(f64, f64); 4], r: &mut Rng, by: f64) {
        let (a, b) = (r.frange(1.0 - by, 1.0 + by), r.frange(1.0 - by, 1.0 + by));
        for p in q.iter_mut() {
            *p = (p.0 * a, p.1 * b);
        }
    }
    fn slant(q: &mut [(f64, f64); 4], r: &mut Rng, by: f64) {
        let k = r.frange(-by, by);
        for p in q.iter_mut() {
            p.0 += k * p.1;
        }
    }
    fn corners(q: &mut [(f64, f64); 4], r: &mut Rng, by: f64) {
        for p in q.iter_mut() {
            p.0 += r.frange(-by, by);
            p.1 += r.frange(-by, by);
        }
    }
    let quarter = 90.0 * r.below(4) as f64;
    match class {
        "turned" => turn(&mut q, quarter + r.frange(-15.0, 15.0)),
        "tilted" => turn(&mut q, quarter + r.frange(-4.0, 4.0)),
        "larger_codes" => turn(&mut q, quarter + r.frange(-2.0, 2.0)),
        "scaled" => {}
        "stretched" => stretch(&mut q, r, 0.03),
        "slanted" => slant(&mut q, r, 0.09),
        "fourth_corner" | "fourth_corner_larger" | "fourth_corner_far" | "fourth_corner_farthest" | "fourth_corner_largest" => {
            // the corner without a finder pattern is elsewhere: the alignment pattern tells
            let by = match class {
                "fourth_corner" => r.frange(0.015, 0.03) * side * s,
                "fourth_corner_larger" => r.frange(0.0, 0.015) * side * s,
                // the alignment pattern up to a module from
                "fourth_corner_largest" => r.frange(0.6, 0.9) * s * (side / (side - 6.5)).powi(2),
                "fourth_corner_farthest" => r.frange(1.3, 1.5) * s * (side / (side - 6.5)).powi(2),
                // about a module from where it would otherwise be
                _ => r.frange(0.9, 1.15) * s * (side / (side - 6.5)).powi(2),
            };
            let a = r.frange(0.0, 360.0).to_radians();
            q[2].0 += by * a.cos();
            q[2].1 += by * a.sin();
            turn(&mut q, quarter);
        }
        "perspective" => {
            corners(&mut q, r, 0.012 * side * s);
            turn(&mut q, quarter);
        }
        "all_together" => {
            stretch(&mut q, r, 0.01);
            slant(&mut q, r, 0.02);
            corners(&mut q, r, 0.006 * side * s);
            turn(&mut q, quarter + r.frange(-8.0, 8.0));
        }
        _ => unreachable!(),
    }
    let (x0, x1) = (q.iter().map(|p| p.0).fold(f64::MAX, f64::min), q.iter().map(|p| p.0).fold(f64::MIN, f64::max));
    let (y0, y1) = (q.iter().map(|p| p.1).fold(f64::MAX, f64::min), q.iter().map(|p| p.1).fold(f64::MIN, f64::max));
    let (mx, my) = (r.frange(4.5, 12.0) * s, r.frange(4.5, 12.0) * s);
    for p in q.iter_mut() {
        *p = (p.0 - x0 + mx, p.1 - y0 + my);
    }
    let w = (x1 - x0 + mx + r.frange(4.5, 12.0) * s).ceil() as u32;
    let h = (y1 - y0 + my + r.frange(4.5, 12.0) * s).ceil() as u32;
    (Homo::square(side, q), w, h)
}

fn c10(c: &mut Case) -> Res {
    let class = BENT[c.idx as usize % BENT.len()];
    let k = c.idx as usize / BENT.len();
    let v = if class == "larger_codes" { 7 + k % 8 } else { 1 + k % 6 } as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let s = c.rng.frange(4.0, 10.0);
    let (hm, w, h) = bent(&mut c.rng, class, d.m.side, s);
    let mut cv = Canvas::new(w, h);
    cv.draw(&d.m, &hm, 4);
    let g = cv.black_white();
    let what = || format!("{} drawn {} with {:.2} pixels per module, {}x{}, map {:?}", describe(&d), class, s, w, h, hm.0);
    c.note(|| what());
    c.count(class);
    let of = by_version(v, s);
    c.count(&of);
    if let Seen::Missed = one_text(c, &g, &d.text, &what)? {
        c.count("missed");
        c.count(&format!("{}_missed", class));
        c.count(&format!("{}_missed", of));
    }
    Ok(())
}

/// Plenty of pixels and little distortion: here hardly anything may be missed.
fn c10_clear(c: &mut Case) -> Res {
    let v = 1 + (c.idx % 6) as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let s = c.rng.frange(6.5, 12.0);
    let class = *c.rng.pick(&["tilted", "scaled"]);
    let (hm, w, h) = bent(&mut c.rng, class, d.m.side, s);
    let mut cv = Canvas::new(w, h);
    cv.draw(&d.m, &hm, 3);
    let g = cv.black_white();
    let what = || format!("{} drawn {} with {:.2} pixels per module, {}x{}, map {:?}", describe(&d), class, s, w, h, hm.0);
    c.note(|| what());
    c.count("clear");
    if let Seen::Missed = one_text(c, &g, &d.text, &what)? {
        c.count("clear_missed");
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

pub const LIT: [&str; 9] = ["dark", "low_contrast", "gray_paper", "uneven_light", "spot_light", "blurred", "noisy", "coloured", "all_of_it"];

/// The picture of a drawn code as a camera may have seen it.
pub fn lit(r: &mut Rng, class: &str, cv: &mut Canvas) -> RgbaImage {
    let (mut black, mut white) = (0.0, 255.0);
    let mut light: Box<dyn Fn(u32, u32) -> f64> = Box::new(|_, _| 1.0);
    let mut noise = 0.0;
    let (w, h) = (f64::from(cv.w), f64::from(cv.h));
    let slope = |r: &mut Rng, low: f64| -> Box<dyn Fn(u32, u32) -> f64> {
        let (sin, cos) = r.frange(0.0, 360.0).to_radians().sin_cos();
        let half = (w * cos.abs() + h * sin.abs()) / 2.0;
        Box::new(move |x, y| {
            let t = ((f64::from(x) - w / 2.0) * cos + (f64::from(y) - h / 2.0) * sin) / half;
            1.0 - (1.0 - low) * (1.0 + t) / 2.0
        })
    };
    match class {
        "dark" => {
            white = r.frange(18.0, 120.0);
            black = white * r.frange(0.0, 0.3);
            noise = white * r.frange(0.0, 0.06);
        }
        "low_contrast" => {
            black = r.frange(0.0, 225.0);
            white = r.frange(252.0, 255.0);
        }
        "gray_paper" => {
            white = r.frange(120.0, 250.0);
            black = white - r.frange(20.0, 110.0);
        }
        "uneven_light" => {
            let low = r.frange(0.1, 0.9);
            light = slope(r, low)
        }
        "spot_light" => {
            let (cx, cy, f) = (r.frange(0.0, w), r.frange(0.0, h), r.frange(0.2, 0.9));
            let d = (w * w + h * h).sqrt();
            light = Box::new(move |x, y| 1.0 - f * ((f64::from(x) - cx).hypot(f64::from(y) - cy) / d))
        }
        "blurred" => {
            for _ in 0..r.range(1, 3) {
                cv.blur()
            }
        }
        "noisy" => {
            black = 20.0;
            white = 235.0;
            noise = r.frange(2.0, 25.0)
        }
        "coloured" => {}
        "all_of_it" => {
            cv.blur();
            black = r.frange(10.0, 60.0);
            white = r.frange(200.0, 250.0);
            let low = r.frange(0.7, 1.0);
            light = slope(r, low);
            noise = r.frange(1.0, 6.0);
        }
        _ => unreachable!(),
    }
    let mut n = r.clone();
    let g = cv.luma(|x, y, d| {
        let v = (white + (black - white) * f64::from(d)) * light(x, y);
        v + if noise > 0.0 { noise * gauss(&mut n) } else { 0.0 }
    });
    if class != "coloured" {
        return rgba(&g);
    }
    let luma = |c: &[f64; 3]| 0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2];
    let (ink, paper) = loop {
        let a = [r.frange(0.0, 255.0), r.frange(0.0, 255.0), r.frange(0.0, 255.0)];
        let b = [r.frange(0.0, 255.0), r.frange(0.0, 255.0), r.frange(0.0, 255.0)];
        if luma(&b) - luma(&a) > 30.0 {
            break (a, b);
        }
    };
    RgbaImage::from_fn(g.width(), g.height(), |x, y| {
        let t = f64::from(g.get_pixel(x, y)[0]) / 255.0;
        let m = |i: usize| (ink[i] + (paper[i] - ink[i]) * t).round() as u8;
        Rgba([m(0), m(1), m(2), 255])
    })
}

fn c11(c: &mut Case) -> Res {
    let class = LIT[c.idx as usize % LIT.len()];
    let v = 1 + (c.idx as usize / LIT.len() % 6) as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let s = c.rng.frange(4.0, 9.0);
    let bend = *c.rng.pick(&["scaled", "tilted"]);
    let (hm, w, h) = bent(&mut c.rng, bend, d.m.side, s);
    let mut cv = Canvas::new(w, h);
    cv.draw(&d.m, &hm, 3);
    let img = lit(&mut c.rng, class, &mut cv);
    let what = || format!("{} drawn {}, {} with {:.2} pixels per module, {}x{}", describe(&d), bend, class, s, w, h);
    c.note(|| what());
    c.count(class);
    let of = by_version(v, s);
    c.count(&of);
    if let Seen::Missed = one_text_rgba(c, &img, &d.text, &what)? {
        c.count("missed");
        c.count(&format!("{}_missed", class));
        c.count(&format!("{}_missed", of));
    }
    Ok(())
}

pub const SCENE: [&str; 6] = ["jpeg", "card_on_dark", "card_on_pattern", "framed", "hard_shadow", "few_grays"];

/// Surroundings and processing that pictures have in practice: compression, a card on some background,
/// a frame around the code, the edge of a shadow across it, few gray levels.
fn c11_scene(c: &mut Case) -> Res {
    let class = SCENE[c.idx as usize % SCENE.len()];
    let v = 1 + (c.idx as usize / SCENE.len() % 6) as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let s = c.rng.frange(4.5, 9.0);
    let bend = *c.rng.pick(&["scaled", "tilted"]);
    let (hm, w, h) = bent(&mut c.rng, bend, d.m.side, s);
    let r = &mut c.rng;
    let mut cv = Canvas::new(w, h);
    cv.draw(&d.m, &hm, 3);
    let inv = hm.inverse();
    let n = d.m.side as f64;
    // distance from the code, in modules
    let off = |x: u32, y: u32| {
        let (u, v) = inv.map(f64::from(x) + 0.5, f64::from(y) + 0.5);
        (-u).max(-v).max(u - n).max(v - n)
    };
    let img = match class {
        "jpeg" => {
            if r.chance(0.5) {
                cv.blur();
            }
            let (black, white) = (r.frange(0.0, 60.0), r.frange(190.0, 255.0));
            let g = rgba(&cv.luma(|_, _, d| white + (black - white) * f64::from(d)));
            let mut b = std::io::Cursor::new(vec![]);
            let q = r.range(40, 95) as u8;
            DynamicImage::ImageRgba8(g).to_rgb8().write_to(&mut b, image::ImageOutputFormat::Jpeg(q)).expect("JPEG is written");
            image::load_from_memory(b.get_ref()).expect("JPEG is read").to_rgba8()
        }
        "card_on_dark" | "card_on_pattern" | "framed" => {
            // all around the quiet zone
            let quiet = r.frange(4.2, 4.5);
            let thick = r.frange(0.5, 3.0);
            let shade = r.frange(0.0, 120.0);
            let (kind, period) = (r.below(3), r.range(2, 40) as u32);
            let mut noise = r.clone();
            rgba(&cv.luma(|x, y, d| {
                let o = off(x, y);
                if o <= quiet {
                    return 255.0 * f64::from(1.0 - d);
                }
                match class {
                    "card_on_dark" => shade,
                    "framed" => if o <= quiet + thick { shade } else { 255.0 },
                    _ => match kind {
                        0 => if (x + y) / period % 2 == 0 { shade } else { 200.0 },
                        1 => if (x / period + y / period) % 2 == 0 { shade } else { 230.0 },
                        _ => shade + 20.0 * gauss(&mut noise),
                    },
                }
            }))
        }
        "hard_shadow" => {
            let (sin, cos) = r.frange(0.0, 360.0).to_radians().sin_cos();
            let (cx, cy) = (r.f() * f64::from(w), r.f() * f64::from(h));
            let f = r.frange(0.65, 0.95);
            rgba(&cv.luma(|x, y, d| {
                let lit = (f64::from(x) - cx) * cos + (f64::from(y) - cy) * sin > 0.0;
                (15.0 + 225.0 * f64::from(1.0 - d)) * if lit { 1.0 } else { f }
            }))
        }
        _ => {
            cv.blur();
            let steps = r.range(1, 7) as f64;
            rgba(&cv.luma(|_, _, d| (f64::from(1.0 - d) * steps).round() / steps * 255.0))
        }
    };
    let what = || format!("{} drawn {}, {} with {:.2} pixels per module, {}x{}", describe(&d), bend, class, s, w, h);
    c.note(|| what());
    c.count(class);
    let of = by_version(v, s);
    c.count(&of);
    if let Seen::Missed = one_text_rgba(c, &img, &d.text, &what)? {
        c.count("missed");
        c.count(&format!("{}_missed", class));
        c.count(&format!("{}_missed", of));
    }
    Ok(())
}

/// Scratches of a single pixel across large modules, through the centres of finder patterns.
fn c11_scratched(c: &mut Case) -> Res {
    let v = 1 + (c.idx % 6) as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let s = c.rng.frange(12.0, 20.0);
    let (hm, w, h) = bent(&mut c.rng, "scaled", d.m.side, s);
    let r = &mut c.rng;
    let mut cv = Canvas::new(w, h);
    cv.draw(&d.m, &hm, 3);
    let mut g = cv.black_white();
    let n = d.m.side as f64;
    let kind = r.below(3);
    let mut lines = vec![];
    for vertical in [true, false] {
        for first in [true, false] {
            if kind == usize::from(vertical) || r.chance(0.2) {
                continue;
            }
            // in the dark centre, beside the middle of a module
            let off = if r.chance(0.5) { r.frange(3.0, 3.35) } else { r.frange(3.65, 4.3) };
            let at = if first { off } else { n - 7.0 + off };
            let (x, y) = hm.map(at, at);
            lines.push((vertical, if vertical { x } else { y } as u32));
        }
    }
    for (vertical, at) in &lines {
        let end = if *vertical { h } else { w };
        for i in 0..end {
            if *vertical { g.put_pixel(*at, i, Luma([255])) } else { g.put_pixel(i, *at, Luma([255])) }
        }
    }
    let img = rgba(&g);
    let what = || format!("{} with {:.2} pixels per module, {}x{}, scratches (vertical, at) {:?}", describe(&d), s, w, h, lines);
    c.note(|| what());
    c.count("scratched");
    c.count(["scratched_both", "scratched_across", "scratched_along"][kind]);
    if let Seen::Missed = one_text_rgba(c, &img, &d.text, &what)? {
        c.count("scratched_missed");
        c.count(["scratched_both_missed", "scratched_across_missed", "scratched_along_missed"][kind]);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "a picture of one undamaged code, axis-aligned, black on white, whole pixels per module, quiet zone of at least four modules; distinct by its pixels",
            stages: vec![
                stage("versions", 160 * 10, 160 * 400, c09_versions),
                stage("small", 6_000, 300_000, c09_small),
                stage("sizes", 1_000, 40_000, c09_sizes),
                stage("plain", 10_240, 81_920, c09_plain),
                stage("lookalikes", 1120, 1120, c09_lookalikes),
                stage("long", 24, 600, c09_long),
            ],
            need: vec![("turned_0", 300), ("turned_90", 300), ("turned_180", 300), ("turned_270", 300), ("versions_21_to_40", 200)],
            assumptions: vec![],
            limits: vec![
                limit("missed_for_a_long_bar_in_line_with_a_finder", "pictures", 0.000005, 0),
                limit("missed_for_a_lookalike_next_to_a_finder", "pictures", 0.000005, 0),
                limit("missed_for_another_reason", "pictures", 0.000005, 0),
            ],
        },
        Prop {
            id: "C10",
            rule: "a picture of one undamaged code, black on white with its edges smoothed, mapped by a turn, stretch, slant or change of corners that has to be read; distinct by its pixels",
            stages: vec![stage("bent", 16000, 300_000, c10), stage("clear", 10_000, 200_000, c10_clear)],
            need: BENT.iter().map(|c| (*c, 1000)).collect(),
            assumptions: vec![],
            limits: {
                let mut l = missed(&BENT, |c| if ["scaled", "stretched", "slanted", "larger_codes"].contains(&c) { 0.001 } else { 0.005 }, 14);
                l.push(limit("clear_missed", "clear", 0.0001, 0));
                l
            },
        },
        Prop {
            id: "C11",
            rule: "a picture of one undamaged code under light, colour, blur or noise in which it has to be read; distinct by its pixels",
            stages: vec![stage("lit", 16000, 300_000, c11), stage("scenes", 9000, 200_000, c11_scene), stage("scratched", 1500, 40_000, c11_scratched)],
            need: LIT.iter().chain(&SCENE).chain(&["scratched"]).map(|c| (*c, 1000)).collect(),
            assumptions: vec![],
            limits: {
                let all: Vec<&str> = LIT.iter().chain(&SCENE).copied().collect();
                let mut l = missed(
                    &all,
                    |c| match c {
                        "blurred" => 0.01,
                        "jpeg" | "card_on_dark" | "card_on_pattern" | "framed" | "few_grays" => 0.002,
                        _ => 0.005,
                    },
                    6,
                );
                l.push(limit("scratched_missed", "scratched", 0.004, 1));
                l
            },
        },
    ]
}

/// Codes of version 1 have no alignment pattern, so with few pixels per module they are missed more often.
pub fn by_version(v: u32, s: f64) -> String {
    format!("version_{}{}", v, if v == 1 && s < 6.0 { "_low_resolution" } else { "" })
}
/// The share of every class of pictures that may be missed, of those of every version, and of all of them.
fn missed(classes: &[&str], share: fn(&str) -> f64, versions: u32) -> Vec<Limit> {
    let mut l: Vec<_> = classes.iter().map(|c| limit(&format!("{}_missed", c), c, share(c), 2)).collect();
    l.extend((1..=versions).map(|v| limit(&format!("version_{}_missed", v), &format!("version_{}", v), 0.005, 2)));
    l.push(limit("version_1_low_resolution_missed", "version_1_low_resolution", 0.03, 2));
    l.push(limit("missed", "pictures", 0.002, 0));
    l
}
