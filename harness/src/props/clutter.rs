//! C25: codes in pictures that show other things too.

use super::image::*;
use super::scene::*;
use crate::api::*;
use crate::refqr::*;
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;

pub const THINGS: [&str; 11] = ["writing", "bars", "rectangles", "ruled", "squares", "one_finder", "crowd", "huge_square", "dots", "texture", "mixture"];

/// A finder pattern, if it is clear of the code
fn finder(cv: &mut Canvas, x: i64, y: i64, u: i64, keep: &dyn Fn(f64, f64) -> bool) {
    let (w, h) = (i64::from(cv.w), i64::from(cv.h));
    if (0..=14).any(|j| (0..=14).any(|i| keep((x + i * u / 2) as f64, (y + j * u / 2) as f64))) {
        return;
    }
    for j in -u..8 * u {
        for i in -u..8 * u {
            let ring = (2 * i - 7 * u + 1).abs().max((2 * j - 7 * u + 1).abs());
            let dark = ring < 3 * u || (ring > 5 * u && ring < 7 * u);
            let (a, b) = (x + i, y + j);
            if a >= 0 && b >= 0 && a < w && b < h && !keep(a as f64 + 0.5, b as f64 + 0.5) {
                cv.d[b as usize * w as usize + a as usize] = if dark { 1.0 } else { 0.0 };
            }
        }
    }
}

/// Dark things all over the canvas, except where `keep` says so.
pub fn clutter(r: &mut Rng, class: &str, cv: &mut Canvas, s: f64, keep: &dyn Fn(f64, f64) -> bool) {
    let (w, h) = (cv.w as usize, cv.h as usize);
    let put = |cv: &mut Canvas, x: i64, y: i64, d: f32| {
        if x >= 0 && y >= 0 && (x as usize) < w && (y as usize) < h && !keep(x as f64 + 0.5, y as f64 + 0.5) {
            cv.d[y as usize * w + x as usize] = d;
        }
    };
    let rect = |cv: &mut Canvas, x: i64, y: i64, a: i64, b: i64, d: f32| {
        for j in y..y + b {
            for i in x..x + a {
                put(cv, i, j, d)
            }
        }
    };
    match class {
        "writing" => {
            // rows of small strokes
            let size = r.range(8, 30);
            let pen = (size / r.range(5, 9)).max(1);
            let mut y = r.range(0, size);
            while y < h as i64 {
                let mut x = r.range(0, size);
                while x < w as i64 {
                    if r.chance(0.85) {
                        for _ in 0..r.range(1, 4) {
                            let (a, b) = (r.range(0, size * 6 / 10), r.range(0, size));
                            match r.below(3) {
                                0 => rect(cv, x + a, y, pen, size, 1.0),
                                1 => rect(cv, x, y + b, size * 6 / 10, pen, 1.0),
                                _ => {
                                    for t in 0..size {
                                        rect(cv, x + t * 6 / 10, y + if r.chance(0.02) { b } else { t }, pen, 1, 1.0)
                                    }
                                }
                            }
                        }
                    }
                    x += size * 7 / 10 + pen;
                }
                y += size * 15 / 10;
            }
        }
        "bars" => {
            for _ in 0..r.range(1, 4) {
                let (x, y) = (r.range(0, w as i64), r.range(0, h as i64));
                let u = r.range(1, 6);
                let tall = r.range(20, 120);
                let lying = r.chance(0.5);
                let mut p = 0;
                for i in 0..r.range(20, 60) {
                    let t = u * r.range(1, 4);
                    if i % 2 == 0 {
                        if lying {
                            rect(cv, x, y + p, tall, t, 1.0)
                        } else {
                            rect(cv, x + p, y, t, tall, 1.0)
                        }
                    }
                    p += t;
                }
            }
        }
        "rectangles" => {
            for _ in 0..r.range(3, 25) {
                let d = r.f() as f32;
                let (x, y, a, b) = (r.range(-40, w as i64), r.range(-40, h as i64), r.range(2, 150), r.range(2, 150));
                rect(cv, x, y, a, b, if r.chance(0.7) { 1.0 } else { d });
            }
        }
        "ruled" => {
            let step = r.range(6, 60);
            let pen = r.range(1, 3);
            let both = r.below(3);
            for i in 0..(w.max(h) as i64) / step + 1 {
                if both != 0 {
                    rect(cv, 0, i * step, w as i64, pen, 1.0);
                }
                if both != 1 {
                    rect(cv, i * step, 0, pen, h as i64, 1.0);
                }
            }
        }
        "crowd" => {
            // many finder patterns, of all sizes, in rows
            let step = r.range(45, 70);
            for y in 0..h as i64 / step {
                for x in 0..w as i64 / step {
                    if r.chance(0.8) {
                        let u = r.range(1, (step - 3) / 9 + 1);
                        let room = step - 9 * u;
                        finder(cv, x * step + u + r.range(0, room), y * step + u + r.range(0, room), u, keep);
                    }
                }
            }
        }
        "huge_square" => {
            // beside the code, as close to one of its corners as it can be
            let (mut x0, mut x1, mut y0, mut y1) = (w as i64, 0, h as i64, 0);
            for y in 0..h as i64 {
                for x in 0..w as i64 {
                    if keep(x as f64 + 0.5, y as f64 + 0.5) {
                        (x0, x1, y0, y1) = (x0.min(x), x1.max(x + 1), y0.min(y), y1.max(y + 1));
                    }
                }
            }
            let u = (s * r.frange(6.0, 9.0)) as i64;
            let along = r.range(-2 * u, 2 * u);
            let corner = 7 * s as i64;
            let (x, y) = match r.below(4) {
                0 => (x0 - 7 * u, y0 + corner - 7 * u / 2 + along),
                1 => (x1, y0 + corner - 7 * u / 2 + along),
                2 => (x0 + corner - 7 * u / 2 + along, y0 - 7 * u),
                _ => (x1 - corner - 7 * u / 2 + along, y0 - 7 * u),
            };
            finder(cv, x, y, u, keep);
        }
        "squares" | "one_finder" => {
            for _ in 0..if class == "squares" { r.range(1, 4) } else { 1 } {
                // a finder pattern, of the size of the code's own or of another one
                let u = if class == "one_finder" { s.round() as i64 } else { r.range(3, 14) };
                let (x, y) = (r.range(0, (w as i64 - 7 * u).max(1)), r.range(0, (h as i64 - 7 * u).max(1)));
                finder(cv, x, y, u, keep);
            }
        }
        "dots" => {
            let step = r.range(4, 25);
            let rad = (step as f64) * r.frange(0.15, 0.45);
            for y in 0..h as i64 {
                for x in 0..w as i64 {
                    let (a, b) = ((x % step) as f64 - step as f64 / 2.0, (y % step) as f64 - step as f64 / 2.0);
                    if a.hypot(b) < rad {
                        put(cv, x, y, 1.0)
                    }
                }
            }
        }
        "texture" => {
            // gray, rough or smooth
            let grain = r.range(1, 12) as usize;
            let (low, high) = (r.f() * 0.5, 0.5 + r.f() * 0.5);
            let mut seedrow = r.clone();
            let cols = w / grain + 2;
            let cells: Vec<f32> = (0..cols * (h / grain + 2)).map(|_| seedrow.frange(low, high) as f32).collect();
            for y in 0..h {
                for x in 0..w {
                    put(cv, x as i64, y as i64, cells[y / grain * cols + x / grain])
                }
            }
        }
        _ => {
            for _ in 0..2 {
                let t = *r.pick(&THINGS[..10]);
                clutter(r, t, cv, s, keep)
            }
        }
    }
}

fn c25(c: &mut Case) -> Res {
    let class = THINGS[c.idx as usize % THINGS.len()];
    let v = 1 + (c.idx as usize / THINGS.len() % 6) as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let s = if class == "huge_square" { c.rng.frange(4.0, 5.5) } else { c.rng.frange(4.0, 9.0) };
    let bend = *c.rng.pick(&["scaled", "tilted"]);
    let (hm, w0, h0) = bent(&mut c.rng, bend, d.m.side, s);
    let r = &mut c.rng;
    // somewhere in a larger picture
    let (dx, dy) = match class {
        "huge_square" => (r.range(300, 500) as u32, r.range(300, 500) as u32),
        "crowd" => (r.range(0, 250) as u32, r.range(100, 400) as u32),
        _ => (r.range(0, 250) as u32, r.range(0, 250) as u32),
    };
    let (w, h) = (w0 + dx + r.range(0, 250) as u32, h0 + dy + r.range(0, 250) as u32);
    let mut t = hm;
    for i in 0..3 {
        t.0[i] += f64::from(dx) * hm.0[6 + i];
        t.0[3 + i] += f64::from(dy) * hm.0[6 + i];
    }
    let mut cv = Canvas::new(w, h);
    let inv = t.inverse();
    let n = d.m.side as f64;
    let quiet = r.frange(4.1, 5.0);
    let keep = |x: f64, y: f64| {
        let (u, v) = inv.map(x, y);
        (-u).max(-v).max(u - n).max(v - n) <= quiet
    };
    clutter(r, class, &mut cv, s, &keep);
    cv.draw(&d.m, &t, 3);
    let g = cv.black_white();
    let what = || format!("{} drawn {} with {:.2} pixels per module, {}x{}, among {}", describe(&d), bend, s, w, h, class);
    c.note(|| what());
    c.count(class);
    let of = by_version(v, s);
    c.count(&of);
    // the smallest codes at the lowest resolution are missed now and then whatever is around them
    let hard = of.ends_with("low_resolution");
    if !hard {
        c.count(&format!("{}_clear", class));
        c.count("other_pictures");
    }
    if let Seen::Missed = one_text_rgba(c, &rgba(&g), &d.text, &what)? {
        if !hard {
            c.count("other_missed");
            c.count(&format!("{}_clear_missed", class));
        }
        c.count(&format!("{}_missed", of));
    }
    Ok(())
}

/// The picture ends close to the code, on one side or on several.
fn c25_edges(c: &mut Case) -> Res {
    let sides = 1 + c.idx as usize % 15;
    let v = 1 + (c.idx as usize / 15 % 8) as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let r = &mut c.rng;
    let q = r.below(8);
    let (g, how) = if r.chance(0.5) {
        let s = r.range(3, 9) as u32;
        let k = r.below(4);
        let mut m = [0u32; 4];
        for (i, m) in m.iter_mut().enumerate() {
            *m = if sides >> i & 1 == 1 { (q as u32 * s) / 2 } else { 4 * s + r.below(40) as u32 };
        }
        (plain(&turn(&d.m, k), s, m[0], m[1], m[2], m[3]), format!("turned by {}, {} pixels per module, margins {:?}", k * 90, s, m))
    } else {
        let s = r.frange(if v == 1 { 6.0 } else { 4.5 }, 9.0);
        let bend = *r.pick(&["scaled", "tilted"]);
        let (hm, w, h) = bent(r, bend, d.m.side, s);
        let mut cv = Canvas::new(w, h);
        cv.draw(&d.m, &hm, 3);
        let n = d.m.side as f64;
        let at = [(0.0, 0.0), (n, 0.0), (n, n), (0.0, n)].map(|(x, y)| hm.map(x, y));
        let far = |f: fn(f64, f64) -> f64, i: usize| at.iter().map(|p| if i == 0 { p.0 } else { p.1 }).reduce(f).unwrap();
        let room = q as f64 * s / 2.0;
        let cut = |i: usize, on: f64, off: f64| if sides >> i & 1 == 1 { on } else { off };
        let x0 = cut(0, (far(f64::min, 0) - room).floor().max(0.0), 0.0) as u32;
        let y0 = cut(1, (far(f64::min, 1) - room).floor().max(0.0), 0.0) as u32;
        let x1 = cut(2, (far(f64::max, 0) + room).ceil().min(f64::from(w)), f64::from(w)) as u32;
        let y1 = cut(3, (far(f64::max, 1) + room).ceil().min(f64::from(h)), f64::from(h)) as u32;
        let g = image::imageops::crop_imm(&cv.black_white(), x0, y0, x1 - x0, y1 - y0).to_image();
        (g, format!("{}, {:.2} pixels per module, cut to {:?} of {}x{}", bend, s, (x0, y0, x1, y1), w, h))
    };
    let what = || format!("{} drawn {}", describe(&d), how);
    c.note(|| what());
    let class = if q == 0 { "no_quiet_zone" } else { "narrow_quiet_zone" };
    c.count(class);
    c.count("other_pictures");
    if let Seen::Missed = one_text_rgba(c, &rgba(&g), &d.text, &what)? {
        c.count("other_missed");
        c.count(&format!("{}_missed", class));
    }
    Ok(())
}

/// A small code somewhere in a picture of several megapixels.
fn c25_large(c: &mut Case) -> Res {
    let v = 1 + (c.idx % 6) as u32;
    let (d, _) = symbol(&mut c.rng, v);
    let r = &mut c.rng;
    let s = r.range(3, 8) as u32;
    let k = r.below(4);
    let side = d.m.side as u32 * s;
    let (w, h) = (r.range(1500, 4000) as u32, r.range(1500, 3000) as u32);
    let (x, y) = (4 * s + r.below((w - side - 8 * s) as usize) as u32, 4 * s + r.below((h - side - 8 * s) as usize) as u32);
    let code = plain(&turn(&d.m, k), s, 4 * s, 4 * s, 4 * s, 4 * s);
    let mut cv = Canvas::new(w, h);
    let keep = |_: f64, _: f64| false;
    let class = *r.pick(&["nothing", "writing", "rectangles", "ruled"]);
    if class != "nothing" {
        clutter(r, class, &mut cv, f64::from(s), &keep);
    }
    let mut g = cv.black_white();
    image::imageops::replace(&mut g, &code, i64::from(x - 4 * s), i64::from(y - 4 * s));
    let what = || format!("{} turned by {}, drawn with {} pixels per module at ({}, {}) of {}x{}, among {}", describe(&d), k * 90, s, x, y, w, h, class);
    c.note(|| what());
    c.count("large");
    c.count("other_pictures");
    if let Seen::Missed = one_text_rgba(c, &rgba(&g), &d.text, &what)? {
        c.count("other_missed");
        c.count("large_missed");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "a picture of one undamaged code, straight or slightly turned, with other things drawn up to its quiet zone, cut close to the code, or of many megapixels; distinct by its pixels",
        stages: vec![stage("things", 13_200, 300_000, c25), stage("edges", 12_000, 300_000, c25_edges), stage("large", 160, 3_000, c25_large)],
        need: THINGS.iter().map(|c| (*c, 1000)).chain([("no_quiet_zone", 1000), ("narrow_quiet_zone", 5000), ("large", 100)]).collect(),
        assumptions: vec![],
        limits: THINGS
            .iter()
            .map(|k| format!("{}_clear", k))
            .chain(["no_quiet_zone", "narrow_quiet_zone"].map(|k| k.to_string()))
            .map(|k| limit(&format!("{}_missed", k), &k, 0.001, 1))
            .chain([
                limit("large_missed", "large", 0.001, 0),
                limit("other_missed", "other_pictures", 0.0003, 0),
                limit("version_1_low_resolution_missed", "version_1_low_resolution", 0.02, 1),
            ])
            .chain((1..=6).map(|v| limit(&format!("version_{}_missed", v), &format!("version_{}", v), 0.001, 1)))
            .collect(),
    }]
}
