//! C22: damaged codes in pictures.

use super::image::*;
use super::scene::*;
use super::symbol::{hit, stain};
use crate::api::*;
use crate::ensure;
use crate::refqr::*;
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;

/// The wrong codewords of every block.
fn wrong(s: &Symbol, clean: &Symbol) -> Vec<usize> {
    s.blocks.iter().zip(&clean.blocks).map(|(a, b)| a.iter().zip(b).filter(|(x, y)| x != y).count()).collect()
}

/// A picture of a code with correctable damage: its text once. If `bits` codeword bits are wrong in it, the
/// report has to say so (a module may be sampled wrongly on top of that; this is counted).
fn damaged_picture(c: &mut Case, img: &RgbaImage, d: &Drawn, class: &str, bits: Option<u32>, what: &dyn Fn() -> String) -> Res {
    c.seen(fp_rgba(img));
    c.count("pictures");
    c.count(class);
    let a = match c.call(|| {
        bardecoder::default_decoder_with_info()
            .decode(img)
            .into_iter()
            .map(|x| x.map_err(|e| e.to_string()))
            .collect::<Vec<_>>()
    }) {
        Ok(a) => a,
        Err(p) => {
            keep_image(c, img);
            return Err(format!("{}: {}", what(), p));
        }
    };
    let ok: Vec<_> = a.iter().filter_map(|x| x.as_ref().ok()).collect();
    c.add("further_results_that_are_errors", (a.len() - ok.len()) as u64);
    if ok.is_empty() {
        if std::env::var("VH_DEV").is_ok() {
            let e: Vec<_> = a.iter().map(|x| format!("{:?}", x.as_ref().err())).collect();
            eprintln!("missed {} {}: {}", c.idx, what(), e.join(", "));
            let _ = img.save(c.scratch.join(format!("missed-{}.png", c.idx)));
        }
        c.count("missed");
        c.count(&format!("{}_missed", class));
        return Ok(());
    }
    if ok.len() > 1 || ok[0].0 != d.text {
        keep_image(c, img);
        return Err(format!("{}: {} texts, {}", what(), ok.len(), ok.iter().map(|x| short(&x.0)).collect::<Vec<_>>().join(", ")));
    }
    c.count("read");
    let i = &ok[0].1;
    let total = 8 * data_codewords(d.version, d.level) as u32;
    ensure!(
        i.version == d.version && level_of(&i.ec_level) == d.level && i.total_data == total,
        "{}: reported as version {} level {:?} with {} bits of data ({} expected)",
        what(), i.version, level_of(&i.ec_level), i.total_data, total
    );
    c.add("wrong_bits_reported", u64::from(i.errors));
    if let Some(b) = bits {
        c.count("counts_compared");
        if i.errors != b {
            if std::env::var("VH_DEV").is_ok() {
                eprintln!("count {} {}: {} instead of {}", c.idx, what(), i.errors, b);
            }
            c.count("counts_that_differ");
        }
    }
    Ok(())
}

pub const HARM: [&str; 7] = ["undamaged", "dark_stain", "light_stain", "mixed_stain", "logo", "scattered", "format_too"];

fn c22_modules(c: &mut Case) -> Res {
    let class = HARM[c.idx as usize % HARM.len()];
    let v = 1 + (c.idx as usize / HARM.len() % 12) as u32;
    let (mut d, clean) = symbol(&mut c.rng, v);
    let r = &mut c.rng;
    let n = side(v);
    let lay = layout(v, d.level);
    let mut s = clean.clone();
    let anywhere = (r.below(n) as i64, r.below(n) as i64);
    match class {
        "undamaged" => {}
        "dark_stain" => s = stain(r, &clean, anywhere, 0),
        "light_stain" => s = stain(r, &clean, anywhere, 1),
        "mixed_stain" => s = stain(r, &clean, anywhere, 2),
        "logo" => {
            let colour = r.below(3);
            s = stain(r, &clean, (n as i64 / 2, n as i64 / 2), colour)
        }
        _ => {
            for (i, b) in lay.iter().enumerate() {
                let w = if r.chance(0.5) { b.t } else { r.below(b.t + 1) };
                let style = r.below(7);
                hit(r, &mut s.blocks[i], b.data, w, style);
            }
        }
    }
    d.m = s.matrix();
    let mut fw = [0, 0];
    if class == "format_too" {
        for (k, p) in format_positions(v).iter().enumerate() {
            fw[k] = r.below(4);
            for i in r.choose(15, fw[k]) {
                d.m.flip(p[i].0, p[i].1);
            }
        }
    }
    let per = wrong(&s, &clean);
    let bits: u32 = s.blocks.iter().flatten().zip(clean.blocks.iter().flatten()).map(|(a, b)| (a ^ b).count_ones()).sum();
    let px = r.range(3, 6) as u32;
    let k = r.below(4);
    let f = flat(r, px, k);
    let img = rgba(&draw_flat(&d, &f));
    c.add("damaged_codewords", per.iter().sum::<usize>() as u64);
    c.add("blocks_at_full_capacity", per.iter().zip(&lay).filter(|(w, b)| **w == b.t).count() as u64);
    let what = || format!("{} {}: {:?} wrong codewords per block, {:?} wrong format bits, drawn with {} pixels per module, margins {:?}, turned by {}", describe(&d), class, per, fw, f.s, f.margins, k * 90);
    c.note(|| what());
    damaged_picture(c, &img, &d, class, Some(bits), &what)
}

pub const INK: [&str; 4] = ["dark_blot", "light_blot", "dark_stroke", "light_stroke"];

/// Everything that is not farther than the radius from a line between two points, in modules.
struct Mark {
    a: (f64, f64),
    b: (f64, f64),
    radius: f64,
}
impl Mark {
    fn distance(&self, p: (f64, f64)) -> f64 {
        let (dx, dy) = (self.b.0 - self.a.0, self.b.1 - self.a.1);
        let l = dx * dx + dy * dy;
        let t = if l == 0.0 { 0.0 } else { (((p.0 - self.a.0) * dx + (p.1 - self.a.1) * dy) / l).clamp(0.0, 1.0) };
        (p.0 - self.a.0 - t * dx).hypot(p.1 - self.a.1 - t * dy)
    }
    /// Does it come within `near` of this module? (Judged generously: by the module's circumscribed circle.)
    fn touches(&self, x: usize, y: usize, near: f64) -> bool {
        self.distance((x as f64 + 0.5, y as f64 + 0.5)) < self.radius + near + 0.7072
    }
}

/// The largest mark at this place, up to what was asked for, that only touches codewords and not more of them
/// than can be corrected.
fn fitting(mut k: Mark, s: &Symbol, near: f64) -> Option<(Mark, Vec<usize>)> {
    let (v, n) = (s.version, side(s.version));
    let lay = layout(v, s.level);
    let il = interleave(&lay);
    let mut owner = vec![None; n * n];
    for (i, (x, y)) in data_positions(v).into_iter().enumerate() {
        owner[y * n + x] = Some(il.get(i / 8).copied());
    }
    let mut tries = 0;
    loop {
        let mut hit: Vec<std::collections::BTreeSet<usize>> = vec![Default::default(); lay.len()];
        let mut fits = true;
        for y in 0..n {
            for x in 0..n {
                if k.touches(x, y, near) {
                    match owner[y * n + x] {
                        Some(Some((b, i))) => {
                            hit[b].insert(i);
                        }
                        Some(None) => {} // remainder bits
                        None => fits = false,
                    }
                }
            }
        }
        if fits && hit.iter().zip(&lay).all(|(h, b)| h.len() <= b.t) {
            return Some((k, hit.iter().map(|h| h.len()).collect()));
        }
        tries += 1;
        if tries > 12 {
            return None;
        }
        k.radius *= 0.85;
        k.b = (k.a.0 + (k.b.0 - k.a.0) * 0.85, k.a.1 + (k.b.1 - k.a.1) * 0.85);
        if k.radius < 0.3 {
            return None;
        }
    }
}

fn c22_ink(c: &mut Case) -> Res {
    let class = INK[c.idx as usize % INK.len()];
    let v = 2 + (c.idx as usize / INK.len() % 11) as u32;
    let (d, clean) = symbol(&mut c.rng, v);
    let r = &mut c.rng;
    let n = d.m.side as f64;
    let px = r.frange(5.0, 9.0);
    let near = 1.5 / px;
    let mut found = None;
    for _ in 0..40 {
        let a = (r.frange(1.0, n - 1.0), r.frange(1.0, n - 1.0));
        let k = if class.ends_with("blot") {
            Mark { a, b: a, radius: r.frange(0.5, 0.2 * n) }
        } else {
            let (l, t) = (r.frange(2.0, 0.7 * n), r.frange(0.0, std::f64::consts::TAU));
            Mark { a, b: (a.0 + l * t.cos(), a.1 + l * t.sin()), radius: r.frange(0.3, 1.2) }
        };
        found = fitting(k, &clean, near);
        if found.is_some() {
            break;
        }
    }
    let Some((k, per)) = found else {
        c.count("no_place_for_a_mark");
        return Ok(());
    };
    let bend = *r.pick(if v <= 6 { &["scaled", "tilted", "perspective"] } else { &["scaled", "larger_codes"] });
    let (hm, w, h) = bent(r, bend, d.m.side, px);
    let mut cv = Canvas::new(w, h);
    cv.draw(&d.m, &hm, 3);
    let inv = hm.inverse();
    let dark = class.starts_with("dark");
    let mut painted = 0;
    for y in 0..h {
        for x in 0..w {
            let p = inv.map(f64::from(x) + 0.5, f64::from(y) + 0.5);
            if k.distance(p) <= k.radius {
                cv.d[(y * w + x) as usize] = if dark { 1.0 } else { 0.0 };
                painted += 1;
            }
        }
    }
    let img = rgba(&cv.black_white());
    c.add("pixels_painted_over", painted);
    let what = || format!(
        "{} {} from {:.1?} to {:.1?} radius {:.2} touching {:?} codewords per block, drawn {} with {:.2} pixels per module, {}x{}",
        describe(&d), class, k.a, k.b, k.radius, per, bend, px, w, h
    );
    c.note(|| what());
    damaged_picture(c, &img, &d, class, None, &what)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "a picture of one code of version 1 to 12 with damage its error correction can correct, drawn module by module or painted over it; distinct by its pixels",
        stages: vec![stage("modules", 14_000, 300_000, c22_modules), stage("ink", 6_000, 150_000, c22_ink)],
        need: HARM.iter().map(|c| (*c, 1000)).chain(INK.iter().map(|c| (*c, 500))).chain([("wrong_bits_reported", 50_000), ("counts_compared", 8000)]).collect(),
        assumptions: vec![],
        limits: {
            let mut l: Vec<_> = HARM.iter().chain(&INK).map(|c| limit(&format!("{}_missed", c), c, 0.001, 2)).collect();
            l.push(limit("missed", "pictures", 0.0003, 0));
            l.push(limit("counts_that_differ", "counts_compared", 0.0003, 0));
            l
        },
    }]
}
