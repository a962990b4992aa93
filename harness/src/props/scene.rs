//! Making pictures of codes, and looking at what the decoder says about them.

use crate::api::*;
use crate::refqr::*;
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;

pub struct Drawn {
    pub version: u32,
    pub level: Level,
    pub mask: u16,
    pub text: String,
    pub m: Matrix,
}

pub fn describe(d: &Drawn) -> String {
    format!("version {} level {:?} mask {} text {}", d.version, d.level, d.mask, short(&d.text))
}

/// An ordinary message of a length that suits the symbol (from nothing to full): digits, capitals,
/// printable ASCII or accented text, without long repetitions.
pub fn message(r: &mut Rng, v: u32, l: Level) -> (Vec<Seg>, String) {
    let cap = data_codewords(v, l) * 8;
    let mode = [1u32, 2, 4, 4][r.below(4)];
    let room = cap.saturating_sub(4 + count_bits(mode, v));
    let maxn = match mode {
        1 => room / 10 * 3,
        2 => room / 11 * 2,
        _ => room / 8,
    }
    .min((1 << count_bits(mode, v)) - 1);
    let n = match r.below(4) {
        0 => maxn,
        1 => r.below(maxn + 1),
        2 => r.below(maxn.min(30) + 1),
        _ => maxn - r.below(maxn / 4 + 1),
    };
    let seg = match mode {
        1 => Seg::Num((0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()),
        2 => Seg::Alnum((0..n).map(|_| *r.pick(ALNUM) as char).collect()),
        _ => {
            let mut b: Vec<u8> = (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect();
            if n >= 2 && r.chance(0.3) {
                let i = r.below(n - 1);
                b[i] = 0xC3;
                b[i + 1] = r.range(0x80, 0xbf) as u8;
            }
            Seg::Byte(b)
        }
    };
    let t = seg.text().unwrap();
    (vec![seg], t)
}

/// A symbol as a generator makes it: the mask is the one with the lowest penalty, or (which some
/// generators do) any other.
pub fn symbol(r: &mut Rng, v: u32) -> (Drawn, Symbol) {
    let level = rand_level(r);
    let (segs, text) = message(r, v, level);
    let data = data_for(&segs, v, level);
    let mask = if r.chance(0.3) { r.below(8) as u16 } else { best_mask(&data, v, level) };
    let s = Symbol::new(&data, v, level, mask);
    let m = s.matrix();
    (Drawn { version: v, level, mask, text, m }, s)
}

pub fn turn(m: &Matrix, k: usize) -> Matrix {
    let n = m.side;
    let mut o = Matrix::new(n);
    for y in 0..n {
        for x in 0..n {
            let (a, b) = match k % 4 {
                0 => (x, y),
                1 => (n - 1 - y, x),
                2 => (n - 1 - x, n - 1 - y),
                _ => (y, n - 1 - x),
            };
            o.set(a, b, m.get(x, y));
        }
    }
    o
}

/// Finder centres (top left, top right, bottom left) of a symbol after `k` quarter turns clockwise, in modules.
pub fn finders(n: usize, k: usize) -> [(f64, f64); 3] {
    let (a, b) = (3.5, n as f64 - 3.5);
    let f = |(x, y): (f64, f64)| {
        let s = n as f64;
        match k % 4 {
            0 => (x, y),
            1 => (s - y, x),
            2 => (s - x, s - y),
            _ => (y, s - x),
        }
    };
    [f((a, a)), f((b, a)), f((a, b))]
}

fn like_finder(w: &[usize]) -> Option<f64> {
    let t: usize = w.iter().sum();
    let u = t as f64 / 7.0;
    let tol = u / 1.5 + 1e-9;
    for (k, x) in w.iter().enumerate() {
        let e = if k == 2 { 3.0 * u } else { u };
        if (*x as f64 - e).abs() > tol {
            return None;
        }
    }
    Some(u)
}

/// (centre, other estimate of the centre, unit) of everything along a line of modules that
/// resembles 1:1:3:1:1, of either colour.
fn resemblances(line: impl Iterator<Item = u8>) -> Vec<(f64, f64, f64)> {
    // quiet zone of a few modules on both ends
    let mut runs: Vec<(usize, usize)> = vec![]; // start, length
    let mut last = 2u8;
    let q = 4;
    for (i, b) in (0..q).map(|_| 0).chain(line).chain((0..q).map(|_| 0)).enumerate() {
        if b == last {
            runs.last_mut().unwrap().1 += 1;
        } else {
            runs.push((i, 1));
            last = b;
        }
    }
    let mut out = vec![];
    for w in runs.windows(5) {
        if let Some(u) = like_finder(&[w[0].1, w[1].1, w[2].1, w[3].1, w[4].1]) {
            let end = (w[4].0 + w[4].1) as f64 - q as f64;
            out.push((w[2].0 as f64 + w[2].1 as f64 / 2.0 - q as f64, end - 3.5 * u, u));
        }
    }
    out
}

/// Does the grid hold, next to one of its finder patterns, something else that resembles a finder
/// pattern along its row, its column and its diagonal? (Readers take such a thing for the finder pattern.)
pub fn has_lookalike(m: &Matrix, k: usize) -> bool {
    let n = m.side;
    let f = finders(n, k);
    let cols: Vec<Vec<(f64, f64, f64)>> = (0..n).map(|x| resemblances((0..n).map(|y| m.get(x, y)))).collect();
    let cell = |x: i64, y: i64| if x >= 0 && y >= 0 && (x as usize) < n && (y as usize) < n { m.get(x as usize, y as usize) } else { 0 };
    for y in 0..n {
        for (cx, ex, u) in resemblances((0..n).map(|x| m.get(x, y))) {
            for x in (cx.min(ex).floor() as i64 - 1)..=(cx.max(ex).floor() as i64 + 1) {
                if x < 0 || x >= n as i64 {
                    continue;
                }
                for (cy, ey, uy) in &cols[x as usize] {
                    if (cy - (y as f64 + 0.5)).abs() > 3.5 * u || uy / u > 1.35 || u / uy > 1.35 {
                        continue;
                    }
                    let off = f.iter().map(|p| (p.0 - (x as f64 + 0.5)).hypot(p.1 - cy)).fold(f64::MAX, f64::min);
                    if off <= 1.5 || off > 8.0 {
                        continue;
                    }
                    // diagonals around the centre
                    for yc in (cy.min(*ey).floor() as i64 - 1)..=(cy.max(*ey).floor() as i64 + 1) {
                        let r = 8i64;
                        if resemblances((-r..=r).map(|d| cell(x + d, yc + d))).iter().any(|(c, _, _)| (c - (r as f64 + 0.5)).abs() <= 4.0) {
                            return true;
                        }
                    }
                }
            }
        }
    }
    false
}

/// Is there, in a row that crosses a finder pattern, a bar of ten or more equal modules? (A module
/// next to it is less than a tenth of it, which is where the scanner suspects noise.)
pub fn has_long_bar(m: &Matrix, k: usize) -> bool {
    let n = m.side;
    let f = finders(n, k);
    for (_, fy) in f {
        for y in fy as usize - 1..=fy as usize + 1 {
            let mut run = 1;
            for x in 1..n {
                if m.get(x, y) == m.get(x - 1, y) {
                    run += 1;
                    if run >= 10 {
                        return true;
                    }
                } else {
                    run = 1;
                }
            }
        }
    }
    false
}

/// Why a clean picture of this code may be missed.
pub fn excuse(m: &Matrix, k: usize) -> Option<&'static str> {
    let t = turn(m, k);
    if has_long_bar(&t, k) {
        Some("missed_for_a_long_bar_in_line_with_a_finder")
    } else if has_lookalike(&t, k) {
        Some("missed_for_a_lookalike_next_to_a_finder")
    } else {
        None
    }
}

pub type Answer = Vec<Result<String, String>>;

pub fn answers(r: Vec<Result<String, anyhow::Error>>) -> Answer {
    r.into_iter().map(|x| x.map_err(|e| e.to_string())).collect()
}
pub fn decode_rgba(c: &mut Case, img: &RgbaImage) -> Result<Answer, String> {
    c.call(|| answers(bardecoder::default_decoder().decode(img)))
}
pub fn decode_gray(c: &mut Case, g: &GrayImage) -> Result<Answer, String> {
    let img = rgba(g);
    decode_rgba(c, &img)
}
pub fn oks(a: &Answer) -> Vec<&str> {
    a.iter().filter_map(|x| x.as_deref().ok()).collect()
}
pub fn show_answer(a: &Answer) -> String {
    let s = a
        .iter()
        .take(8)
        .map(|x| match x {
            Ok(t) => format!("text {}", short(t)),
            Err(e) => format!("error {}", short(e)),
        })
        .collect::<Vec<_>>()
        .join(", ");
    format!("{} results [{}]", a.len(), s)
}
pub fn keep_gray(c: &mut Case, g: &GrayImage) {
    c.artefact("png", png(&DynamicImage::ImageLuma8(g.clone())));
}
