//! C01-C07: from a grid of modules to text.

use crate::api::*;
use crate::ensure;
use crate::refqr::*;
use crate::rng::{hash_bytes, Rng};
use crate::run::*;

fn describe(v: u32, l: Level, mask: u16, what: &str) -> String {
    format!("version {} level {:?} mask {} {}", v, l, mask, what)
}

/// Versions, with the small ones and the borders of the count-field ranges more often.
fn rand_version(r: &mut Rng) -> u32 {
    match r.below(10) {
        0..=3 => r.range(1, 8) as u32,
        4 => *r.pick(&[1, 2, 6, 7, 9, 10, 26, 27, 40]),
        5 | 6 => r.range(9, 20) as u32,
        _ => r.range(1, 40) as u32,
    }
}
fn mid_version(r: &mut Rng) -> u32 {
    match r.below(8) {
        0..=4 => r.range(1, 7) as u32,
        5 | 6 => r.range(8, 16) as u32,
        _ => r.range(17, 40) as u32,
    }
}

fn must_read(c: &mut Case, m: &Matrix, v: u32, want: &str, what: &dyn Fn() -> String) -> Res {
    let got = match c.call(|| decode(m, v)) {
        Ok(g) => g,
        Err(p) => {
            keep_matrix(c, m);
            return Err(format!("{}: {}", what(), p));
        }
    };
    if got.as_deref() != Ok(want) {
        keep_matrix(c, m);
        return Err(format!("{}: got {} instead of {}", what(), show(&got), short(want)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C01

fn roundtrip(c: &mut Case, v: u32, l: Level, mask: u16, segs: &[Seg], tag: &str) -> Res {
    let Some(want) = segs_text(segs) else { return Ok(()) };
    let data = data_for(segs, v, l);
    let m = Symbol::new(&data, v, l, mask).matrix();
    c.seen(fp_matrix(&m));
    c.count(tag);
    for s in segs {
        if s.count() > 0 {
            c.count(match s {
                Seg::Num(_) => "numeric_segments",
                Seg::Alnum(_) => "alphanumeric_segments",
                Seg::Byte(_) => "byte_segments",
            });
        }
    }
    c.add("characters", want.chars().count() as u64);
    c.note(|| describe(v, l, mask, &format!("{} -> {}", show_segs(segs), short(&want))));
    must_read(c, &m, v, &want, &|| describe(v, l, mask, &show_segs(segs)))
}

fn c01_grid(c: &mut Case) -> Res {
    let i = c.idx % 1280;
    let (v, l, k) = (1 + (i / 32) as u32, LEVELS[(i / 8 % 4) as usize], (i % 8) as u16);
    let segs = rand_segs(&mut c.rng, v, l);
    roundtrip(c, v, l, k, &segs, "version_level_mask_combinations")
}
fn c01_random(c: &mut Case) -> Res {
    let v = rand_version(&mut c.rng);
    let l = rand_level(&mut c.rng);
    let k = c.rng.below(8) as u16;
    let segs = rand_segs(&mut c.rng, v, l);
    roundtrip(c, v, l, k, &segs, "random_messages")
}
/// One segment of every mode at lengths around 0 and around the capacity of every version and level.
fn c01_lengths(c: &mut Case) -> Res {
    let mut i = c.idx;
    let mut take = |n: u64| {
        let r = i % n;
        i /= n;
        r as usize
    };
    let l = LEVELS[take(4)];
    let v = 1 + take(40) as u32;
    let mode = [1u32, 2, 4][take(3)];
    let how = take(14);
    let cap = data_codewords(v, l) * 8;
    let room = cap.saturating_sub(4 + count_bits(mode, v));
    let maxn = match mode {
        1 => room / 10 * 3 + match room % 10 { 0..=3 => 0, 4..=6 => 1, _ => 2 },
        2 => room / 11 * 2 + usize::from(room % 11 >= 6),
        _ => room / 8,
    }
    .min((1 << count_bits(mode, v)) - 1);
    let n = match how {
        0..=6 => how.min(maxn),
        7..=12 => maxn.saturating_sub(how - 7),
        _ => c.rng.below(maxn + 1),
    };
    let s = match mode {
        1 => Seg::Num(rand_digits(&mut c.rng, n)),
        2 => Seg::Alnum((0..n).map(|_| *c.rng.pick(ALNUM) as char).collect()),
        _ => Seg::Byte(rand_bytes(&mut c.rng, n)),
    };
    let k = c.rng.below(8) as u16;
    roundtrip(c, v, l, k, &[s], "boundary_lengths")
}
/// Every digit group, every pair of alphanumeric characters, every byte value, many two- and three-byte characters.
fn c01_alphabet(c: &mut Case) -> Res {
    let i = c.idx as usize;
    let (v, l) = (*c.rng.pick(&[12u32, 20, 30]), *c.rng.pick(&[Level::L, Level::M]));
    let seg = match i % 6 {
        0 => {
            // 1000 digit groups, in chunks of 100
            let base = (i / 6 % 10) * 100;
            Seg::Num((base..base + 100).map(|x| format!("{:03}", x)).collect::<String>() + ["", "0", "9", "07", "70", "99"][i / 60 % 6])
        }
        1 | 2 => {
            // 45 pairs starting with one character
            let a = i / 6 % 45;
            let s: String = (0..45).flat_map(|b| [ALNUM[a] as char, ALNUM[b] as char]).collect();
            Seg::Alnum(if i % 6 == 2 { s + &(ALNUM[a] as char).to_string() } else { s })
        }
        3 => Seg::Byte((0..=255u8).filter(|b| *b != 0xC3).collect::<Vec<u8>>()),
        4 => {
            // two-byte UTF-8, always with an 0xC3 lead byte among them
            let b = 0x80 + (i / 6 % 48) as u32 * 40;
            let s: String = (b..(b + 40).min(0x800)).filter_map(char::from_u32).collect::<String>() + "é";
            Seg::Byte(s.into_bytes())
        }
        _ => {
            let mut s = String::from("Ã");
            for _ in 0..60 {
                s.push(loop {
                    if let Some(ch) = char::from_u32(c.rng.below(0x11_0000) as u32) {
                        break ch;
                    }
                });
            }
            Seg::Byte(s.into_bytes())
        }
    };
    let k = c.rng.below(8) as u16;
    roundtrip(c, v, l, k, &[seg], "alphabet_sweeps")
}

// ---------------------------------------------------------------- C02

/// Damage of exactly `w` codewords of a block.
pub fn hit(r: &mut Rng, block: &mut [u8], data: usize, w: usize, style: usize) {
    let n = block.len();
    let pos: Vec<usize> = match style % 7 {
        0 | 1 => r.choose(n, w),
        2 => {
            let s = r.below(n - w + 1);
            (s..s + w).collect()
        }
        3 => (0..w).collect(),
        4 => (n - w..n).collect(),
        5 if w <= data => r.choose(data, w),
        6 if w <= n - data => r.choose(n - data, w).into_iter().map(|p| p + data).collect(),
        _ => r.choose(n, w),
    };
    let v = r.nonzero();
    let vs = r.below(7);
    let mut sum = 0;
    for (k, p) in pos.iter().enumerate() {
        let e = match vs {
            0 => v,                      // all equal (cancels in the first syndrome for even w)
            1 => 1 << r.below(8),        // single bits
            2 => 0xff,
            3 if k + 1 == w && sum != 0 => sum, // first syndrome zero
            _ => r.nonzero(),
        };
        sum ^= e;
        block[*p] ^= e;
    }
}

fn damaged(c: &mut Case, s: &Symbol, clean: &Symbol, fmt: bool, want: &str, what: &str) -> Res {
    let mut m = s.matrix();
    let mut fw = [0, 0];
    if fmt {
        for (k, p) in format_positions(s.version).iter().enumerate() {
            let w = c.rng.below(4);
            fw[k] = w;
            for i in c.rng.choose(15, w) {
                m.flip(p[i].0, p[i].1);
            }
        }
    }
    scribble(c, &mut m, s.version);
    let per: Vec<usize> = s.blocks.iter().zip(&clean.blocks).map(|(a, b)| a.iter().zip(b).filter(|(x, y)| x != y).count()).collect();
    c.seen(fp_matrix(&m));
    c.add("damaged_codewords", per.iter().sum::<usize>() as u64);
    let lay = layout(s.version, s.level);
    c.add("blocks_at_full_capacity", per.iter().zip(&lay).filter(|(d, b)| **d == b.t).count() as u64);
    c.count(&format!("level_{:?}", s.level));
    c.note(|| describe(s.version, s.level, s.mask, &format!("{} damaged codewords per block {:?} format bits flipped {:?} -> {}", what, per, fw, short(want))));
    must_read(c, &m, s.version, want, &|| {
        describe(s.version, s.level, s.mask, &format!("{} damaged codewords per block {:?} (capacity {:?}) format bits flipped {:?}", what, per, lay.iter().map(|b| b.t).collect::<Vec<_>>(), fw))
    })
}

/// Sometimes changes the modules that carry neither codewords nor format information: finder, timing and alignment
/// patterns, the copies of the version, the module that is always dark, and the remainder bits.
fn scribble(c: &mut Case, m: &mut Matrix, v: u32) -> u32 {
    if !c.rng.chance(0.25) {
        return 0;
    }
    let n = side(v);
    let mut free = skeleton(v).1;
    for (x, y) in data_positions(v) {
        assert!(!free[y * n + x]);
    }
    for (x, y) in format_positions(v).iter().flatten() {
        free[y * n + x] = false;
    }
    let used: usize = layout(v, Level::L).iter().map(|b| b.total * 8).sum();
    for (x, y) in &data_positions(v)[used..] {
        free[y * n + x] = true;
    }
    let style = c.rng.below(6);
    let (few, which) = (c.rng.range(1, 8) as f64 / (n * n) as f64 * 4.0, c.rng.below(3));
    let mut changed = 0;
    for y in 0..n {
        for x in 0..n {
            let flip = match style {
                0 => m.get(x, y) == 1,
                1 => m.get(x, y) == 0,
                2 => c.rng.chance(0.5),
                3 => true,
                4 => c.rng.chance(few),
                // the timing patterns, what is near the top right, or near the bottom left
                _ => match which {
                    0 => x == 6 || y == 6,
                    1 => x + 12 > n && y < 9,
                    _ => y + 12 > n && x < 9,
                },
            };
            if free[y * n + x] && flip {
                m.flip(x, y);
                changed += 1;
            }
        }
    }
    c.count("symbols_with_changed_function_patterns");
    changed
}

fn fresh(c: &mut Case, v: u32, l: Level) -> (Symbol, String) {
    let k = c.rng.below(8) as u16;
    loop {
        let segs = rand_segs(&mut c.rng, v, l);
        if let Some(t) = segs_text(&segs) {
            return (Symbol::new(&data_for(&segs, v, l), v, l, k), t);
        }
    }
}

fn c02_with(c: &mut Case, v: u32, l: Level, fmt: bool, tag: &str) -> Res {
    let (clean, want) = fresh(c, v, l);
    let mut s = clean.clone();
    let lay = layout(v, l);
    let mode = c.rng.below(4);
    let one = c.rng.below(lay.len());
    for (i, b) in lay.iter().enumerate() {
        let w = match mode {
            0 => b.t,
            1 => c.rng.below(b.t + 1),
            2 => if i == one { b.t } else { 0 },
            _ => b.t - c.rng.below(2),
        };
        let style = c.rng.below(7);
        hit(&mut c.rng, &mut s.blocks[i], b.data, w, style);
    }
    c.count(tag);
    damaged(c, &s, &clean, fmt, &want, "")
}
fn c02_grid(c: &mut Case) -> Res {
    let i = c.idx % 160;
    c02_with(c, 1 + (i / 4) as u32, LEVELS[(i % 4) as usize], false, "version_level_combinations")
}
fn c02_random(c: &mut Case) -> Res {
    let v = mid_version(&mut c.rng);
    let l = rand_level(&mut c.rng);
    c02_with(c, v, l, true, "random_damage")
}
/// Every position of one damaged codeword (and pairs of equal errors) in small symbols.
fn c02_positions(c: &mut Case) -> Res {
    let mut i = c.idx as usize;
    let l = LEVELS[i % 4];
    i /= 4;
    let v = 1 + (i % 5) as u32;
    i /= 5;
    let (clean, want) = fresh(c, v, l);
    let mut s = clean.clone();
    let lay = layout(v, l);
    let total: usize = lay.iter().map(|b| b.total).sum();
    let mut p = i % total;
    let mut b = 0;
    while p >= lay[b].total {
        p -= lay[b].total;
        b += 1;
    }
    let e = c.rng.nonzero();
    s.blocks[b][p] ^= e;
    if lay[b].t >= 2 && c.rng.chance(0.5) {
        let mut q = c.rng.below(lay[b].total);
        if q == p {
            q = (q + 1) % lay[b].total;
        }
        s.blocks[b][q] ^= if c.rng.chance(0.7) { e } else { c.rng.nonzero() };
    }
    c.count("position_sweep");
    damaged(c, &s, &clean, false, &want, "")
}
/// A stain of any colour and proportion around (cx, cy), as large as every block of the symbol can take
/// (or smaller).
pub fn stain(r: &mut Rng, clean: &Symbol, (cx, cy): (i64, i64), colour: usize) -> Symbol {
    let v = clean.version;
    let lay = layout(v, clean.level);
    let il = interleave(&lay);
    let aspect = r.frange(0.3, 3.0);
    // nearest modules first; stop before a block exceeds its capacity
    let mut cells: Vec<(i64, usize)> = data_positions(v)
        .iter()
        .enumerate()
        .map(|(k, (x, y))| {
            let (dx, dy) = ((*x as i64 - cx) as f64 * aspect, (*y as i64 - cy) as f64);
            ((dx * dx + dy * dy) as i64, k)
        })
        .collect();
    cells.sort();
    let m = clean.matrix();
    let pos = data_positions(v);
    let mut s = clean.clone();
    let stop_at = if r.chance(0.6) { usize::MAX } else { r.below(cells.len()) };
    for (_, k) in cells.into_iter().take(stop_at) {
        let Some(&(b, i)) = il.get(k / 8) else { continue };
        let (x, y) = pos[k];
        let old = m.get(x, y);
        let new = match colour {
            0 => 1,
            1 => 0,
            _ => r.below(2) as u8,
        };
        if new == old {
            continue;
        }
        let was = s.blocks[b][i];
        s.blocks[b][i] ^= 0x80 >> (k % 8);
        let bad = s.blocks[b].iter().zip(&clean.blocks[b]).filter(|(p, q)| p != q).count();
        if bad > lay[b].t {
            s.blocks[b][i] = was;
            break;
        }
    }
    s
}
fn c02_blot(c: &mut Case) -> Res {
    let v = mid_version(&mut c.rng);
    let l = rand_level(&mut c.rng);
    let (clean, want) = fresh(c, v, l);
    let n = side(v);
    let at = (c.rng.below(n) as i64, c.rng.below(n) as i64);
    let colour = c.rng.below(3);
    let s = stain(&mut c.rng, &clean, at, colour);
    c.count("blots");
    damaged(c, &s, &clean, false, &want, "blot,")
}

// ---------------------------------------------------------------- C03

/// What a reader may answer: the readings under either copy of the format information, correcting
/// each block to its closest codeword, with no more changes than the level is specified to correct.
fn allowed(m: &Matrix, v: u32) -> Vec<Reading> {
    let mut out: Vec<Reading> = vec![];
    for copy in 0..2 {
        if let Some(f) = format_nearest(read_format_raw(m, v, copy)) {
            if let Some(r) = read_as(m, v, f, false) {
                if !out.contains(&r) {
                    out.push(r)
                }
            }
        }
    }
    out
}

fn judge_any(c: &mut Case, m: &Matrix, v: u32, what: &dyn Fn() -> String) -> Res {
    let ok = allowed(m, v);
    c.seen(fp_matrix(m));
    let got = match c.call(|| decode(m, v)) {
        Ok(g) => g,
        Err(p) => {
            keep_matrix(c, m);
            return Err(format!("{}: {}", what(), p));
        }
    };
    match &got {
        Ok(t) => {
            c.count("read");
            if !ok.iter().any(|r| r.text == *t) {
                keep_matrix(c, m);
                return Err(format!(
                    "{}: gave {} although {}",
                    what(),
                    short(t),
                    match ok.first() {
                        Some(r) => format!("the closest codewords say {}", short(&r.text)),
                        None => "no codewords are close enough to say anything".into(),
                    }
                ));
            }
        }
        Err(_) => c.count("refused"),
    }
    // and what lies within the capacity must still be read
    if let Verdict::Text { text, .. } = read(m, v) {
        c.count("within_capacity");
        ensure!(got.as_deref() == Ok(&text[..]), "{}: got {} instead of {}", what(), show(&got), short(&text));
    } else {
        c.count("beyond_capacity");
    }
    Ok(())
}

fn c03_beyond(c: &mut Case) -> Res {
    let v = mid_version(&mut c.rng);
    let l = rand_level(&mut c.rng);
    let (clean, _) = fresh(c, v, l);
    let mut s = clean.clone();
    let lay = layout(v, l);
    let one = c.rng.below(lay.len());
    let mode = c.rng.below(5);
    let mut ws = vec![];
    for (i, b) in lay.iter().enumerate() {
        let w = match mode {
            0 => if i == one { b.t + 1 } else { 0 },
            1 => if i == one { b.t + 1 + c.rng.below(3) } else { c.rng.below(b.t + 1) },
            2 => b.t + 1 + c.rng.below(b.total - b.t - 1),
            3 => if i == one { b.total } else { 0 },
            _ => if c.rng.chance(0.5) { c.rng.below(b.t + 3) } else { 0 },
        }
        .min(b.total);
        ws.push(w);
        let style = c.rng.below(7);
        hit(&mut c.rng, &mut s.blocks[i], b.data, w, style);
    }
    let m = s.matrix();
    c.note(|| describe(v, l, s.mask, &format!("damaged codewords per block {:?}", ws)));
    judge_any(c, &m, v, &|| describe(v, l, s.mask, &format!("damaged codewords per block {:?} (capacity {:?})", ws, lay.iter().map(|b| b.t).collect::<Vec<_>>())))
}

/// Damage that is invisible to the first k syndromes: a shifted, scaled multiple of (x-1)(x-a)...(x-a^(k-1)).
fn c03_blind(c: &mut Case) -> Res {
    let v = c.rng.range(1, 12) as u32;
    let l = rand_level(&mut c.rng);
    let (clean, _) = fresh(c, v, l);
    let mut s = clean.clone();
    let lay = layout(v, l);
    let b = c.rng.below(lay.len());
    let ecc = lay[b].total - lay[b].data;
    let k = match c.rng.below(3) {
        0 => 2 * lay[b].t.min((ecc - 1) / 2),
        1 => ecc - 1,
        _ => 1 + c.rng.below(ecc - 1),
    };
    // window of roots: usually the first k, sometimes another run of k
    let first = if c.rng.chance(0.75) { 0 } else { c.rng.below(ecc - k + 1) };
    let mut g = vec![1u8];
    for i in first..first + k {
        let mut n = vec![0u8; g.len() + 1];
        for (j, x) in g.iter().enumerate() {
            n[j] ^= *x;
            n[j + 1] ^= gmul(*x, alpha(i));
        }
        g = n;
    }
    let sc = c.rng.nonzero();
    let at = c.rng.below(lay[b].total - k);
    for (j, x) in g.iter().enumerate() {
        s.blocks[b][at + j] ^= gmul(*x, sc);
    }
    // and sometimes something correctable on top
    let extra = if c.rng.chance(0.3) { c.rng.below(lay[b].t + 1) } else { 0 };
    hit(&mut c.rng, &mut s.blocks[b], lay[b].data, extra, 0);
    let m = s.matrix();
    c.count("blind_to_some_syndromes");
    c.note(|| describe(v, l, s.mask, &format!("damage with syndromes {}..{} of {} zero, plus {}", first, first + k, ecc, extra)));
    judge_any(c, &m, v, &|| describe(v, l, s.mask, &format!("damage in block {} with syndromes {}..{} of {} zero, plus {} codewords", b, first, first + k, ecc, extra)))
}

/// Between two codewords, and right next to the wrong one.
fn c03_between(c: &mut Case) -> Res {
    let v = c.rng.range(1, 10) as u32;
    let l = rand_level(&mut c.rng);
    let (a, _) = fresh(c, v, l);
    let (b, _) = fresh(c, v, l);
    let mut s = a.clone();
    let lay = layout(v, l);
    let mut ws = vec![];
    for i in 0..lay.len() {
        let diff: Vec<usize> = (0..lay[i].total).filter(|&j| a.blocks[i][j] != b.blocks[i][j]).collect();
        let far = diff.len();
        let w = match c.rng.below(4) {
            0 => far.saturating_sub(lay[i].t),
            1 => far.saturating_sub(lay[i].t + 1),
            2 => lay[i].t.min(far),
            _ => c.rng.below(far + 1),
        };
        ws.push(format!("{}/{}", w, far));
        for q in c.rng.choose(far, w) {
            s.blocks[i][diff[q]] = b.blocks[i][diff[q]];
        }
    }
    let m = s.matrix();
    c.count("between_codewords");
    c.note(|| describe(v, l, s.mask, &format!("codewords moved towards another symbol, per block {}", ws.join(" "))));
    judge_any(c, &m, v, &|| describe(v, l, s.mask, &format!("codewords moved towards another symbol, per block {}", ws.join(" "))))
}

/// Module-level noise over the whole symbol, format information included.
fn c03_noise(c: &mut Case) -> Res {
    let v = c.rng.range(1, 14) as u32;
    let l = rand_level(&mut c.rng);
    let (s, _) = fresh(c, v, l);
    let mut m = s.matrix();
    let p = [0.003, 0.01, 0.03, 0.06, 0.1, 0.2, 0.5][c.rng.below(7)];
    let mut n = 0;
    for i in 0..m.m.len() {
        if c.rng.chance(p) {
            m.m[i] ^= 1;
            n += 1;
        }
    }
    c.count("module_noise");
    c.note(|| describe(v, l, s.mask, &format!("{} of {} modules flipped", n, m.m.len())));
    judge_any(c, &m, v, &|| describe(v, l, s.mask, &format!("{} modules flipped", n)))
}

// ---------------------------------------------------------------- C04

fn set_format(m: &mut Matrix, v: u32, copy: usize, raw: u16) {
    for (i, (x, y)) in format_positions(v)[copy].iter().enumerate() {
        m.set(*x, *y, (raw >> (14 - i) & 1) as u8);
    }
}
/// A word further than 3 bits from every codeword (unmasked).
fn unreadable(r: &mut Rng) -> u16 {
    loop {
        let w = r.below(1 << 15) as u16;
        if format_nearest(w).is_none() {
            return w;
        }
    }
}

/// All 32768 words in either copy, for the symbol whose format they are closest to; the other copy unreadable.
fn c04_words(c: &mut Case) -> Res {
    let w = (c.idx % 32768) as u16;
    let copy = (c.idx / 32768 % 2) as usize;
    let v = if c.idx < 65536 { 1 } else { c.rng.range(1, 12) as u32 };
    match format_nearest(w) {
        Some(f) => {
            let l = Level::from_bits(f >> 3);
            let mask = f & 7;
            let segs = rand_segs(&mut c.rng, v, l);
            let want = segs_text(&segs).unwrap_or_default();
            let mut m = Symbol::new(&data_for(&segs, v, l), v, l, mask).matrix();
            let d = (format_code(f) ^ w).count_ones();
            let other = if copy == 0 && c.rng.chance(0.5) { c.rng.below(1 << 15) as u16 } else { unreadable(&mut c.rng) };
            set_format(&mut m, v, copy, w ^ FMT_MASK);
            set_format(&mut m, v, 1 - copy, other ^ FMT_MASK);
            c.count(&format!("copy{}_{}_bits_wrong", copy + 1, d));
            c.seen(c.idx);
            c.note(|| describe(v, l, mask, &format!("copy {} has {} wrong bits, the other holds {:015b}", copy + 1, d, other)));
            must_read(c, &m, v, &want, &|| describe(v, l, mask, &format!("format copy {} with {} wrong bits ({:015b}), the other copy {:015b}", copy + 1, d, w, other)))
        }
        None => {
            let l = rand_level(&mut c.rng);
            let (s, _) = fresh(c, v, l);
            let mut m = s.matrix();
            let other = unreadable(&mut c.rng);
            set_format(&mut m, v, copy, w ^ FMT_MASK);
            set_format(&mut m, v, 1 - copy, other ^ FMT_MASK);
            c.count("both_copies_unreadable");
            c.seen(c.idx);
            let got = c.call(|| decode(&m, v))?;
            if got.is_ok() {
                keep_matrix(c, &m);
            }
            ensure!(got.is_err(), "{}: both copies of the format information are unreadable ({:015b} and {:015b}) but got {}", describe(v, l, s.mask, ""), w, other, show(&got));
            Ok(())
        }
    }
}
/// Both copies wrong by up to three bits, all versions.
fn c04_both(c: &mut Case) -> Res {
    let v = 1 + (c.idx % 40) as u32;
    let l = rand_level(&mut c.rng);
    let (s, want) = fresh(c, v, l);
    let mut m = s.matrix();
    let mut ws = vec![];
    for p in format_positions(v).iter() {
        let w = c.rng.below(4);
        let bits = c.rng.choose(15, w);
        for &i in &bits {
            m.flip(p[i].0, p[i].1);
        }
        ws.push(bits);
    }
    // modules that carry no information: the dark module
    if c.rng.chance(0.3) {
        m.flip(8, side(v) - 8);
    }
    c.seen(fp_matrix(&m));
    c.count("both_copies_damaged");
    c.note(|| describe(v, l, s.mask, &format!("format bits {:?} flipped", ws)));
    must_read(c, &m, v, &want, &|| describe(v, l, s.mask, &format!("format bits {:?} flipped in the two copies", ws)))
}

// ---------------------------------------------------------------- C05

fn info_case(c: &mut Case, m: &Matrix, v: u32, truth: Option<(Level, u32, &str)>, what: &dyn Fn() -> String) -> Res {
    c.seen(fp_matrix(m));
    let plain = c.call(|| decode(m, v)).map_err(|e| format!("{}: {}", what(), e))?;
    let info = c.call(|| decode_info(m, v)).map_err(|e| format!("{}: {}", what(), e))?;
    let r = (|| {
        match (&plain, &info) {
            (Ok(a), Ok((b, _))) => ensure!(a == b, "{}: the plain decoder gives {} but the one with information {}", what(), short(a), short(b)),
            (Err(_), Err(_)) => {}
            _ => return Err(format!("{}: the plain decoder gives {} but the one with information {}", what(), show(&plain), show(&info))),
        }
        if let Some((l, flipped, text)) = truth {
            let Ok((t, i)) = &info else { return Err(format!("{}: {}", what(), show(&info))) };
            ensure!(t == text, "{}: text {} instead of {}", what(), short(t), short(text));
            ensure!(i.version == v, "{}: reported version {}", what(), i.version);
            ensure!(level_of(&i.ec_level) == l, "{}: reported level {:?}", what(), i.ec_level);
            let data = data_codewords(v, l) as u32 * 8;
            ensure!(i.total_data == data, "{}: reported {} bits of data, the symbol holds {}", what(), i.total_data, data);
            ensure!(i.errors == flipped, "{}: reported {} wrong bits, {} were flipped", what(), i.errors, flipped);
        }
        Ok(())
    })();
    if r.is_err() {
        keep_matrix(c, m);
    }
    match &info {
        Ok((_, i)) => {
            c.count("reports_checked");
            if i.errors > 0 {
                c.count("reports_with_errors");
            }
            c.add("flipped_bits_reported", u64::from(i.errors));
        }
        Err(_) => c.count("refusals_compared"),
    }
    r
}

fn c05_with(c: &mut Case, v: u32, l: Level) -> Res {
    let (clean, want) = fresh(c, v, l);
    let mut s = clean.clone();
    let lay = layout(v, l);
    let mode = c.rng.below(4);
    for (i, b) in lay.iter().enumerate() {
        let w = match mode {
            0 => 0,
            1 => c.rng.below(b.t + 1),
            2 => b.t,
            _ => c.rng.below(2).min(b.t),
        };
        let style = c.rng.below(7);
        hit(&mut c.rng, &mut s.blocks[i], b.data, w, style);
    }
    let flipped: u32 = s.blocks.iter().flatten().zip(clean.blocks.iter().flatten()).map(|(a, b)| (a ^ b).count_ones()).sum();
    let mut m = s.matrix();
    // Wrong bits that are not codeword bits do not count: format information, remainder bits, function patterns.
    let mut other = 0;
    if c.rng.chance(0.5) {
        for p in format_positions(v).iter() {
            for i in c.rng.choose(15, 2) {
                m.flip(p[i].0, p[i].1);
                other += 1;
            }
        }
        let used: usize = lay.iter().map(|b| b.total * 8).sum();
        for (x, y) in &data_positions(v)[used..] {
            m.flip(*x, *y);
            other += 1;
        }
    }
    other += scribble(c, &mut m, v);
    c.note(|| describe(v, l, s.mask, &format!("{} codeword bits and {} other bits flipped", flipped, other)));
    info_case(c, &m, v, Some((l, flipped, &want)), &|| describe(v, l, s.mask, &format!("{} codeword bits and {} other bits flipped", flipped, other)))
}
fn c05_grid(c: &mut Case) -> Res {
    let i = c.idx % 160;
    c05_with(c, 1 + (i / 4) as u32, LEVELS[(i % 4) as usize])
}
fn c05_random(c: &mut Case) -> Res {
    let v = mid_version(&mut c.rng);
    let l = rand_level(&mut c.rng);
    c05_with(c, v, l)
}
/// Agreement with the plain decoder where nothing is promised about the outcome.
fn c05_agree(c: &mut Case) -> Res {
    let v = c.rng.range(1, 12) as u32;
    let l = rand_level(&mut c.rng);
    let (mut s, _) = fresh(c, v, l);
    let lay = layout(v, l);
    for (i, b) in lay.iter().enumerate() {
        let w = c.rng.below(b.t + 3);
        hit(&mut c.rng, &mut s.blocks[i], b.data, w, 0);
    }
    if c.rng.chance(0.3) {
        // a payload that has to be refused
        let n = s.blocks[0].len();
        let d = lay[0].data;
        s.blocks[0][0] = c.rng.byte();
        let e = rs_ecc(&s.blocks[0][..d].to_vec(), n - d);
        s.blocks[0].truncate(d);
        s.blocks[0].extend(e);
    }
    let m = s.matrix();
    info_case(c, &m, v, None, &|| describe(v, l, s.mask, "heavily damaged"))
}

// ---------------------------------------------------------------- C06

fn payload(c: &mut Case, v: u32, l: Level, data: Vec<u8>, tag: &str, what: &str) -> Res {
    let want = parse(&data, v);
    let mask = c.rng.below(8) as u16;
    let m = Symbol::new(&data, v, l, mask).matrix();
    c.seen(hash_bytes(&data) ^ u64::from(v));
    c.count(tag);
    c.count(match &want {
        Ok(_) => "must_be_read",
        Err(_) => "must_be_refused",
    });
    if let Err(e) = &want {
        c.count(&format!("refusal_{}", e));
    }
    let head = |d: &[u8]| d.iter().take(24).map(|b| format!("{:02x}", b)).collect::<String>();
    c.note(|| describe(v, l, mask, &format!("{} {}.. -> {:?}", what, head(&data), want.as_ref().map(|t| short(t)))));
    let got = match c.call(|| decode(&m, v)) {
        Ok(g) => g,
        Err(p) => {
            keep_matrix(c, &m);
            return Err(format!("{} {} {}..: {}", describe(v, l, mask, ""), what, head(&data), p));
        }
    };
    let ok = match (&want, &got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if !ok {
        keep_matrix(c, &m);
        return Err(format!(
            "{} {} {}..: got {} but the payload {}",
            describe(v, l, mask, ""), what, head(&data), show(&got),
            match &want {
                Ok(t) => format!("says {}", short(t)),
                Err(e) => format!("is malformed ({})", e),
            }
        ));
    }
    Ok(())
}

/// Valid segments followed by something odd.
fn c06_craft(c: &mut Case) -> Res {
    let v = *c.rng.pick(&[1u32, 2, 3, 5, 9, 10, 11, 26, 27, 28, 40]);
    let l = rand_level(&mut c.rng);
    let cap = data_codewords(v, l) * 8;
    let mut b = Bits::default();
    for _ in 0..c.rng.below(3) {
        let room = (cap - b.0.len()) / 2;
        if let Some(s) = rand_seg(&mut c.rng, v, room) {
            s.write(v, &mut b);
        }
    }
    let left = cap - b.0.len();
    let what;
    match c.rng.below(9) {
        0 => {
            // terminator, then noise that has to be ignored
            b.push(0, 4.min(left));
            what = "noise after the terminator";
        }
        1 => {
            // a mode that is not supported
            let m = *c.rng.pick(&[3u32, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
            if left >= 4 {
                b.push(m, 4);
            }
            what = "unsupported mode";
        }
        2 => {
            // a count larger than what is there
            let m = *c.rng.pick(&[1u32, 2, 4]);
            let n = count_bits(m, v);
            if left >= 4 + n {
                b.push(m, 4);
                let per = match m { 1 => 4, 2 => 6, _ => 8 };
                let most = (left - 4 - n) / per + 2;
                let cnt = if c.rng.chance(0.5) { (1 << n) - 1 } else { (most + c.rng.below(4)).min((1 << n) - 1) };
                b.push(cnt as u32, n);
            }
            what = "count beyond the data";
        }
        3 => {
            // digit groups out of range
            let n = count_bits(1, v);
            let k = 1 + c.rng.below(7);
            let g = k / 3;
            let bits = g * 10 + [0, 4, 7][k % 3];
            if left >= 4 + n + bits {
                b.push(1, 4);
                b.push(k as u32, n);
                let bad = c.rng.below(g + usize::from(k % 3 != 0));
                for i in 0..g {
                    let x = if i == bad { c.rng.range(998, 1023) } else { c.rng.range(0, 999) };
                    b.push(x as u32, 10);
                }
                match k % 3 {
                    1 => b.push(if bad == g { c.rng.range(8, 15) } else { c.rng.range(0, 9) } as u32, 4),
                    2 => b.push(if bad == g { c.rng.range(98, 127) } else { c.rng.range(0, 99) } as u32, 7),
                    _ => {}
                }
            }
            what = "digit group near or over its range";
        }
        4 => {
            // character pairs out of range
            let n = count_bits(2, v);
            let k = 1 + c.rng.below(5);
            let g = k / 2;
            let bits = g * 11 + k % 2 * 6;
            if left >= 4 + n + bits {
                b.push(2, 4);
                b.push(k as u32, n);
                let bad = c.rng.below(g + k % 2);
                for i in 0..g {
                    let x = if i == bad { c.rng.range(2020, 2047) } else { c.rng.range(0, 2024) };
                    b.push(x as u32, 11);
                }
                if k % 2 == 1 {
                    b.push(if bad == g { c.rng.range(43, 63) } else { c.rng.range(0, 44) } as u32, 6);
                }
            }
            what = "character pair near or over its range";
        }
        5 | 6 => {
            // bytes that look like UTF-8 but may not be
            let n = count_bits(4, v);
            let room = left.saturating_sub(4 + n) / 8;
            if left >= 4 + n {
                let k = c.rng.below(room.min(40) + 1);
                let pool = [0xC3u8, 0xA9, 0xC3, 0x80, 0xBF, 0x41, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0x98, 0x80, 0xC0, 0xED, 0xA0, 0xFF, 0x00];
                let mut v8: Vec<u8> = if c.rng.chance(0.5) { rand_bytes(&mut c.rng, k) } else { (0..k).map(|_| *c.rng.pick(&pool)).collect() };
                if !v8.is_empty() && c.rng.chance(0.5) {
                    let i = c.rng.below(v8.len());
                    v8[i] = *c.rng.pick(&pool);
                }
                b.push(4, 4);
                b.push(v8.len() as u32, n);
                for x in v8 {
                    b.push(u32::from(x), 8);
                }
            }
            what = "bytes near UTF-8";
        }
        7 => {
            // stop exactly at, or a few bits before, the end of the data
            let end = c.rng.below(12);
            if left > end + 30 {
                let s = loop {
                    let room = left - end;
                    if let Some(s) = rand_seg(&mut c.rng, v, room) {
                        break s;
                    }
                };
                s.write(v, &mut b);
            }
            what = "data that ends close to the capacity";
        }
        _ => {
            let m = *c.rng.pick(&[1u32, 2, 4]);
            b.push(m, 4.min(left));
            what = "mode followed by noise";
        }
    }
    // fill with noise, zeros, ones or standard padding
    let data = match c.rng.below(4) {
        0 if b.0.len() <= cap => pad(b, v, l),
        k => {
            while b.0.len() < cap {
                let bit = match k {
                    1 => 0,
                    2 => 1,
                    _ => c.rng.below(2) as u8,
                };
                b.0.push(bit);
            }
            b.bytes()
        }
    };
    payload(c, v, l, data, "crafted_payloads", what)
}
fn c06_noise(c: &mut Case) -> Res {
    let v = mid_version(&mut c.rng);
    let l = rand_level(&mut c.rng);
    let n = data_codewords(v, l);
    let mut d: Vec<u8> = (0..n).map(|_| c.rng.byte()).collect();
    if c.rng.chance(0.6) {
        d[0] = *c.rng.pick(&[0x10u8, 0x20, 0x40, 0x11, 0x41, 0x00, 0x21]) | (c.rng.byte() & 0xf);
    }
    payload(c, v, l, d, "random_payloads", "random data codewords")
}
/// All digit groups, last groups and character values, one by one.
fn c06_values(c: &mut Case) -> Res {
    let (mode, n, bits, x): (u32, u32, usize, u32) = match c.idx {
        i @ 0..=1023 => (1, 3, 10, i as u32),
        i @ 1024..=1151 => (1, 2, 7, i as u32 - 1024),
        i @ 1152..=1167 => (1, 1, 4, i as u32 - 1152),
        i @ 1168..=3215 => (2, 2, 11, i as u32 - 1168),
        i @ 3216..=3279 => (2, 1, 6, i as u32 - 3216),
        i @ 3280..=3295 => {
            // every mode indicator
            let v = c.rng.range(1, 6) as u32;
            let l = rand_level(&mut c.rng);
            let mut b = Bits::default();
            b.push(i as u32 - 3280, 4);
            let data = pad(b, v, l);
            return payload(c, v, l, data, "value_sweep", "mode indicator");
        }
        i => {
            // every byte value alone, and after 0xC3
            let i = i - 3296;
            let v = c.rng.range(1, 6) as u32;
            let l = rand_level(&mut c.rng);
            let mut b = Bits::default();
            let s: Vec<u8> = if i / 256 % 2 == 0 { vec![i as u8] } else { vec![0xC3, i as u8] };
            Seg::Byte(s).write(v, &mut b);
            let data = pad(b, v, l);
            return payload(c, v, l, data, "value_sweep", "byte value");
        }
    };
    let v = *c.rng.pick(&[1u32, 3, 10, 27]);
    let l = rand_level(&mut c.rng);
    let mut b = Bits::default();
    b.push(mode, 4);
    b.push(n, count_bits(mode, v));
    b.push(x, bits);
    let data = pad(b, v, l);
    payload(c, v, l, data, "value_sweep", "single group")
}

// ---------------------------------------------------------------- C07

fn c07_any(c: &mut Case) -> Res {
    let v = match c.rng.below(12) {
        0 => *c.rng.pick(&[0u32, 41, 42, 43, 45, 50, 60]),
        1 => c.rng.range(20, 40) as u32,
        _ => c.rng.range(1, 12) as u32,
    };
    let n = side(v);
    let mut px: Vec<u8> = vec![0; n * n];
    let kind = c.rng.below(8);
    match kind {
        0 => px.iter_mut().for_each(|p| *p = 255 * c.rng.below(2) as u8),
        1 => px.iter_mut().for_each(|p| *p = c.rng.byte()),
        2 => {
            let k = c.rng.byte();
            px.iter_mut().for_each(|p| *p = k)
        }
        3 => {
            let (a, b) = (c.rng.range(1, 4) as usize, c.rng.range(1, 4) as usize);
            for (i, p) in px.iter_mut().enumerate() {
                *p = if (i % n / a + i / n / b) % 2 == 0 { 0 } else { 255 };
            }
        }
        _ if (1..=40).contains(&v) => {
            // valid format information over an arbitrary rest, so the later steps are reached
            let l = rand_level(&mut c.rng);
            let mask = c.rng.below(8) as u16;
            let lay = layout(v, l);
            let mut s = Symbol { version: v, level: l, mask, blocks: lay.iter().map(|b| vec![0; b.total]).collect() };
            for (i, b) in lay.iter().enumerate() {
                let d: Vec<u8> = match kind {
                    4 => (0..b.data).map(|_| c.rng.byte()).collect(),
                    5 => vec![*c.rng.pick(&[0u8, 0xff, 0x10, 0x20, 0x40, 0x80, 0x11]); b.data],
                    6 => (0..b.data).map(|k| if k == 0 { 0x20 } else { c.rng.byte() }).collect(),
                    _ => vec![0; b.data],
                };
                let e = rs_ecc(&d, b.total - b.data);
                s.blocks[i] = d;
                s.blocks[i].extend(e);
                let w = if c.rng.chance(0.5) { c.rng.below(b.total + 1) } else { 0 };
                hit(&mut c.rng, &mut s.blocks[i], b.data, w, kind);
            }
            px = s.matrix().m.iter().map(|&b| if b == 1 { 0 } else { 255 }).collect();
            c.count("valid_format_arbitrary_rest");
        }
        _ => {}
    }
    c.seen(hash_bytes(&px) ^ u64::from(v));
    c.count(match v {
        1..=40 => "version_1_to_40",
        _ => "impossible_version",
    });
    c.note(|| format!("version {} kind {} {} pixels", v, kind, px.len()));
    let mk = || QRData::new(px.clone(), v);
    let who = |p: &str| format!("version {} (kind {}): {}", v, kind, p);
    let (r, peak) = peak_of(|| {
        let a = c.call(|| QRDecoder::new().decode(Ok(mk())));
        let b = c.call(|| QRDecoderWithInfo::new().decode(Ok(mk())));
        (a, b)
    });
    let keep = |c: &mut Case| {
        let mut s = format!("P2\n{} {}\n255\n", n, n);
        for p in &px {
            s.push_str(&format!("{}\n", p));
        }
        c.artefact("pgm", s.into_bytes());
    };
    let (a, b) = match r {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => {
            keep(c);
            return Err(who(&e));
        }
    };
    ensure!(peak <= (2 << 20) + 64 * px.len() as i64, "{}", who(&format!("used {} bytes of memory", peak)));
    c.count(if a.is_ok() { "ended_in_text" } else { "ended_in_error" });
    if a.is_ok() != b.is_ok() || a.is_ok() && a.as_ref().unwrap() != &b.as_ref().unwrap().0 {
        keep(c);
        return Err(who("the two decoders disagree"));
    }
    if !(1..=40).contains(&v) {
        ensure!(a.is_err(), "{}", who("a version that does not exist was decoded"));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a symbol made by the reference encoder from random segments, decoded undamaged; distinct by its module grid",
            stages: vec![
                stage("grid", 1280 * 12, 1280 * 200, c01_grid),
                stage("lengths", 4 * 40 * 3 * 14 * 2, 4 * 40 * 3 * 14 * 40, c01_lengths),
                stage("alphabet", 6_000, 200_000, c01_alphabet),
                stage("random", 60_000, 1_500_000, c01_random),
            ],
            need: vec![("version_level_mask_combinations", 1280), ("boundary_lengths", 6720), ("numeric_segments", 500), ("alphanumeric_segments", 500), ("byte_segments", 500)],
            assumptions: vec!["the reference encoder implements ISO/IEC 18004 (its constants are derived independently of the code under test)"],
            limits: vec![],
        },
        Prop {
            id: "C02",
            rule: "a reference symbol with up to the correctable number of codewords of every block damaged (random, bursts, ends, data only, check only, blots; error values random, equal, single-bit, cancelling), half of the time with up to three wrong bits in each copy of the format information; distinct by the damaged grid",
            stages: vec![
                stage("grid", 160 * 60, 160 * 1200, c02_grid),
                stage("random", 100_000, 3_000_000, c02_random),
                stage("positions", 4 * 5 * 134 * 10, 4 * 5 * 134 * 200, c02_positions),
                stage("blot", 15_000, 400_000, c02_blot),
            ],
            need: vec![("version_level_combinations", 160), ("blocks_at_full_capacity", 5000), ("position_sweep", 2000), ("blots", 500), ("symbols_with_changed_function_patterns", 5000)],
            assumptions: vec!["capacity of a block: half its check codewords, less the misdecode-protection codewords ISO/IEC 18004 sets aside in versions 1 to 3"],
            limits: vec![],
        },
        Prop {
            id: "C03",
            rule: "a reference symbol damaged beyond what can be corrected, blind to chosen syndromes, moved between codewords, or with module noise; the answer must be an error or the text of the closest codewords; distinct by the damaged grid",
            stages: vec![
                stage("beyond", 80_000, 2_000_000, c03_beyond),
                stage("blind", 100_000, 3_000_000, c03_blind),
                stage("between", 40_000, 1_000_000, c03_between),
                stage("noise", 60_000, 1_500_000, c03_noise),
            ],
            need: vec![("beyond_capacity", 5000), ("within_capacity", 500), ("blind_to_some_syndromes", 4000), ("refused", 3000), ("read", 500)],
            assumptions: vec!["closest codeword: no more codewords away than the level is specified to correct (C02)"],
            limits: vec![],
        },
        Prop {
            id: "C04",
            rule: "all 2^15 words in either copy of the format information of the symbol they belong to (the other copy unreadable or random), and up to three wrong bits in both copies for every version; distinct by word, copy and grid",
            stages: vec![stage("words", 65536 * 4, 65536 * 60, c04_words), stage("both", 40_000, 1_000_000, c04_both)],
            need: vec![("copy1_3_bits_wrong", 10_000), ("copy2_3_bits_wrong", 10_000), ("both_copies_unreadable", 20_000), ("both_copies_damaged", 1000)],
            assumptions: vec![],
            limits: vec![],
        },
        Prop {
            id: "C05",
            rule: "damaged and undamaged reference symbols read with and without information; the report is compared with what was drawn and flipped; distinct by grid",
            stages: vec![stage("grid", 160 * 50, 160 * 1000, c05_grid), stage("random", 50_000, 1_500_000, c05_random), stage("agree", 40_000, 1_000_000, c05_agree), stage("pictures", 2_000, 80_000, super::pipeline::c05_pictures)],
            need: vec![("reports_checked", 3000), ("reports_with_errors", 1500), ("refusals_compared", 500), ("reports_on_pictures", 1000)],
            assumptions: vec!["the number of bits of information is the size of the data codewords, as the repository's tests fix it (its documentation comment also mentions the check codewords)"],
            limits: vec![],
        },
        Prop {
            id: "C06",
            rule: "symbols with correct error correction around crafted or random data codewords; the reading or refusal is compared with a reference parser; distinct by data codewords",
            stages: vec![stage("craft", 200_000, 6_000_000, c06_craft), stage("values", 3296 + 512, 3296 + 512 * 4, c06_values), stage("noise", 30_000, 1_000_000, c06_noise)],
            need: vec![
                ("must_be_read", 3000), ("must_be_refused", 3000), ("refusal_num-range", 50), ("refusal_alnum-range", 50), ("refusal_num-trunc", 50), ("refusal_mode", 50), ("refusal_byte-utf8", 50),
            ],
            assumptions: vec!["a byte segment is UTF-8 if it holds the byte 0xC3 and ISO 8859-1 otherwise, as the code under test has always decided"],
            limits: vec![],
        },
        Prop {
            id: "C07",
            rule: "arbitrary grids of any version number (noise, uniform, patterns, valid format information over arbitrary codewords), watched for panics, CPU time, memory and disagreement of the two decoders; distinct by grid",
            stages: vec![stage("any", 400_000, 8_000_000, c07_any)],
            need: vec![("valid_format_arbitrary_rest", 5000), ("impossible_version", 500), ("ended_in_error", 5000), ("ended_in_text", 500)],
            assumptions: vec!["the grid has as many pixels as its version says"],
            limits: vec![],
        },
    ]
}
