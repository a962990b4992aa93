//! C17: the bit reader against a model that counts bits. C23: public values.

use crate::api::*;
use crate::ensure;
use crate::rng::{hash_bytes, Rng};
use crate::run::*;

struct Model {
    bits: Vec<u8>,
    pos: usize,
}
impl Model {
    fn take(&mut self, n: usize, max: usize) -> Option<u32> {
        if n == 0 || n > max || n > self.bits.len() - self.pos {
            return None;
        }
        let v = self.bits[self.pos..self.pos + n].iter().fold(0u32, |a, b| a << 1 | u32::from(*b));
        self.pos += n;
        Some(v)
    }
}

fn history(c: &mut Case, bytes: Vec<u8>, ops: &[(u8, u8)]) -> Res {
    let mut m = Model { bits: bytes.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect(), pos: 0 };
    let mut real = c.call(|| Chomp::new(bytes.clone()))?;
    let mut log = vec![];
    let mut refused = 0;
    let mut after_refusal = false;
    for &(op, n) in ops {
        // a request for no bits at all has no specified answer
        let before = m.pos;
        let (got, want) = match op {
            0 => (c.call(|| real.chomp(n).map(u32::from))?, m.take(n as usize, 8)),
            1 => {
                let r = c.call(|| real.chomp_or(n, n))?;
                if let Err(e) = r {
                    ensure!(e == n, "the error given by the caller came back as {} instead of {}", e, n);
                }
                (r.ok().map(u32::from), m.take(n as usize, 8))
            }
            _ => {
                let e = format!("e{}", n);
                let r = c.call(|| real.chomp_or_u16(n, e.clone()))?;
                if let Err(x) = &r {
                    ensure!(*x == e, "the error given by the caller came back as {:?}", x);
                }
                (r.ok().map(u32::from), m.take(n as usize, 16))
            }
        };
        if ops.len() <= 200 || got != want {
            log.push(format!("{}({})={:?}", ["chomp", "chomp_or", "chomp_or_u16"][op as usize], n, got));
        }
        ensure!(
            got == want,
            "{} bytes {:02x?}, bit {} of {}: {} but the stream says {:?}",
            bytes.len(), &bytes[..bytes.len().min(50)], before, m.bits.len(), log.join(" "), want
        );
        if want.is_none() {
            refused += 1;
            after_refusal = true;
            c.count("refusals_seen");
        } else {
            c.count("reads_seen");
            if before / 8 != (m.pos - 1) / 8 {
                c.count("reads_across_bytes");
            }
            if op == 2 && n > 8 {
                c.count("wide_reads");
            }
            if after_refusal {
                c.count("reads_after_refusal");
            }
        }
    }
    let mut fp = bytes.clone();
    fp.extend(ops.iter().flat_map(|o| [o.0, o.1]));
    c.seen(hash_bytes(&fp));
    c.note(|| format!("{} bytes {:02x?}: {} requests {} ({} refused)", bytes.len(), &bytes[..bytes.len().min(50)], ops.len(), log.join(" "), refused));
    Ok(())
}

fn random(c: &mut Case) -> Res {
    let len = [0, 1, 1, 2, 3, 5, 9, 40][c.rng.below(8)];
    let bytes: Vec<u8> = match c.rng.below(4) {
        0 => vec![0xff; len],
        _ => (0..len).map(|_| c.rng.byte()).collect(),
    };
    let k = 1 + c.rng.below(2 * len + 6);
    let wild = c.rng.chance(0.2);
    let ops: Vec<(u8, u8)> = (0..k)
        .map(|_| {
            let op = c.rng.below(3) as u8;
            let n = if wild && c.rng.chance(0.3) {
                [9u8, 10, 15, 16, 17, 18, 24, 25, 32, 33, 64, 128, 200, 254, 255][c.rng.below(15)]
            } else {
                c.rng.range(1, if op == 2 { 16 } else { 8 }) as u8
            };
            (op, n)
        })
        .collect();
    history(c, bytes, &ops)
}

/// Byte strings longer than any symbol holds, read to their end and beyond.
fn long(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let len = *r.pick(&[255usize, 256, 1000, 2953, 3706, 8191, 8192, 8193, 20_000, 65_535, 65_537]) + r.below(3);
    let bytes: Vec<u8> = (0..len).map(|_| r.byte()).collect();
    let style = r.below(4);
    let mut ops = vec![];
    let mut asked = 0;
    while asked < len * 8 + 40 {
        let op = if style == 3 { 2 } else { r.below(3) as u8 };
        let n = match style {
            0 => r.range(1, if op == 2 { 16 } else { 8 }) as u8,
            1 => 8,
            2 => *r.pick(&[7u8, 8, 8, 8, 5, 9]),
            _ => 16 - r.below(2) as u8 * 3,
        };
        asked += n as usize;
        ops.push((op, n));
    }
    c.count("long_strings");
    history(c, bytes, &ops)
}

/// All sequences of up to four requests on streams of up to three bytes.
fn exhaustive(c: &mut Case) -> Res {
    let mut i = c.idx;
    let mut take = |n: u64| {
        let v = i % n;
        i /= n;
        v
    };
    let len = 1 + take(3) as usize;
    let pat = take(2);
    let bytes: Vec<u8> = (0..len).map(|k| if pat == 0 { [0xb1, 0x6e, 0x93][k] } else { [0x4e, 0x91, 0x6d][k] }).collect();
    let widths: [(u8, u8); 16] = [
        (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (0, 8), (0, 9), (2, 7), (2, 8), (2, 9), (2, 11), (2, 16), (2, 17), (1, 6),
    ];
    let ops: Vec<(u8, u8)> = (0..4).map(|_| widths[take(16) as usize]).collect();
    history(c, bytes, &ops)
}

// ---------------------------------------------------------------- C23

fn number(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        1 => r.frange(-1.0, 1.0) * 10f64.powi(r.range(-100, 100) as i32),
        2 => r.range(-1000, 1000) as f64,
        3 => r.frange(-1e9, 1e9),
        _ => r.frange(-3000.0, 3000.0),
    }
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || ((a - b).is_finite() && (a - b).abs() <= 1e-12 * a.abs().max(b.abs()))
}

/// Points and differences: every operation works on each coordinate by itself.
fn points(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (mut px, mut py, qx, qy, mut f) = (number(r), number(r), number(r), number(r), number(r));
    if r.chance(0.1) {
        // close to the limits of the numbers, where the order of the operations shows
        let far = if r.chance(0.5) { -309.0 } else { 307.0 };
        let mut near = || r.frange(1.0, 9.0) * 10f64.powf(far + r.frange(-3.0, 1.2));
        (px, py, f) = (near(), -near(), near());
    }
    let (p, q) = (Point { x: px, y: py }, Point { x: qx, y: qy });
    let (d, e) = (Delta { dx: px, dy: py }, Delta { dx: qx, dy: qy });
    let got: [(&str, f64, f64, f64, f64); 8] = c.call(|| {
        let pt = |n, a: Point, x, y| (n, a.x, a.y, x, y);
        let dl = |n, a: Delta, x, y| (n, a.dx, a.dy, x, y);
        [
            pt("point + difference", p + e, px + qx, py + qy),
            pt("point - difference", p - e, px - qx, py - qy),
            dl("point - point", p - q, px - qx, py - qy),
            dl("difference + difference", d + e, px + qx, py + qy),
            dl("difference - difference", d - e, px - qx, py - qy),
            dl("difference * number", d * f, px * f, py * f),
            dl("number * difference", f * d, f * px, f * py),
            dl("difference / number", d / f, px / f, py / f),
        ]
    })?;
    c.seen(hash_bytes(&[px, py, qx, qy, f].map(f64::to_bits).map(u64::to_le_bytes).concat()));
    c.add("operations", got.len() as u64);
    c.note(|| format!("({}, {}) and ({}, {}), number {}", px, py, qx, qy, f));
    for (n, a, b, x, y) in got {
        ensure!(same(a, x) && same(b, y), "{} of ({}, {}) and ({}, {}), number {}: ({}, {}) instead of ({}, {})", n, px, py, qx, qy, f, a, b, x, y);
    }
    Ok(())
}

/// Grids: size, version and pixels as given, 1 for a black pixel and 0 for any other, column before row.
fn grids(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let v = (c.idx % 41) as u32;
    let n = 4 * v as usize + 17;
    let data: Vec<u8> = (0..n * n).map(|_| [0, 255][r.below(2)]).collect();
    c.seen(hash_bytes(&data));
    c.add("modules", data.len() as u64);
    c.note(|| format!("{} x {} pixels, version {}", n, n, v));
    let g = c.call(|| QRData::new(data.clone(), v))?;
    ensure!(g.side as usize == n && g.version == v && g.data == data, "grid of version {}: side {} version {} and {} pixels of {}", v, g.side, g.version, g.data.len(), data.len());
    c.call(|| {
        for y in 0..n {
            for x in 0..n {
                let (a, b) = (g[[x as u32, y as u32]], u8::from(data[y * n + x] == 0));
                if a != b {
                    return Err(format!("version {}: module ({}, {}) of pixel {} is {}", v, x, y, data[y * n + x], a));
                }
            }
        }
        Ok(())
    })?
}

/// Errors: the message is kept and shown, the same on every way out of the decoder.
fn errors(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let most = *r.pick(&[1usize, 8, 40, 40, 300, 3000]);
    let msg: String = (0..r.below(most)).map(|_| char::from_u32(r.range(1, 0x2fff) as u32).unwrap_or('x')).collect();
    let mut bytes: Vec<u8> = (0..r.below(most.min(300))).map(|_| r.byte()).collect();
    bytes.insert(r.below(bytes.len() + 1), 0xff);
    c.seen(hash_bytes(msg.as_bytes()) ^ hash_bytes(&bytes));
    c.note(|| format!("message {:?}, bytes {:02x?}", msg, bytes));
    c.count("errors_shown");
    let (shown, boxed, same, other, raw) = c.call(|| {
        let e = QRError { msg: msg.clone() };
        (
            e.to_string(),
            anyhow::Error::from(e.clone()).to_string(),
            e == e.clone(),
            e == QRError { msg: format!("{}.", msg) },
            QRError::from(String::from_utf8(bytes.clone()).unwrap_err()).msg,
        )
    })?;
    let want = format!("Error decoding QR Code: {}", msg);
    ensure!(shown == want && boxed == want, "the error {:?} is shown as {:?} and {:?}", msg, shown, boxed);
    ensure!(same && !other, "comparison of errors with the message {:?}: to itself {}, to another {}", msg, same, other);
    ensure!(raw.contains(&format!("{:?}", bytes)), "the error for the bytes {:?} is {:?}", bytes, raw);
    // the same error on its way through a decoder
    struct No(QRError);
    impl Prepare<RgbaImage, GrayImage> for No {
        fn prepare(&self, _: &RgbaImage) -> GrayImage {
            GrayImage::new(1, 1)
        }
    }
    impl Detect<GrayImage> for No {
        fn detect(&self, _: &GrayImage) -> Vec<Location> {
            let p = Point { x: 0.0, y: 0.0 };
            vec![Location::QR(QRLocation { top_left: p, top_right: p, bottom_left: p, module_size: 1.0, version: 1 })]
        }
    }
    impl Extract<GrayImage, QRLocation, QRData, QRError> for No {
        fn extract(&self, _: &GrayImage, _: QRLocation) -> Result<QRData, QRError> {
            Err(self.0.clone())
        }
    }
    let no = || Box::new(No(QRError { msg: msg.clone() }));
    let out = c.call(|| {
        let mut b = DecoderBuilder::new();
        b.prepare(no()).detect(no()).qr(no(), Box::new(QRDecoder::new()));
        b.build().decode(&RgbaImage::new(1, 1))
    })?;
    ensure!(out.len() == 1, "{} results for one location", out.len());
    match &out[0] {
        Ok(t) => Err(format!("text {} for a location that was not extracted", short(t))),
        Err(e) => {
            ensure!(e.to_string() == want && e.downcast_ref::<QRError>().map(|q| &q.msg) == Some(&msg), "the error {:?} comes out as {:?}", msg, e.to_string());
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "operands, grids or messages handed to the public types; distinct by their bits",
        stages: vec![stage("points", 500_000, 20_000_000, points), stage("grids", 41 * 40, 41 * 1500, grids), stage("errors", 20_000, 800_000, errors)],
        need: vec![("operations", 1_000_000), ("modules", 1_000_000), ("errors_shown", 10_000)],
        assumptions: vec!["numbers are the same if they differ by rounding only, or if neither is a number"],
        limits: vec![],
    }, Prop {
        id: "C17",
        rule: "a byte string and a history of reads of 1..8 (narrow) or 1..16 (wide) bits, some of them refusable because they ask for too many bits; a history is distinct by its bytes and requests, and every request of it is checked against a bit-counting model",
        stages: vec![stage("random", 2_000_000, 60_000_000, random), stage("long", 120, 4_000, long), stage("exhaustive", 6 * 65536, 6 * 65536, exhaustive)],
        need: vec![("refusals_seen", 1000), ("reads_across_bytes", 1000), ("wide_reads", 1000), ("reads_after_refusal", 1000), ("long_strings", 100)],
        assumptions: vec!["requests for zero bits are not made: their answer is not specified"],
        limits: vec![],
    }]
}
