//! C14-C16, C18, and the picture stage of C05: the decoder as a composition of its parts.

use super::image::*;
use super::many::*;
use super::scene::*;
use crate::api::*;
use crate::ensure;
use crate::refqr::*;
use crate::render::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::*;
use image::{GenericImageView, ImageBuffer};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// Pictures of all kinds, most of them with codes.
pub fn picture(r: &mut Rng) -> RgbaImage {
    match r.below(6) {
        0 => rgba(&anything(r, true)),
        1 => {
            let n = r.range(1, 3);
            let codes = (0..n)
                .map(|_| {
                    let v = r.range(1, 4) as u32;
                    let k = r.below(4);
                    (symbol(r, v).0, 3, k)
                })
                .collect();
            rgba(&arrange(r, codes, 2, 8).0)
        }
        2 => {
            // a code with wrong modules, some of which can be corrected
            let v = r.range(1, 5) as u32;
            let (d, _) = symbol(r, v);
            let mut m = d.m;
            let n = m.side;
            for _ in 0..r.below(30) {
                let (x, y) = (r.range(9, n as i64 - 1) as usize, r.range(9, n as i64 - 9) as usize);
                m.flip(x, y);
            }
            let f = flat(r, 3, r.clone().below(4));
            rgba(&plain(&turn(&m, f.k), f.s, f.margins[0] % 60, f.margins[1] % 60, f.margins[2] % 60, f.margins[3] % 60))
        }
        k => {
            let v = r.range(1, 6) as u32;
            let (d, _) = symbol(r, v);
            let s = r.frange(3.0, 6.0);
            let class = *r.pick(&BENT[..7]);
            let (hm, w, h) = bent(r, class, d.m.side, s);
            let mut cv = Canvas::new(w, h);
            cv.draw(&d.m, &hm, 2);
            if k == 3 {
                rgba(&cv.black_white())
            } else {
                let class = *r.pick(&LIT);
                lit(r, class, &mut cv)
            }
        }
    }
}

pub fn tell(r: Vec<Result<String, anyhow::Error>>) -> Answer {
    answers(r)
}
pub fn tell_info(r: Vec<Result<(String, QRInfo), anyhow::Error>>) -> Vec<Result<(String, String), String>> {
    r.into_iter().map(|x| x.map(|(t, i)| (t, format!("{:?}", i))).map_err(|e| e.to_string())).collect()
}
fn first_difference<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> String {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return format!("result {} is {} and {}", i, short(&format!("{:?}", x)), short(&format!("{:?}", y)));
        }
    }
    format!("{} and {} results", a.len(), b.len())
}

// ---------------------------------------------------------------- C05 on pictures

pub fn c05_pictures(c: &mut Case) -> Res {
    let known = c.rng.chance(0.5);
    let (img, d) = if known {
        let v = c.rng.range(1, 12) as u32;
        let (d, _) = symbol(&mut c.rng, v);
        let s = c.rng.range(3, 6) as u32;
        let k = c.rng.below(4);
        let f = flat(&mut c.rng, s, k);
        (rgba(&draw_flat(&d, &f)), Some(d))
    } else {
        (picture(&mut c.rng), None)
    };
    c.seen(fp_rgba(&img));
    c.note(|| format!("picture of {}x{} {}", img.width(), img.height(), d.as_ref().map(describe).unwrap_or_default()));
    let a = c.call(|| answers(bardecoder::default_decoder().decode(&img)))?;
    let b = c.call(|| bardecoder::default_decoder_with_info().decode(&img))?;
    c.count("pictures_read_both_ways");
    let plain: Vec<Result<String, String>> = b.iter().map(|r| r.as_ref().map(|x| x.0.clone()).map_err(|e| e.to_string())).collect();
    if plain != a {
        keep_image(c, &img);
        return Err(format!("with and without information: {}", first_difference(&plain, &a)));
    }
    for r in b.iter().flatten() {
        c.count("reports_on_pictures");
        ensure!((1..=40).contains(&r.1.version), "version {}", r.1.version);
        if let Some(d) = &d {
            if r.0 == d.text {
                let want = QRInfo { version: d.version, ec_level: level_back(d.level), total_data: data_codewords(d.version, d.level) as u32 * 8, errors: 0 };
                // in a picture, modules can be sampled wrongly; then there are errors
                let i = &r.1;
                ensure!(
                    i.version == want.version && i.ec_level == want.ec_level && i.total_data == want.total_data,
                    "{}: reported {:?}, expected {:?}", describe(d), i, want
                );
                if i.errors != 0 {
                    c.count("reports_on_pictures_with_errors");
                }
            }
        }
    }
    Ok(())
}
fn level_back(l: Level) -> ECLevel {
    match l {
        Level::L => ECLevel::LOW,
        Level::M => ECLevel::MEDIUM,
        Level::Q => ECLevel::QUARTILE,
        Level::H => ECLevel::HIGH,
    }
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Prepare { who: u32, src: u64 },
    Detect { who: u32, prepd: u64 },
    Extract { who: u32, prepd: u64, loc: [u64; 8] },
    Decode { who: u32, data: Result<(u64, u32, u32), String> },
}
type Trace = Rc<RefCell<Vec<Ev>>>;

struct Src(u64);
struct Prepd(u64);
#[derive(Clone, Debug, PartialEq)]
struct Out(u64);

#[derive(Clone, Debug)]
struct Plan {
    locs: Vec<[u64; 8]>,
    /// Does extraction of the n-th location fail?
    fail: Vec<bool>,
    /// What decoding makes of it: 0 text, 1 error, 2 as it came (a text where extraction went well)
    out: Vec<u8>,
}
fn loc_of(b: &[u64; 8]) -> QRLocation {
    let p = |i: usize| Point { x: f64::from_bits(b[i]), y: f64::from_bits(b[i + 1]) };
    QRLocation { top_left: p(0), top_right: p(2), bottom_left: p(4), module_size: f64::from_bits(b[6]), version: b[7] as u32 }
}
fn bits_of(l: &QRLocation) -> [u64; 8] {
    [
        l.top_left.x.to_bits(), l.top_left.y.to_bits(), l.top_right.x.to_bits(), l.top_right.y.to_bits(),
        l.bottom_left.x.to_bits(), l.bottom_left.y.to_bits(), l.module_size.to_bits(), u64::from(l.version),
    ]
}

struct P(u32, Trace);
impl Prepare<Src, Prepd> for P {
    fn prepare(&self, s: &Src) -> Prepd {
        self.1.borrow_mut().push(Ev::Prepare { who: self.0, src: s.0 });
        Prepd(mix(s.0 ^ u64::from(self.0)))
    }
}
struct D(u32, Trace, Rc<RefCell<Plan>>);
impl Detect<Prepd> for D {
    fn detect(&self, p: &Prepd) -> Vec<Location> {
        self.1.borrow_mut().push(Ev::Detect { who: self.0, prepd: p.0 });
        self.2.borrow().locs.iter().map(|l| Location::QR(loc_of(l))).collect()
    }
}
fn data_of(n: usize, version: u32) -> Vec<u8> {
    mix(n as u64 ^ u64::from(version)).to_le_bytes().to_vec()
}
struct X(u32, Trace, Rc<RefCell<Plan>>, RefCell<usize>);
impl Extract<Prepd, QRLocation, QRData, QRError> for X {
    fn extract(&self, p: &Prepd, l: QRLocation) -> Result<QRData, QRError> {
        self.1.borrow_mut().push(Ev::Extract { who: self.0, prepd: p.0, loc: bits_of(&l) });
        let plan = self.2.borrow();
        let n = *self.3.borrow();
        *self.3.borrow_mut() += 1;
        if plan.fail.get(n % plan.fail.len().max(1)).copied().unwrap_or(false) {
            Err(QRError { msg: format!("extract {}", n) })
        } else {
            Ok(QRData { data: data_of(n, l.version), version: l.version, side: n as u32 })
        }
    }
}
struct E(u32, Trace, Rc<RefCell<Plan>>, RefCell<usize>);
impl Decode<QRData, Out, QRError> for E {
    fn decode(&self, d: Result<QRData, QRError>) -> Result<Out, QRError> {
        self.1.borrow_mut().push(Ev::Decode {
            who: self.0,
            data: d.as_ref().map(|d| (hash_bytes(&d.data), d.version, d.side)).map_err(|e| e.msg.clone()),
        });
        let plan = self.2.borrow();
        let n = *self.3.borrow();
        *self.3.borrow_mut() += 1;
        match plan.out.get(n % plan.out.len().max(1)).copied().unwrap_or(0) {
            0 => Ok(Out(n as u64)),
            1 => Err(QRError { msg: format!("decode {} \u{e9}", n) }),
            _ => d.map(|d| Out(u64::from(d.side) << 32)),
        }
    }
}

fn c14_plan(r: &mut Rng) -> Plan {
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5, 12]);
    Plan {
        locs: (0..n)
            .map(|_| {
                let mut b = [0u64; 8];
                for x in b.iter_mut().take(7) {
                    *x = if r.chance(0.8) { r.frange(-1e4, 1e4).to_bits() } else { r.next() & !(1 << 51) };
                }
                b[7] = u64::from(r.next() as u32);
                b
            })
            .map(|b| if b.iter().take(7).any(|x| f64::from_bits(*x).is_nan()) { [0, 1, 2, 3, 4, 5, 6, 7] } else { b })
            .collect(),
        fail: (0..n).map(|_| r.chance(0.3)).collect(),
        out: (0..n).map(|_| r.below(3) as u8).collect(),
    }
}

fn c14_trace(c: &mut Case) -> Res {
    let trace: Trace = Rc::new(RefCell::new(vec![]));
    let plan = Rc::new(RefCell::new(c14_plan(&mut c.rng)));
    // the parts are set in any order, some of them repeatedly, or not at all
    let n = c.rng.range(0, 8) as usize;
    let mut calls: Vec<usize> = (0..n).map(|_| c.rng.below(3)).collect();
    if c.rng.chance(0.8) {
        calls.extend([0, 1, 2]);
        c.rng.shuffle(&mut calls);
    }
    let mut last: [Option<u32>; 3] = [None; 3];
    let describe = format!("parts set {:?} (0 prepare, 1 detect, 2 qr), {} locations, extraction fails {:?}, decoding {:?}", calls, plan.borrow().locs.len(), plan.borrow().fail, plan.borrow().out);
    c.note(|| describe.clone());
    c.seen(hash_bytes(describe.as_bytes()));
    let built = {
        let (trace, plan) = (trace.clone(), plan.clone());
        let last = &mut last;
        let calls = &calls;
        c.call(move || {
            let mut b: DecoderBuilder<Src, Prepd, Out> = DecoderBuilder::new();
            for (i, k) in calls.iter().enumerate() {
                let who = i as u32;
                last[*k] = Some(who);
                match k {
                    0 => {
                        b.prepare(Box::new(P(who, trace.clone())));
                    }
                    1 => {
                        b.detect(Box::new(D(who, trace.clone(), plan.clone())));
                    }
                    _ => {
                        b.qr(Box::new(X(who, trace.clone(), plan.clone(), RefCell::new(0))), Box::new(E(who, trace.clone(), plan.clone(), RefCell::new(0))));
                    }
                }
            }
            b.build()
        })
    };
    ensure!(trace.borrow().is_empty(), "{}: building ran {:?}", describe, trace.borrow());
    let complete = last.iter().all(|l| l.is_some());
    let dec = match (built, complete) {
        (Ok(_), false) => return Err(format!("{}: built without a required part", describe)),
        (Err(_), false) => {
            c.count("incomplete_builders_refused");
            return Ok(());
        }
        (Err(p), true) => return Err(format!("{}: not built: {}", describe, p)),
        (Ok(d), true) => d,
    };
    c.count("decoders_built");
    let (p, d, q) = (last[0].unwrap(), last[1].unwrap(), last[2].unwrap());
    let mut number = 0; // of extractions and decodings so far
    for round in 0..c.rng.range(1, 4) {
        if round > 0 {
            *plan.borrow_mut() = c14_plan(&mut c.rng);
        }
        let src = c.rng.next();
        trace.borrow_mut().clear();
        let got = c.call(|| dec.decode(&Src(src))).map_err(|e| format!("{}: {}", describe, e))?;
        let plan = plan.borrow().clone();
        // what has to have happened
        let prepd = mix(src ^ u64::from(p));
        let mut want = vec![Ev::Prepare { who: p, src }, Ev::Detect { who: d, prepd }];
        let mut results: Vec<Result<Out, QRError>> = vec![];
        let len = plan.locs.len();
        for l in plan.locs.iter() {
            let i = number % len;
            want.push(Ev::Extract { who: q, prepd, loc: *l });
            let data = if plan.fail[i] { Err(format!("extract {}", number)) } else { Ok((hash_bytes(&data_of(number, l[7] as u32)), l[7] as u32, number as u32)) };
            want.push(Ev::Decode { who: q, data: data.clone() });
            results.push(match plan.out[i] {
                0 => Ok(Out(number as u64)),
                1 => Err(QRError { msg: format!("decode {} \u{e9}", number) }),
                _ => data.map(|d| Out(u64::from(d.2) << 32)).map_err(|msg| QRError { msg }),
            });
            number += 1;
        }
        let t = trace.borrow();
        c.add("events", t.len() as u64);
        c.count("decode_calls_traced");
        ensure!(*t == want, "{}, call {}: the parts were called as {} instead of {}; {}", describe, round, t.len(), want.len(), first_difference(&t, &want));
        ensure!(got.len() == results.len(), "{}: {} results for {} locations", describe, got.len(), results.len());
        for (i, (g, w)) in got.iter().zip(&results).enumerate() {
            match (g, w) {
                (Ok(a), Ok(b)) => ensure!(a == b, "{}: result {} is {:?} instead of {:?}", describe, i, a, b),
                (Err(a), Err(b)) => {
                    c.count("errors_passed_on");
                    ensure!(a.downcast_ref::<QRError>() == Some(b), "{}: error {} is {:?} instead of {:?}", describe, i, a, b);
                    ensure!(a.to_string() == b.to_string() && a.to_string().contains(&b.msg), "{}: error {} reads {:?} instead of {:?}", describe, i, a.to_string(), b.to_string());
                }
                _ => return Err(format!("{}: result {} is {:?} instead of {:?}", describe, i, g, w)),
            }
        }
    }
    Ok(())
}

/// The parts of the default decoder, put together by hand.
fn by_hand(img: &RgbaImage) -> Answer {
    let g = BlockedMean::new(5, 7).prepare(img);
    LineScan::new()
        .detect(&g)
        .into_iter()
        .map(|l| match l {
            Location::QR(q) => QRDecoder::new().decode(QRExtractor::new().extract(&g, q)).map_err(|e| e.to_string()),
        })
        .collect()
}
fn by_hand_info(img: &RgbaImage) -> Vec<Result<(String, String), String>> {
    let g = BlockedMean::new(5, 7).prepare(img);
    LineScan::new()
        .detect(&g)
        .into_iter()
        .map(|l| match l {
            Location::QR(q) => QRDecoderWithInfo::new()
                .decode(QRExtractor::new().extract(&g, q))
                .map(|(t, i)| (t, format!("{:?}", i)))
                .map_err(|e| e.to_string()),
        })
        .collect()
}

/// A part that passes everything on and keeps what it saw.
struct Spy<T>(T, Rc<RefCell<Vec<(char, u64)>>>);
fn fp_loc(l: &QRLocation) -> u64 {
    bits_of(l).iter().fold(0, |a, b| mix(a ^ b))
}
impl<T: Prepare<RgbaImage, GrayImage>> Prepare<RgbaImage, GrayImage> for Spy<T> {
    fn prepare(&self, s: &RgbaImage) -> GrayImage {
        let g = self.0.prepare(s);
        self.1.borrow_mut().push(('p', fp_image(&g)));
        g
    }
}
impl<T: Detect<GrayImage>> Detect<GrayImage> for Spy<T> {
    fn detect(&self, g: &GrayImage) -> Vec<Location> {
        let l = self.0.detect(g);
        self.1.borrow_mut().push(('d', fp_image(g)));
        l
    }
}
impl<T: Extract<GrayImage, QRLocation, QRData, QRError>> Extract<GrayImage, QRLocation, QRData, QRError> for Spy<T> {
    fn extract(&self, g: &GrayImage, l: QRLocation) -> Result<QRData, QRError> {
        self.1.borrow_mut().push(('x', fp_image(g) ^ fp_loc(&l)));
        self.0.extract(g, l)
    }
}
impl<T: Decode<QRData, String, QRError>> Decode<QRData, String, QRError> for Spy<T> {
    fn decode(&self, d: Result<QRData, QRError>) -> Result<String, QRError> {
        self.1.borrow_mut().push(('e', d.as_ref().map(|d| hash_bytes(&d.data) ^ u64::from(d.version) ^ (u64::from(d.side) << 32)).unwrap_or_else(|e| hash_bytes(e.msg.as_bytes()))));
        self.0.decode(d)
    }
}
/// A detector that reports what it is told.
struct Told(Vec<[u64; 8]>);
impl Detect<GrayImage> for Told {
    fn detect(&self, _: &GrayImage) -> Vec<Location> {
        self.0.iter().map(|l| Location::QR(loc_of(l))).collect()
    }
}

fn c14_defaults(c: &mut Case) -> Res {
    let img = picture(&mut c.rng);
    c.seen(fp_rgba(&img));
    let what = || format!("picture of {}x{}", img.width(), img.height());
    c.note(|| what());
    let want = c.call(|| by_hand(&img))?;
    c.count("pictures");
    c.add("results", want.len() as u64);
    let default = c.call(|| answers(bardecoder::default_decoder().decode(&img)))?;
    if default != want {
        keep_image(c, &img);
        return Err(format!("{}: the default decoder differs from its documented parts: {}", what(), first_difference(&default, &want)));
    }
    let built = c.call(|| answers(bardecoder::default_builder().build().decode(&img)))?;
    ensure!(built == want, "{}: the default builder differs from its documented parts: {}", what(), first_difference(&built, &want));
    let wi = c.call(|| by_hand_info(&img))?;
    let di = c.call(|| tell_info(bardecoder::default_decoder_with_info().decode(&img)))?;
    ensure!(wi == di, "{}: the default decoder with information differs from its documented parts: {}", what(), first_difference(&di, &wi));
    let bi = c.call(|| tell_info(bardecoder::default_builder_with_info().build().decode(&img)))?;
    ensure!(wi == bi, "{}: the default builder with information differs from its documented parts: {}", what(), first_difference(&bi, &wi));
    // some of the defaults replaced by parts that do the same
    let which = c.rng.below(8);
    let seen = Rc::new(RefCell::new(vec![]));
    let got = c.call(|| {
        let mut b = bardecoder::default_builder();
        if which & 1 != 0 {
            b.prepare(Box::new(Spy(BlockedMean::new(5, 7), seen.clone())));
        }
        if which & 2 != 0 {
            b.detect(Box::new(Spy(LineScan::new(), seen.clone())));
        }
        if which & 4 != 0 {
            b.qr(Box::new(Spy(QRExtractor::new(), seen.clone())), Box::new(Spy(QRDecoder::new(), seen.clone())));
        }
        answers(b.build().decode(&img))
    })?;
    ensure!(got == want, "{}: with parts {:03b} replaced by equal ones: {}", what(), which, first_difference(&got, &want));
    // the values that went between them
    let between = c.call(|| {
        let mut v = vec![];
        let g = BlockedMean::new(5, 7).prepare(&img);
        if which & 1 != 0 {
            v.push(('p', fp_image(&g)));
        }
        if which & 2 != 0 {
            v.push(('d', fp_image(&g)));
        }
        if which & 4 != 0 {
            for l in LineScan::new().detect(&g) {
                let Location::QR(q) = l;
                v.push(('x', fp_image(&g) ^ fp_loc(&q)));
                let d = QRExtractor::new().extract(&g, q);
                v.push(('e', d.as_ref().map(|d| hash_bytes(&d.data) ^ u64::from(d.version) ^ (u64::from(d.side) << 32)).unwrap_or_else(|e| hash_bytes(e.msg.as_bytes()))));
            }
        }
        v
    })?;
    ensure!(*seen.borrow() == between, "{}: parts {:03b} saw other values than by hand: {}", what(), which, first_difference(&seen.borrow(), &between));
    c.add("values_compared", between.len() as u64);
    // another detector: exactly its locations are read
    let locs: Vec<[u64; 8]> = c.call(|| {
        let g = BlockedMean::new(5, 7).prepare(&img);
        LineScan::new().detect(&g).iter().map(|Location::QR(q)| bits_of(q)).collect()
    })?;
    if !locs.is_empty() && locs.len() < 50 {
        let order: Vec<usize> = (0..c.rng.below(4) + 1).map(|_| c.rng.below(locs.len())).collect();
        let told: Vec<[u64; 8]> = order.iter().map(|i| locs[*i]).collect();
        let got = c.call(|| {
            let mut b = bardecoder::default_builder();
            b.detect(Box::new(Told(told)));
            answers(b.build().decode(&img))
        })?;
        let expect: Answer = order.iter().map(|i| want[*i].clone()).collect();
        c.count("other_detectors");
        ensure!(got == expect, "{}: a detector that reports locations {:?}: {}", what(), order, first_difference(&got, &expect));
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15(c: &mut Case) -> Res {
    // a few pictures, some of the same size
    let n = c.rng.range(3, 7) as usize;
    let mut pics: Vec<RgbaImage> = vec![];
    while pics.len() < n {
        let p = picture(&mut c.rng);
        if c.rng.chance(0.5) && !pics.is_empty() {
            // another picture of the same size as an earlier one
            let (w, h) = pics[c.rng.below(pics.len())].dimensions();
            let mut q = RgbaImage::from_pixel(w, h, Rgba([255, 255, 255, 255]));
            image::imageops::replace(&mut q, &p, 0, 0);
            pics.push(q);
        }
        pics.push(p);
    }
    let before: Vec<u64> = pics.iter().map(fp_rgba).collect();
    c.seen(before.iter().fold(0, |a, b| mix(a ^ b)));
    c.note(|| format!("pictures of {:?}", pics.iter().map(|p| p.dimensions()).collect::<Vec<_>>()));
    // each by a decoder of its own
    let mut alone = vec![];
    for p in &pics {
        alone.push(c.call(|| answers(bardecoder::default_decoder().decode(p)))?);
    }
    c.add("results", alone.iter().map(|a| a.len() as u64).sum());
    c.add("texts", alone.iter().flatten().filter(|a| a.is_ok()).count() as u64);
    // one decoder for all, in another order and repeatedly
    let mut order: Vec<usize> = (0..pics.len()).chain(0..pics.len()).collect();
    c.rng.shuffle(&mut order);
    let one = bardecoder::default_decoder::<RgbaImage>();
    for i in &order {
        let a = c.call(|| answers(one.decode(&pics[*i])))?;
        c.count("decodings_in_a_history");
        if a != alone[*i] {
            keep_image(c, &pics[*i]);
            return Err(format!("picture {} in the order {:?} by one decoder: {}", i, order, first_difference(&a, &alone[*i])));
        }
    }
    // parts used by themselves, and shared between threads
    let bm = BlockedMean::new(5, 7);
    let ls = LineScan::new();
    let (xt, dc) = (QRExtractor::new(), QRDecoder::new());
    let mut orders: Vec<Vec<usize>> = vec![];
    for _ in 0..3 {
        let mut o: Vec<usize> = (0..pics.len()).collect();
        c.rng.shuffle(&mut o);
        orders.push(o);
    }
    let barrier = std::sync::Barrier::new(orders.len());
    let res: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .enumerate()
            .map(|(t, o)| {
                let (bm, ls, xt, dc, pics, alone, barrier) = (&bm, &ls, &xt, &dc, &pics, &alone, &barrier);
                s.spawn(move || -> Result<(), String> {
                    barrier.wait();
                    for i in o {
                        let a = guarded(|| {
                            if t == 0 {
                                answers(bardecoder::default_decoder().decode(&pics[*i]))
                            } else {
                                let g = bm.prepare(&pics[*i]);
                                ls.detect(&g)
                                    .into_iter()
                                    .map(|Location::QR(q)| dc.decode(xt.extract(&g, q)).map_err(|e| e.to_string()))
                                    .collect()
                            }
                        })?;
                        if a != alone[*i] {
                            return Err(format!("picture {} in thread {}: {}", i, t, first_difference(&a, &alone[*i])));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
    });
    for r in res {
        if let Err(e) = r {
            for p in &pics {
                keep_image(c, p);
            }
            return Err(format!("at the same time in several threads: {}", e));
        }
    }
    c.add("decodings_in_parallel", (orders.len() * pics.len()) as u64);
    ensure!(pics.iter().map(fp_rgba).collect::<Vec<_>>() == before, "a picture was changed");
    Ok(())
}

/// Each part by itself: what it gives for a value does not depend on the values before, to the last bit.
fn c15_stages(c: &mut Case) -> Res {
    fn near(r: &mut Rng, p: Point) -> Point {
        Point { x: p.x + r.frange(-2.0, 2.0), y: p.y + r.frange(-2.0, 2.0) }
    }
    let copy = |q: &QRLocation| QRLocation { top_left: q.top_left, top_right: q.top_right, bottom_left: q.bottom_left, module_size: q.module_size, version: q.version };
    let n = c.rng.range(2, 5) as usize;
    let pics: Vec<RgbaImage> = (0..n).map(|_| picture(&mut c.rng)).collect();
    let mut grays: Vec<GrayImage> = vec![];
    // every value is first given to a part of its own, in a thread of its own
    let mut first: Vec<(usize, usize, String)> = vec![];
    let mut locs: Vec<(usize, QRLocation)> = vec![];
    fn apart<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
        std::thread::scope(|s| s.spawn(|| guarded(f)).join().unwrap_or_else(|_| Err("a thread died".into())))
    }
    fn say(r: Result<QRData, QRError>) -> String {
        match r {
            Ok(d) => format!("version {} side {} {:x}", d.version, d.side, hash_bytes(&d.data)),
            Err(e) => e.msg,
        }
    }
    for (i, p) in pics.iter().enumerate() {
        let g = apart(|| BlockedMean::new(5, 7).prepare(p))?;
        first.push((0, i, format!("{:x}", fp_image(&g))));
        grays.push(g);
    }
    if c.rng.chance(0.5) {
        // not binarized
        let r = &mut c.rng;
        let g = GrayImage::from_fn(40, 30, |_, _| Luma([[0, 255, 255, 90][r.below(4)]]));
        grays.push(g);
    }
    for (i, g) in grays.iter().enumerate() {
        let l = apart(|| LineScan::new().detect(g))?;
        first.push((1, i, format!("{:?}", l)));
        for Location::QR(q) in l.into_iter().take(6) {
            if c.rng.chance(0.5) {
                let mut o = copy(&q);
                o.bottom_left = near(&mut c.rng, o.bottom_left);
                o.top_right = near(&mut c.rng, o.top_right);
                locs.push((i, o));
            }
            locs.push((i, q));
        }
    }
    for (i, (k, q)) in locs.iter().enumerate() {
        let g = &grays[*k];
        let a = copy(q);
        let d = apart(move || say(QRExtractor::new().extract(g, a)))?;
        first.push((2, i, d));
    }
    let before: Vec<u64> = pics.iter().map(fp_rgba).chain(grays.iter().map(fp_image)).collect();
    c.seen(before.iter().fold(0, |a, b| mix(a ^ b)));
    c.note(|| format!("{} pictures, {} locations", pics.len(), locs.len()));
    let (bm, ls, xt) = (BlockedMean::new(5, 7), LineScan::new(), QRExtractor::new());
    let mut order: Vec<usize> = vec![];
    for _ in 0..3 * first.len() {
        // sometimes the same again
        let again = c.rng.chance(0.3);
        match order.last() {
            Some(l) if again => order.push(*l),
            _ => order.push(c.rng.below(first.len())),
        }
    }
    for (step, k) in order.iter().enumerate() {
        let (part, i, want) = &first[*k];
        let got = c.call(|| match part {
            0 => format!("{:x}", fp_image(&bm.prepare(&pics[*i]))),
            1 => format!("{:?}", ls.detect(&grays[*i])),
            _ => say(xt.extract(&grays[locs[*i].0], copy(&locs[*i].1))),
        })?;
        c.count(["prepared_again", "detected_again", "extracted_again"][*part]);
        if got != *want {
            return Err(format!("step {} of {:?}: {} {} gives {} but gave {} at first", step, order, ["preparing picture", "detecting in", "extracting location"][*part], i, short(&got), short(want)));
        }
    }
    ensure!(pics.iter().map(fp_rgba).chain(grays.iter().map(fp_image)).collect::<Vec<_>>() == before, "a part changed its input");
    Ok(())
}

/// Symbol decoding keeps nothing either.
fn c15_symbols(c: &mut Case) -> Res {
    let n = c.rng.range(4, 10) as usize;
    let grids: Vec<(Matrix, u32)> = (0..n)
        .map(|_| {
            let v = *c.rng.pick(&[1u32, 1, 2, 2, 5, 7, 8]);
            let (_, mut s) = symbol(&mut c.rng, v);
            if c.rng.chance(0.6) {
                for b in s.blocks.iter_mut() {
                    for _ in 0..c.rng.below(8) {
                        let i = c.rng.below(b.len());
                        b[i] ^= c.rng.byte();
                    }
                }
            }
            let mut m = s.matrix();
            if c.rng.chance(0.1) {
                for i in 0..m.side {
                    m.set(8, i, 0);
                    m.set(i, 8, 0);
                }
            }
            (m, v)
        })
        .collect();
    let tell = |r: Result<String, QRError>| r.map_err(|e| e.msg);
    let tell_info = |r: Result<(String, QRInfo), QRError>| r.map(|(t, i)| (t, format!("{:?}", i))).map_err(|e| e.msg);
    let mut alone = vec![];
    let mut alone_info = vec![];
    for (m, v) in &grids {
        alone.push(tell(c.call(|| decode(m, *v))?));
        alone_info.push(tell_info(c.call(|| decode_info(m, *v))?));
    }
    c.seen(grids.iter().fold(0, |a, g| mix(a ^ fp_matrix(&g.0))));
    c.add("symbol_results_text", alone.iter().filter(|a| a.is_ok()).count() as u64);
    c.add("symbol_results_error", alone.iter().filter(|a| a.is_err()).count() as u64);
    let (a, b) = (QRDecoder::new(), QRDecoderWithInfo::new());
    for k in 0..4 * n {
        let i = c.rng.below(n);
        let (m, v) = &grids[i];
        if c.rng.chance(0.5) {
            let r = tell(c.call(|| a.decode(Ok(qrdata(m, *v))))?);
            ensure!(r == alone[i], "symbol {} at step {} of a history: {:?}, alone: {:?}", i, k, r, alone[i]);
        } else {
            let r = tell_info(c.call(|| b.decode(Ok(qrdata(m, *v))))?);
            ensure!(r == alone_info[i], "symbol {} with information at step {} of a history: {:?}, alone: {:?}", i, k, r, alone_info[i]);
        }
        c.count("symbol_decodings_in_a_history");
    }
    Ok(())
}

const HISTORY: usize = 24;

/// What the decoders say about input `i` of a history of symbols of all versions and some pictures.
pub fn history_answer(seed: u64, i: usize) -> String {
    let mut r = Rng::new(mix(seed ^ mix(i as u64)));
    if r.chance(0.2) {
        let img = small_picture(&mut r);
        let a = guarded(|| answers(bardecoder::default_decoder().decode(&img)));
        let b = guarded(|| tell_info(bardecoder::default_decoder_with_info().decode(&img)));
        return format!("{:?} {:?}", a, b).replace('\n', " ");
    }
    let v = r.range(1, 40) as u32;
    let (_, mut s) = symbol(&mut r, v);
    if r.chance(0.5) {
        let most = *r.pick(&[1usize, 3, 12]);
        for b in s.blocks.iter_mut() {
            for _ in 0..r.below(most + 1) {
                let i = r.below(b.len());
                b[i] ^= r.byte();
            }
        }
    }
    let m = s.matrix();
    let a = guarded(|| QRDecoder::new().decode(Ok(qrdata(&m, v))).map_err(|e| e.msg));
    let b = guarded(|| QRDecoderWithInfo::new().decode(Ok(qrdata(&m, v))).map_err(|e| e.msg));
    format!("{:?} {:?}", a, b).replace('\n', " ")
}

/// This process has decoded a lot already; a new process that decodes nothing else has to say the same.
fn c15_fresh(c: &mut Case) -> Res {
    let seed = c.rng.next();
    let here: Vec<String> = (0..HISTORY).map(|i| c.call(|| history_answer(seed, i))).collect::<Result<_, _>>()?;
    c.seen(seed);
    c.note(|| format!("history of seed {}", seed));
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
    for _ in 0..6 {
        let i = c.rng.below(HISTORY);
        let out = std::process::Command::new(&exe).args(["alone", &seed.to_string(), &i.to_string()]).output().map_err(|e| format!("harness: {}", e))?;
        let alone = String::from_utf8_lossy(&out.stdout).trim_end().to_string();
        c.count("answers_of_new_processes");
        c.add("answers_of_new_processes_text", u64::from(alone.contains("Ok(\"")));
        if !out.status.success() {
            return Err(format!("harness: new process for input {} of seed {}: {:?} {}", i, seed, out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()));
        }
        ensure!(alone == here[i], "input {} of seed {}: {} in a process that has decoded others, {} in a new one", i, seed, short(&here[i]), short(&alone));
    }
    Ok(())
}

/// A long life: thousands of symbols and pictures, among them failing ones, through the same decoders;
/// a few are asked for again and again and have to be answered as at first.
fn c15_long(c: &mut Case) -> Res {
    let probes: Vec<(Matrix, u32)> = (0..6)
        .map(|i| {
            let v = [1u32, 2, 4, 7, 10, 3][i];
            let (_, mut s) = symbol(&mut c.rng, v);
            if i % 2 == 1 {
                for b in s.blocks.iter_mut() {
                    let i = c.rng.below(b.len());
                    b[i] ^= 1 + c.rng.below(255) as u8;
                }
            }
            (s.matrix(), v)
        })
        .collect();
    let pics: Vec<RgbaImage> = (0..2).map(|_| picture(&mut c.rng)).collect();
    let tell = |r: Result<String, QRError>| r.map_err(|e| e.msg);
    let (qr, dec) = (QRDecoder::new(), bardecoder::default_decoder());
    let mut first = vec![];
    for (m, v) in &probes {
        first.push(tell(c.call(|| QRDecoder::new().decode(Ok(qrdata(m, *v))))?));
    }
    let mut first_pics = vec![];
    for p in &pics {
        first_pics.push(c.call(|| answers(bardecoder::default_decoder().decode(p)))?);
    }
    c.seen(probes.iter().fold(0, |a, g| mix(a ^ fp_matrix(&g.0))));
    let steps = 1500 + c.rng.below(1500);
    for k in 0..steps {
        // something else
        let v = *c.rng.pick(&[1u32, 1, 1, 2, 3, 5]);
        let (d, s) = symbol(&mut c.rng, v);
        let mut m = s.matrix();
        if c.rng.chance(0.4) {
            for _ in 0..c.rng.below(60) {
                let (x, y) = (c.rng.below(m.side), c.rng.below(m.side));
                m.flip(x, y);
            }
        }
        let r = tell(c.call(|| qr.decode(Ok(qrdata(&m, v))))?);
        c.count(if r.is_ok() { "long_lives_text" } else { "long_lives_error" });
        if let Ok(t) = &r {
            ensure!(*t == d.text || m.m != d.m.m, "step {} of a long life: {} was read as {}", k, describe(&d), short(t));
        }
        if k % 16 == 0 {
            let g = plain(&m, 3, 12, 12, 12, 12);
            let img = rgba(&g);
            c.call(|| dec.decode(&img).len())?;
        }
        // and one of those known
        if k % 5 == 0 || k + 8 > steps {
            let i = c.rng.below(probes.len());
            let (m, v) = &probes[i];
            let r = tell(c.call(|| qr.decode(Ok(qrdata(m, *v))))?);
            c.count("long_lives_asked_again");
            ensure!(r == first[i], "symbol {} at step {} of a long life: {:?}, at first: {:?}", i, k, r, first[i]);
        }
        if k % 250 == 249 {
            let i = c.rng.below(pics.len());
            let a = c.call(|| answers(dec.decode(&pics[i])))?;
            c.count("long_lives_asked_again");
            if a != first_pics[i] {
                keep_image(c, &pics[i]);
                return Err(format!("picture {} at step {} of a long life: {}", i, k, first_difference(&a, &first_pics[i])));
            }
        }
    }
    c.note(|| format!("{} steps, probes of versions {:?}", steps, probes.iter().map(|p| p.1).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------- C16

/// A picture that only exists as a function.
struct Lazy<'a>(&'a RgbaImage);
impl GenericImageView for Lazy<'_> {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) {
        self.0.dimensions()
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.0.width(), self.0.height())
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> {
        assert!(x < self.0.width() && y < self.0.height(), "pixel ({}, {}) is outside of the picture", x, y);
        *self.0.get_pixel(x, y)
    }
}

fn c16(c: &mut Case) -> Res {
    let img = picture(&mut c.rng);
    c.seen(fp_rgba(&img));
    c.note(|| format!("picture of {}x{}", img.width(), img.height()));
    let want = c.call(|| answers(bardecoder::default_decoder().decode(&img)))?;
    c.count("pictures");
    c.add("texts", oks(&want).len() as u64);
    c.add("results", want.len() as u64);
    let check = |c: &mut Case, got: Result<Answer, String>, want: &Answer, how: &str| -> Res {
        c.count("representations_compared");
        c.count(how);
        match got {
            Ok(a) if a == *want => Ok(()),
            Ok(a) => {
                keep_image(c, &img);
                Err(format!("picture of {}x{} as {}: {}", img.width(), img.height(), how, first_difference(&a, want)))
            }
            Err(p) => {
                keep_image(c, &img);
                Err(format!("picture of {}x{} as {}: {}", img.width(), img.height(), how, p))
            }
        }
    };
    // the same pixels
    let dynamic = DynamicImage::ImageRgba8(img.clone());
    let g = c.call(|| answers(bardecoder::default_decoder().decode(&dynamic)));
    check(c, g, &want, "dynamic_rgba8")?;
    let lazy = Lazy(&img);
    let g = c.call(|| answers(bardecoder::default_decoder().decode(&lazy)));
    check(c, g, &want, "lazy")?;
    // part of a larger picture
    let (l, t, rr, b) = (c.rng.below(40) as u32, c.rng.below(40) as u32, c.rng.below(40) as u32, c.rng.below(40) as u32);
    let mut q = c.rng.clone();
    let mut big = RgbaImage::from_fn(img.width() + l + rr, img.height() + t + b, |_, _| Rgba([q.byte(), q.byte(), q.byte(), 255]));
    image::imageops::replace(&mut big, &img, i64::from(l), i64::from(t));
    let view = image::imageops::crop_imm(&big, l, t, img.width(), img.height());
    let g = c.call(|| answers(bardecoder::default_decoder().decode(&*view)));
    check(c, g, &want, "part_of_a_larger_picture")?;
    // transparency does not matter
    let mut q = c.rng.clone();
    let how = c.rng.below(3);
    let see_through = RgbaImage::from_fn(img.width(), img.height(), |x, y| {
        let p = img.get_pixel(x, y);
        Rgba([p[0], p[1], p[2], match how { 0 => 0, 1 => q.byte(), _ => p[0] }])
    });
    let g = c.call(|| answers(bardecoder::default_decoder().decode(&see_through)));
    check(c, g, &want, "transparent")?;
    // other pixel formats: as their conversion to RGBA
    let k = c.rng.below(9);
    let d = &dynamic;
    let (other, how) = match k {
        0 => (DynamicImage::ImageLuma8(d.to_luma8()), "luma8"),
        1 => (DynamicImage::ImageLumaA8(d.to_luma_alpha8()), "lumaa8"),
        2 => (DynamicImage::ImageRgb8(d.to_rgb8()), "rgb8"),
        3 => (DynamicImage::ImageLuma16(d.to_luma16()), "luma16"),
        4 => (DynamicImage::ImageLumaA16(d.to_luma_alpha16()), "lumaa16"),
        5 => (DynamicImage::ImageRgb16(d.to_rgb16()), "rgb16"),
        6 => (DynamicImage::ImageRgba16(d.to_rgba16()), "rgba16"),
        7 => (DynamicImage::ImageRgb32F(d.to_rgb32f()), "rgb32f"),
        _ => (DynamicImage::ImageRgba32F(d.to_rgba32f()), "rgba32f"),
    };
    let flat8 = RgbaImage::from_fn(other.width(), other.height(), |x, y| other.get_pixel(x, y));
    let w2 = c.call(|| answers(bardecoder::default_decoder().decode(&flat8)))?;
    let g = c.call(|| answers(bardecoder::default_decoder().decode(&other)));
    check(c, g, &w2, how)?;
    // those that lose nothing also give the same result as the original
    if matches!(k, 2 | 5 | 6) {
        check(c, Ok(w2), &want, "lossless_conversion")?;
    }
    // a gray picture is the same in colour, if its luma is
    let gray = d.to_luma8();
    let wg = c.call(|| answers(bardecoder::default_decoder().decode(&rgba(&gray))))?;
    check(c, Ok(wg), &want, "gray_of_the_same_luma")?;
    // through a file
    if c.idx % 4 == 0 && img.width() > 0 && img.height() > 0 {
        let bytes = png(&dynamic);
        let back = image::load_from_memory(&bytes).map_err(|e| format!("harness: png: {}", e))?;
        let g = c.call(|| answers(bardecoder::default_decoder().decode(&back)));
        check(c, g, &want, "png")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

const BATCH: u64 = 12;

/// What the decoder says about the pictures of a batch, one line each.
pub fn digest_lines(seed: u64) -> Vec<String> {
    (0..BATCH)
        .map(|i| {
            let mut r = Rng::new(mix(seed ^ mix(i)));
            let img = small_picture(&mut r);
            let a = guarded(|| answers(bardecoder::default_decoder().decode(&img)));
            let b = guarded(|| tell_info(bardecoder::default_decoder_with_info().decode(&img)));
            // and its stages by themselves
            let mut l = format!("{:?} {:?}", a, b);
            for _ in 0..6 {
                let (g, loc) = super::parts::hostile_extract(&mut r);
                if g.width() * g.height() > 6_000 {
                    continue;
                }
                let e = guarded(|| QRExtractor::new().extract(&g, loc).map(|d| (d.version, d.side, GrayImage::from_raw(d.side, d.side, d.data).map(|g| fp_image(&g)))));
                l += &format!(" {:?}", e);
            }
            let g = anything(&mut r, false);
            if g.width() * g.height() <= 6_000 {
                l += &format!(" {:?}", guarded(|| LineScan::new().detect(&g)));
            }
            l.replace('\n', " ")
        })
        .collect()
}
fn small_picture(r: &mut Rng) -> RgbaImage {
    loop {
        let p = match r.below(10) {
            0 => {
                // cut off at an edge
                let p = picture(r);
                let (w, h) = p.dimensions();
                if w < 4 || h < 4 {
                    continue;
                }
                let (x, y) = (r.below(w as usize / 2) as u32, r.below(h as usize / 2) as u32);
                let (cw, ch) = if r.chance(0.5) { (w - x, h - y) } else { (w / 2 + 1, h / 2 + 1) };
                image::imageops::crop_imm(&p, x, y, cw.min(w - x), ch.min(h - y)).to_image()
            }
            1..=4 => {
                // the picture ends with what is drawn in it, or a few pixels away, on some sides
                let p = picture(r);
                let (w, h) = p.dimensions();
                let dark: Vec<(u32, u32)> = p.enumerate_pixels().filter(|(_, _, p)| u32::from(p[0]) + u32::from(p[1]) + u32::from(p[2]) < 384).map(|(x, y, _)| (x, y)).collect();
                if dark.is_empty() {
                    continue;
                }
                let (x0, x1) = (dark.iter().map(|d| d.0).min().unwrap_or(0), dark.iter().map(|d| d.0).max().unwrap_or(0) + 1);
                let (y0, y1) = (dark.iter().map(|d| d.1).min().unwrap_or(0), dark.iter().map(|d| d.1).max().unwrap_or(0) + 1);
                let mut near = |edge: u32, low: bool, end: u32| match (r.below(4), low) {
                    (0, true) => 0,
                    (0, false) => end,
                    (_, true) => (edge + 2).saturating_sub(r.below(6) as u32),
                    (_, false) => (edge + r.below(6) as u32).saturating_sub(2).min(end),
                };
                let (a, b, c, d) = (near(x0, true, w), near(x1, false, w), near(y0, true, h), near(y1, false, h));
                if b <= a + 2 || d <= c + 2 {
                    continue;
                }
                let cut = image::imageops::crop_imm(&p, a, c, b - a, d - c).to_image();
                // wider than high or the reverse
                let (more_w, more_h) = [(0, 0), (r.below(90) as u32, 0), (0, r.below(90) as u32)][r.below(3)];
                let mut p = RgbaImage::from_pixel(cut.width() + more_w, cut.height() + more_h, image::Rgba([255, 255, 255, 255]));
                image::imageops::replace(&mut p, &cut, if r.chance(0.5) { i64::from(more_w) } else { 0 }, if r.chance(0.5) { i64::from(more_h) } else { 0 });
                p
            }
            _ => picture(r),
        };
        // every location and every try at an alignment pattern is written to a file
        if u64::from(p.width()) * u64::from(p.height()) <= 60_000 && LineScan::new().detect(&BlockedMean::new(5, 7).prepare(&p)).len() <= 12 {
            return p;
        }
    }
}

fn files_below(d: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
            files_below(&p, out);
        } else {
            out.push(p);
        }
    }
}

fn c18(c: &mut Case) -> Res {
    let Ok(bin) = std::env::var("VH_DEBUGIMG") else { return Err("harness: VH_DEBUGIMG is not set".into()) };
    let seed = c.rng.next();
    let mode = c.idx % 4;
    let dir = c.scratch.join(format!("c18-{}-{}", std::process::id(), c.idx));
    let (tmp, cwd, home) = (dir.join("tmp"), dir.join("cwd"), dir.join("home"));
    for d in [&tmp, &cwd, &home] {
        std::fs::create_dir_all(d).map_err(|e| format!("harness: {}", e))?;
    }
    // where debug images can be written, and where they cannot
    let name = match mode {
        0 | 1 => "writable",
        2 => {
            // the place of the directory is taken by a file
            std::fs::write(tmp.join("bardecoder-debug-images"), b"taken").unwrap();
            "place_taken_by_a_file"
        }
        _ => {
            // directories of the names of the files
            std::fs::create_dir_all(tmp.join("bardecoder-debug-images/candidates.png/x")).unwrap();
            std::fs::create_dir_all(tmp.join("bardecoder-debug-images/alignment.png/x")).unwrap();
            std::fs::write(tmp.join("bardecoder-debug-images/extract"), b"taken").unwrap();
            std::fs::write(tmp.join("bardecoder-debug-images/alignment"), b"taken").unwrap();
            "files_cannot_be_created"
        }
    };
    let tmp_arg = if mode == 1 && c.idx % 8 == 1 { dir.join("not/there/yet") } else { tmp.clone() };
    c.note(|| format!("{} pictures, directory for temporary files: {}", BATCH, name));
    let out = c.call(|| {
        std::process::Command::new(&bin)
            .args(["digest", &seed.to_string()])
            .env("TMPDIR", &tmp_arg)
            .env("HOME", &home)
            .current_dir(&cwd)
            .output()
    })?;
    let out = out.map_err(|e| format!("harness: {}", e))?;
    let want = c.call(|| digest_lines(seed))?;
    let got: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect();
    let mut files = vec![];
    files_below(&dir, &mut files);
    let remove = || {
        let _ = std::fs::remove_dir_all(&dir);
    };
    let stray: Vec<String> = files
        .iter()
        .filter(|f| !f.starts_with(tmp.join("bardecoder-debug-images")) && !f.starts_with(dir.join("not/there/yet/bardecoder-debug-images")))
        .map(|f| f.display().to_string())
        .collect();
    let pngs = files.iter().filter(|f| f.extension().is_some_and(|e| e == "png")).count();
    remove();
    c.seen(mix(seed ^ mode));
    c.count(name);
    c.add("pictures", BATCH);
    c.add("debug_images_written", pngs as u64);
    c.add("extractions", want.iter().map(|l| l.matches("Ok(Ok((").count() as u64).sum());
    c.add("refused_extractions", want.iter().map(|l| l.matches("Ok(Err(QRError").count() as u64).sum());
    c.add("results_text", want.iter().map(|l| l.matches("Ok(\"").count() as u64).sum());
    c.add("results_error", want.iter().map(|l| l.matches("Err(\"").count() as u64).sum());
    if out.status.code() != Some(0) {
        return Err(format!("with debug images ({}), the process ended with {:?}: {}", name, out.status, String::from_utf8_lossy(&out.stderr).chars().take(500).collect::<String>()));
    }
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let mut r = Rng::new(mix(seed ^ mix(i as u64)));
        let img = small_picture(&mut r);
        keep_image(c, &img);
        return Err(format!("picture {} of seed {}, {}: with debug images {}, without {}", i, seed, name, got.get(i).map(|s| short(s)).unwrap_or_default(), want.get(i).map(|s| short(s)).unwrap_or_default()));
    }
    ensure!(stray.is_empty(), "files were written outside of the directory for debug images: {:?}", stray);
    if mode == 0 {
        ensure!(pngs > 0, "no debug image was written for {} pictures", BATCH);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            rule: "a decoder put together from recording parts, or from its default parts, and the trace of calls and values between them; distinct by the plan or picture",
            stages: vec![stage("trace", 40_000, 2_000_000, c14_trace), stage("defaults", 3_000, 120_000, c14_defaults)],
            need: vec![("incomplete_builders_refused", 500), ("decode_calls_traced", 5000), ("errors_passed_on", 5000), ("values_compared", 2000), ("results", 2000), ("other_detectors", 500)],
            assumptions: vec![],
            limits: vec![],
        },
        Prop {
            id: "C15",
            rule: "a history of pictures (or symbols) read alone, by one decoder in another order, and in several threads; distinct by the pictures",
            stages: vec![stage("pictures", 700, 30_000, c15), stage("stages", 1_000, 40_000, c15_stages), stage("symbols", 4_000, 200_000, c15_symbols), stage("fresh", 250, 10_000, c15_fresh), stage("long", 24, 1_200, c15_long)],
            need: vec![("texts", 1000), ("decodings_in_a_history", 3000), ("decodings_in_parallel", 5000), ("symbol_results_text", 1000), ("symbol_results_error", 500), ("long_lives_asked_again", 1000), ("answers_of_new_processes_text", 500), ("prepared_again", 1000), ("detected_again", 1000), ("extracted_again", 1000)],
            assumptions: vec![],
            limits: vec![],
        },
        Prop {
            id: "C16",
            rule: "a picture in several representations; distinct by the pixels",
            stages: vec![stage("forms", 3_000, 120_000, c16)],
            need: vec![("texts", 1000), ("luma8", 50), ("rgb8", 50), ("rgba16", 50), ("rgb32f", 50), ("part_of_a_larger_picture", 1000), ("lossless_conversion", 200)],
            assumptions: vec!["the conversion of pixel formats is that of the image library"],
            limits: vec![],
        },
        Prop {
            id: "C18",
            rule: "a batch of pictures read by a build that writes debug images and one that does not; distinct by the seed of the batch",
            stages: vec![stage("batches", 160, 5_000, c18)],
            need: vec![("results_text", 500), ("results_error", 100), ("debug_images_written", 1000), ("place_taken_by_a_file", 10), ("files_cannot_be_created", 10)],
            assumptions: vec![],
            limits: vec![],
        },
    ]
}
