//! C24: the same decodings with logging off, and by a process whose logger takes everything down.
//! C26: the memory a process holds after many decodings.

use super::pipeline::{picture, tell_info};
use super::scene::*;
use super::symbol::hit;
use crate::api::*;
use crate::ensure;
use crate::refqr::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use std::cell::Cell;
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

const PICTURES: u64 = 8;
const GRIDS: u64 = 24;

/// A symbol: fine, damaged, hopeless, or noise.
fn grid(r: &mut Rng) -> (Matrix, u32) {
    let v = *r.pick(&[1u32, 1, 2, 3, 4, 5, 6, 7, 8, 10, 14, 20, 27, 33, 40]);
    let kind = r.below(6);
    if kind == 0 {
        let n = side(v);
        let mut m = Matrix::new(n);
        for b in m.m.iter_mut() {
            *b = r.below(2) as u8;
        }
        return (m, v);
    }
    let level = rand_level(r);
    let segs = rand_segs(r, v, level);
    let data = match kind {
        // any codewords: most of them are no text
        1 => (0..data_codewords(v, level)).map(|_| r.byte()).collect(),
        _ => data_for(&segs, v, level),
    };
    let mut s = Symbol::new(&data, v, level, r.below(8) as u16);
    let lay = layout(v, level);
    if kind >= 3 {
        for (b, l) in s.blocks.iter_mut().zip(&lay) {
            let w = if kind == 3 { r.below(l.t + 1) } else { r.below(b.len() / 2) };
            hit(r, b, l.data, w, r.clone().below(5));
        }
    }
    let mut m = s.matrix();
    if kind == 5 {
        for copy in format_positions(v) {
            for (x, y) in copy {
                if r.chance(0.3) {
                    m.flip(x, y);
                }
            }
        }
    }
    (m, v)
}

/// What is said about a batch of pictures and grids, one line each.
pub fn digest(seed: u64) -> Vec<String> {
    let mut out = vec![];
    for i in 0..PICTURES {
        let img = picture(&mut Rng::new(mix(seed ^ mix(i))));
        let a = guarded(|| answers(bardecoder::default_decoder().decode(&img)));
        let b = guarded(|| tell_info(bardecoder::default_decoder_with_info().decode(&img)));
        out.push(format!("{:?} {:?}", a, b).replace('\n', " "));
    }
    for i in 0..GRIDS {
        let (m, v) = grid(&mut Rng::new(mix(seed ^ mix(1000 + i))));
        let a = guarded(|| decode(&m, v).map_err(|e| e.msg));
        let b = guarded(|| decode_info(&m, v).map(|(t, i)| (t, format!("{:?}", i))).map_err(|e| e.msg));
        out.push(format!("{:?} {:?}", a, b).replace('\n', " "));
    }
    out
}

static RECORDS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static NESTED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static SKIP: Cell<u64> = const { Cell::new(0) };
}

/// A logger that writes every record out in full. If told to, it also decodes things of its own now and then,
/// as a logger in a program with several cameras may.
struct Tap {
    nested: bool,
}
impl log::Log for Tap {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if INSIDE.with(|i| i.get()) {
            return;
        }
        let mut s = String::new();
        write!(s, "{} {} {:?} {}", r.level(), r.target(), r.line(), r.args()).expect("a record can be written");
        RECORDS.fetch_add(1, SeqCst);
        BYTES.fetch_add(s.len() as u64, SeqCst);
        let n = SKIP.with(|k| {
            k.set(k.get() + 1);
            k.get()
        });
        if self.nested && n.is_power_of_two() {
            INSIDE.with(|i| i.set(true));
            let (m, v) = grid(&mut Rng::new(n));
            let _ = decode(&m, v);
            if n < 3000 {
                let _ = bardecoder::default_decoder().decode(&picture(&mut Rng::new(n)));
            }
            NESTED.fetch_add(1, SeqCst);
            INSIDE.with(|i| i.set(false));
        }
    }
    fn flush(&self) {}
}
static TAP: Tap = Tap { nested: false };
static NEST: Tap = Tap { nested: true };

/// The process that logs: what it decodes, and how much was logged.
pub fn logged(seed: u64, level: &str) -> Vec<String> {
    let (level, nested) = match level.strip_suffix("-nested") {
        Some(l) => (l, true),
        None => (level, false),
    };
    let _ = log::set_logger(if nested { &NEST } else { &TAP });
    log::set_max_level(level.parse().unwrap_or(log::LevelFilter::Trace));
    let mut out = digest(seed);
    out.push(format!("{} {} {}", RECORDS.load(SeqCst), BYTES.load(SeqCst), NESTED.load(SeqCst)));
    out
}

pub const LEVELS: [&str; 5] = ["trace", "debug", "trace-nested", "debug-nested", "info"];

fn c24(c: &mut Case) -> Res {
    let seed = c.rng.next();
    let level = LEVELS[c.idx as usize % LEVELS.len()];
    c.note(|| format!("{} pictures and {} grids, logging at level {}", PICTURES, GRIDS, level));
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
    let out = c
        .call(|| std::process::Command::new(&exe).args(["logged", &seed.to_string(), level]).output())?
        .map_err(|e| format!("harness: {}", e))?;
    let want = c.call(|| digest(seed))?;
    if out.status.code() != Some(0) {
        return Err(format!("with logging at level {}, the process ended with {:?}: {}", level, out.status, String::from_utf8_lossy(&out.stderr).chars().take(500).collect::<String>()));
    }
    let mut got: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect();
    let tail = got.pop().unwrap_or_default();
    let n: Vec<u64> = tail.split(' ').filter_map(|x| x.parse().ok()).collect();
    ensure!(n.len() == 3, "harness: the logging process said {}", short(&tail));
    c.seen(mix(seed ^ c.idx % LEVELS.len() as u64));
    c.count(&format!("level_{}", level));
    c.add("records_written_out", n[0]);
    c.add("bytes_written_out", n[1]);
    c.add("decodings_inside_the_logger", n[2]);
    c.add("results_text", want.iter().map(|l| l.matches("Ok(\"").count() as u64).sum());
    c.add("results_error", want.iter().map(|l| l.matches("Err(\"").count() as u64).sum());
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        if (i as u64) < PICTURES {
            keep_image(c, &picture(&mut Rng::new(mix(seed ^ mix(i as u64)))));
        } else {
            keep_matrix(c, &grid(&mut Rng::new(mix(seed ^ mix(1000 + i as u64 - PICTURES)))).0);
        }
        return Err(format!(
            "input {} of seed {}: with logging at level {} {}, without {}",
            i, seed, level, got.get(i).map(|s| short(s)).unwrap_or_default(), want.get(i).map(|s| short(s)).unwrap_or_default()
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

const WARM: usize = 4;
const ROUNDS: usize = 24;
pub const KINDS: [&str; 6] = ["pictures", "pictures_with_information", "one_decoder", "grids", "stages", "fresh_pictures"];

/// Decodes the same things again and again (or ever new ones), dropping all results, and prints the bytes that are live after every round.
pub fn rounds(seed: u64, kind: &str) {
    let mut r = Rng::new(seed);
    let pics: Vec<RgbaImage> = (0..5).map(|_| picture(&mut r)).collect();
    let grids: Vec<(Matrix, u32)> = (0..40).map(|_| grid(&mut r)).collect();
    let one = (bardecoder::default_decoder(), bardecoder::default_decoder_with_info());
    let mut live = Vec::with_capacity(WARM + ROUNDS);
    let mut results = 0;
    watch_process();
    for _ in 0..WARM + ROUNDS {
        match kind {
            "pictures" => results += pics.iter().map(|p| bardecoder::default_decoder().decode(p).len()).sum::<usize>(),
            "pictures_with_information" => results += pics.iter().map(|p| bardecoder::default_decoder_with_info().decode(p).len()).sum::<usize>(),
            "one_decoder" => results += pics.iter().map(|p| one.0.decode(p).len() + one.1.decode(p).len()).sum::<usize>(),
            "fresh_pictures" => {
                for _ in 0..5 {
                    let p = picture(&mut r);
                    results += one.0.decode(&p).len();
                    results += bardecoder::default_decoder().decode(&p).len();
                }
            }
            "grids" => {
                for (m, v) in &grids {
                    results += usize::from(decode(m, *v).is_ok()) + usize::from(decode_info(m, *v).is_err());
                }
            }
            _ => {
                for p in &pics {
                    let g = BlockedMean::new(5, 7).prepare(p);
                    for Location::QR(l) in LineScan::new().detect(&g) {
                        results += usize::from(QRExtractor::new().extract(&g, l).is_ok());
                    }
                }
            }
        }
        live.push(process_bytes());
    }
    println!("{} {}", results, live.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
}

fn c26(c: &mut Case) -> Res {
    let seed = c.rng.next();
    let kind = KINDS[c.idx as usize % KINDS.len()];
    c.note(|| format!("{} rounds over {}", WARM + ROUNDS, kind));
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
    let out = c
        .call(|| std::process::Command::new(&exe).args(["rounds", &seed.to_string(), kind]).output())?
        .map_err(|e| format!("harness: {}", e))?;
    let n: Vec<i64> = String::from_utf8_lossy(&out.stdout).split_whitespace().filter_map(|x| x.parse().ok()).collect();
    if out.status.code() != Some(0) || n.len() != 1 + WARM + ROUNDS {
        return Err(format!("the process ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(500).collect::<String>()));
    }
    let (results, live) = (n[0], &n[1..]);
    c.seen(mix(seed ^ c.idx % KINDS.len() as u64));
    c.count(kind);
    c.add("rounds", ROUNDS as u64);
    c.add("results_dropped", results as u64);
    // what is kept once (tables made on first use, a cache of limited size) is there after the first rounds; when every round
    // decodes the same, nothing is added after them, and otherwise not again and again
    let (from, to) = (live[WARM - 1], live[WARM + ROUNDS - 1]);
    c.add("bytes_held_after_the_first_rounds", from.max(0) as u64);
    c.add("bytes_more_after_all_rounds", (to - from).max(0) as u64);
    let growing = live[WARM - 1..].windows(2).filter(|w| w[1] > w[0]).count();
    let bad = if kind == "fresh_pictures" { to - from > 4096 && growing >= ROUNDS / 2 } else { to - from > 1024 };
    ensure!(
        !bad,
        "{} (seed {}): {} bytes are live after {} rounds, {} after {}: {:?}",
        kind, seed, from, WARM, to, WARM + ROUNDS, live
    );
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "a process that decodes the same pictures or grids, or ever new ones, round after round, and the bytes live after every round; distinct by seed and kind",
        stages: vec![stage("rounds", 300, 12_000, c26)],
        need: KINDS.iter().map(|k| (*k, 20)).chain([("results_dropped", 10_000)]).collect(),
        assumptions: vec!["memory is taken from the global allocator, which the monitor wraps"],
        limits: vec![],
    }, Prop {
        id: "C24",
        rule: "a batch of pictures and module grids decoded by a process without logging and by one that writes every record out, at each level, some with a logger that itself decodes; distinct by batch and level",
        stages: vec![stage("batches", 900, 40_000, c24)],
        need: vec![("records_written_out", 1000), ("decodings_inside_the_logger", 10), ("results_text", 1000), ("results_error", 1000), ("level_info", 20)],
        assumptions: vec![],
        limits: vec![],
    }]
}
