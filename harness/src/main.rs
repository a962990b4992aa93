#![allow(dead_code, unused_imports)]
mod api;
mod props;
mod refqr;
mod render;
mod rng;
mod run;

use run::*;
use std::path::PathBuf;
use std::process::{Command, ExitStatus};

#[global_allocator]
static ALLOC: Counting = Counting;

fn die(msg: &str) -> ! {
    eprintln!("{}", msg);
    std::process::exit(2)
}

/// With VH_LOG set, what the code under test logs goes to stderr (only for looking into single cases).
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("{}", r.args());
    }
    fn flush(&self) {}
}

fn cfg(tier: &str, seed: u64) -> Cfg {
    let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let scratch = PathBuf::from(std::env::var("VH_SCRATCH").unwrap_or_else(|_| die("VH_SCRATCH is not set")));
    let num = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    Cfg {
        root,
        tier: tier.into(),
        seed,
        scratch,
        threads: (num("VH_THREADS", std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64) as usize).clamp(1, BOARD_SLOTS),
        board: std::env::var("VH_BOARD").ok().map(PathBuf::from),
        build: std::env::var("VH_BUILD").unwrap_or_else(|_| "checked".into()),
        wall: num("VH_WALL", if tier == "thorough" { 6 * 3600 } else { 600 }),
    }
}

/// Entries of known_findings.txt: "known: property=<id> <key> | <what fails>".
fn known(root: &std::path::Path, prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?.strip_prefix(prop)?.strip_prefix(' ')?;
            let (k, d) = l.split_once(" | ")?;
            Some((k.to_string(), d.to_string()))
        })
        .collect()
}

fn signal(s: &ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    s.signal()
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("no property {}", id)))
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    match a.as_slice() {
        ["list"] => {
            for p in props::all() {
                println!("{} {}", p.id, p.stages.iter().map(|s| format!("{}:{}/{}", s.name, s.quick, s.thorough)).collect::<Vec<_>>().join(" "));
            }
        }
        // The parent: watches the child that runs the cases for deaths by signal.
        // The build with debug images says what it reads in a batch of pictures.
        ["digest", seed] => {
            install_panic_monitor();
            for l in props::pipeline::digest_lines(seed.parse().unwrap_or_else(|_| die("bad seed"))) {
                println!("{}", l);
            }
        }
        // What a new process says about one input of a history.
        ["alone", seed, i] => {
            install_panic_monitor();
            let (Ok(seed), Ok(i)) = (seed.parse(), i.parse()) else { die("bad arguments") };
            println!("{}", props::pipeline::history_answer(seed, i));
        }
        // The same for pictures and grids, with a logger that takes everything down.
        ["logged", seed, level] => {
            install_panic_monitor();
            for l in props::logging::logged(seed.parse().unwrap_or_else(|_| die("bad seed")), level) {
                println!("{}", l);
            }
        }
        // How much memory is live after every round of the same decodings.
        ["rounds", seed, kind] => {
            install_panic_monitor();
            props::logging::rounds(seed.parse().unwrap_or_else(|_| die("bad seed")), kind);
        }
        ["check", id, tier] => std::process::exit(check(id, tier, seed)),
        ["child", id, tier] => {
            install_panic_monitor();
            let c = cfg(tier, seed);
            let k = known(&c.root, id);
            std::process::exit(run(&c, &find(id), &k));
        }
        // One case alone: exit 0 held, 1 violated.
        ["one", id, tier, st, idx] => {
            install_panic_monitor();
            if std::env::var("VH_LOG").is_ok() {
                let _ = log::set_logger(&Log);
                log::set_max_level(log::LevelFilter::Debug);
            }
            if *st == WHOLE_RUN {
                std::process::exit(check(id, tier, seed));
            }
            let p = find(id);
            let s = *p.stages.iter().find(|s| s.name == *st).unwrap_or_else(|| die("no such stage"));
            let c = cfg(tier, seed);
            // the CPU-time monitor of a single case
            let me = std::time::Duration::from_secs(cpu_limit(id));
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
                unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
                if t.tv_sec as u64 > me.as_secs() {
                    println!("violated: no return within {} s of CPU time", me.as_secs());
                    std::process::exit(1);
                }
            });
            match run_one(&c, &p, &s, idx.parse().unwrap_or_else(|_| die("bad index"))) {
                Ok(n) => println!("held: {}", n.unwrap_or_default()),
                Err(v) => {
                    println!("case: {}\nviolated: {}", v.note, v.what);
                    if std::env::var("VH_KEEP").is_ok() {
                        println!("{}", write_replay(&c, &p, &v).display());
                    }
                    std::process::exit(1)
                }
            }
        }
        _ => die("usage: vh list | check PROP TIER | one PROP TIER STAGE INDEX"),
    }
}

fn check(id: &str, tier: &str, seed: u64) -> i32 {
    let c = cfg(tier, seed);
    let p = find(id);
    let board = c.scratch.join("board");
    let exe = std::env::current_exe().unwrap();
    let st = match Command::new(&exe).args(["child", id, tier]).env("VH_BOARD", &board).status() {
        Ok(s) => s,
        Err(e) => die(&format!("cannot start the child: {}", e)),
    };
    let Some(sig) = signal(&st) else { return st.code().unwrap_or(2) };
    eprintln!("the process running the cases died of signal {}; repeating the cases it was at, one by one", sig);
    if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
        eprintln!("ended from outside: inconclusive");
        return 2;
    }
    for (si, idx) in board_cases(&board) {
        let s = &p.stages[si];
        let out = Command::new(&exe).args(["one", id, tier, s.name, &idx.to_string()]).output();
        if let Ok(o) = out {
            if let Some(g) = signal(&o.status) {
                if g == libc::SIGKILL {
                    continue;
                }
                let err = String::from_utf8_lossy(&o.stderr).chars().take(3000).collect::<String>();
                let v = Violation { stage: s.name.into(), idx, what: format!("the process died of signal {}: {}", g, err), note: String::new(), art: vec![] };
                let path = write_replay(&c, &p, &v);
                println!("  stage {} case {}: {}", v.stage, v.idx, v.what);
                println!("VIOLATION property={} replay={}", id, path.display());
                return 1;
            }
        }
    }
    eprintln!("the death did not repeat: inconclusive");
    2
}
