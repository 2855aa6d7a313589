//! Case framework: deterministic cases, worker threads, supervision, evidence, verdicts.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::{hash_bytes, splitmix, Rng};

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Everything one case can use and report into.
pub struct Cx {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    /// Set on replay: shrink and describe failures in full.
    pub verbose: bool,
    pub counters: BTreeMap<String, u64>,
    /// Hash of a non-trivial case, None if trivial.
    pub key: Option<u64>,
    /// Short description of the case for the evidence samples.
    pub sample: Option<String>,
    /// Full description, filled on replay.
    pub detail: String,
    pub known: Vec<String>,
}

impl Cx {
    pub fn count(&mut self, name: &str, n: u64) {
        if n > 0 {
            match self.counters.get_mut(name) {
                Some(v) => *v += n,
                None => {
                    self.counters.insert(name.to_string(), n);
                }
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let name = format!("max_{}", name);
        let v = self.counters.entry(name).or_insert(0);
        *v = (*v).max(n);
    }
    pub fn nontrivial(&mut self, data: &[u8]) {
        self.key = Some(hash_bytes(data));
    }
}

pub type CaseResult = Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick_cases: u64,
    /// Counters that have to be non-zero, otherwise the run observed too little.
    pub required: &'static [&'static str],
    pub threads: usize,
    pub case: fn(&mut Cx) -> CaseResult,
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn thread_clock() -> i32 {
    let mut c = 0;
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut c);
    }
    c
}

fn cpu_ms(clock: i32) -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        if clock_gettime(clock, &mut ts) != 0 {
            return 0;
        }
    }
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("panic at {}: {}", loc, msg));
            }
        });
    }));
}

/// Runs a closure and turns a panic into an error with its message and location.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let msg = PANIC.with(|p| p.borrow_mut().take());
            drop::<Box<dyn Any + Send>>(e);
            Err(msg.unwrap_or_else(|| "panic".into()))
        }
    }
}

pub fn case_seed(id: &str, seed: u64, idx: u64) -> u64 {
    let mut x = hash_bytes(id.as_bytes()) ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    let a = splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut y)
}

fn run_case(check: &Check, tier: Tier, seed: u64, idx: u64, verbose: bool) -> (Cx, CaseResult) {
    let mut cx = Cx {
        rng: Rng::new(case_seed(check.id, seed, idx)),
        idx,
        tier,
        verbose,
        counters: BTreeMap::new(),
        key: None,
        sample: None,
        detail: String::new(),
        known: vec![],
    };
    let r = no_panic(|| (check.case)(&mut cx));
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    (cx, r)
}

pub fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

struct Violation {
    idx: u64,
    msg: String,
}

struct Args {
    check: &'static Check,
    tier: Tier,
    seed: u64,
    verif: PathBuf,
    status: PathBuf,
    wall_cap: u64,
    /// CPU milliseconds one case may use.
    case_cap: u64,
    cases: u64,
}

const SLOTS: u64 = 64;
const EXIT_STUCK: i32 = 97;

fn env_u64(name: &str) -> Option<u64> {
    std::env::var(name).ok().and_then(|v| v.parse().ok())
}

pub fn main(checks: Vec<Check>) {
    install_panic_hook();
    let checks: &'static Vec<Check> = Box::leak(Box::new(checks));
    let argv: Vec<String> = std::env::args().collect();
    let cmd = argv.get(1).cloned().unwrap_or_default();
    let id = argv.get(2).cloned().unwrap_or_default();
    if cmd == "list" {
        for c in checks {
            println!("{}", c.id);
        }
        return;
    }
    if cmd == "aux" {
        // helper process of a case
        crate::checks::aux(&argv[2..]);
        return;
    }
    let check = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2);
        }
    };
    let tier = if argv.get(3).map(|s| &s[..]) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed = argv.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let (wall_cap, cases) = match tier {
        Tier::Quick => (env_u64("VH_WALL").unwrap_or(240), env_u64("VH_CASES").unwrap_or(check.quick_cases)),
        Tier::Thorough => (env_u64("VH_WALL").unwrap_or(600), env_u64("VH_CASES").unwrap_or(u64::MAX)),
    };
    let args = Args {
        check,
        tier,
        seed,
        verif,
        status: PathBuf::from(argv.get(5).cloned().unwrap_or_default()),
        wall_cap,
        case_cap: env_u64("VH_CASE_CPU_MS").unwrap_or(60_000),
        cases,
    };
    match &cmd[..] {
        "check" => std::process::exit(supervise(args)),
        // cases one after another in this process (for interpreters)
        "inline" => {
            let from: u64 = argv[5].parse().unwrap();
            let seconds: u64 = argv[6].parse().unwrap();
            std::process::exit(inline(args, from, seconds));
        }
        "worker" => std::process::exit(worker(args)),
        "replay" | "probe" => {
            let idx: u64 = argv[5].parse().unwrap();
            std::process::exit(replay(args, idx, cmd == "replay"));
        }
        _ => {
            eprintln!("usage: vh check|worker|replay ID TIER SEED ...");
            std::process::exit(2);
        }
    }
}

fn limit_memory() {
    if std::env::var("VH_NOLIMIT").is_ok() {
        return;
    }
    let lim = [20u64 << 30, 20u64 << 30];
    unsafe {
        setrlimit(9, &lim); // RLIMIT_AS
    }
}

fn replay(args: Args, idx: u64, print: bool) -> i32 {
    limit_memory();
    let cap = args.case_cap;
    let clock = thread_clock();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        if cpu_ms(clock) > cap {
            std::process::exit(EXIT_STUCK);
        }
    });
    let (cx, r) = run_case(args.check, args.tier, args.seed, idx, print);
    if print {
        println!("property {} tier {:?} seed {} case {}", args.check.id, args.tier, args.seed, idx);
        if let Some(s) = &cx.sample {
            println!("case: {}", s);
        }
        println!("{}", cx.detail);
        println!("counters: {:?}", cx.counters);
    }
    match r {
        Ok(()) => {
            if print {
                println!("held");
            }
            0
        }
        Err(e) => {
            println!("FAILED {}", e);
            1
        }
    }
}

/// Runs cases until the time is over and prints what was observed.
fn inline(args: Args, from: u64, seconds: u64) -> i32 {
    let start = Instant::now();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct = HashSet::new();
    let mut done = 0;
    while start.elapsed().as_secs() < seconds && done < args.cases {
        let idx = from + done;
        eprintln!("case {}", idx);
        let (cx, r) = run_case(args.check, args.tier, args.seed, idx, false);
        done += 1;
        for (k, v) in cx.counters {
            *counters.entry(k).or_insert(0) += v;
        }
        distinct.extend(cx.key);
        if let Err(e) = r {
            println!("FAILED case {}: {}", idx, e);
            return 1;
        }
    }
    print!("INLINE cases={} distinct={}", done, distinct.len());
    for (k, v) in counters {
        print!(" {}={}", k, v);
    }
    println!();
    0
}

struct Shared {
    next: AtomicU64,
    done: AtomicU64,
    stop: AtomicBool,
    agg: Mutex<Agg>,
}

#[derive(Default)]
struct Agg {
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    known: BTreeMap<String, u64>,
    max_cpu_ms: u64,
}

fn worker(args: Args) -> i32 {
    limit_memory();
    crate::refsat::self_test();
    let start = Instant::now();
    let status = std::fs::OpenOptions::new().read(true).write(true).open(&args.status).unwrap();
    let threads = env_u64("VH_THREADS").map(|t| t as usize).unwrap_or(args.check.threads);
    let shared = Shared {
        next: AtomicU64::new(0),
        done: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        agg: Mutex::new(Agg::default()),
    };
    let clocks: Vec<(AtomicU64, AtomicU64, AtomicU64)> =
        (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
    let finished = AtomicBool::new(false);
    let skip: HashSet<u64> = std::env::var("VH_SKIP")
        .unwrap_or_default()
        .split(',')
        .filter_map(|s| s.parse().ok())
        .collect();

    std::thread::scope(|scope| {
        let handles: Vec<_> = (0..threads)
            .map(|t| {
                let shared = &shared;
                let args = &args;
                let status = &status;
                let clocks = &clocks;
                let skip = &skip;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        let clock = thread_clock();
                        clocks[t].0.store(clock as u32 as u64, Ordering::SeqCst);
                        let mut local = Agg::default();
                        loop {
                            if shared.stop.load(Ordering::Relaxed)
                                || start.elapsed().as_secs() >= args.wall_cap
                            {
                                break;
                            }
                            let idx = shared.next.fetch_add(1, Ordering::Relaxed);
                            if idx >= args.cases {
                                break;
                            }
                            if skip.contains(&idx) {
                                continue;
                            }
                            let _ = status.write_at(&(idx + 1).to_le_bytes(), t as u64 * 8);
                            let c0 = cpu_ms(clock);
                            clocks[t].1.store(c0, Ordering::SeqCst);
                            clocks[t].2.store(idx, Ordering::SeqCst);
                            let (cx, r) = run_case(args.check, args.tier, args.seed, idx, false);
                            clocks[t].2.store(u64::MAX, Ordering::SeqCst);
                            let used = cpu_ms(clock) - c0;
                            local.max_cpu_ms = local.max_cpu_ms.max(used);
                            if used > std::env::var("VH_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(u64::MAX) {
                                eprintln!("slow case {} {} ms {:?}", idx, used, cx.sample);
                            }
                            shared.done.fetch_add(1, Ordering::Relaxed);
                            for (k, v) in cx.counters {
                                let e = local.counters.entry(k.clone()).or_insert(0);
                                if k.starts_with("max_") {
                                    *e = (*e).max(v);
                                } else {
                                    *e += v;
                                }
                            }
                            if let Some(k) = cx.key {
                                if local.distinct.len() < 2_000_000 {
                                    local.distinct.insert(k);
                                }
                            }
                            if idx % 97 == 0 && local.samples.len() < 4 {
                                if let Some(s) = cx.sample {
                                    local.samples.push(format!("case {}: {}", idx, s));
                                }
                            }
                            for k in cx.known {
                                *local.known.entry(k).or_insert(0) += 1;
                            }
                            if let Err(msg) = r {
                                local.violations.push(Violation { idx, msg });
                                if std::env::var("VH_KEEP_GOING").is_err() {
                                    shared.stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        let _ = status.write_at(&0u64.to_le_bytes(), t as u64 * 8);
                        let mut agg = shared.agg.lock().unwrap();
                        for (k, v) in local.counters {
                            let e = agg.counters.entry(k.clone()).or_insert(0);
                            if k.starts_with("max_") {
                                *e = (*e).max(v);
                            } else {
                                *e += v;
                            }
                        }
                        agg.distinct.extend(local.distinct);
                        agg.samples.extend(local.samples);
                        agg.violations.extend(local.violations);
                        for (k, v) in local.known {
                            *agg.known.entry(k).or_insert(0) += v;
                        }
                        agg.max_cpu_ms = agg.max_cpu_ms.max(local.max_cpu_ms);
                    })
                    .unwrap()
            })
            .collect();
        // progress watchdog on each case's own CPU time
        let clocks_ref = &clocks;
        let finished_ref = &finished;
        let status_ref = &status;
        let cap = args.case_cap;
        let shared_ref = &shared;
        scope.spawn(move || {
            while !finished_ref.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for (t, (clock, start, idx)) in clocks_ref.iter().enumerate() {
                    let i = idx.load(Ordering::SeqCst);
                    if i == u64::MAX {
                        continue;
                    }
                    let used = cpu_ms(clock.load(Ordering::SeqCst) as u32 as i32)
                        .saturating_sub(start.load(Ordering::SeqCst));
                    if used > cap && idx.load(Ordering::SeqCst) == i {
                        let _ = status_ref.write_at(&(i + 1).to_le_bytes(), SLOTS * 8);
                        let _ = status_ref.write_at(
                            &shared_ref.done.load(Ordering::SeqCst).to_le_bytes(),
                            (SLOTS + 1) * 8,
                        );
                        eprintln!("thread {} stuck in case {}", t, i);
                        std::process::exit(EXIT_STUCK);
                    }
                }
            }
        });
        for h in handles {
            let _ = h.join();
        }
        finished.store(true, Ordering::SeqCst);
    });

    let mut agg = shared.agg.into_inner().unwrap();
    agg.violations.sort_by_key(|v| v.idx);
    let done = shared.done.load(Ordering::SeqCst);
    let viol: Vec<(u64, String)> = agg.violations.iter().map(|v| (v.idx, v.msg.clone())).collect();
    let complete = viol.is_empty();
    write_evidence(&args, &agg, done, start.elapsed(), viol.len() as u64, None);
    if !complete {
        for (i, (idx, msg)) in viol.iter().enumerate() {
            if i < 20 {
                report(&args, *idx, msg);
            }
        }
        return 1;
    }
    for r in args.check.required {
        let any = r.split('|').any(|r| agg.counters.get(r).copied().unwrap_or(0) > 0);
        if !any {
            // the workload did not reach what it is meant to observe: no verdict from this run
            println!("INCONCLUSIVE property={} nothing observed for {}", args.check.id, r);
        }
    }
    println!(
        "held property={} cases={} distinct={} wall={:.1}s max_case_cpu={}ms",
        args.check.id,
        done,
        agg.distinct.len(),
        start.elapsed().as_secs_f64(),
        agg.max_cpu_ms
    );
    let mut line = String::new();
    for (k, v) in &agg.counters {
        line.push_str(&format!(" {}={}", k, v));
    }
    println!("observed:{}", line);
    0
}

fn replay_dir(args: &Args) -> PathBuf {
    let d = args.verif.join("replays");
    let _ = std::fs::create_dir_all(&d);
    d
}

fn report(args: &Args, idx: u64, msg: &str) {
    let tier = if args.tier == Tier::Quick { "quick" } else { "thorough" };
    let build = std::env::var("VH_BUILD").unwrap_or_default();
    let path = replay_dir(args).join(format!("{}{}-{}-{}-{}.txt", args.check.id, build, tier, args.seed, idx));
    // describe the case in a separate process (it may crash or hang)
    let out = Command::new("timeout")
        .arg("100")
        .arg(std::env::current_exe().unwrap())
        .args(["replay", args.check.id, tier, &args.seed.to_string(), &idx.to_string()])
        .stdin(Stdio::null())
        .output();
    let mut text = format!(
        "property={}\nreplay: {}./check.sh {} replay {} {} {}\nviolation: {}\n\n",
        args.check.id,
        if build.is_empty() { String::new() } else { format!("VH_BUILD={} ", build) },
        args.check.id, tier, args.seed, idx, msg
    );
    if let Ok(out) = out {
        text.push_str(&String::from_utf8_lossy(&out.stdout));
        let err = String::from_utf8_lossy(&out.stderr);
        if !err.is_empty() {
            text.push_str("\nstderr:\n");
            text.push_str(&err.chars().take(20000).collect::<String>());
        }
        text.push_str(&format!("\nexit: {}\n", out.status));
    }
    let _ = std::fs::write(&path, text);
    println!("case {}: {}", idx, msg.chars().take(600).collect::<String>());
    println!("VIOLATION property={} replay={}", args.check.id, path.display());
}

fn write_evidence(args: &Args, agg: &Agg, done: u64, wall: Duration, violations: u64, note: Option<&str>) {
    let dir = match std::env::var("VH_EVIDENCE_DIR") {
        Ok(d) => PathBuf::from(d),
        Err(_) => args.verif.join("evidence"),
    };
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", args.check.id));
    let tier = if args.tier == Tier::Quick { "quick" } else { "thorough" };
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n", json_str(args.check.id)));
    s.push_str(&format!(" \"tier\": {},\n \"seed\": {},\n", json_str(tier), args.seed));
    s.push_str(&format!(" \"level\": {},\n", json_str(args.check.level)));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n", done));
    s.push_str(&format!("  \"distinct_nontrivial\": {},\n", agg.distinct.len()));
    s.push_str(&format!("  \"rule\": {},\n", json_str(args.check.rule)));
    s.push_str("  \"observed\": {");
    let mut first = true;
    for (k, v) in &agg.counters {
        if !first {
            s.push_str(", ");
        }
        first = false;
        s.push_str(&format!("{}: {}", json_str(k), v));
    }
    s.push_str("},\n");
    s.push_str(&format!("  \"max_case_cpu_ms\": {},\n", agg.max_cpu_ms));
    if let Some(n) = note {
        s.push_str(&format!("  \"note\": {},\n", json_str(n)));
    }
    if let Ok(extra) = std::env::var("VH_EXTRA") {
        s.push_str(&format!("  \"extra\": {},\n", json_str(&extra)));
    }
    s.push_str("  \"samples\": [");
    for (i, x) in agg.samples.iter().take(6).enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&json_str(&x.chars().take(1500).collect::<String>()));
    }
    s.push_str("]\n },\n \"assumptions\": [");
    for (i, x) in args.check.assumptions.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&json_str(x));
    }
    s.push_str(&format!("],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall.as_secs_f64(), violations));
    let tmp = path.with_extension("json.tmp");
    if let Ok(mut f) = std::fs::File::create(&tmp) {
        let _ = f.write_all(s.as_bytes());
        let _ = std::fs::rename(&tmp, &path);
    }
}

fn read_slot(status: &Path, slot: u64) -> u64 {
    let mut b = [0u8; 8];
    if let Ok(f) = std::fs::File::open(status) {
        let _ = f.read_at(&mut b, slot * 8);
    }
    u64::from_le_bytes(b)
}

/// Runs the worker; a worker that dies or hangs is diagnosed by rerunning the cases it was in.
fn supervise(mut args: Args) -> i32 {
    let start = Instant::now();
    let tier = if args.tier == Tier::Quick { "quick" } else { "thorough" };
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", args.check.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    args.status = dir.join("status");
    let exe = std::env::current_exe().unwrap();
    let mut skip: Vec<String> = vec![];
    let mut code = 0;
    let mut attempts = 0;
    loop {
        attempts += 1;
        std::fs::write(&args.status, vec![0u8; (SLOTS as usize + 8) * 8]).unwrap();
        let st = Command::new(&exe)
            .args(["worker", args.check.id, tier, &args.seed.to_string(), args.status.to_str().unwrap()])
            .env("VH_SKIP", skip.join(","))
            .env("VH_SCRATCH", dir.join("scratch"))
            .stdin(Stdio::null())
            .status()
            .unwrap();
        match st.code() {
            Some(0) => break,
            Some(1) => {
                code = 1;
                break;
            }
            _ => (),
        }
        // abnormal end: find the case that did it
        let why = match (st.code(), st.signal()) {
            (Some(EXIT_STUCK), _) => "stuck".to_string(),
            (Some(c), _) => format!("exit code {}", c),
            (None, s) => format!("signal {:?}", s),
        };
        println!("worker ended abnormally: {}", why);
        let mut suspects: Vec<u64> = vec![];
        let stuck = read_slot(&args.status, SLOTS);
        if stuck > 0 {
            suspects.push(stuck - 1);
        } else {
            for t in 0..SLOTS {
                let v = read_slot(&args.status, t);
                if v > 0 {
                    suspects.push(v - 1);
                }
            }
        }
        let mut found = vec![];
        for &idx in &suspects {
            let out = Command::new(&exe)
                .args(["probe", args.check.id, tier, &args.seed.to_string(), &idx.to_string()])
                .env("VH_SCRATCH", dir.join("scratch"))
                .stdin(Stdio::null())
                .output();
            if let Ok(out) = out {
                let bad = match out.status.code() {
                    Some(0) => None,
                    Some(EXIT_STUCK) => Some(format!(
                        "no result after {} ms of its own CPU time",
                        args.case_cap
                    )),
                    Some(c) => Some(format!(
                        "exit code {}: {} {}",
                        c,
                        String::from_utf8_lossy(&out.stdout).lines().last().unwrap_or(""),
                        String::from_utf8_lossy(&out.stderr)
                            .lines()
                            .filter(|l| l.contains("ERROR") || l.contains("SUMMARY") || l.contains("overflow"))
                            .take(3)
                            .collect::<Vec<_>>()
                            .join(" | ")
                    )),
                    // killed from outside (out of memory): no verdict
                    None if out.status.signal() == Some(9) => None,
                    None => Some(format!(
                        "crash with signal {:?}: {}",
                        out.status.signal(),
                        String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or("")
                    )),
                };
                if let Some(b) = bad {
                    found.push((idx, b));
                }
            }
        }
        if !found.is_empty() {
            let agg = Agg::default();
            write_evidence(
                &args,
                &agg,
                read_slot(&args.status, SLOTS + 1).max(1),
                start.elapsed(),
                found.len() as u64,
                Some("worker ended abnormally; counts are those of the diagnosis"),
            );
            for (idx, b) in &found {
                report(&args, *idx, b);
            }
            code = 1;
            break;
        }
        skip.extend(suspects.iter().map(|s| s.to_string()));
        if attempts >= 3 {
            println!("INCONCLUSIVE property={}: the worker ended abnormally ({}) and no case reproduces it", args.check.id, why);
            write_evidence(&args, &Agg::default(), 0, start.elapsed(), 0, Some("inconclusive: abnormal worker end not reproduced"));
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}
