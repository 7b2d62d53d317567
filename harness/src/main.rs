//! Deterministic simulation of plusendi: seeded search over schedules and faults, shrinking,
//! replay and evidence.

mod clients;
mod clock;
mod fam_app;
mod fam_fbb;
mod fam_line;
mod fam_rig;
mod fam_vara;
mod hist;
mod hooks;
mod lzref;
mod kernel;
mod memory;
mod program;
mod rig;
mod run;
mod tape;
mod tnc;
mod vara_check;
mod vtrace;

use run::{Focus, RunOut, Violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tape::{seed_of, Record, Tape};

#[global_allocator]
static ALLOCATOR: memory::Counting = memory::Counting;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fam {
    Vara,
    Rig,
    App,
    Fbb,
    Line,
}

impl Fam {
    fn name(self) -> &'static str {
        match self {
            Fam::Vara => "vara",
            Fam::Rig => "rig",
            Fam::App => "app",
            Fam::Fbb => "fbb",
            Fam::Line => "line",
        }
    }
    fn parse(s: &str) -> Option<Fam> {
        [Fam::Vara, Fam::Rig, Fam::App, Fam::Fbb, Fam::Line].into_iter().find(|f| f.name() == s)
    }
    fn run(self, f: &Focus, tape: Tape) -> RunOut {
        match self {
            Fam::Vara => fam_vara::run(f, tape),
            Fam::Rig => fam_rig::run(f, tape),
            Fam::App => fam_app::run(f, tape),
            Fam::Fbb => fam_fbb::run(f, tape),
            Fam::Line => fam_line::run(f, tape),
        }
    }
}

/// Which simulated systems a property is examined in, by turns.
fn families(property: &str) -> &'static [Fam] {
    match property {
        "R01" | "R02" | "R03" => &[Fam::Rig],
        "A01" | "A02" | "A03" | "A04" => &[Fam::App],
        "F01" | "F02" | "F03" | "F04" => &[Fam::Fbb],
        "N02" => &[Fam::Line],
        "X01" | "X02" => match (hooks::missing("F01").or(hooks::missing("N02")).is_some(), hooks::missing("A01").is_some()) {
            (false, false) => &[Fam::Vara, Fam::Fbb, Fam::App, Fam::Rig, Fam::Line],
            (true, false) => &[Fam::Vara, Fam::App, Fam::Rig],
            (false, true) => &[Fam::Vara, Fam::Fbb, Fam::Rig, Fam::Line],
            (true, true) => &[Fam::Vara, Fam::Rig],
        },
        _ => &[Fam::Vara],
    }
}

fn runs(property: &str, thorough: bool) -> u64 {
    let quick = match property {
        "F01" | "F02" | "F03" => 100_000,
        "F04" => 64_000,
        "X01" => 160_000,
        "X02" => 240_000,
        _ if families(property) == [Fam::Rig] => 1_000_000,
        _ => 480_000,
    };
    if thorough { quick * 60 } else { quick }
}

/// Runs that take more processor time than this do not terminate. Real time is no measure: the
/// machine may be busy with other things.
const STUCK: Duration = Duration::from_secs(20);
/// Runs that take longer than this and hardly any processor time wait for something for ever.
const BLOCKED: Duration = Duration::from_secs(100);

/// A run in progress: when it began, and on which thread.
#[derive(Clone, Copy)]
struct Busy {
    began: Instant,
    clock: i32,
    used: Duration,
    run: u64,
}

impl Busy {
    fn begin(run: u64) -> Busy {
        let clock = thread_clock();
        Busy { began: Instant::now(), clock, used: clock_time(clock), run }
    }

    /// To be asked only while the thread is there.
    fn stuck(&self) -> bool {
        let wall = self.began.elapsed();
        if wall < STUCK {
            return false;
        }
        let used = clock_time(self.clock).saturating_sub(self.used);
        used > STUCK || wall > BLOCKED && used < wall / 40
    }
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
}

/// The clock of the processor time of this thread.
fn thread_clock() -> i32 {
    let mut clock = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
    clock
}

fn clock_time(clock: i32) -> Duration {
    let mut at = clock::Timespec { sec: 0, nsec: 0 };
    clock::clock_gettime(clock, &mut at);
    Duration::new(at.sec as u64, at.nsec as u32)
}

fn one(fam: Fam, f: &Focus, tape: impl Fn() -> Tape) -> RunOut {
    if f.property == "X01" {
        let quiet = fam.run(&Focus { verbose: Some(false), ..f.clone() }, tape());
        let mut loud = fam.run(&Focus { verbose: Some(true), ..f.clone() }, Tape::replay(&quiet.record));
        compare(&quiet, &mut loud);
        return loud;
    }
    fam.run(f, tape())
}

/// X01: both runs must have the same history.
fn compare(quiet: &RunOut, loud: &mut RunOut) {
    let same = quiet.hash == loud.hash && quiet.hist.len() == loud.hist.len();
    if same {
        return;
    }
    let i = quiet.hist.iter().zip(&loud.hist).position(|(a, b)| a.ev != b.ev || a.at != b.at).unwrap_or(quiet.hist.len().min(loud.hist.len()));
    let show = |h: &[hist::Rec]| h.get(i).map_or("nothing".to_string(), |r| format!("{:?}", r.ev));
    loud.violations.retain(|v| v.property != "*");
    loud.fail("X01", "differs", format!("with trace logging on, event {} is {} instead of {}", i, show(&loud.hist), show(&quiet.hist)));
}

fn hits<'a>(out: &'a RunOut, property: &str) -> Option<&'a Violation> {
    let spins_count = !matches!(property, "X01" | "X02");
    out.violations
        .iter()
        .find(|v| v.property == property)
        .or_else(|| out.violations.iter().find(|v| v.property == "*" && (v.class == "panic" && property != "X01" || v.class == "spin" && spins_count)))
}

struct Args(Vec<String>);

impl Args {
    fn get(&self, name: &str) -> Option<&str> {
        self.0.iter().position(|a| a == name).and_then(|i| self.0.get(i + 1)).map(|s| &s[..])
    }
    fn has(&self, name: &str) -> bool {
        self.0.iter().any(|a| a == name)
    }
}

fn main() {
    kernel::install_panic_hook();
    vtrace::init();
    let args = Args(std::env::args().skip(1).collect());
    if let Some(what) = args.get("--property").and_then(hooks::missing) {
        eprintln!("this property needs access to private parts of the code ({}), and that did not compile", what);
        std::process::exit(2);
    }
    let code = match args.0.first().map(|s| &s[..]) {
        Some("check") => check(&args),
        Some("replay") => replay(&args),
        Some("one") => show_one(&args),
        Some("hashes") => hashes(&args),
        Some("survey") => survey(&args),
        _ => {
            eprintln!("usage: simcheck check|replay|one|hashes ...");
            2
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code);
}

fn run_seed(seed: u64, property: &str, run: u64) -> u64 {
    let p = property.bytes().fold(7u64, |h, b| h.wrapping_mul(257).wrapping_add(b as u64));
    seed_of(&[seed, p, run])
}

fn family_of(property: &str, run: u64) -> Fam {
    let f = families(property);
    f[(run % f.len() as u64) as usize]
}

fn show_one(args: &Args) -> i32 {
    let property = args.get("--property").unwrap_or("C01").to_string();
    let run: u64 = args.get("--run").and_then(|s| s.parse().ok()).unwrap_or(0);
    let seed: u64 = args.get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let f = Focus { property: property.clone(), thorough: args.has("--thorough"), verbose: None };
    let out = one(family_of(&property, run), &f, || Tape::random(run_seed(seed, &property, run)));
    print_run(&out);
    0
}

fn print_run(out: &RunOut) {
    for (i, r) in out.hist.iter().enumerate() {
        println!("{:5} {:>10.3}ms t{:<3} {:?}", i, r.at as f64 / 1e6, r.task as i64, r.ev);
    }
    println!("counts {:?}", out.counts);
    println!("probes {:?}", out.probes);
    println!("hash {:016x} steps {} switches {} preemptions {} sim {:.3}s tape {}", out.hash, out.steps, out.switches, out.preemptions, out.sim_ns as f64 / 1e9, out.record.len());
    for v in &out.violations {
        println!("! {} {}: {}", v.property, v.class, v.text);
    }
}

/// Prints the history hash of every run of a range: for comparing two processes.
fn hashes(args: &Args) -> i32 {
    let property = args.get("--property").unwrap_or("C01").to_string();
    let n: u64 = args.get("--runs").and_then(|s| s.parse().ok()).unwrap_or(100);
    let seed: u64 = args.get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers: usize = args.get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let next = AtomicU64::new(0);
    let all = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let run = next.fetch_add(1, Ordering::Relaxed);
                if run >= n {
                    return;
                }
                let f = Focus { property: property.clone(), thorough: false, verbose: None };
                let out = one(family_of(&property, run), &f, || Tape::random(run_seed(seed, &property, run)));
                all.lock().unwrap().insert(run, (out.hash, out.hist.len()));
            });
        }
    });
    for (run, (h, n)) in all.lock().unwrap().iter() {
        println!("{} {:016x} {}", run, h, n);
    }
    0
}

/// Counts the violations of every kind over a range of runs, whatever property they are of.
fn survey(args: &Args) -> i32 {
    let property = args.get("--property").unwrap_or("C01").to_string();
    let n: u64 = args.get("--runs").and_then(|s| s.parse().ok()).unwrap_or(300);
    let seed: u64 = args.get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let next = AtomicU64::new(0);
    let all: Mutex<BTreeMap<(String, String), (u64, u64, usize, String)>> = Default::default();
    let probes: Mutex<BTreeMap<String, u64>> = Default::default();
    let started = Instant::now();
    let slowest = Mutex::new((Duration::ZERO, 0));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let run = next.fetch_add(1, Ordering::Relaxed);
                if run >= n {
                    return;
                }
                let f = Focus { property: property.clone(), thorough: args.has("--thorough"), verbose: None };
                let clock = thread_clock();
                let before = clock_time(clock);
                let out = one(family_of(&property, run), &f, || Tape::random(run_seed(seed, &property, run)));
                {
                    let mut s = slowest.lock().unwrap();
                    *s = (*s).max((clock_time(clock) - before, run));
                }
                for (k, n) in &out.probes {
                    *probes.lock().unwrap().entry(k.to_string()).or_default() += n;
                }
                for (k, n) in &out.counts {
                    *probes.lock().unwrap().entry(format!("~{}", k)).or_default() += n;
                }
                let mut seen = HashSet::new();
                for v in &out.violations {
                    if !seen.insert((v.property, v.class)) {
                        continue;
                    }
                    let mut a = all.lock().unwrap();
                    let e = a.entry((v.property.to_string(), v.class.to_string())).or_insert((0, run, usize::MAX, String::new()));
                    e.0 += 1;
                    if out.hist.len() < e.2 {
                        e.1 = run;
                        e.2 = out.hist.len();
                        e.3 = v.text.clone();
                    }
                }
            });
        }
    });
    for ((p, c), (n, run, len, text)) in all.lock().unwrap().iter() {
        println!("{:4} {:20} x{:<5} run {} ({} events): {}", p, c, n, run, len, text.chars().take(220).collect::<String>());
    }
    if args.has("--probes") {
        for (k, n) in probes.lock().unwrap().iter() {
            println!("   {:30} {}", k, n);
        }
    }
    let (time, run) = *slowest.lock().unwrap();
    println!("slowest run {}: {:.2} s", run, time.as_secs_f64());
    println!("{} runs of {} in {:.2} s", n, property, started.elapsed().as_secs_f64());
    0
}

struct Total {
    evaluations: u64,
    distinct: HashSet<u64>,
    schedules: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    sim_ns: u128,
    steps: u64,
    switches: u64,
    preemptions: u64,
    events: u64,
    samples: Vec<Value>,
    by_family: BTreeMap<&'static str, u64>,
}

struct Found {
    run: u64,
    fam: Fam,
    violation: Violation,
    record: Record,
    stuck: bool,
}

fn check(args: &Args) -> i32 {
    let property = args.get("--property").expect("--property").to_string();
    let dir = PathBuf::from(args.get("--dir").unwrap_or("/verif"));
    let thorough = args.get("--tier").unwrap_or("quick") == "thorough";
    let seed: u64 = args.get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: u64 = args.get("--runs").and_then(|s| s.parse().ok()).unwrap_or_else(|| runs(&property, thorough));
    let cap = Duration::from_secs(args.get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 400 }));
    let workers = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    println!("property {} tier {} seed {} runs {}", property, if thorough { "thorough" } else { "quick" }, seed, n);
    let started = Instant::now();
    let known = known_findings(&dir, &property);
    let next = Arc::new(AtomicU64::new(0));
    let limit = Arc::new(AtomicU64::new(n));
    let total = Arc::new(Mutex::new(Total {
        evaluations: 0,
        distinct: HashSet::new(),
        schedules: HashSet::new(),
        counts: BTreeMap::new(),
        probes: BTreeMap::new(),
        sim_ns: 0,
        steps: 0,
        switches: 0,
        preemptions: 0,
        events: 0,
        samples: Vec::new(),
        by_family: BTreeMap::new(),
    }));
    let found: Arc<Mutex<Vec<Found>>> = Default::default();
    let hit_known: Arc<Mutex<BTreeMap<String, u64>>> = Default::default();
    let busy: Arc<Vec<Mutex<Option<Busy>>>> = Arc::new((0..workers).map(|_| Mutex::new(None)).collect());
    let done = Arc::new(AtomicUsize::new(0));
    for w in 0..workers {
        let (property, known, next, limit, total, found, hit_known, busy, done) =
            (property.clone(), known.clone(), next.clone(), limit.clone(), total.clone(), found.clone(), hit_known.clone(), busy.clone(), done.clone());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                loop {
                    let run = next.fetch_add(1, Ordering::SeqCst);
                    if run >= limit.load(Ordering::SeqCst) || started.elapsed() > cap {
                        break;
                    }
                    *busy[w].lock().unwrap() = Some(Busy::begin(run));
                    let fam = family_of(&property, run);
                    let f = Focus { property: property.clone(), thorough, verbose: None };
                    memory::begin(w);
                    let out = one(fam, &f, || Tape::random(run_seed(seed, &property, run)));
                    memory::end();
                    *busy[w].lock().unwrap() = None;
                    if let Some(v) = out.violations.iter().find(|v| v.class == "harness") {
                        eprintln!("error of the simulator in run {}: {}", run, v.text);
                        std::process::exit(2);
                    }
                    if let Some(v) = hits(&out, &property) {
                        if let Some(k) = known.iter().find(|k| k.covers(v)) {
                            *hit_known.lock().unwrap().entry(k.text.clone()).or_default() += 1;
                        } else {
                            found.lock().unwrap().push(Found { run, fam, violation: v.clone(), record: out.record.clone(), stuck: false });
                            limit.fetch_min(run, Ordering::SeqCst);
                        }
                    }
                    add(&mut total.lock().unwrap(), run, fam, &out);
                }
                done.fetch_add(1, Ordering::SeqCst);
            })
            .expect("worker");
    }
    // Wait, and watch for runs that never come back.
    while done.load(Ordering::SeqCst) < workers {
        std::thread::sleep(Duration::from_millis(10));
        for (w, b) in busy.iter().enumerate() {
            let runaway = memory::RUNAWAY.load(Ordering::SeqCst) == w + 1;
            let stuck = b.lock().unwrap().filter(|b| runaway || b.stuck());
            if let Some(Busy { run, .. }) = stuck {
                let text = if runaway { "the code under test takes more and more memory" } else { "the code under test does not return" };
                let violation = Violation { property: "*", class: "stuck", text: text.into() };
                found.lock().unwrap().push(Found { run, fam: family_of(&property, run), violation, record: Record::default(), stuck: true });
            }
        }
        if found.lock().unwrap().iter().any(|f| f.stuck) {
            break;
        }
    }
    let wall = started.elapsed();
    let first = {
        let mut f = found.lock().unwrap();
        f.sort_by_key(|f| f.run);
        if f.is_empty() { None } else { Some(f.remove(0)) }
    };
    for (text, n) in hit_known.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} (met in {} runs)", property, text, n);
    }
    let mut code = 0;
    if let Some(f) = &first {
        let path = report(&dir, &property, thorough, seed, f);
        println!("violation: {}: {}", f.violation.class, f.violation.text);
        println!("VIOLATION property={} replay={}", property, path.display());
        code = 1;
    }
    evidence(&dir, &property, thorough, seed, &total.lock().unwrap(), wall, first.is_some());
    let t = total.lock().unwrap();
    println!(
        "{} runs, {} distinct non-trivial, {:.1} s of simulated time per run, {:.1} s",
        t.evaluations,
        t.distinct.len(),
        t.sim_ns as f64 / 1e9 / t.evaluations.max(1) as f64,
        wall.as_secs_f64()
    );
    code
}

fn add(t: &mut Total, run: u64, fam: Fam, out: &RunOut) {
    t.evaluations += 1;
    *t.by_family.entry(fam.name()).or_default() += 1;
    if out.nontrivial {
        t.distinct.insert(out.hash);
    }
    t.schedules.insert(sched_hash(out));
    for (k, n) in &out.counts {
        *t.counts.entry(k.to_string()).or_default() += n;
    }
    for (k, n) in &out.probes {
        *t.probes.entry(k.to_string()).or_default() += n;
    }
    t.sim_ns += out.sim_ns as u128;
    t.steps += out.steps;
    t.switches += out.switches;
    t.preemptions += out.preemptions;
    t.events += out.hist.len() as u64;
    if t.samples.len() < 3 && out.nontrivial && out.hist.len() < 400 {
        let events: Vec<String> = out.hist.iter().map(|r| short(r)).collect();
        t.samples.push(json!({ "run": run, "family": fam.name(), "history_hash": format!("{:016x}", out.hash), "history": events }));
    }
}

/// The order in which tasks and peers acted, without data and times.
fn sched_hash(out: &RunOut) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for r in &out.hist {
        (r.task, std::mem::discriminant(&r.ev)).hash(&mut h);
    }
    h.finish()
}

fn short(r: &hist::Rec) -> String {
    let mut s = format!("{:.3}ms t{} {:?}", r.at as f64 / 1e6, r.task as i64, r.ev);
    if s.len() > 160 {
        let mut n = 160;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    s
}

// ---- known findings

#[derive(Clone)]
struct Known {
    class: String,
    contains: String,
    text: String,
}

impl Known {
    fn covers(&self, v: &Violation) -> bool {
        v.class == self.class && v.text.contains(&self.contains)
    }
}

/// Lines `known: property=<id> class=<class> contains="<text>" <what fails>` of the committed file.
fn known_findings(dir: &Path, property: &str) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string(dir.join("known-findings.txt")) else { return Vec::new() };
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} class=", property)))
        .filter_map(|l| {
            let (class, rest) = l.split_once(" contains=\"")?;
            let (contains, text) = rest.split_once("\" ")?;
            Some(Known { class: class.to_string(), contains: contains.to_string(), text: text.to_string() })
        })
        .collect()
}

// ---- shrinking and reporting

fn fails_same(fam: Fam, f: &Focus, r: &Record, v: &Violation) -> Option<RunOut> {
    let out = one(fam, f, || Tape::replay(r));
    let same = hits(&out, &f.property).map_or(false, |x| x.class == v.class && x.property == v.property);
    same.then_some(out)
}

/// Shrinks on a thread of its own: a smaller run may be one that never comes back.
fn shrink(fam: Fam, f: &Focus, first: Record, v: &Violation, budget: Duration) -> (Record, u32) {
    let best = Arc::new(Mutex::new((first.clone(), 0)));
    let (b, f, v) = (best.clone(), f.clone(), v.clone());
    let done = Arc::new(AtomicUsize::new(0));
    let d = done.clone();
    let start = Instant::now();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            memory::begin(usize::MAX - 1);
            shrink_to(fam, &f, first, &v, budget, &b);
            d.store(1, Ordering::SeqCst);
        })
        .expect("thread");
    while done.load(Ordering::SeqCst) == 0 && start.elapsed() < budget + Duration::from_secs(3) {
        std::thread::sleep(Duration::from_millis(5));
    }
    let b = best.lock().unwrap();
    b.clone()
}

fn shrink_to(fam: Fam, f: &Focus, mut best: Record, v: &Violation, budget: Duration, result: &Mutex<(Record, u32)>) {
    let start = Instant::now();
    let mut tried = 0;
    let ok = |r: &Record, tried: &mut u32| {
        *tried += 1;
        result.lock().unwrap().1 = *tried;
        fails_same(fam, f, r, v).map(|o| o.record)
    };
    let cost = |r: &Record| (r.0.iter().flatten().filter(|&&x| x != 0).count(), r.len(), r.0.iter().flatten().map(|&x| x as u64).sum::<u64>());
    let lanes = best.0.len();
    loop {
        let before = cost(&best);
        // Whole lanes, then halves and smaller pieces of them, to zero.
        for lane in [1usize, 4, 2, 3, 0].into_iter().filter(|&l| l < lanes) {
            let mut size = best.0[lane].len();
            while size >= 1 {
                let mut at = 0;
                while at < best.0[lane].len() {
                    if start.elapsed() > budget {
                        return;
                    }
                    let end = (at + size).min(best.0[lane].len());
                    if best.0[lane][at..end].iter().any(|&x| x != 0) {
                        let mut c = best.clone();
                        c.0[lane][at..end].iter_mut().for_each(|x| *x = 0);
                        if let Some(r) = ok(&c, &mut tried) {
                            if cost(&r) < cost(&best) {
                                best = r;
                                result.lock().unwrap().0 = best.clone();
                            }
                        }
                    }
                    at += size;
                }
                size = if size > 8 { size / 4 } else { size / 2 };
            }
        }
        // Removing choices shifts what follows, which sometimes skips whole operations.
        for lane in [0usize, 3, 4].into_iter().filter(|&l| l < lanes) {
            for size in [8usize, 3, 1] {
                let mut at = 0;
                while at + size <= best.0[lane].len() {
                    if start.elapsed() > budget {
                        return;
                    }
                    let mut c = best.clone();
                    c.0[lane].drain(at..at + size);
                    match ok(&c, &mut tried) {
                        Some(r) if cost(&r) < cost(&best) => {
                            best = r;
                            result.lock().unwrap().0 = best.clone();
                        }
                        _ => at += size,
                    }
                }
            }
        }
        // Smaller values.
        for lane in 0..lanes {
            for i in 0..best.0[lane].len() {
                if start.elapsed() > budget {
                    return;
                }
                let Some(&x) = best.0[lane].get(i) else { break };
                for y in [x / 2, x.saturating_sub(1)] {
                    if x > 1 && y < x {
                        let mut c = best.clone();
                        c.0[lane][i] = y;
                        if let Some(r) = ok(&c, &mut tried) {
                            if cost(&r) < cost(&best) {
                                best = r;
                                result.lock().unwrap().0 = best.clone();
                                break;
                            }
                        }
                    }
                }
            }
        }
        if cost(&best) >= before {
            return;
        }
    }
}

fn report(dir: &Path, property: &str, thorough: bool, seed: u64, found: &Found) -> PathBuf {
    let f = Focus { property: property.to_string(), thorough, verbose: None };
    let folder = dir.join("replays");
    std::fs::create_dir_all(&folder).ok();
    let path = folder.join(format!("{}-seed{}-run{}.json", property, seed, found.run));
    let mut j = json!({
        "property": property, "family": found.fam.name(), "thorough": thorough, "seed": seed, "run": found.run,
        "class": found.violation.class, "violation": found.violation.text, "stuck": found.stuck,
    });
    if !found.stuck {
        let (record, tried) = shrink(found.fam, &f, found.record.clone(), &found.violation, Duration::from_secs(15));
        let out = one(found.fam, &f, || Tape::replay(&record));
        let v = hits(&out, property).cloned().unwrap_or(found.violation.clone());
        j["violation"] = json!(v.text);
        j["lanes"] = json!(out.record.0);
        j["history_hash"] = json!(format!("{:016x}", out.hash));
        j["original_choices"] = json!(found.record.len());
        j["minimised_choices"] = json!(out.record.0.iter().flatten().filter(|&&x| x != 0).count());
        j["shrink_runs"] = json!(tried);
        j["faults"] = json!(out.counts);
        j["trace"] = json!(out.hist.iter().map(short).collect::<Vec<_>>());
    }
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n").ok();
    // A fresh process must reproduce it exactly.
    if !found.stuck {
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
        match again {
            Ok(o) if o.status.code() == Some(1) => println!("replayed in a fresh process: reproduced exactly"),
            _ => println!("warning: the replay in a fresh process differed"),
        }
    }
    path
}

fn replay(args: &Args) -> i32 {
    let Some(path) = args.0.get(1) else { return 2 };
    let j: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let property = j["property"].as_str().unwrap_or("").to_string();
    let fam = Fam::parse(j["family"].as_str().unwrap_or("")).expect("family");
    let f = Focus { property: property.clone(), thorough: j["thorough"].as_bool().unwrap_or(false), verbose: None };
    if j["stuck"].as_bool() == Some(true) {
        let (seed, run) = (j["seed"].as_u64().unwrap(), j["run"].as_u64().unwrap());
        let p = property.clone();
        let done = Arc::new(AtomicUsize::new(0));
        let d = done.clone();
        let busy = Arc::new(Mutex::new(None::<Busy>));
        let b = busy.clone();
        std::thread::spawn(move || {
            *b.lock().unwrap() = Some(Busy::begin(run));
            memory::begin(0);
            one(fam, &f, || Tape::random(run_seed(seed, &p, run)));
            memory::end();
            d.store(1, Ordering::SeqCst);
        });
        while !busy.lock().unwrap().map_or(false, |b| b.stuck()) && memory::RUNAWAY.load(Ordering::SeqCst) == 0 {
            if done.load(Ordering::SeqCst) == 1 {
                println!("the run returned");
                return 0;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        println!("VIOLATION property={} replay={}", property, path);
        return 1;
    }
    let lanes: Vec<Vec<u32>> = serde_json::from_value(j["lanes"].clone()).expect("lanes");
    let record = Record(lanes);
    let out = one(fam, &f, || Tape::replay(&record));
    if args.has("-v") {
        print_run(&out);
    }
    let hash = format!("{:016x}", out.hash);
    let same = j["history_hash"].as_str() == Some(&hash);
    match hits(&out, &property) {
        Some(v) if same => {
            println!("violation: {}: {}", v.class, v.text);
            println!("VIOLATION property={} replay={}", property, path);
            1
        }
        Some(v) => {
            println!("a violation, but by another history ({}): {}", hash, v.text);
            println!("VIOLATION property={} replay={}", property, path);
            3
        }
        None => {
            println!("no violation (history {})", hash);
            0
        }
    }
}

// ---- evidence

fn evidence(dir: &Path, property: &str, thorough: bool, seed: u64, t: &Total, wall: Duration, violated: bool) {
    let hours = wall.as_secs_f64() / 3600.0;
    let (mut injected, mut world) = (BTreeMap::new(), BTreeMap::new());
    for (k, n) in &t.counts {
        if matches!(&k[..], "timer-armed" | "remote-disconnect") {
            world.insert(k.clone(), *n);
        } else {
            injected.insert(k.clone(), *n);
        }
    }
    let j = json!({
        "property": property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.distinct.len(),
            "rule": rule(property),
            "samples": t.samples,
            "runs_by_simulated_system": t.by_family,
            "runs_per_hour": (t.evaluations as f64 / hours) as u64,
            "seeds_per_hour": (t.evaluations as f64 / hours) as u64,
            "simulated_seconds": (t.sim_ns / 1_000_000_000) as u64,
            "faults_and_disturbances_injected": injected,
            "peer_actions": world,
            "rare_conditions_reached": t.probes,
            "distinct_interleavings": t.schedules.len(),
            "interleaving_measure": "distinct sequences of (task, kind of event) over whole histories",
            "task_steps": t.steps,
            "task_switches": t.switches,
            "preemptions_within_a_poll": t.preemptions,
            "history_events": t.events,
            "real_components": real(property),
            "stubbed_components": ["sockets and serial line (byte queues with segmentation, delay, back-pressure, end, reset)", "tokio's scheduler and timers (one-thread simulator; tokio's channels, select!, io helpers are the real ones)", "clock (simulated)", "modem, remote station, rig and operator (state machines written for this purpose)", "trace output (formatted in full into a sink)"],
        },
        "assumptions": assumptions(property),
        "wall_s": wall.as_secs_f64(),
        "violations": if violated { 1 } else { 0 },
    });
    let folder = dir.join("evidence");
    std::fs::create_dir_all(&folder).ok();
    let path = folder.join(format!("{}.json", property));
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n").ok();
}

fn assumptions(property: &str) -> Vec<&'static str> {
    let mut a = vec![
        "preemption happens at operations on channels, sockets, timers and tasks, not between plain memory accesses",
        "tokio's channels, select! and io helpers are the real ones and taken to be correct; its scheduler, sockets and timers are replaced",
    ];
    let f = families(property);
    if f.iter().any(|f| matches!(f, Fam::Vara | Fam::App | Fam::Fbb | Fam::Line)) {
        a.push("the simulated modem follows the VARA command protocol as the code and its documentation describe it");
    }
    if f.contains(&Fam::Fbb) {
        a.push("the reference codec and receiver (written for this purpose from the format's definition) represent the standard peer");
    }
    if f.contains(&Fam::Line) {
        a.push("the reference grammar (written for this purpose from the format of the lines) represents what a line says; numbers above 65535 may be refused");
    }
    if f.contains(&Fam::App) {
        a.push("the program runs through its real main with simulated command line, terminal, sockets and serial device");
    }
    if f.contains(&Fam::Rig) {
        a.push("the serial line accepts and delivers bytes in order or fails; the rig's answers are arbitrary bytes");
    }
    a
}

fn rule(property: &str) -> String {
    format!(
        "each case is one simulated run: workload, schedule, network behaviour, peer behaviour and faults drawn from a seed derived from (VERIF_SEED, {}, run number); a run is non-trivial if it made more than one call or opened a session (or what corresponds to it) and switched between tasks, and distinct if its full history differs",
        property
    )
}

fn real(property: &str) -> Vec<&'static str> {
    match property.as_bytes().first() {
        Some(b'R') => vec!["src/rig/elecraft/kx3.rs"],
        Some(b'A') => vec!["src/main.rs", "src/modem/vara.rs", "src/rig/elecraft/kx3.rs", "src/types.rs"],
        Some(b'F') => vec!["src/fbb.rs", "src/lzhuf.rs", "src/crc16.rs", "src/modem/vara.rs"],
        Some(b'X') => vec!["src/main.rs", "src/modem/vara.rs", "src/rig/elecraft/kx3.rs", "src/fbb.rs", "src/lzhuf.rs", "src/crc16.rs", "src/types.rs"],
        Some(b'N') if property == "N02" => vec!["src/fbb.rs", "src/modem/vara.rs", "src/types.rs"],
        _ => vec!["src/modem/vara.rs", "src/types.rs"],
    }
}
