//! Drives a check: proptest generates and shrinks choice tapes, worker threads
//! run the cases, a supervising process turns crashes of the code under test
//! into findings and hangs into errors, and the evidence file is written.

use crate::source::Source;
use crate::sut;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One case being run.
pub struct Ctx<'a> {
    pub s: Source<'a>,
    pub thorough: bool,
    /// Classes this case belongs to.
    pub labels: Vec<&'static str>,
    /// Counts towards `distinct_nontrivial`.
    pub nontrivial: bool,
    /// Identity of the case, for counting distinct ones.
    pub print: u64,
    /// Written-out form (only filled when wanted).
    pub sample: String,
    pub want_sample: bool,
    /// A failure is being narrowed down or shown again: what only happens
    /// sometimes is worth more attempts.
    pub patient: bool,
    /// Files that make the case concrete (module bytes, command lines, ...).
    pub files: Vec<(String, Vec<u8>)>,
    /// Recorded findings this case ran into.
    pub known: Vec<&'static str>,
}

/// A line `known: property=<id> finding=<key> <what fails>` of the file of
/// known findings.
pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

pub fn known_findings() -> &'static Vec<Known> {
    static K: std::sync::OnceLock<Vec<Known>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let text = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
        text.lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (property, l) = l.split_once(" finding=")?;
                let (key, what) = l.split_once(' ')?;
                Some(Known { property: property.into(), key: key.into(), what: what.into() })
            })
            .collect()
    })
}

impl<'a> Ctx<'a> {
    pub fn new(tape: &'a [u32], thorough: bool) -> Ctx<'a> {
        Ctx { s: Source::new(tape), thorough, labels: vec![], nontrivial: false, print: 0, sample: String::new(), want_sample: false, patient: false, files: vec![], known: vec![] }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// The case shows exactly the recorded finding `key` of `property`; it is a
    /// violation unless the file of known findings lists it.
    pub fn known(&mut self, property: &str, key: &'static str, msg: impl FnOnce() -> String) -> Result<(), String> {
        if known_findings().iter().any(|k| k.property == property && k.key == key) {
            if !self.known.contains(&key) {
                self.known.push(key);
            }
            self.label("shows a known finding");
            return Ok(());
        }
        Err(msg())
    }
    /// As `known`, for panics inside a library: the finding is identified by
    /// the library's source line.
    pub fn known_panic(&mut self, property: &str, msg: String) -> Result<(), String> {
        let k = known_findings().iter().find(|k| k.property == property && k.key.contains(".rs:") && msg.contains(&format!("{}: ", k.key)));
        match k {
            Some(k) => {
                if !self.known.contains(&k.key.as_str()) {
                    self.known.push(&k.key);
                }
                self.label("shows a known finding");
                Ok(())
            }
            None => Err(msg),
        }
    }
    pub fn id<H: Hash>(&mut self, h: &H) {
        let mut x = std::collections::hash_map::DefaultHasher::new();
        self.print.hash(&mut x);
        h.hash(&mut x);
        self.print = x.finish();
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let t = f();
            if !self.sample.is_empty() {
                self.sample.push_str("; ");
            }
            self.sample.push_str(&t);
        }
    }
    pub fn file(&mut self, name: &str, data: &[u8]) {
        if self.want_sample {
            self.files.push((name.to_string(), data.to_vec()));
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub tape: usize,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> Result<(), String>,
    /// Run the cases on one thread (they share something external).
    pub serial: bool,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: BTreeSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    known: BTreeSet<&'static str>,
}

pub struct Failure {
    pub tape: Vec<u32>,
    pub msg: String,
}

fn seed_bytes(seed: u64, id: &str, worker: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, c) in out.chunks_mut(8).enumerate() {
        // splitmix64 over (seed, id, worker, i)
        let mut z = seed
            .wrapping_mul(0x9e37_79b9_7f4a_7c15)
            .wrapping_add(worker.wrapping_mul(0xbf58_476d_1ce4_e5b9))
            .wrapping_add(i as u64 + 1);
        for b in id.bytes() {
            z = (z ^ u64::from(b)).wrapping_mul(0x1000_0000_01b3);
        }
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

enum Outcome {
    Held,
    Broken(String),
    HarnessBug(String),
}

fn one(check: &Check, ctx: &mut Ctx) -> Outcome {
    crate::alloc::begin();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (check.run)(ctx)));
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(m)) if m.starts_with("HARNESS:") => Outcome::HarnessBug(m),
        Ok(Err(m)) => Outcome::Broken(m),
        Err(_) if sut::last_panic_is_theirs() => Outcome::Broken(format!("panicked at {}", sut::last_panic())),
        Err(_) => Outcome::HarnessBug(sut::last_panic()),
    }
}

/// One case for the coverage-guided search: what the property's check says of
/// this tape, `None` when it holds (or when the check itself failed, which is
/// for the ordinary run to report).
pub fn try_tape(check: &Check, tape: &[u32], thorough: bool) -> Option<String> {
    let mut ctx = Ctx::new(tape, thorough);
    match one(check, &mut ctx) {
        Outcome::Broken(m) => Some(m),
        Outcome::Held | Outcome::HarnessBug(_) => None,
    }
}

/// The tape that an input of the coverage-guided search stands for: two bytes
/// for a choice, as its upper half, which is what decides most choices.
pub fn tape_of_bytes(data: &[u8]) -> Vec<u32> {
    data.chunks(2).map(|c| u32::from_be_bytes([c[0], *c.get(1).unwrap_or(&0), c[0], *c.get(1).unwrap_or(&0)])).collect()
}

pub fn replay_dir() -> PathBuf {
    verif().join("replays")
}

pub fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// The worker process: runs all cases; exit code 0 held, 1 broken, 3 error.
pub fn work(check: &'static Check, seed: u64, thorough: bool, scratch: &Path, cases_override: Option<u64>) -> i32 {
    sut::install_hook();
    let cases = cases_override.unwrap_or(if thorough { check.thorough } else { check.quick });
    let workers: u64 = if check.serial { 1 } else { 8.min(cases.max(1)) };
    let stop = Arc::new(AtomicBool::new(false));
    let stats = Arc::new(Mutex::new(Stats::default()));
    let failure: Arc<Mutex<Option<Failure>>> = Arc::new(Mutex::new(None));
    let harness: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let started = Instant::now();
    let beats: Arc<Vec<AtomicU64>> = Arc::new((0..workers).map(|_| AtomicU64::new(0)).collect());
    let done = Arc::new(AtomicBool::new(false));
    {
        // The code under test must come to an end; a case that takes minutes
        // for other reasons is inconclusive.
        let beats = beats.clone();
        let done = done.clone();
        let scratch = scratch.to_path_buf();
        let limit = if thorough { 600 } else { 200 };
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            if done.load(Ordering::SeqCst) {
                return;
            }
            for (w, watch) in sut::WATCHES.lock().unwrap().iter() {
                if let Some(msg) = watch.stuck(sut::PATIENCE) {
                    let tape = read_tape(&scratch.join(format!("tape-{w}")));
                    write_evidence(check, seed, thorough, &Stats::default(), started.elapsed().as_secs_f64(), 1, workers);
                    report_violation(check, &Failure { tape, msg }, thorough);
                    std::process::exit(1);
                }
            }
            let now = started.elapsed().as_secs() + 1;
            for b in beats.iter() {
                let t = b.load(Ordering::SeqCst);
                if t != 0 && now > t + limit {
                    println!("ERROR: a case did not finish within {limit} s; inconclusive");
                    std::process::exit(4);
                }
            }
        });
    }
    let handles: Vec<_> = (0..workers)
        .map(|w| {
            let (stop, stats, failure, harness, beats) = (stop.clone(), stats.clone(), failure.clone(), harness.clone(), beats.clone());
            let tape_file = scratch.join(format!("tape-{w}"));
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    sut::Watch::this_thread(w);
                    let n = cases / workers + u64::from(w < cases % workers);
                    let config = Config {
                        cases: n.try_into().unwrap_or(u32::MAX),
                        failure_persistence: None,
                        max_shrink_iters: 6000,
                        max_shrink_time: 0,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, check.id, w));
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let max = check.tape;
                    let strat = proptest::strategy::Union::new_weighted(vec![
                        (1, proptest::collection::vec(proptest::num::u32::ANY, 0..=max / 8).boxed()),
                        (2, proptest::collection::vec(proptest::num::u32::ANY, max / 8..=max / 2).boxed()),
                        (3, proptest::collection::vec(proptest::num::u32::ANY, max / 2..=max).boxed()),
                    ]);
                    let mut local = Stats::default();
                    let local_cell = RefCell::new(&mut local);
                    let failed = RefCell::new(false);
                    let last_msg = RefCell::new(String::new());
                    let shrink_deadline: RefCell<Option<Instant>> = RefCell::new(None);
                    let res = runner.run(&strat, |tape| {
                        if stop.load(Ordering::SeqCst) && !*failed.borrow() {
                            return Ok(());
                        }
                        if let Some(d) = *shrink_deadline.borrow() {
                            // only limits how small the reproduction gets
                            if Instant::now() > d {
                                return Ok(());
                            }
                        }
                        beats[w as usize].store(started.elapsed().as_secs() + 1, Ordering::SeqCst);
                        write_tape(&tape_file, &tape);
                        let mut ctx = Ctx::new(&tape, thorough);
                        let shrinking = *failed.borrow();
                        ctx.patient = shrinking;
                        ctx.want_sample = !shrinking && local_cell.borrow().samples.len() < 2;
                        let out = one(check, &mut ctx);
                        beats[w as usize].store(0, Ordering::SeqCst);
                        if !shrinking {
                            let mut st = local_cell.borrow_mut();
                            st.evaluations += 1;
                            if tape.len() > max / 2 {
                                *st.labels.entry("long tape").or_insert(0) += 1;
                                if ctx.s.used_up() {
                                    *st.labels.entry("long tape, used up").or_insert(0) += 1;
                                }
                            }
                            st.known.extend(ctx.known.iter().copied());
                            for l in &ctx.labels {
                                *st.labels.entry(l).or_insert(0) += 1;
                            }
                            if ctx.nontrivial {
                                st.nontrivial += 1;
                                st.distinct.insert(ctx.print);
                                if ctx.want_sample && !ctx.sample.is_empty() {
                                    st.samples.push(ctx.sample.clone());
                                }
                            }
                        }
                        match out {
                            Outcome::Held => Ok(()),
                            Outcome::Broken(m) => {
                                if !shrinking {
                                    *failed.borrow_mut() = true;
                                    stop.store(true, Ordering::SeqCst);
                                    let secs = if m.contains(sut::NO_END) { 0 } else { 40 };
                                    *shrink_deadline.borrow_mut() = Some(Instant::now() + Duration::from_secs(secs));
                                }
                                *last_msg.borrow_mut() = m.clone();
                                Err(TestCaseError::fail(m))
                            }
                            Outcome::HarnessBug(m) => {
                                *harness.lock().unwrap() = Some(format!("{m} (tape in {})", tape_file.display()));
                                stop.store(true, Ordering::SeqCst);
                                Ok(())
                            }
                        }
                    });
                    if let Err(TestError::Fail(_, tape)) = &res {
                        let mut f = failure.lock().unwrap();
                        if f.is_none() {
                            // message of the shrunk case
                            let mut msg = last_msg.borrow().clone();
                            if !msg.contains(sut::NO_END) {
                                let mut ctx = Ctx::new(tape, thorough);
                                ctx.patient = true;
                                if let Outcome::Broken(m) = one(check, &mut ctx) {
                                    msg = m;
                                }
                            }
                            *f = Some(Failure { tape: tape.clone(), msg });
                        }
                    } else if let Err(TestError::Abort(r)) = &res {
                        *harness.lock().unwrap() = Some(format!("proptest aborted: {r}"));
                    }
                    drop(local_cell);
                    let mut all = stats.lock().unwrap();
                    all.evaluations += local.evaluations;
                    all.nontrivial += local.nontrivial;
                    all.distinct.extend(local.distinct);
                    for (k, v) in local.labels {
                        *all.labels.entry(k).or_insert(0) += v;
                    }
                    all.samples.extend(local.samples);
                    all.known.extend(local.known);
                })
                .unwrap()
        })
        .collect();
    for h in handles {
        let _ = h.join();
    }
    done.store(true, Ordering::SeqCst);
    let st = stats.lock().unwrap();
    let f = failure.lock().unwrap().take();
    let violations = usize::from(f.is_some());
    write_evidence(check, seed, thorough, &st, started.elapsed().as_secs_f64(), violations, workers);
    if let Some(h) = harness.lock().unwrap().take() {
        println!("ERROR: the check itself failed: {h}");
        return 3;
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        check.id,
        st.evaluations,
        st.distinct.len(),
        started.elapsed().as_secs_f64()
    );
    let longest = sut::WATCHES.lock().unwrap().iter().map(|w| w.1.longest()).fold(0.0, f64::max);
    println!("  longest call into the code under test: {longest:.2} s of processor time");
    for (k, v) in &st.labels {
        println!("  {k}: {v}");
    }
    for k in known_findings() {
        if k.property == check.id && st.known.contains(k.key.as_str()) {
            println!("KNOWN-FINDING: property={} {}", k.property, k.what);
        }
    }
    match f {
        None => 0,
        Some(f) => {
            report_violation(check, &f, thorough);
            1
        }
    }
}

/// Names can have control characters.
fn printable(m: &str) -> String {
    m.chars().map(|c| if c.is_control() && c != '\n' && c != '\t' { c.escape_default().to_string() } else { c.to_string() }).collect()
}

pub fn report_violation(check: &Check, f: &Failure, thorough: bool) {
    let path = write_replay(check, f, thorough);
    println!("{}", printable(&f.msg));
    println!("VIOLATION property={} replay={}", check.id, path.display());
}

fn write_replay(check: &Check, f: &Failure, thorough: bool) -> PathBuf {
    let dir = replay_dir();
    let _ = std::fs::create_dir_all(&dir);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    f.tape.hash(&mut h);
    let base = format!("{}-{:08x}", check.id, h.finish() as u32);
    let path = dir.join(format!("{base}.replay"));
    // Re-run once more to write out the concrete inputs.
    let mut ctx = Ctx::new(&f.tape, thorough);
    ctx.want_sample = true;
    if !f.msg.contains("killed by signal") && !f.msg.contains(sut::NO_END) {
        let _ = one(check, &mut ctx);
    }
    let mut t = String::new();
    t.push_str(&format!("property {}\n", check.id));
    t.push_str(&format!("tier {}\n", if thorough { "thorough" } else { "quick" }));
    t.push_str("tape");
    for v in &f.tape {
        t.push_str(&format!(" {v}"));
    }
    t.push('\n');
    for l in printable(&f.msg).lines() {
        t.push_str(&format!("# {l}\n"));
    }
    for l in printable(&ctx.sample).lines() {
        t.push_str(&format!("# case: {l}\n"));
    }
    for (n, d) in &ctx.files {
        let p = dir.join(format!("{base}-{n}"));
        let _ = std::fs::write(&p, d);
        t.push_str(&format!("# file: {}\n", p.display()));
    }
    t.push_str(&format!("# rerun: {}/run.sh replay {}\n", verif().display(), path.display()));
    std::fs::write(&path, t).expect("write replay file");
    path
}

pub fn read_replay(path: &Path) -> Result<(String, bool, Vec<u32>), String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let mut id = String::new();
    let mut thorough = false;
    let mut tape = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("property ") {
            id = r.trim().into();
        } else if let Some(r) = l.strip_prefix("tier ") {
            thorough = r.trim() == "thorough";
        } else if let Some(r) = l.strip_prefix("tape") {
            tape = r.split_whitespace().map(|x| x.parse().map_err(|e| format!("tape: {e}"))).collect::<Result<_, String>>()?;
        }
    }
    Ok((id, thorough, tape))
}

pub fn write_tape(p: &Path, tape: &[u32]) {
    let mut b = Vec::with_capacity(tape.len() * 4);
    for v in tape {
        b.extend_from_slice(&v.to_le_bytes());
    }
    let _ = std::fs::write(p, b);
}

pub fn read_tape(p: &Path) -> Vec<u32> {
    std::fs::read(p).unwrap_or_default().chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}

/// Run a single tape in this process: 0 held, 1 broken, 3 error.
pub fn single(check: &'static Check, thorough: bool, tape: Vec<u32>, verbose: bool) -> i32 {
    sut::install_hook();
    let (send, watch) = std::sync::mpsc::channel();
    let case = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            send.send(sut::Watch::this_thread(0)).unwrap();
            let mut ctx = Ctx::new(&tape, thorough);
            ctx.want_sample = verbose;
            ctx.patient = true;
            let r = one(check, &mut ctx);
            if verbose {
                println!("case: {}", printable(&ctx.sample));
                println!("labels: {:?} nontrivial: {}", ctx.labels, ctx.nontrivial);
            }
            match r {
                Outcome::Held => {
                    if verbose {
                        println!("the property holds on this case");
                    }
                    0
                }
                Outcome::Broken(m) => {
                    println!("{}", printable(&m));
                    1
                }
                Outcome::HarnessBug(m) => {
                    println!("ERROR: the check itself failed: {m}");
                    3
                }
            }
        })
        .unwrap();
    let watch = watch.recv().expect("the case runs");
    while !case.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        if let Some(m) = watch.stuck(sut::PATIENCE) {
            println!("{m}");
            return 1;
        }
    }
    case.join().unwrap_or(3)
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(check: &Check, seed: u64, thorough: bool, st: &Stats, wall: f64, violations: usize, workers: u64) {
    let mut samples: Vec<String> = st.samples.iter().take(6).map(|s| s.chars().take(900).collect()).collect();
    samples.dedup();
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {v}", q(k))).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"classes\": {{{}}},\n  \"workers\": {workers}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {violations}\n}}\n",
        q(check.id),
        q(if thorough { "thorough" } else { "quick" }),
        st.evaluations,
        st.distinct.len(),
        q(check.rule),
        samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "),
        labels.join(", "),
        check.assumptions.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "),
        wall
    );
    let dir = std::env::var_os("TWV_EVIDENCE_DIR").map(PathBuf::from).unwrap_or_else(|| verif().join("evidence"));
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", check.id)), text).expect("write evidence");
}

/// Add the coverage-guided search to the evidence of this run.
pub fn add_guided(check: &Check, executions: u64, edges: u64, violations: i32) {
    let dir = std::env::var_os("TWV_EVIDENCE_DIR").map(PathBuf::from).unwrap_or_else(|| verif().join("evidence"));
    let path = dir.join(format!("{}.json", check.id));
    let Ok(text) = std::fs::read_to_string(&path) else { return };
    let text = text.replacen("  \"workers\":", &format!("  \"guided_executions\": {executions},\n  \"guided_edges_covered\": {edges},\n  \"workers\":"), 1);
    let text = if violations > 0 { text.replacen("\"violations\": 0", &format!("\"violations\": {violations}"), 1) } else { text };
    let _ = std::fs::write(&path, text);
}
