//! twv check ID | twv replay FILE | twv list
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{exit, Command};
use twv::{checks, runner};

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn find(id: &str) -> &'static runner::Check {
    match checks::all().iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no check {id}");
            exit(2)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed = env_u64("VERIF_SEED", 1);
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in checks::all() {
                println!("{} quick={} thorough={}", c.id, c.quick, c.thorough);
            }
        }
        Some("check") => {
            let check = find(&a[2]);
            let mut rc = supervise(check, thorough);
            if let (0, true, Ok(fuzzer)) = (rc, thorough, std::env::var("TWV_FUZZ")) {
                rc = guided(check, &fuzzer, seed);
            }
            exit(rc)
        }
        Some("worker") => {
            let cases = std::env::var("TWV_CASES").ok().and_then(|v| v.parse().ok());
            exit(runner::work(find(&a[2]), seed, thorough, &PathBuf::from(&a[3]), cases))
        }
        Some("single") => {
            let tape = runner::read_tape(&PathBuf::from(&a[3]));
            exit(runner::single(find(&a[2]), thorough, tape, false))
        }
        Some("replay") => {
            let (id, th, tape) = match runner::read_replay(&PathBuf::from(&a[2])) {
                Ok(x) => x,
                Err(e) => {
                    eprintln!("{e}");
                    exit(2)
                }
            };
            let rc = runner::single(find(&id), th, tape, true);
            if rc == 1 {
                println!("VIOLATION property={id} replay={}", a[2]);
            }
            exit(rc)
        }
        _ => {
            eprintln!("usage: twv check ID | replay FILE | list");
            exit(2)
        }
    }
}

/// Run the cases in a child, so that a crash of the code under test (stack
/// overflow, abort) is seen, confirmed on its own tape, and reported.
fn supervise(check: &'static runner::Check, thorough: bool) -> i32 {
    let scratch = std::env::temp_dir().join(format!("twv-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let exe = std::env::current_exe().expect("own path");
    let st = Command::new(&exe).args(["worker", check.id]).arg(&scratch).env("TWV_SCRATCH", &scratch).status().expect("start worker");
    let mut rc = match (st.code(), st.signal()) {
        (Some(c), _) => c,
        (None, Some(sig)) => {
            println!("the worker process was killed by signal {sig}");
            let mut found = 3;
            if sig != 9 {
                let mut files: Vec<_> = std::fs::read_dir(&scratch).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
                files.sort();
                for f in files {
                    if crashes(&exe, check.id, &f) {
                        let tape = shrink_crash(&exe, check.id, runner::read_tape(&f), &scratch);
                        let fail = runner::Failure { tape, msg: format!("the process running this case was killed by signal {sig} (stack overflow, abort, or more memory filled than 1 GB)") };
                        runner::report_violation(check, &fail, thorough);
                        found = 1;
                        break;
                    }
                }
                if found != 1 {
                    println!("ERROR: the crash did not reproduce on any single case");
                }
            }
            found
        }
        _ => 3,
    };
    if let Ok(v) = std::env::var("TWV_KEEP") {
        println!("kept {} ({v})", scratch.display());
    } else {
        let _ = std::fs::remove_dir_all(&scratch);
    }
    if rc != 0 && rc != 1 && rc < 2 {
        rc = 3;
    }
    rc
}

fn crashes(exe: &PathBuf, id: &str, tape: &PathBuf) -> bool {
    let st = Command::new(exe).args(["single", id]).arg(tape).output().expect("start single");
    matches!(st.status.signal(), Some(s) if s != 9)
}

/// A crash cannot be shrunk in-process; cut the tape with one process per try.
fn shrink_crash(exe: &PathBuf, id: &str, mut tape: Vec<u32>, scratch: &PathBuf) -> Vec<u32> {
    let f = scratch.join("shrink");
    let try_ = |t: &[u32]| {
        let b: Vec<u8> = t.iter().flat_map(|v| v.to_le_bytes()).collect();
        std::fs::write(&f, b).expect("write tape");
        crashes(exe, id, &f)
    };
    let mut budget = 120;
    let mut chunk = tape.len() / 2;
    while chunk > 0 && budget > 0 {
        let mut i = 0;
        while i < tape.len() && budget > 0 {
            budget -= 1;
            let mut t = tape.clone();
            t.drain(i..(i + chunk).min(t.len()));
            if try_(&t) {
                tape = t;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    tape
}

/// The coverage-guided search of the thorough tier: libFuzzer, with the check
/// as its target (`fuzz/`), in `TWV_FUZZ_JOBS` processes for
/// `TWV_FUZZ_SECONDS`. What stops it counts only when the tape alone shows it
/// again here.
fn guided(check: &'static runner::Check, fuzzer: &str, seed: u64) -> i32 {
    let seconds = env_u64("TWV_FUZZ_SECONDS", 240);
    let jobs = env_u64("TWV_FUZZ_JOBS", 8);
    let scratch = std::env::temp_dir().join(format!("twv-guided-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let exe = std::env::current_exe().expect("own path");
    let mut children = vec![];
    for j in 0..jobs {
        let dir = scratch.join(format!("{j}"));
        let corpus = dir.join("corpus");
        std::fs::create_dir_all(&corpus).expect("corpus directory");
        let mut x = (seed << 8 | j).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
        for i in 0..40 {
            let len = [60, 200, 800, 1600][i % 4];
            let bytes: Vec<u8> = (0..len)
                .map(|_| {
                    x = x.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
                    (x >> 56) as u8
                })
                .collect();
            std::fs::write(corpus.join(format!("r{i}")), bytes).expect("write corpus");
        }
        let log = std::fs::File::create(dir.join("log")).expect("log");
        let child = Command::new(fuzzer)
            .arg(format!("-max_total_time={seconds}"))
            .arg(format!("-seed={}", (seed * 64 + j) % 0x7fff_ffff + 1))
            .arg(format!("-max_len={}", check.tape * 2))
            .args(["-len_control=0", "-timeout=120", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-detect_leaks=0", "-print_final_stats=1"])
            .arg(format!("-artifact_prefix={}/", dir.display()))
            .arg(&corpus)
            .env("TWV_CHECK", check.id)
            .env("TWV_SCRATCH", &dir)
            .stdout(std::process::Stdio::null())
            .stderr(log)
            .spawn();
        match child {
            Ok(c) => children.push((dir, c)),
            Err(e) => println!("the coverage-guided search did not start: {e}"),
        }
    }
    let (mut executions, mut edges) = (0u64, 0u64);
    let mut found = 0;
    for (dir, mut child) in children {
        let _ = child.wait();
        let log = String::from_utf8_lossy(&std::fs::read(dir.join("log")).unwrap_or_default()).into_owned();
        let after = |l: &str, k: &str| l.split(k).nth(1).and_then(|r| r.split_whitespace().next()).and_then(|n| n.parse::<u64>().ok());
        let mut last = 0;
        for l in log.lines() {
            last = last.max(after(l, "number_of_executed_units:").unwrap_or(0));
            if l.starts_with('#') {
                last = last.max(l[1..].split_whitespace().next().and_then(|n| n.parse().ok()).unwrap_or(0));
                edges = edges.max(after(l, "cov:").unwrap_or(0));
            }
        }
        executions += last;
        let mut stops: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        stops.retain(|p: &PathBuf| {
            let n = p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
            n.starts_with("crash-") || n.starts_with("timeout-") || n.starts_with("oom-")
        });
        for p in stops {
            if found == 1 {
                break;
            }
            let tape = runner::tape_of_bytes(&std::fs::read(&p).unwrap_or_default());
            let f = scratch.join("tape");
            runner::write_tape(&f, &tape);
            match fails(&exe, check.id, &f) {
                Some(_) => {
                    let (tape, msg) = shrink_outside(&exe, check.id, tape, &scratch);
                    runner::report_violation(check, &runner::Failure { tape, msg }, true);
                    found = 1;
                }
                None => println!("the coverage-guided search stopped at {}, which does not show it again", p.display()),
            }
        }
    }
    println!("coverage-guided: {executions} executions, {edges} edges covered");
    runner::add_guided(check, executions, edges, found);
    let _ = std::fs::remove_dir_all(&scratch);
    found
}

/// What this tape shows in a process of its own, if it breaks the property.
fn fails(exe: &PathBuf, id: &str, tape: &PathBuf) -> Option<String> {
    let out = Command::new(exe).args(["single", id]).arg(tape).output().expect("start single");
    match (out.status.code(), out.status.signal()) {
        (Some(1), _) => Some(String::from_utf8_lossy(&out.stdout).trim_end().to_string()),
        (_, Some(s)) if s != 9 => Some(format!("the process running this case was killed by signal {s} (stack overflow, abort, or more memory filled than 1 GB)")),
        _ => None,
    }
}

/// Cut a failing tape, and make its values simpler, with one process per try.
fn shrink_outside(exe: &PathBuf, id: &str, mut tape: Vec<u32>, scratch: &PathBuf) -> (Vec<u32>, String) {
    let f = scratch.join("shrink");
    let try_ = |t: &[u32]| {
        runner::write_tape(&f, t);
        fails(exe, id, &f)
    };
    let mut msg = try_(&tape).unwrap_or_default();
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(60);
    for zero in [false, true, false] {
        let mut chunk = (tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < tape.len() && std::time::Instant::now() < deadline {
                let mut t = tape.clone();
                let end = (i + chunk).min(t.len());
                if zero {
                    if t[i..end].iter().all(|v| *v == 0) {
                        i += chunk;
                        continue;
                    }
                    t[i..end].fill(0);
                } else {
                    t.drain(i..end);
                }
                match try_(&t) {
                    Some(m) => {
                        tape = t;
                        msg = m;
                        if zero {
                            i += chunk;
                        }
                    }
                    None => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
    }
    (tape, msg)
}
