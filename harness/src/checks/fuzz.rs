//! C15: nothing makes the wasm path crash.

use crate::graph::Graph;
use crate::mutate;
use crate::runner::{Check, Ctx};
use crate::select;
use crate::sut;
use crate::wasm::{self, WasmOpts};
use twiggy_ir as ir;

pub static CHECKS: &[&Check] = &[&Check {
    id: "C15",
    rule: "generated modules with damage inside (bytes, numbers, counts, function bodies, name maps, sections removed, repeated, reordered, taken from another module), byte strings, and very long or very wide valid modules; every report in every format on what still parses; non-trivial: the parser accepts a damaged module, or rejects it past the header",
    assumptions: &[
        "run with overflow checks and debug assertions",
        "the explicit depth limit of paths is kept below 2000, see the recorded finding",
        "time and memory proportional to the size of the report asked for are not failures",
    ],
    tape: 1400,
    quick: 400_000,
    thorough: 8_000_000,
    run: c15,
    serial: false,
}];

/// Everything twiggy can say about `items`; only whether it survives matters.
/// `deep` leaves out reports whose text is quadratic in the depth.
pub fn all_reports(c: &mut Ctx, items: &mut ir::Items, other: Option<&mut ir::Items>, deep: bool) -> Result<(), String> {
    let names: Vec<String> = sut::catch("reading the items", || items.iter().take(40).map(|i| i.name().to_string()).collect())?;
    let some = |c: &mut Ctx| -> Vec<String> { select::generate(&mut c.s, &names, 3).args() };
    let fmt = |c: &mut Ctx, deep: bool| -> String {
        if deep {
            c.s.pick(&["json", "csv"]).to_string()
        } else {
            c.s.pick(&["text", "json", "csv"]).to_string()
        }
    };
    let mut runs: Vec<Vec<String>> = vec![];
    for k in 0..6 {
        let mut a: Vec<String> = vec![];
        let num = |c: &mut Ctx| match c.s.below(6) {
            0 => 0,
            1 => u32::MAX,
            2 => c.s.u32_any(),
            _ => c.s.below(9) as u32,
        };
        match k {
            0 => {
                a.extend(sut::argv(&["top", "x"]));
                if c.s.chance(1, 3) {
                    a.push("--retained".into());
                }
                if c.s.chance(1, 2) {
                    a.extend(["-n".to_string(), num(c).to_string()]);
                }
                if c.s.chance(1, 30) {
                    a.push("-r".into());
                }
            }
            1 => {
                a.extend(sut::argv(&["dominators", "x"]));
                if c.s.chance(1, 2) {
                    a.extend(some(c));
                }
                if c.s.chance(1, 3) {
                    a.extend(["-d".to_string(), num(c).to_string()]);
                }
                if deep {
                    // below each of the selected items
                    a.extend(["-r".to_string(), num(c).min(100).to_string()]);
                } else if c.s.chance(1, 3) {
                    a.extend(["-r".to_string(), num(c).to_string()]);
                }
            }
            2 => {
                a.extend(sut::argv(&["paths", "x"]));
                if c.s.chance(1, 2) || deep {
                    a.extend(some(c));
                }
                // the number of rows is exponential in these
                let (d, r) = match c.s.below(3) {
                    0 => (c.s.below(5) as u32, c.s.below(5) as u32),
                    1 => (if deep { c.s.below(100) as u32 } else { num(c).min(2000) }, 1),
                    _ => (c.s.below(2) as u32, num(c)),
                };
                a.extend(["-d".to_string(), d.to_string(), "-r".to_string(), r.to_string()]);
                if c.s.chance(1, 2) {
                    a.push("--descending".into());
                }
            }
            3 => {
                a.extend(sut::argv(&["monos", "x"]));
                if c.s.chance(1, 3) {
                    a.extend(some(c));
                }
                for o in ["-m", "-n"] {
                    if c.s.chance(1, 3) {
                        a.extend([o.to_string(), num(c).to_string()]);
                    }
                }
                for o in ["-a", "-g", "--all-generics", "--all-monos"] {
                    if c.s.chance(1, 6) {
                        a.push(o.into());
                    }
                }
            }
            4 => {
                a.extend(sut::argv(&["garbage", "x"]));
                if c.s.chance(1, 2) {
                    a.extend(["-n".to_string(), num(c).to_string()]);
                }
                for o in ["-a", "--show-data-segments"] {
                    if c.s.chance(1, 3) {
                        a.push(o.into());
                    }
                }
            }
            _ => {
                if other.is_none() {
                    continue;
                }
                a.extend(sut::argv(&["diff", "x", "y"]));
                if c.s.chance(1, 3) {
                    a.extend(some(c));
                }
                if c.s.chance(1, 2) {
                    a.extend(["-n".to_string(), num(c).to_string()]);
                }
                if c.s.chance(1, 3) {
                    a.push("-a".into());
                }
            }
        }
        let quadratic = deep && (k == 1 || k == 2);
        a.extend(["-f".to_string(), fmt(c, quadratic)]);
        if k == 3 || k == 0 {
            // duplicated flags are usage errors
            let mut seen = std::collections::BTreeSet::new();
            a.retain(|x| !x.starts_with('-') || seen.insert(x.clone()));
        }
        runs.push(a);
    }
    // any order: results may not depend on what was computed before
    c.s.shuffle(&mut runs);
    let mut other = other;
    for a in runs {
        let o = if a[0] == "diff" { other.as_deref_mut() } else { None };
        let r = match sut::run(items, o, &a) {
            // Every selected item of a long chain brings the rest of the chain.
            Err(m) if deep && m.starts_with(sut::TOO_LONG) => {
                c.label("too long a report");
                continue;
            }
            r => r?,
        };
        if let Err(e) = r {
            c.label_if(!e.contains("not yet implemented"), "a report returns an error");
        }
    }
    Ok(())
}

fn small(c: &mut Ctx) -> Vec<u8> {
    let o = WasmOpts { max_funcs: 8, odd_names: c.s.chance(1, 4), generics: c.s.chance(1, 4), sparse: false, unique: !c.s.chance(1, 4), telling_names: c.s.chance(1, 4), pad: c.s.chance(1, 4), big: false };
    let m = wasm::generate(&mut c.s, &o);
    wasm::encode(&m).0
}

/// A valid module that is long in one respect.
pub fn long(c: &mut Ctx, n: usize) -> (Vec<u8>, &'static str) {
    use mutate::leb;
    let kind = c.s.below(7);
    let mut m = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    let sec = |id: u8, body: Vec<u8>, m: &mut Vec<u8>| {
        m.push(id);
        leb(body.len() as u64, m);
        m.extend(body);
    };
    let count = |k: usize| {
        let mut v = vec![];
        leb(k as u64, &mut v);
        v
    };
    sec(1, vec![1, 0x60, 0, 0], &mut m);
    let mut f = count(n);
    f.extend(std::iter::repeat(0).take(n));
    sec(3, f, &mut m);
    if kind == 4 {
        let mut t = vec![1, 0x70, 0];
        leb(n as u64, &mut t);
        sec(4, t, &mut m);
    }
    let root = c.s.below(2);
    let mut e = vec![1, 1, b'r', 0];
    leb(if root == 0 { 0 } else { n as u64 - 1 }, &mut e);
    sec(7, e, &mut m);
    if kind == 4 {
        let mut v = vec![1, 0, 0x41, 0, 0x0b];
        leb(n as u64, &mut v);
        for i in 0..n {
            leb(i as u64, &mut v);
        }
        sec(9, v, &mut m);
    }
    let mut code = count(n);
    for i in 0..n {
        let mut b = vec![0];
        let call = |t: usize, b: &mut Vec<u8>| {
            b.push(0x10);
            leb(t as u64, b);
        };
        match kind {
            // a chain, forwards or backwards
            0 | 1 => {
                if root == 0 && i + 1 < n {
                    call(i + 1, &mut b);
                } else if root == 1 && i > 0 {
                    call(i - 1, &mut b);
                }
            }
            // one caller of all; one callee of all
            2 if i == 0 => (0..n).for_each(|t| call(t, &mut b)),
            3 => call(n - 1, &mut b),
            // a ring, with a chord each
            5 => {
                call((i + 1) % n, &mut b);
                call((i * 7 + 3) % n, &mut b);
            }
            // nested blocks
            6 if i == 0 => {
                b.extend(std::iter::repeat([0x02, 0x40]).take(n).flatten());
                b.extend(std::iter::repeat(0x0b).take(n));
            }
            _ => {}
        }
        b.push(0x0b);
        leb(b.len() as u64, &mut code);
        code.extend(b);
    }
    sec(10, code, &mut m);
    (m, ["a long chain", "a long chain", "one caller of all", "one callee of all", "a large table", "a large ring", "deep nesting"][kind])
}

/// The recorded finding: `paths` follows an explicit depth limit by recursion.
fn probe_depth(c: &mut Ctx) -> Result<(), String> {
    static DONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    if DONE.swap(true, std::sync::atomic::Ordering::SeqCst) {
        return Ok(());
    }
    let Some(exe) = std::env::var_os("TWV_TWIGGY") else { return Ok(()) };
    let (m, _) = long(&mut Ctx::new(&[], false), 100_000);
    let dir = super::scratch("c15")?;
    let p = dir.path.join("chain.wasm");
    std::fs::write(&p, &m).map_err(|e| format!("HARNESS: {e}"))?;
    for (dir, item) in [("--descending", "code[0]"), ("-f", "code[99999]")] {
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg("paths").arg(&p).arg(item).args(["-d", "4000000000", "-r", "2"]);
        if dir == "-f" {
            cmd.args(["-f", "json"]);
        } else {
            cmd.args([dir, "-f", "json"]);
        }
        let child = cmd.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().map_err(|e| format!("HARNESS: {e}"))?;
        sut::limit(child.id());
        let out = child.wait_with_output().map_err(|e| format!("HARNESS: {e}"))?;
        use std::os::unix::process::ExitStatusExt;
        match out.status.signal() {
            None => {}
            Some(6) if String::from_utf8_lossy(&out.stderr).contains("overflowed its stack") => {
                c.known("C15", "paths-depth", || format!("twiggy paths {item} -d 4000000000 {dir} on a chain of 100000 calls overflows the stack"))?;
            }
            Some(s) => return Err(format!("twiggy paths {item} -d 4000000000 on a chain of 100000 calls is killed by signal {s}: {}", String::from_utf8_lossy(&out.stderr))),
        }
    }
    Ok(())
}

fn c15(c: &mut Ctx) -> Result<(), String> {
    probe_depth(c)?;
    let kind = c.s.weighted(&[2600, 240, 120, 1]);
    if kind == 3 {
        let n = c.s.range(1000, 10_000);
        let (m, what) = long(c, n);
        c.label(what);
        c.id(&m);
        c.sample(|| format!("{what}, {n} functions"));
        c.nontrivial = true;
        let mut items = sut::must_parse(&m)?;
        // Recursion as deep as the module would not fit into this stack.
        let worker = sut::worker();
        return std::thread::scope(|sc| {
            let all = || {
                sut::Watch::this_thread(worker);
                all_reports(c, &mut items, None, true)
            };
            let h = std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(sc, all).expect("start thread");
            h.join().unwrap_or_else(|_| Err("HARNESS: the reporting thread panicked".into()))
        });
    }
    let bytes = match kind {
        0 => {
            let base = small(c);
            let other = if c.s.chance(1, 3) { small(c) } else { base.clone() };
            mutate::module(&mut c.s, &base, &other)
        }
        1 => {
            // cut off, or with something behind it
            let mut b = small(c);
            if c.s.chance(3, 4) {
                let k = c.s.below(b.len() + 1);
                b.truncate(k);
            } else {
                let n = c.s.below(12);
                for _ in 0..n {
                    b.push(c.s.raw() as u8);
                }
            }
            b
        }
        _ => {
            let n = c.s.below(60);
            let mut b: Vec<u8> = (0..n).map(|_| c.s.raw() as u8).collect();
            if c.s.chance(1, 2) {
                b.splice(0..0, [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]);
            }
            b
        }
    };
    c.label(["damaged module", "cut module", "bytes"][kind]);
    c.id(&bytes);
    c.sample(|| format!("{} bytes: {}", bytes.len(), bytes.iter().take(160).map(|b| format!("{b:02x}")).collect::<String>()));
    c.file("input.wasm", &bytes);
    match sut::parse_wasm(&bytes)? {
        Err(_) => {
            c.label("rejected");
            c.nontrivial = bytes.len() > 8 && bytes.starts_with(&[0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]);
            Ok(())
        }
        Ok(mut items) => {
            c.label("accepted");
            c.nontrivial = true;
            let g: Option<Graph> = Some(sut::view(&items)?.0);
            let mut other = None;
            if c.s.chance(1, 3) {
                let b = small(c);
                other = Some(if c.s.chance(1, 2) { g.unwrap().build(0).0 } else { sut::must_parse(&b)? });
            }
            all_reports(c, &mut items, other.as_mut(), false)
        }
    }
}
