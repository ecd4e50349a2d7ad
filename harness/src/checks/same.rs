//! C27: a report depends on the content of the files and the options alone.

use super::cli::{binary, finish_with, fresh_dir, module, object, write};
use crate::cmdline::{self, Verb};
use crate::graph::{self, GraphOpts};
use crate::runner::{Check, Ctx};
use crate::sut;
use std::ffi::OsString;
use std::path::PathBuf;
use structopt::StructOpt;
use twiggy_ir as ir;
use twiggy_opt::{self as opt, CommonCliOptions};
use twiggy_parser as parser;
use twiggy_traits as traits;

pub static CHECKS: &[&Check] = &[&Check {
    id: "C27",
    rule: "graphs, modules and object files with many equal sizes and names, any command with any options; the report of freshly loaded copies, several times in this thread and in others, from copies under other paths, and by new processes with other environments; non-trivial: the report has at least four lines (or 100 bytes), and of the items at least two have the same size",
    assumptions: &["each hash table of the code under test has its own random order, so two runs in one process differ in it as two processes do"],
    tape: 1200,
    quick: 120_000,
    thorough: 4_000_000,
    run: c27,
    serial: false,
}];

/// One way to get an input again.
enum Input {
    Graph(graph::Graph, usize),
    /// Where its copies are.
    File(Vec<PathBuf>),
}

impl Input {
    fn load(&self, k: usize) -> Result<ir::Items, String> {
        match self {
            Input::Graph(g, layout) => Ok(g.build(*layout).0),
            Input::File(p) => parser::read_and_parse(&p[k % p.len()], traits::ParseMode::Auto).map_err(|e| format!("a well-formed input is rejected: {e}")),
        }
    }
}

fn report(inputs: &[Input], o: &opt::Options, k: usize) -> Result<Result<Vec<u8>, String>, String> {
    sut::catch("loading, analyzing and reporting", || {
        let mut a = inputs[0].load(k)?;
        let mut b = match inputs.get(1) {
            Some(i) => Some(i.load(k)?),
            None => None,
        };
        let mut buf = sut::Sink::default();
        let data = match sut::analyze(&mut a, b.as_mut(), o) {
            Ok(d) => d,
            Err(e) => return Ok(Err(e.to_string())),
        };
        Ok(data.emit(&a, &mut buf, o.output_format()).map(|_| buf.0).map_err(|e| e.to_string()))
    })?
}

fn show(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) => String::from_utf8_lossy(&b[..b.len().min(2500)]).into_owned(),
        Err(e) => format!("error: {e}"),
    }
}

fn c27(c: &mut Ctx) -> Result<(), String> {
    let verb = *c.s.pick(cmdline::CMDS);
    c.label(cmdline::name(verb));
    let kind = c.s.weighted(&[6, 3, 1]);
    let (mut inputs, mut names, mut names_on_disk) = (vec![], vec![], vec![]);
    let mut ties = false;
    let dir = if kind > 0 { Some(fresh_dir()?) } else { None };
    // often versions of one another
    let related = c.s.chance(1, 2);
    for i in 0..1 + usize::from(verb == Verb::Diff) {
        let input = match kind {
            0 => {
                let o = GraphOpts { max_nodes: 24, dup_names: c.s.chance(1, 2), odd_names: c.s.chance(1, 6), generics: true, sparse: verb == Verb::Paths, large: (0, 0) };
                let mut g = match inputs.first() {
                    Some(Input::Graph(g, _)) if related => {
                        let mut g = g.clone();
                        let by = c.s.below(3) as u32;
                        for n in &mut g.nodes {
                            if c.s.chance(1, 2) && n.size < 1 << 31 {
                                n.size += by;
                            }
                        }
                        g
                    }
                    _ => graph::generate(&mut c.s, &o),
                };
                // the larger ones of a few sizes
                if c.s.chance(1, 2) {
                    let to = [1, 16, 1000][c.s.below(3)];
                    for n in &mut g.nodes {
                        n.size = n.size / to * to;
                    }
                }
                let layout = c.s.below(4);
                c.id(&(g.fingerprint(), layout));
                c.sample(|| g.describe());
                Input::Graph(g, layout)
            }
            _ => {
                let b = if kind == 1 { module(&mut c.s) } else { object(&mut c.s, false) };
                c.file(&format!("input{i}"), &b);
                c.id(&b);
                let d = dir.as_ref().unwrap();
                let ext = if kind == 1 { "wasm" } else { "o" };
                let mut at = vec![];
                for sub in ["", "elsewhere"] {
                    let d = d.join(sub);
                    std::fs::create_dir_all(&d).map_err(|e| format!("HARNESS: {e}"))?;
                    let n = d.join(if sub.is_empty() { format!("x{i}.{ext}") } else { format!("{} {i}.{ext}", ["another name", "b", "z"][c.s.below(3)]) });
                    write(&n, &b)?;
                    at.push(n);
                }
                names_on_disk.push(at.clone());
                Input::File(at)
            }
        };
        let items = sut::catch("loading", || input.load(0))??;
        let mut sizes = std::collections::BTreeSet::new();
        for i in items.iter() {
            names.push(i.name().to_string());
            ties |= !sizes.insert(i.size());
        }
        inputs.push(input);
    }
    names.truncate(40);
    let mut spec = cmdline::generate(&mut c.s, verb, &names, true);
    spec.flags.remove("retaining-paths");
    spec.items.retain(|i| !i.contains('\0'));
    if spec.items.is_empty() {
        spec.flags.remove("regex");
    }
    let line = |c: &mut Ctx, spec: &cmdline::Spec, at: usize| -> Vec<OsString> {
        let files: Vec<OsString> = match names_on_disk.is_empty() {
            true => ["x", "y"][..inputs.len()].iter().map(OsString::from).collect(),
            false => names_on_disk.iter().map(|n| n[at].clone().into_os_string()).collect(),
        };
        cmdline::render(&mut c.s, spec, &files, None)
    };
    let args = line(c, &spec, 0);
    let shown = cmdline::show(&args);
    c.id(&(verb as u8, &spec.items, &spec.nums, &spec.flags, format!("{:?}", spec.fmt)));
    c.sample(|| shown.clone());
    let argv: Vec<OsString> = std::iter::once("twiggy".into()).chain(args.iter().cloned()).collect();
    let o = sut::catch("option parsing", || opt::Options::from_iter_safe(&argv).map_err(|e| e.to_string()))?.map_err(|e| format!("{shown}\n  is rejected: {e}"))?;
    let want = report(&inputs, &o, 0)?;
    let differs = |how: &str, got: &Result<Vec<u8>, String>| Err(format!("{shown} gives another report {how}.\n-- before:\n{}\n-- then:\n{}", show(&want), show(got)));
    for k in 0..if c.patient { 16 } else { 2 } {
        let got = report(&inputs, &o, k)?;
        if got != want {
            return differs(if k % 2 == 0 || kind == 0 { "when run again" } else { "from copies of the files" }, &got);
        }
    }
    if c.s.chance(1, 8) {
        c.label("in another thread");
        let got = std::thread::scope(|s| s.spawn(|| report(&inputs, &o, 1)).join()).map_err(|_| "HARNESS: the thread ended early".to_string())??;
        if got != want {
            return differs("in another thread", &got);
        }
    }
    if kind > 0 && c.s.chance(1, 20) {
        c.label("new processes");
        for k in 0..2 {
            let args = line(c, &spec, k);
            let mut cmd = std::process::Command::new(binary()?);
            cmd.args(&args).current_dir(if k == 0 { dir.clone().unwrap() } else { "/".into() });
            let mut env = vec![];
            for (name, values) in [
                ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8", ""][..]),
                ("LC_ALL", &["C", "POSIX", "ja_JP.SJIS"]),
                ("COLUMNS", &["1", "20", "80", "100000", "x"]),
                ("LINES", &["1", "24"]),
                ("TERM", &["dumb", "xterm-256color", ""]),
                ("NO_COLOR", &["1"]),
                ("CLICOLOR_FORCE", &["1"]),
                ("HOME", &["/nonexistent", "/"]),
                ("TZ", &["UTC", "Asia/Tokyo"]),
                ("RUST_LOG", &["trace"]),
                ("RUST_BACKTRACE", &["1", "full"]),
                ("TMPDIR", &["/nonexistent"]),
                ("RAYON_NUM_THREADS", &["1", "7"]),
                ("SOURCE_DATE_EPOCH", &["0"]),
            ] {
                if c.s.chance(1, 3) {
                    env.push((name, *c.s.pick(values)));
                }
            }
            cmd.stdout(std::process::Stdio::piped());
            let out = finish_with(cmd, &env, None)?;
            let got = if out.code == Some(0) { Ok(out.stdout) } else { Err(format!("{:?} {:?} {}", out.code, out.signal, out.stderr)) };
            if want.is_err() != got.is_err() || (want.is_ok() && got != want) {
                return differs(&format!("in a new process with {env:?}"), &got);
            }
        }
    }
    c.label(["graph", "module", "object file"][kind]);
    c.label_if(ties, "items of one size");
    c.label_if(want.is_err(), "reported error");
    let lines = want.as_ref().map_or(0, |b| b.iter().filter(|b| **b == b'\n').count());
    c.nontrivial = ties && (lines >= 4 || want.as_ref().map_or(0, |b| b.len()) >= 100);
    Ok(())
}
