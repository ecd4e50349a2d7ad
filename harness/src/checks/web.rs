//! C22: the WebAssembly build of the API against the command line.

use crate::cmdline::{self, Spec, Verb};
use crate::report::Fmt;
use crate::runner::{Check, Ctx};
use crate::select;
use crate::source::Source;
use crate::sut;
use std::cell::RefCell;
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};

pub static CHECKS: &[&Check] = &[&Check {
    id: "C22",
    rule: "histories of up to 23 (thorough 37) calls of the web API (several modules, several option objects, setters between analyses, diff between any two modules, objects freed) on the wasm32 build run by node, each result compared with the JSON document of the command line for the same module and the options then in effect; damaged modules and invalid patterns must fail on both sides; non-trivial: at least two analyses succeed on a module with at least three items",
    assumptions: &[
        "hand-written glue makes the calls that wasm-bindgen generates",
        "the expected document is the library's, natively, for a command line; in one case of 40 it is the real program's",
        "chains of calls are at most 400 deep: a wasm instance has a stack of 1 MiB",
    ],
    tape: 2400,
    quick: 30_000,
    thorough: 1_500_000,
    run: c22,
    serial: false,
}];

struct Node {
    child: Child,
    input: Option<std::process::ChildStdin>,
    output: std::io::BufReader<std::process::ChildStdout>,
}

impl Drop for Node {
    fn drop(&mut self) {
        self.input = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

#[derive(Clone, Debug)]
struct Op {
    kind: u32,
    a: u32,
    b: u32,
    c: u32,
    data: Vec<u8>,
}

fn start() -> Result<Node, String> {
    let e = |e: std::io::Error| format!("HARNESS: starting node: {e}");
    let web = std::env::var_os("TWV_WEB").ok_or("HARNESS: TWV_WEB is not set")?;
    let glue = crate::runner::verif().join("harness/web/glue.js");
    let mut child = Command::new("node").arg(glue).arg(web).env_clear().env("PATH", std::env::var_os("PATH").unwrap_or_default()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(e)?;
    let input = child.stdin.take();
    let output = std::io::BufReader::new(child.stdout.take().unwrap());
    Ok(Node { child, input, output })
}

/// Results of the operations, up to the first that failed.
fn run(ops: &[Op]) -> Result<Vec<Result<String, String>>, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            *n = Some(start()?);
        }
        let node = n.as_mut().unwrap();
        sut::limit(node.child.id());
        let mut r = talk(node, ops);
        if matches!(&r, Err(m) if m.starts_with("HARNESS")) {
            // the output ends when the process does
            drop(node.input.take());
            if node.child.wait().ok().and_then(|s| s.signal()) == Some(sut::SIGXCPU) {
                r = Err(format!("the web API {} {} s of processor time in {ops:?}", sut::NO_END, sut::PATIENCE));
            }
        }
        if r.is_err() {
            *n = None;
        }
        r
    })
}

fn talk(n: &mut Node, ops: &[Op]) -> Result<Vec<Result<String, String>>, String> {
    let e = |e: std::io::Error| format!("HARNESS: talking to node: {e}");
    let mut m = (ops.len() as u32).to_le_bytes().to_vec();
    for o in ops {
        for v in [o.kind, o.a, o.b, o.c, o.data.len() as u32] {
            m.extend(v.to_le_bytes());
        }
        m.extend(&o.data);
    }
    let input = n.input.as_mut().unwrap();
    input.write_all(&m).and_then(|_| input.flush()).map_err(e)?;
    let mut w = [0; 4];
    n.output.read_exact(&mut w).map_err(e)?;
    let count = u32::from_le_bytes(w);
    let mut out = vec![];
    for _ in 0..count {
        let mut h = [0; 5];
        n.output.read_exact(&mut h).map_err(e)?;
        let mut b = vec![0; u32::from_le_bytes([h[1], h[2], h[3], h[4]]) as usize];
        n.output.read_exact(&mut b).map_err(e)?;
        let t = String::from_utf8(b).map_err(|_| "HARNESS: node sent no UTF-8".to_string())?;
        match h[0] {
            0 => out.push(Ok(t)),
            1 => out.push(Err(t)),
            _ if t.contains("TypeError") || t.contains("LinkError") => return Err(format!("the web API does not have an expected function: {t}")),
            _ if t.contains("decode") || t.contains("encoded data") => return Err(format!("the web API returns text that is not UTF-8: {t}")),
            // `throw` of wasm-bindgen
            _ => out.push(Err(t)),
        }
    }
    Ok(out)
}

fn class(v: Verb) -> &'static str {
    // the same words
    cmdline::name(v)
}

/// Setters of the web API: name, option, and whether it is a number.
fn setters(v: Verb) -> &'static [(&'static str, &'static str, bool)] {
    match v {
        Verb::Top => &[("top_set_max_items", "items", true), ("top_set_retained", "retained", false), ("top_set_retaining_paths", "retaining-paths", false)],
        Verb::Dominators => &[("dominators_set_max_depth", "depth", true), ("dominators_set_max_rows", "rows", true), ("dominators_set_using_regexps", "regex", false)],
        Verb::Paths => &[("paths_set_max_depth", "depth", true), ("paths_set_max_paths", "paths", true), ("paths_set_descending", "descending", false), ("paths_set_using_regexps", "regex", false), ("paths_add_function", "", false)],
        Verb::Monos => &[("monos_set_max_generics", "generics", true), ("monos_set_max_monos", "monos", true), ("monos_set_only_generics", "only-generics", false)],
        Verb::Diff => &[("diff_set_max_items", "items", true), ("diff_set_using_regexps", "regex", false)],
        Verb::Garbage => &[],
    }
}

fn getters(v: Verb) -> &'static [(&'static str, &'static str, bool)] {
    match v {
        Verb::Top => &[("top_max_items", "items", true), ("top_retained", "retained", false), ("top_retaining_paths", "retaining-paths", false)],
        Verb::Dominators => &[("dominators_max_depth", "depth", true), ("dominators_max_rows", "rows", true), ("dominators_using_regexps", "regex", false)],
        Verb::Paths => &[("paths_max_depth", "depth", true), ("paths_max_paths", "paths", true), ("paths_descending", "descending", false), ("paths_using_regexps", "regex", false)],
        Verb::Monos => &[("monos_max_generics", "generics", true), ("monos_max_monos", "monos", true), ("monos_only_generics", "only-generics", false), ("monos_using_regexps", "regex", false)],
        Verb::Diff => &[("diff_max_items", "items", true), ("diff_using_regexps", "regex", false)],
        Verb::Garbage => &[],
    }
}

const VERBS: &[Verb] = &[Verb::Top, Verb::Dominators, Verb::Paths, Verb::Monos, Verb::Diff];

/// What one operation must give; `Err` stands for a trap.
enum Want {
    Nothing,
    Number(u32),
    Report(Result<Vec<u8>, String>),
}

struct Module {
    data: Vec<u8>,
    names: Vec<String>,
    deep: bool,
    items: usize,
}

fn pick_module(c: &mut Ctx) -> Result<(Module, bool), String> {
    let deep = c.s.chance(1, 40);
    let data = if deep {
        let n = 50 + c.s.below(350);
        super::fuzz::long(c, n).0
    } else {
        let mut d = super::cli::module(&mut c.s);
        if c.s.chance(1, 20) {
            if c.s.chance(1, 2) {
                let n = c.s.below(d.len());
                d.truncate(n);
            } else {
                crate::mutate::bytes(&mut c.s, &mut d);
            }
        }
        d
    };
    let p = sut::parse_wasm(&data)?;
    let ok = p.is_ok();
    let mut names = vec![];
    let mut items = 0;
    if let Ok(i) = p {
        items = i.iter().count();
        names = i.iter().take(60).map(|x| x.name().to_string()).collect();
    }
    Ok((Module { data, names, deep, items }, ok))
}

fn arguments(spec: &Spec, inputs: usize) -> Vec<OsString> {
    let x: Vec<OsString> = vec!["x.wasm".into(), "y.wasm".into()];
    cmdline::render(&mut Source::new(&[]), spec, &x[..inputs], None)
}

fn expected(c: &mut Ctx, spec: &Spec, a: &Module, b: Option<&Module>) -> Result<Result<Vec<u8>, String>, String> {
    let mut spec = spec.clone();
    spec.fmt = Some(Fmt::Json);
    let args = arguments(&spec, 1 + usize::from(b.is_some()));
    if c.s.chance(1, 40) {
        c.label("compared with the real program");
        return super::cli::run_json(&args, &a.data, b.map(|b| &b.data[..]));
    }
    let mut ia = sut::must_parse(&a.data)?;
    let mut ib = match b {
        Some(b) => Some(sut::must_parse(&b.data)?),
        None => None,
    };
    let args: Vec<String> = args.into_iter().map(|x| x.into_string().unwrap()).collect();
    sut::run(&mut ia, ib.as_mut(), &args)
}

fn c22(c: &mut Ctx) -> Result<(), String> {
    let mut ops: Vec<Op> = vec![];
    let mut want: Vec<Want> = vec![];
    let mut told: Vec<String> = vec![];
    let op = |kind, a: usize, b: u32, cc: usize, data: &[u8]| Op { kind, a: a as u32, b, c: cc as u32, data: data.to_vec() };
    let mut modules: Vec<Module> = vec![];
    let mut live: Vec<usize> = vec![];
    // option objects: what is set
    let mut specs: Vec<Option<Spec>> = vec![];
    let mut good = 0;
    // some modules and options first
    let first = 1 + c.s.below(2);
    let second = first + 1 + c.s.below(4);
    let steps = second + 3 + c.s.below(if c.thorough { 30 } else { 16 });
    let mut failed = false;
    for step in 0..steps {
        if failed {
            break;
        }
        let k = if step < first || live.is_empty() {
            0
        } else if step < second {
            1
        } else {
            c.s.weighted(&[1, 1, 6, 12, 2, 1])
        };
        match k {
            0 => {
                let (m, ok) = pick_module(c)?;
                let i = modules.len();
                c.file(&format!("module{i}"), &m.data);
                ops.push(op(0, i, 0, 0, &m.data));
                told.push(format!("m{i} = Items.parse({} bytes)", m.data.len()));
                c.label_if(m.deep, "deep module");
                c.label_if(!ok, "damaged module");
                c.id(&m.data);
                want.push(if ok { Want::Nothing } else { Want::Report(Err("the module is malformed".into())) });
                failed = !ok;
                modules.push(m);
                live.push(i);
            }
            1 => {
                let v = *c.s.pick(VERBS);
                let o = specs.len();
                ops.push(op(1, o, 0, 0, format!("{}_new", class(v)).as_bytes()));
                want.push(Want::Nothing);
                told.push(format!("o{o} = new {v:?}"));
                let mut spec = Spec::new(v);
                if v == Verb::Paths {
                    for key in ["paths_set_max_depth", "paths_set_max_paths"] {
                        // the number of rows is exponential in these
                        let n = c.s.below(5) as u32;
                        spec.nums.insert(if key.ends_with("depth") { "depth" } else { "paths" }, n);
                        ops.push(op(2, o, n, 0, key.as_bytes()));
                        want.push(Want::Nothing);
                        told.push(format!("o{o}.{key}({n})"));
                    }
                }
                specs.push(Some(spec));
            }
            2 => {
                let Some(o) = some(c, &specs) else { continue };
                let spec = specs[o].as_mut().unwrap();
                let (f, key, numeric) = *c.s.pick(setters(spec.cmd));
                c.label("setter");
                if f == "paths_add_function" {
                    let m = *c.s.pick(&live);
                    let sel = select::generate(&mut c.s, &modules[m].names, 1);
                    if let Some(p) = sel.pats.first() {
                        let t = p.text();
                        // patterns only mean what they should under the option
                        if sel.regex != spec.flags.contains("regex") {
                            if sel.regex {
                                spec.flags.insert("regex");
                            } else {
                                spec.flags.remove("regex");
                            }
                            ops.push(op(2, o, sel.regex as u32, 0, b"paths_set_using_regexps"));
                            want.push(Want::Nothing);
                            told.push(format!("o{o}.set_using_regexps({})", sel.regex));
                        }
                        ops.push(op(3, o, 0, 0, t.as_bytes()));
                        want.push(Want::Nothing);
                        told.push(format!("o{o}.add_function({t:?})"));
                        spec.items.push(t);
                        c.label("function added");
                    }
                } else if numeric {
                    let mut n = if c.s.chance(2, 3) { c.s.below(9) as u32 } else { c.s.u32_any() };
                    if spec.cmd == Verb::Paths {
                        n = n.min(6);
                    }
                    spec.nums.insert(key, n);
                    ops.push(op(2, o, n, 0, f.as_bytes()));
                    want.push(Want::Nothing);
                    told.push(format!("o{o}.{f}({n})"));
                } else {
                    // answered with an error
                    let on = if key == "retaining-paths" { c.s.chance(1, 8) } else { c.s.chance(1, 2) };
                    if on {
                        spec.flags.insert(key);
                    } else {
                        spec.flags.remove(key);
                    }
                    ops.push(op(2, o, on as u32, 0, f.as_bytes()));
                    want.push(Want::Nothing);
                    told.push(format!("o{o}.{f}({on})"));
                }
            }
            3 => {
                let Some(o) = some(c, &specs) else { continue };
                let spec = specs[o].clone().unwrap();
                let a = *c.s.pick(&live);
                let b = *c.s.pick(&live);
                if spec.cmd == Verb::Diff && a == b {
                    // wasm-bindgen refuses to borrow an object twice
                    continue;
                }
                let other = if spec.cmd == Verb::Diff { Some(&modules[b]) } else { None };
                let w = expected(c, &spec, &modules[a], other)?;
                ops.push(op(5, a, b as u32, o, format!("items_{}", class(spec.cmd)).as_bytes()));
                told.push(if other.is_some() { format!("m{a}.diff(m{b}, o{o})") } else { format!("m{a}.{}(o{o})", class(spec.cmd)) });
                c.label(match spec.cmd {
                    Verb::Top => "top",
                    Verb::Dominators => "dominators",
                    Verb::Paths => "paths",
                    Verb::Monos => "monos",
                    _ => "diff",
                });
                failed = w.is_err();
                c.label_if(failed, "analysis fails");
                if !failed && modules[a].items >= 3 {
                    good += 1;
                }
                want.push(Want::Report(w));
            }
            4 => {
                let Some(o) = some(c, &specs) else { continue };
                let spec = specs[o].as_ref().unwrap();
                let (f, key, numeric) = *c.s.pick(getters(spec.cmd));
                ops.push(op(4, o, 0, 0, f.as_bytes()));
                told.push(format!("o{o}.{f}()"));
                want.push(Want::Number(if numeric { spec.number(key) } else { spec.flags.contains(key) as u32 }));
                c.label("getter");
            }
            _ => {
                if live.len() > 1 && c.s.chance(1, 2) {
                    let at = c.s.below(live.len());
                    let m = live.remove(at);
                    ops.push(op(6, m, 0, 0, b""));
                    told.push(format!("m{m}.free()"));
                    want.push(Want::Nothing);
                } else if let Some(o) = some(c, &specs) {
                    let v = specs[o].take().unwrap().cmd;
                    ops.push(op(7, o, 0, 0, format!("__wbg_{}_free", class(v)).as_bytes()));
                    told.push(format!("o{o}.free()"));
                    want.push(Want::Nothing);
                }
                c.label("freed");
            }
        }
    }
    c.nontrivial = good >= 2;
    c.id(&told);
    c.sample(|| told.join("; "));
    let got = run(&ops)?;
    for (i, w) in want.iter().enumerate() {
        let at = || format!("call {} of\n    {}\n", i + 1, told.join("\n    "));
        let Some(g) = got.get(i) else {
            return Err(format!("HARNESS: no result of {}", at()));
        };
        match (w, g) {
            (Want::Nothing, Ok(_)) => {}
            (Want::Number(n), Ok(t)) if *t == n.to_string() => {}
            (Want::Number(n), Ok(t)) => return Err(format!("{}gives {t} instead of {n}", at())),
            (Want::Report(Ok(b)), Ok(t)) => {
                if t.as_bytes() != &b[..] {
                    return Err(format!("{}gives a different document than the command line\n  web: {t}\n  command line: {}", at(), String::from_utf8_lossy(b)));
                }
            }
            (Want::Report(Err(_)), Err(_)) => {}
            (Want::Report(Err(e)), Ok(t)) => return Err(format!("{}succeeds with {t:?}, but the command line fails: {e}", at())),
            (_, Err(e)) => return Err(format!("{}fails with {e}, but it succeeds on the command line", at())),
        }
    }
    Ok(())
}

fn some(c: &mut Ctx, specs: &[Option<Spec>]) -> Option<usize> {
    let v: Vec<usize> = specs.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect();
    if v.is_empty() {
        return None;
    }
    Some(*c.s.pick(&v))
}
