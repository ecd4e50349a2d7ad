//! C21: options.

use crate::cmdline::{self, Spec, Verb};
use crate::graph::{self, GraphOpts};
use crate::report::Fmt;
use crate::runner::{Check, Ctx};
use crate::sut;
use std::ffi::OsString;
use structopt::StructOpt;
use twiggy_opt::{self as opt, CommonCliOptions};

pub static CHECKS: &[&Check] = &[&Check {
    id: "C21",
    rule: "a random subset of a command's options in a random order and spelling, then a random sequence of setter calls; every getter after every step, and the report compared with the one of fully spelled-out options; non-trivial: at least two options given or two setters called",
    assumptions: &["an option is given at most once, which the command line enforces"],
    tape: 700,
    quick: 400_000,
    thorough: 12_000_000,
    run: c21,
    serial: false,
}];

/// All options in effect. Overriding flags have been applied.
#[derive(Clone, Debug, PartialEq)]
struct Effective {
    nums: Vec<(&'static str, u32)>,
    flags: Vec<(&'static str, bool)>,
    items: Vec<String>,
}

impl Effective {
    fn of(spec: &Spec) -> Effective {
        let over = |k: &str| k.starts_with("all");
        Effective {
            nums: cmdline::numbers(spec.cmd).iter().map(|o| (o.key, spec.number(o.key))).collect(),
            flags: cmdline::flags(spec.cmd).iter().filter(|o| !over(o.key)).map(|o| (o.key, spec.flags.contains(o.key))).collect(),
            items: spec.items.clone(),
        }
    }
    fn num(&mut self, k: &str) -> &mut u32 {
        &mut self.nums.iter_mut().find(|x| x.0 == k).unwrap().1
    }
    fn flag(&mut self, k: &str) -> &mut bool {
        &mut self.flags.iter_mut().find(|x| x.0 == k).unwrap().1
    }
}

fn read(o: &opt::Options) -> Effective {
    match o {
        opt::Options::Top(t) => Effective { nums: vec![("items", t.max_items())], flags: vec![("retained", t.retained()), ("retaining-paths", t.retaining_paths())], items: vec![] },
        opt::Options::Dominators(t) => Effective { nums: vec![("depth", t.max_depth()), ("rows", t.max_rows())], flags: vec![("regex", t.using_regexps())], items: t.items().to_vec() },
        opt::Options::Paths(t) => Effective { nums: vec![("depth", t.max_depth()), ("paths", t.max_paths())], flags: vec![("regex", t.using_regexps()), ("descending", t.descending())], items: t.functions().to_vec() },
        opt::Options::Monos(t) => Effective { nums: vec![("generics", t.max_generics()), ("monos", t.max_monos())], flags: vec![("regex", t.using_regexps()), ("only-generics", t.only_generics())], items: t.functions().to_vec() },
        opt::Options::Diff(t) => Effective { nums: vec![("items", t.max_items())], flags: vec![("regex", t.using_regexps())], items: t.items().to_vec() },
        opt::Options::Garbage(t) => Effective { nums: vec![("items", t.max_items())], flags: vec![("show-data-segments", t.show_data_segments())], items: vec![] },
    }
}

/// Call one setter; the change it is documented to make is applied to `e`.
fn set(c: &mut Ctx, o: &mut opt::Options, e: &mut Effective) -> String {
    let n = if c.s.chance(1, 2) { c.s.below(9) as u32 } else { c.s.u32_any() };
    let b = c.s.chance(1, 2);
    macro_rules! num {
        ($t:expr, $f:ident, $k:expr) => {{
            $t.$f(n);
            *e.num($k) = n;
            format!("{}({n})", stringify!($f))
        }};
    }
    macro_rules! flag {
        ($t:expr, $f:ident, $k:expr) => {{
            $t.$f(b);
            *e.flag($k) = b;
            format!("{}({b})", stringify!($f))
        }};
    }
    match o {
        opt::Options::Top(t) => match c.s.below(3) {
            0 => num!(t, set_max_items, "items"),
            1 => flag!(t, set_retained, "retained"),
            _ => flag!(t, set_retaining_paths, "retaining-paths"),
        },
        opt::Options::Dominators(t) => match c.s.below(3) {
            0 => num!(t, set_max_depth, "depth"),
            1 => num!(t, set_max_rows, "rows"),
            _ => flag!(t, set_using_regexps, "regex"),
        },
        opt::Options::Paths(t) => match c.s.below(5) {
            0 => num!(t, set_max_depth, "depth"),
            1 => num!(t, set_max_paths, "paths"),
            2 => flag!(t, set_descending, "descending"),
            3 => {
                let f = format!("f{}", c.s.below(5));
                t.add_function(f.clone());
                e.items.push(f.clone());
                format!("add_function({f:?})")
            }
            _ => flag!(t, set_using_regexps, "regex"),
        },
        opt::Options::Monos(t) => match c.s.below(3) {
            0 => num!(t, set_max_generics, "generics"),
            1 => num!(t, set_max_monos, "monos"),
            _ => flag!(t, set_only_generics, "only-generics"),
        },
        opt::Options::Diff(t) => match c.s.below(2) {
            0 => num!(t, set_max_items, "items"),
            _ => flag!(t, set_using_regexps, "regex"),
        },
        opt::Options::Garbage(t) => num!(t, set_max_items, "items"),
    }
}

fn compare(how: &str, got: &Effective, want: &Effective) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    Err(format!("{how}\n  options in effect: {got:?}\n  expected: {want:?}"))
}

fn c21(c: &mut Ctx) -> Result<(), String> {
    let verb = *c.s.pick(cmdline::CMDS);
    c.label(cmdline::name(verb));
    let names: Vec<String> = (0..4).map(|i| format!("f{i}")).collect();
    let mut spec = cmdline::generate(&mut c.s, verb, &names, false);
    let mut how;
    let mut o;
    if c.s.chance(1, 3) {
        // the programmatic interface starts from the defaults
        spec = Spec::new(verb);
        o = match verb {
            Verb::Top => opt::Options::Top(if c.s.chance(1, 2) { opt::Top::new() } else { opt::Top::default() }),
            Verb::Dominators => opt::Options::Dominators(if c.s.chance(1, 2) { opt::Dominators::new() } else { opt::Dominators::default() }),
            Verb::Paths => opt::Options::Paths(if c.s.chance(1, 2) { opt::Paths::new() } else { opt::Paths::default() }),
            Verb::Monos => opt::Options::Monos(if c.s.chance(1, 2) { opt::Monos::new() } else { opt::Monos::default() }),
            Verb::Diff => opt::Options::Diff(opt::Diff::default()),
            Verb::Garbage => opt::Options::Garbage(if c.s.chance(1, 2) { opt::Garbage::new() } else { opt::Garbage::default() }),
        };
        how = format!("default {}", cmdline::name(verb));
        c.label("from defaults");
    } else {
        if c.s.chance(1, 2) {
            spec.mode = Some(*c.s.pick(&["auto", "wasm", "dwarf"]));
        }
        let mut inputs: Vec<OsString> = vec!["old.wasm".into()];
        if verb == Verb::Diff {
            inputs.push("new.wasm".into());
        }
        let out: Option<OsString> = match c.s.below(3) {
            0 => None,
            1 => Some("-".into()),
            _ => Some("out.txt".into()),
        };
        let a = cmdline::render(&mut c.s, &spec, &inputs, out.as_deref());
        how = cmdline::show(&a);
        let argv: Vec<OsString> = std::iter::once("twiggy".into()).chain(a).collect();
        o = sut::catch("option parsing", || opt::Options::from_iter_safe(&argv).map_err(|e| e.to_string()))?.map_err(|e| format!("{how}\n  is rejected: {e}"))?;
        // the options common to all commands
        let mode = match spec.mode {
            Some("wasm") => "Wasm",
            Some("dwarf") => "Dwarf",
            _ => "Auto",
        };
        let format = match spec.fmt {
            None | Some(Fmt::Text) => "Text",
            Some(Fmt::Json) => "Json",
            Some(Fmt::Csv) => "Csv",
        };
        let dest = match &out {
            Some(p) if p != "-" => format!("Path({p:?})"),
            _ => "Stdout".into(),
        };
        let got = (format!("{:?}", o.parse_mode()), format!("{:?}", o.output_format()), format!("{:?}", o.output_destination()), o.input().as_os_str().to_os_string());
        let want = (mode.to_string(), format.to_string(), dest, inputs[0].clone());
        if got != want {
            return Err(format!("{how}\n  mode, format, destination, input: {got:?}\n  expected: {want:?}"));
        }
        if let opt::Options::Diff(d) = &o {
            if d.new_input().as_os_str() != inputs[1].as_os_str() {
                return Err(format!("{how}\n  second input: {:?}", d.new_input()));
            }
        }
    }
    let mut e = Effective::of(&spec);
    c.id(&how);
    compare(&how, &read(&o), &e)?;
    let given = spec.nums.len() + spec.flags.len() + spec.items.len();
    let over = spec.flags.iter().any(|f| f.starts_with("all"));
    let steps = if c.s.chance(1, 2) { c.s.size(10) } else { 0 };
    for _ in 0..steps {
        how.push_str("; ");
        let w = set(c, &mut o, &mut e);
        how.push_str(&w);
        compare(&how, &read(&o), &e)?;
    }
    c.id(&how);
    c.nontrivial = given + steps >= 2;
    c.label_if(over, "overriding flag");
    c.label_if(over && steps > 0, "setters after an overriding flag");
    c.label_if(steps >= 2, "several setters");
    c.sample(|| how.clone());
    if c.s.chance(1, 4) {
        effect(c, verb, &how, &o, &mut e)?;
    }
    Ok(())
}

/// The report is the one of options that are all spelled out.
fn effect(c: &mut Ctx, verb: Verb, how: &str, o: &opt::Options, e: &mut Effective) -> Result<(), String> {
    if verb == Verb::Paths && (*e.num("depth") > 12 || *e.num("paths") > 12) {
        return Ok(());
    }
    c.label("report compared");
    let mut full = Spec::new(verb);
    full.nums = e.nums.iter().copied().collect();
    full.flags = e.flags.iter().filter(|f| f.1).map(|f| f.0).collect();
    full.items = e.items.clone();
    full.fmt = Some(*c.s.pick(&[Fmt::Text, Fmt::Json, Fmt::Csv]));
    let inputs: Vec<OsString> = vec!["x".into(), "y".into()];
    let a = cmdline::render(&mut c.s, &full, &inputs[..if verb == Verb::Diff { 2 } else { 1 }], None);
    let argv: Vec<OsString> = std::iter::once("twiggy".into()).chain(a.iter().cloned()).collect();
    let p = opt::Options::from_iter_safe(&argv).map_err(|e| format!("{} is rejected: {e}", cmdline::show(&a)))?;
    let go = GraphOpts { max_nodes: 24, generics: verb == Verb::Monos, sparse: true, ..Default::default() };
    let (g, h) = (graph::generate(&mut c.s, &go), graph::generate(&mut c.s, &go));
    let run = |o: &opt::Options| -> Result<Result<Vec<u8>, String>, String> {
        sut::catch(how, || {
            let (mut x, mut y) = (g.build(0).0, h.build(0).0);
            let data = sut::analyze(&mut x, Some(&mut y), o).map_err(|e| e.to_string())?;
            let mut buf = sut::Sink::default();
            data.emit(&x, &mut buf, p.output_format()).map_err(|e| e.to_string())?;
            Ok(buf.0)
        })
    };
    let (got, want) = (run(o)?, run(&p)?);
    if got != want {
        let t = |r: &Result<Vec<u8>, String>| match r {
            Ok(b) => String::from_utf8_lossy(b).into_owned(),
            Err(e) => format!("error: {e}"),
        };
        return Err(format!("{how}\ngives\n{}\nbut {} gives\n{}", t(&got), cmdline::show(&a), t(&want)));
    }
    Ok(())
}
