//! C18 choice of the input format, C19 the command line as a program.

use crate::cmdline::{self, Spec, Verb};
use crate::report::Fmt;
use crate::runner::{Check, Ctx};
use crate::source::Source;
use crate::sut;
use crate::wasm::{self, WasmOpts};
use std::ffi::{OsStr, OsString};
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::OpenOptionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use twiggy_ir as ir;
use twiggy_opt::{self as opt, CommonCliOptions};
use twiggy_parser as parser;
use twiggy_traits as traits;

pub static CHECKS: &[&Check] = &[
    &Check {
        id: "C18",
        rule: "a wasm module, an object file with DWARF, a wasm file with DWARF, damaged or arbitrary bytes, under file names with all kinds of extensions, in each mode; the items are those of the expected format, read through a neutral name; a part of the cases through the real command line; non-trivial: the content is readable in the expected format, or name, content and mode disagree",
        assumptions: &["the extension is what std::path calls the extension of the given path"],
        tape: 1500,
        quick: 120_000,
        thorough: 4_000_000,
        run: c18,
        serial: false,
    },
    &Check {
        id: "C19",
        rule: "the real binary on generated modules and object files: random command lines that must succeed (standard output, -o to a new, an existing, the input's own and a special file, run twice) and command lines that must fail (input, pattern, option, value, destination); non-trivial: the report has at least three lines, or the failure is not one of option syntax",
        assumptions: &["the expected report is the one of the library in this process, checked by the other properties", "/dev/full, a closed pipe and a file size limit stand for destinations that fail while being written"],
        tape: 1200,
        quick: 16_000,
        thorough: 600_000,
        run: c19,
        serial: false,
    },
];

pub fn binary() -> Result<PathBuf, String> {
    std::env::var_os("TWV_TWIGGY").map(PathBuf::from).ok_or_else(|| "HARNESS: TWV_TWIGGY is not set".into())
}

thread_local! {
    static DIR: super::Scratch = super::scratch("cli").expect("scratch directory");
}

/// An empty directory of this thread.
pub fn fresh_dir() -> Result<PathBuf, String> {
    DIR.with(|d| {
        let _ = std::fs::remove_dir_all(&d.path);
        std::fs::create_dir_all(&d.path).map_err(|e| format!("HARNESS: {e}"))?;
        Ok(d.path.clone())
    })
}

pub fn write(p: &Path, b: &[u8]) -> Result<(), String> {
    std::fs::write(p, b).map_err(|e| format!("HARNESS: {}: {e}", p.display()))
}

#[derive(Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

impl Out {
    fn show(&self) -> String {
        let t = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(1500)]).into_owned();
        let end = if self.signal == Some(sut::SIGXCPU) { format!("the program {} {} s of processor time\n", sut::NO_END, sut::PATIENCE) } else { String::new() };
        format!("{end}status {:?} signal {:?}\nstdout ({} bytes): {}\nstderr: {}", self.code, self.signal, self.stdout.len(), t(&self.stdout), t(self.stderr.as_bytes()))
    }
}

fn finish(cmd: Command, stdin: Option<&[u8]>) -> Result<Out, String> {
    finish_with(cmd, &[], stdin)
}

pub fn finish_with(mut cmd: Command, env: &[(&str, &str)], stdin: Option<&[u8]>) -> Result<Out, String> {
    cmd.env_clear().env("PATH", "/usr/bin:/bin").envs(env.iter().copied()).stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stderr(Stdio::piped());
    let mut ch = cmd.spawn().map_err(|e| format!("HARNESS: starting twiggy: {e}"))?;
    sut::limit(ch.id());
    if let Some(b) = stdin {
        let _ = ch.stdin.take().unwrap().write_all(b);
    }
    let o = ch.wait_with_output().map_err(|e| format!("HARNESS: {e}"))?;
    Ok(Out { code: o.status.code(), signal: o.status.signal(), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).into_owned() })
}

fn twiggy(dir: &Path, args: &[OsString]) -> Result<Out, String> {
    let mut cmd = Command::new(binary()?);
    cmd.args(args).current_dir(dir).stdout(Stdio::piped());
    finish(cmd, None)
}

/// The report of the library for a parsed command line.
fn library(o: &opt::Options, dir: &Path) -> Result<Result<Vec<u8>, String>, String> {
    sut::catch("the library", || {
        let read = |p: &Path| parser::read_and_parse(dir.join(p), o.parse_mode()).map_err(|e| e.to_string());
        let mut items = read(o.input())?;
        let mut new = match o {
            opt::Options::Diff(d) => Some(read(d.new_input())?),
            _ => None,
        };
        let data = sut::analyze(&mut items, new.as_mut(), o).map_err(|e| e.to_string())?;
        let mut buf = sut::Sink::default();
        data.emit(&items, &mut buf, o.output_format()).map_err(|e| e.to_string())?;
        Ok(buf.0)
    })
}

/// Run the real program on wasm inputs called `x.wasm` and `y.wasm`.
pub fn run_json(args: &[OsString], a: &[u8], b: Option<&[u8]>) -> Result<Result<Vec<u8>, String>, String> {
    let dir = fresh_dir()?;
    write(&dir.join("x.wasm"), a)?;
    if let Some(b) = b {
        write(&dir.join("y.wasm"), b)?;
    }
    let o = twiggy(&dir, args)?;
    Ok(if o.code == Some(0) { Ok(o.stdout) } else { Err(o.show()) })
}

// -------------------------------------------------------------------- inputs

#[derive(Clone, Copy, PartialEq, Debug)]
enum Content {
    Module,
    Object,
    WasmWithDwarf,
    DamagedModule,
    Bytes,
}

pub fn module(s: &mut Source) -> Vec<u8> {
    let odd = s.chance(1, 3);
    let max_funcs = if s.chance(1, 10) { 120 } else { 8 };
    let m = wasm::generate(s, &WasmOpts { max_funcs, odd_names: odd, generics: true, sparse: true, unique: false, telling_names: false, pad: false, big: false });
    wasm::encode(&m).0
}

pub fn object(s: &mut Source, wasm: bool) -> Vec<u8> {
    use crate::object::Container;
    let head: Vec<u32> = (0..64).map(|_| s.raw()).collect();
    let mut d = super::objects::debug(s, 2, 10);
    let h = &mut Source::new(&head);
    let secs: Vec<(&str, Vec<u8>)> = d.sections.iter().map(|(k, v)| (*k, v.clone())).collect();
    let kind = if wasm {
        Container::Wasm
    } else {
        match crate::object::pick(h, d.big) {
            Container::Wasm => Container::Elf { wide: true },
            k => k,
        }
    };
    crate::object::write(h, kind, d.big, &secs, &mut d.features)
}

fn content(s: &mut Source, k: Content) -> Vec<u8> {
    match k {
        Content::Module => module(s),
        Content::Object => object(s, false),
        Content::WasmWithDwarf => object(s, true),
        Content::DamagedModule => {
            let mut b = module(s);
            if s.chance(1, 2) {
                let n = s.below(b.len());
                b.truncate(n);
            } else {
                crate::mutate::bytes(s, &mut b);
            }
            b
        }
        Content::Bytes => {
            const M: &[&[u8]] = &[b"", b"\0", b"\0as", b"\0asm", b"\0asm\x01\0\0\0", b"\0asm\x02\0\0\0", b"\x7fELF", b"MZ", b"\0ASM\x01\0\0\0", b" \0asm\x01\0\0\0", b"!<arch>\n"];
            let mut b = s.pick(M).to_vec();
            for _ in 0..s.size(40) {
                b.push(s.raw() as u8);
            }
            b
        }
    }
}

/// Bytes as names: anything but `/` and 0.
fn file_name(s: &mut Source) -> OsString {
    const STEMS: &[&[u8]] = &[b"a", b"input", b"wasm", b"a b", "\u{e9}t\u{e9}".as_bytes(), b"x.wasm", b"x.tar", b"-", b"-n", b"\xff\xfe", b".", b"..", b"n'\"$`*?\\"];
    const EXTS: &[&[u8]] = &[b".wasm", b"", b".o", b".wasm", b".WASM", b".Wasm", b".wasm ", b".wasm.", b".was", b".wasmx", b".wasm~", b".exe", b".so.1", b".wasm.gz", b".\xff", b".wat", b"wasm"];
    let mut n = s.pick(STEMS).to_vec();
    n.extend_from_slice(*s.pick(EXTS));
    if n == b"." || n == b".." || n == b"-" {
        n.push(b'x');
    }
    OsString::from_vec(n)
}

// ----------------------------------------------------------------------- C18

fn expect_wasm(mode: &str, path: &Path, data: &[u8]) -> bool {
    match mode {
        "wasm" => true,
        "dwarf" => false,
        _ => path.extension() == Some(OsStr::new("wasm")) || data.starts_with(b"\0asm"),
    }
}

fn mode_of(m: &str) -> traits::ParseMode {
    match m {
        "wasm" => traits::ParseMode::Wasm,
        "dwarf" => traits::ParseMode::Dwarf,
        _ => traits::ParseMode::Auto,
    }
}

fn items_text(items: &ir::Items) -> Result<String, String> {
    let (g, _) = sut::view(items)?;
    Ok(format!("{} bytes: {}", items.size(), g.fingerprint()))
}

/// Run `read` while `path` is a named pipe that yields `data`, in pieces.
fn through_pipe<T>(path: &Path, data: &[u8], read: &dyn Fn() -> T) -> Result<T, String> {
    let e = |e: std::io::Error| format!("HARNESS: pipe: {e}");
    std::fs::remove_file(path).map_err(e)?;
    let name = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    // SAFETY: the name is a C string.
    if unsafe { mkfifo(name.as_ptr(), 0o600) } != 0 {
        return Err(e(std::io::Error::last_os_error()));
    }
    std::thread::scope(|sc| {
        let writer = sc.spawn(|| {
            let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(path) else { return };
            for piece in data.chunks(data.len() / 3 + 1) {
                if f.write_all(piece).is_err() {
                    return;
                }
            }
        });
        let r = read();
        // Let the writer go if nothing has been read.
        while !writer.is_finished() {
            let mut o = std::fs::OpenOptions::new();
            let _ = o.read(true).custom_flags(O_NONBLOCK).open(path).map(|mut f| f.read(&mut [0; 65536]));
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
        Ok(r)
    })
}

const O_NONBLOCK: i32 = 0o4000;

fn c18(c: &mut Ctx) -> Result<(), String> {
    let dir = fresh_dir()?;
    let real = c.s.chance(1, 40);
    let two = real && c.s.chance(1, 3);
    let mut mode = *c.s.pick(&["auto", "auto", "wasm", "dwarf"]);
    let mut inputs: Vec<(OsString, Vec<u8>, bool)> = vec![];
    let mut expected = vec![];
    for i in 0..1 + usize::from(two) {
        let kind = [Content::Module, Content::Object, Content::WasmWithDwarf, Content::DamagedModule, Content::Bytes][c.s.weighted(&[4, 4, 3, 1, 2])];
        let data = content(&mut c.s, kind);
        let mut name = file_name(&mut c.s);
        if i == 1 && (c.s.chance(1, 5) || Path::new(&inputs[0].0).file_name() == Some(&name)) {
            name = OsString::from_vec([b"new-", name.as_bytes()].concat());
        }
        if real && name.as_bytes().starts_with(b"-") {
            name = OsString::from_vec([b"./", name.as_bytes()].concat());
        }
        // a file compared with itself
        let same = i == 1 && c.s.chance(1, 6);
        let data = if same { inputs[0].1.clone() } else { data };
        // a directory with a misleading name
        if same {
            name = inputs[0].0.clone();
        } else if c.s.chance(1, 5) {
            let d = if c.s.chance(1, 2) { "dir.wasm" } else { "dir" };
            let _ = std::fs::create_dir(dir.join(d));
            let mut n = OsString::from(d);
            n.push("/");
            n.push(&name);
            name = n;
        }
        let path = dir.join(&name);
        let piped = !real && c.s.chance(1, 30);
        if !same && !piped && c.s.chance(1, 10) {
            // it is the link that has the name
            let target = dir.join(format!("target-{i}{}", c.s.pick(&[".wasm", ".o", ""])));
            write(&target, &data)?;
            std::os::unix::fs::symlink(&target, &path).map_err(|e| format!("HARNESS: {e}"))?;
            c.label("a symbolic link");
        } else {
            write(&path, &data)?;
        }
        c.file(if i == 0 { "input" } else { "input2" }, &data);
        let as_wasm = expect_wasm(mode, Path::new(&name), &data);
        // the same content, where nothing is left to choose
        let neutral = dir.join(format!("neutral-{i}"));
        write(&neutral, &data)?;
        let m = if as_wasm { traits::ParseMode::Wasm } else { traits::ParseMode::Dwarf };
        let want = sut::catch("parsing", || parser::read_and_parse(&neutral, m).map_err(|e| e.to_string()))?;
        c.label(match kind {
            Content::Module => "module",
            Content::Object => "object file",
            Content::WasmWithDwarf => "wasm with DWARF",
            Content::DamagedModule => "damaged module",
            Content::Bytes => "bytes",
        });
        c.label(if as_wasm { "as wasm" } else { "as object file" });
        c.label(mode);
        let magic = data.starts_with(b"\0asm");
        let ext = Path::new(&name).extension() == Some(OsStr::new("wasm"));
        c.label_if(magic != ext && mode == "auto", "name and content disagree");
        c.nontrivial |= want.is_ok() || magic != ext || (mode != "auto" && as_wasm != (magic || ext));
        c.id(&(&name, mode, &data));
        c.sample(|| format!("{:?} as {mode}, {kind:?}, {} bytes, read as {}: {}", name, data.len(), if as_wasm { "wasm" } else { "object file" }, if want.is_ok() { "accepted" } else { "rejected" }));
        let what = || format!("a file {:?} of {} bytes ({kind:?}) in mode {mode}", name, data.len());
        // through the library
        let read = || sut::catch("parsing", || parser::read_and_parse(&path, mode_of(mode)).map_err(|e| e.to_string()));
        let got = if piped {
            c.label("a pipe");
            through_pipe(&path, &data, &read)??
        } else {
            read()?
        };
        match (&got, &want) {
            (Ok(g), Ok(w)) => {
                let (g, w) = (items_text(g)?, items_text(w)?);
                if g != w {
                    return Err(format!("{} gives {g}\n  but as {} it has {w}", what(), if as_wasm { "wasm" } else { "an object file" }));
                }
            }
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => return Err(format!("{} is accepted, but as {} it is rejected: {e}", what(), if as_wasm { "wasm" } else { "an object file" })),
            (Err(e), Ok(_)) => return Err(format!("{} is rejected: {e}, but as {} it is accepted", what(), if as_wasm { "wasm" } else { "an object file" })),
        }
        // wasm in memory
        if as_wasm && c.s.chance(1, 4) {
            match (sut::parse_wasm(&data)?, &want) {
                (Ok(g), Ok(w)) if items_text(&g)? == items_text(w)? => {}
                (Err(_), Err(_)) => {}
                _ => return Err(format!("{} is read differently from memory", what())),
            }
        }
        inputs.push((name, data, as_wasm));
        expected.push(want);
    }
    if !real {
        return Ok(());
    }
    // through the command line
    c.label("through the command line");
    let verb = if two { Verb::Diff } else { *c.s.pick(&[Verb::Top, Verb::Dominators, Verb::Paths, Verb::Monos, Verb::Garbage]) };
    let mut spec = Spec::new(verb);
    if mode == "auto" && c.s.chance(1, 2) {
        mode = "";
    }
    if !mode.is_empty() {
        spec.mode = Some(mode);
    }
    if verb == Verb::Paths {
        spec.nums = [("depth", 3), ("paths", 3)].into_iter().collect();
    }
    spec.fmt = Some(*c.s.pick(&[Fmt::Text, Fmt::Json, Fmt::Csv]));
    let names: Vec<OsString> = inputs.iter().map(|i| i.0.clone()).collect();
    let args = cmdline::render(&mut c.s, &spec, &names, None);
    let out = twiggy(&dir, &args)?;
    let said = || format!("{}\n{}", cmdline::show(&args), out.show());
    let mut it = expected.into_iter();
    match (it.next().unwrap(), it.next()) {
        (Err(_), _) | (_, Some(Err(_))) => {
            if out.code != Some(1) || !out.stdout.is_empty() {
                return Err(format!("an input is malformed in the expected format, but: {}", said()));
            }
        }
        (Ok(mut a), b) => {
            let mut b = b.map(|b| b.unwrap());
            let mut plain = spec.clone();
            plain.mode = None;
            let x: Vec<OsString> = vec!["x".into(), "y".into()];
            let a2 = cmdline::render(&mut Source::new(&[]), &plain, &x[..names.len()], None);
            let a2: Vec<String> = a2.into_iter().map(|x| x.into_string().unwrap()).collect();
            let want = sut::run_ok(&mut a, b.as_mut(), &a2)?;
            if out.code != Some(0) || out.stdout != want {
                return Err(format!("expected the report\n{}\nof the inputs as {:?} (wasm or not), but: {}", String::from_utf8_lossy(&want), inputs.iter().map(|i| i.2).collect::<Vec<_>>(), said()));
            }
        }
    }
    Ok(())
}

// ----------------------------------------------------------------------- C19

/// The destination in a failing command must be as before.
fn untouched(p: &Path, before: &Option<Vec<u8>>) -> Result<(), String> {
    let now = std::fs::read(p).ok();
    if &now != before {
        return Err(format!("the destination, before {:?} bytes, has now {:?} bytes", before.as_ref().map(|b| b.len()), now.map(|b| b.len())));
    }
    Ok(())
}

fn failed(out: &Out, line: &str, why: &str, stdout_empty: bool) -> Result<(), String> {
    let bad = if out.signal.is_some() {
        "the program is killed"
    } else if out.code == Some(0) {
        "the program reports success"
    } else if out.stderr.trim().is_empty() {
        "there is no message on standard error"
    } else if out.stderr.contains("panicked at") {
        "the program panics"
    } else if stdout_empty && !out.stdout.is_empty() {
        "something is written to standard output"
    } else {
        return Ok(());
    };
    Err(format!("{line}: {why}, but {bad}\n{}", out.show()))
}

fn c19(c: &mut Ctx) -> Result<(), String> {
    let dir = fresh_dir()?;
    let verb = *c.s.pick(cmdline::CMDS);
    c.label(cmdline::name(verb));
    let as_object = c.s.chance(1, 5);
    let mut inputs: Vec<OsString> = vec![];
    let mut names: Vec<String> = vec![];
    for i in 0..1 + usize::from(verb == Verb::Diff) {
        let b = if as_object { object(&mut c.s, false) } else { module(&mut c.s) };
        let n = match c.s.below(6) {
            0 => OsString::from(format!("a b{i}")),
            1 => OsString::from_vec(format!("\u{ff}{i}").into_bytes().into_iter().chain([0xff]).collect()),
            2 => OsString::from(format!("--n{i}.wasm")),
            _ => OsString::from(if as_object { format!("in{i}.o") } else { format!("in{i}.wasm") }),
        };
        let n = if as_object && n.as_bytes().ends_with(b".wasm") { OsString::from(format!("--n{i}")) } else { n };
        write(&dir.join(&n), &b)?;
        c.file(&format!("input{i}"), &b);
        c.id(&b);
        let items = sut::catch("parsing", || parser::read_and_parse(dir.join(&n), traits::ParseMode::Auto).map_err(|e| e.to_string()))?;
        let items = items.map_err(|e| format!("a well-formed input is rejected: {e}"))?;
        if names.is_empty() {
            names = items.iter().map(|i| i.name().to_string()).filter(|n| !n.contains('\0')).take(30).collect();
        }
        inputs.push(n);
    }
    let mut spec = cmdline::generate(&mut c.s, verb, &names, true);
    spec.items.retain(|i| !i.contains('\0'));
    if spec.items.is_empty() {
        spec.flags.remove("regex");
    }
    let fail = c.s.chance(2, 5);
    if fail {
        return failing(c, &dir, spec, inputs);
    }
    c.label("must succeed");
    let (out_file, before) = destination(c, &dir, &inputs[0])?;
    let args = cmdline::render(&mut c.s, &spec, &inputs, None);
    let line = cmdline::show(&args);
    c.id(&line);
    let argv: Vec<OsString> = std::iter::once("twiggy".into()).chain(args.iter().cloned()).collect();
    let o = {
        use structopt::StructOpt;
        sut::catch("option parsing", || opt::Options::from_iter_safe(&argv).map_err(|e| e.to_string()))?.map_err(|e| format!("{line}\n  is rejected: {e}"))?
    };
    let want = library(&o, &dir)?;
    let want = match want {
        Ok(w) => w,
        Err(e) => {
            // `top -r` is answered with an error
            c.label("reported error");
            c.nontrivial = true;
            let out = twiggy(&dir, &args)?;
            failed(&out, &line, &format!("the library reports {e:?}"), true)?;
            let args = cmdline::render(&mut c.s, &spec, &inputs, Some(out_file.as_os_str()));
            let out = twiggy(&dir, &args)?;
            failed(&out, &line, &format!("the library reports {e:?}"), true)?;
            return untouched(&dir.join(&out_file), &before);
        }
    };
    c.sample(|| format!("{line}: {} bytes of report", want.len()));
    c.nontrivial = want.iter().filter(|b| **b == b'\n').count() >= 3 || want.len() > 60;
    // standard output, twice, in different spellings
    for k in 0..2 {
        let args = if k == 0 {
            args.clone()
        } else {
            let dash = OsString::from("-");
            let o = if c.s.chance(1, 3) { Some(dash.as_os_str()) } else { None };
            cmdline::render(&mut c.s, &spec, &inputs, o)
        };
        let out = twiggy(&dir, &args)?;
        if out.code != Some(0) || out.stdout != want || !out.stderr.is_empty() {
            return Err(format!("{}\nexpected the report\n{}\nbut: {}", cmdline::show(&args), String::from_utf8_lossy(&want), out.show()));
        }
    }
    // a file
    let args = cmdline::render(&mut c.s, &spec, &inputs, Some(out_file.as_os_str()));
    let out = twiggy(&dir, &args)?;
    let got = std::fs::read(dir.join(&out_file)).map_err(|e| format!("{}: the output file is missing: {e}\n{}", cmdline::show(&args), out.show()))?;
    if out.code != Some(0) || !out.stdout.is_empty() || !out.stderr.is_empty() || got != want {
        return Err(format!("{}\nexpected the report\n{}\nin the file, which was {:?} bytes long, and which has\n{}\n{}", cmdline::show(&args), String::from_utf8_lossy(&want), before.map(|b| b.len()), String::from_utf8_lossy(&got), out.show()));
    }
    c.label_if(before.is_some(), "replaces a file");
    // other files that are not regular ones
    if c.s.chance(1, 6) && out_file != inputs[0] {
        match c.s.below(3) {
            0 => {
                c.label("/dev/stdout");
                let args = cmdline::render(&mut c.s, &spec, &inputs, Some(OsStr::new("/dev/stdout")));
                let out = twiggy(&dir, &args)?;
                if out.code != Some(0) || out.stdout != want {
                    return Err(format!("{}\nexpected the report\n{}\nbut: {}", cmdline::show(&args), String::from_utf8_lossy(&want), out.show()));
                }
            }
            1 => {
                c.label("input from a pipe");
                let mut i2 = inputs.clone();
                i2[0] = "/dev/stdin".into();
                let mut sp = spec.clone();
                sp.mode = Some(if as_object { "dwarf" } else { "wasm" });
                let args = cmdline::render(&mut c.s, &sp, &i2, None);
                let data = std::fs::read(dir.join(&inputs[0])).map_err(|e| format!("HARNESS: {e}"))?;
                let mut cmd = Command::new(binary()?);
                cmd.args(&args).current_dir(&dir).stdout(Stdio::piped());
                let out = finish(cmd, Some(&data))?;
                if out.code != Some(0) || out.stdout != want {
                    return Err(format!("{} with the input in a pipe\nexpected the report\n{}\nbut: {}", cmdline::show(&args), String::from_utf8_lossy(&want), out.show()));
                }
            }
            _ => {
                c.label("symbolic link");
                let real = dir.join("behind the link");
                write(&real, &vec![b'z'; c.s.below(3000)])?;
                let _ = std::os::unix::fs::symlink("behind the link", dir.join("link"));
                let args = cmdline::render(&mut c.s, &spec, &inputs, Some(OsStr::new("link")));
                let out = twiggy(&dir, &args)?;
                if out.code != Some(0) || std::fs::read(&real).ok() != Some(want.clone()) {
                    return Err(format!("{} through a link to an existing file\nexpected the report\n{}\nbut: {}", cmdline::show(&args), String::from_utf8_lossy(&want), out.show()));
                }
            }
        }
    }
    Ok(())
}

/// Where to write to: nothing there yet, something longer or shorter, or the
/// input itself.
fn destination(c: &mut Ctx, dir: &Path, input: &OsStr) -> Result<(OsString, Option<Vec<u8>>), String> {
    let name: OsString = match c.s.below(8) {
        0 => "report.wasm".into(),
        1 => "a report".into(),
        2 => "\u{e4}.txt".into(),
        // starting with `-` it must be attached or is an option
        3 if input.to_str().map_or(false, |i| !i.starts_with('-')) && c.s.chance(1, 2) => input.to_os_string(),
        4 => (*c.s.pick(&[" -", "./-", "stdout", ".txt", "x=y", "a,b", "%s", "~", " ", "out.txt ", "\n"])).into(),
        _ => "out.txt".into(),
    };
    let p = dir.join(&name);
    if p.exists() {
        let b = std::fs::read(&p).map_err(|e| format!("HARNESS: {e}"))?;
        c.label("overwrites its input");
        return Ok((name, Some(b)));
    }
    let before = match c.s.below(3) {
        0 => None,
        1 => Some(vec![b'x'; c.s.below(20)]),
        _ => Some(vec![b'y'; 1000 + c.s.below(20000)]),
    };
    if let Some(b) = &before {
        write(&p, b)?;
    }
    Ok((name, before))
}

fn failing(c: &mut Ctx, dir: &Path, mut spec: Spec, mut inputs: Vec<OsString>) -> Result<(), String> {
    c.label("must fail");
    spec.flags.remove("retaining-paths");
    let verb = spec.cmd;
    let (out_file, before) = destination(c, dir, OsStr::new("-"))?;
    let to_file = c.s.chance(1, 2);
    let out_arg = if to_file { Some(out_file.clone()) } else { None };
    let which = c.s.below(inputs.len());
    let k = c.s.weighted(&[3, 3, 3, 4, 4, 6]);
    let why: String;
    let args: Vec<OsString>;
    match k {
        0 => {
            // no such input
            let (n, w): (OsString, &str) = match c.s.below(5) {
                0 => ("missing.wasm".into(), "the input does not exist"),
                1 => (".".into(), "the input is a directory"),
                2 => ("missing/in.wasm".into(), "the input's directory does not exist"),
                3 => {
                    let mut n = inputs[which].clone();
                    n.push("/x");
                    (n, "the input's directory is a file")
                }
                _ => ("n".repeat(300).into(), "the input's name is too long"),
            };
            inputs[which] = n;
            why = w.into();
            args = cmdline::render(&mut c.s, &spec, &inputs, out_arg.as_deref());
        }
        1 => {
            // malformed input
            let b = loop {
                let k = if c.s.chance(1, 2) { Content::DamagedModule } else { Content::Bytes };
                let b = content(&mut c.s, k);
                if sut::parse_wasm(&b)?.is_err() {
                    break b;
                }
                if c.s.exhausted() {
                    break b"\0asm".to_vec();
                }
            };
            inputs[which] = "damaged.wasm".into();
            write(&dir.join("damaged.wasm"), &b)?;
            c.file("damaged.wasm", &b);
            why = "the input is malformed".into();
            args = cmdline::render(&mut c.s, &spec, &inputs, out_arg.as_deref());
        }
        2 => {
            // an invalid pattern
            if !spec.takes_items() {
                return Ok(());
            }
            const BAD: &[&str] = &["(", "[a", "a{2,1}", "*", "\\", "(?P<", "x(", "+", "(?z)", "a**b(", "\\p{Nope}"];
            spec.flags.insert("regex");
            let bad = c.s.pick(BAD).to_string();
            let at = c.s.below(spec.items.len() + 1);
            // the others must not be what fails
            spec.items.clear();
            for _ in 0..at.min(2) {
                spec.items.push("f".into());
            }
            spec.items.push(bad.clone());
            if c.s.chance(1, 3) {
                spec.items.push("g.*".into());
            }
            why = format!("{bad:?} is not a regular expression");
            args = cmdline::render(&mut c.s, &spec, &inputs, out_arg.as_deref());
        }
        3 => {
            // options
            let mut a = cmdline::render(&mut c.s, &spec, &inputs, out_arg.as_deref());
            let end = a.iter().position(|x| x == "--").unwrap_or(a.len());
            let (add, w): (Vec<OsString>, String) = match c.s.below(6) {
                0 => (vec!["--no-such-option".into()], "an option is unknown".into()),
                1 => (vec!["-z".into()], "an option is unknown".into()),
                2 => {
                    let other = match verb {
                        Verb::Top => "--regex",
                        Verb::Garbage => "--retained",
                        Verb::Diff => "--descending",
                        Verb::Paths => "--retained",
                        Verb::Monos => "--descending",
                        Verb::Dominators => "-a",
                    };
                    (vec![other.into()], "the option belongs to another command".into())
                }
                3 => {
                    // repeated
                    let f = vec![OsString::from("-f"), "json".into(), "-f".into(), "json".into()];
                    if spec.fmt.is_some() {
                        (f[..2].to_vec(), "an option is repeated".into())
                    } else {
                        (f, "an option is repeated".into())
                    }
                }
                4 => {
                    // too few inputs
                    spec.items.clear();
                    spec.flags.remove("regex");
                    inputs.pop();
                    a = cmdline::render(&mut c.s, &spec, &inputs, out_arg.as_deref());
                    (vec![], "an input is missing".into())
                }
                _ => {
                    if spec.takes_items() {
                        (vec!["--bogus=1".into()], "an option is unknown".into())
                    } else {
                        (vec!["extra".into()], "there is an argument too much".into())
                    }
                }
            };
            let end = end.min(a.len());
            let at = if add.len() > 1 || add.iter().any(|x| x == "extra") { end } else { 1 };
            a.splice(at..at, add);
            why = w;
            args = a;
        }
        4 => {
            // values
            let bad_num = *c.s.pick(&["", "x", "-1", "4294967296", "1e3", "1.5", "0x10", " 1", "1 ", "99999999999999999999", "\u{661}"]);
            let o = *c.s.pick(&["num", "num", "mode", "format", "command"]);
            let mut sp = spec.clone();
            let (add, w) = match o {
                "num" => {
                    let n = c.s.pick(cmdline::numbers(verb));
                    sp.nums.remove(n.key);
                    (format!("-{}={bad_num}", n.short.unwrap()), format!("{bad_num:?} is not a number"))
                }
                "mode" => {
                    sp.mode = None;
                    let m = *c.s.pick(&["", "WASM", "elf", "wasm ", "automatic", "aut"]);
                    (format!("--mode={m}"), format!("{m:?} is not a mode"))
                }
                "format" => {
                    sp.fmt = None;
                    let m = *c.s.pick(&["", "JSON", "html", "dot", "json ", "tex", "xml"]);
                    (format!("--format={m}"), format!("{m:?} is not a format"))
                }
                _ => (String::new(), "there is no such command".into()),
            };
            let mut a = cmdline::render(&mut c.s, &sp, &inputs, out_arg.as_deref());
            if o == "command" {
                match c.s.below(4) {
                    0 => a[0] = "tops".into(),
                    1 => a[0] = "".into(),
                    2 => {
                        a.remove(0);
                        if a.first().and_then(|x| x.to_str()).map_or(true, |x| x == "--") {
                            a.insert(0, "x".into());
                        }
                    }
                    _ => a.clear(),
                }
            } else {
                a.insert(1, add.into());
            }
            why = w;
            args = a;
        }
        _ => return bad_destination(c, dir, spec, inputs),
    }
    let line = cmdline::show(&args);
    c.label(["no input", "malformed input", "invalid pattern", "wrong option", "wrong value"][k]);
    c.id(&line);
    c.sample(|| format!("{line}: {why}"));
    c.nontrivial = k < 3;
    let out = twiggy(dir, &args)?;
    if inputs.iter().any(|i| i.to_str().is_none()) && out.stderr.contains("clap-") && out.stderr.contains("invalid UTF-8") && out.code == Some(101) && out.stdout.is_empty() {
        c.known("C19", "clap-not-utf8", || failed(&out, &line, &why, true).unwrap_err())?;
    } else {
        failed(&out, &line, &why, true)?;
    }
    untouched(&dir.join(&out_file), &before).map_err(|e| format!("{line}: {why}, and {e}"))
}

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}

fn bad_destination(c: &mut Ctx, dir: &Path, spec: Spec, inputs: Vec<OsString>) -> Result<(), String> {
    c.label("failing destination");
    c.nontrivial = true;
    let plain = cmdline::render(&mut c.s, &spec, &inputs, None);
    let good = twiggy(dir, &plain)?;
    if good.code != Some(0) {
        return Err(format!("{}\nexpected success, but: {}", cmdline::show(&plain), good.show()));
    }
    let kind = c.s.below(8);
    let mut at: Option<OsString> = None;
    let mut cmd = Command::new(binary()?);
    let why = match kind {
        0 => {
            at = Some("missing/out.txt".into());
            "the destination's directory does not exist"
        }
        1 => {
            at = Some(".".into());
            "the destination is a directory"
        }
        2 => {
            let mut n = OsString::from("file");
            write(&dir.join("file"), b"old")?;
            n.push("/out.txt");
            at = Some(n);
            "the destination's directory is a file"
        }
        3 => {
            at = Some("n".repeat(300).into());
            "the destination's name is too long"
        }
        4 => {
            at = Some("/dev/full".into());
            "the destination is full"
        }
        5 => {
            cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("HARNESS: {e}"))?);
            "standard output is full"
        }
        6 => "nobody reads standard output",
        _ => {
            at = Some("limited.txt".into());
            "the destination may not grow that large"
        }
    };
    c.label(why);
    if good.stdout.is_empty() && (4..=7).contains(&kind) {
        return Ok(());
    }
    let args = cmdline::render(&mut c.s, &spec, &inputs, at.as_deref());
    let line = cmdline::show(&args);
    c.id(&(&line, kind));
    c.sample(|| format!("{line}: {why}"));
    cmd.args(&args).current_dir(dir);
    let mut keep = None;
    if kind == 6 {
        // a pipe whose reading end is closed before anything is written
        let mut fds = std::io::pipe().map_err(|e| format!("HARNESS: {e}"))?;
        let _ = (&mut fds.0 as &mut dyn Read, ());
        cmd.stdout(fds.1);
        drop(fds.0);
    } else if kind != 5 {
        cmd.stdout(Stdio::piped());
    }
    if kind == 7 {
        let most = c.s.below(good.stdout.len()) as u64;
        // SIGXFSZ ignored, RLIMIT_FSIZE
        unsafe {
            cmd.pre_exec(move || {
                signal(25, 1);
                let lim = [most, most];
                if setrlimit(1, &lim) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        keep = Some(most);
    }
    let out = finish(cmd, None)?;
    failed(&out, &line, why, at.is_some()).map_err(|e| match keep {
        Some(n) => format!("{e}\n(at most {n} of {} bytes can be written)", good.stdout.len()),
        None => e,
    })
}
