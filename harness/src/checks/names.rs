//! C11: how function names are shown and which generic they belong to.

use crate::graph::known_generic;
use crate::runner::{Check, Ctx};
use crate::source::Source;
use crate::sut;
use std::fmt;
use twiggy_ir as ir;

pub const CHECKS: &[Check] = &[Check {
    id: "C11",
    rule: "a case is non-trivial if its name is a mangled symbol, or is an instantiation, or contains characters outside ASCII",
    assumptions: &[
        "The readable form of constructed Rust (legacy) and simple C++ symbols is stated by the generator; for Rust v0 and other C++ symbols it is that of the rustc-demangle and cpp_demangle libraries twiggy uses.",
        "A symbol whose readable form is larger than 200 kB may be shown as it is.",
    ],
    tape: 400,
    quick: 700_000,
    thorough: 20_000_000,
    run: c11,
    serial: false,
}];

struct Bounded(String);
impl fmt::Write for Bounded {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() + self.0.len() > 200_000 {
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

enum Shown {
    As(String),
    /// As something that begins like this, or as the symbol itself.
    Unclear(String),
}

/// The readable form according to the demangling libraries.
fn readable(s: &str) -> Shown {
    use fmt::Write;
    if let Ok(d) = rustc_demangle::try_demangle(s) {
        let mut b = Bounded(String::new());
        return match write!(b, "{d}") {
            Ok(()) => Shown::As(b.0),
            Err(_) => Shown::Unclear(b.0),
        };
    }
    if s.starts_with("_Z") || s.starts_with("__Z") || s.starts_with("_GLOBAL_") {
        if let Ok(sym) = cpp_demangle::Symbol::new(s) {
            let mut b = Bounded(String::new());
            let r = sut::catch("cpp_demangle", || sym.structured_demangle(&mut b, &Default::default()).is_ok());
            if b.0.len() > 150_000 {
                return Shown::Unclear(b.0);
            }
            return match r {
                Ok(true) => Shown::As(b.0),
                _ => Shown::As(s.to_string()),
            };
        }
    }
    Shown::As(s.to_string())
}

/// The readable form of a symbol that is not huge.
pub fn shown(s: &str) -> String {
    match readable(s) {
        Shown::As(x) => x,
        Shown::Unclear(_) => s.to_string(),
    }
}

fn ident(s: &mut Source) -> String {
    const W: &[&str] = &["a", "foo", "alloc", "h", "hash", "hello", "core", "Vec", "x1", "_u", "h0", "fmt", "T", "std", "main", "hx"];
    let mut t = s.pick(W).to_string();
    for _ in 0..s.below(3) {
        t.push(*s.pick(&['a', 'Z', '_', '9', 'h', 'e']));
    }
    t
}

fn hash(s: &mut Source) -> String {
    let v = s.raw64();
    match s.below(4) {
        0 => "h0123456789abcdef".into(),
        1 => format!("h{:016x}", v & 0xf),
        _ => format!("h{v:016x}"),
    }
}

/// A legacy Rust symbol, its readable form and its generic.
pub fn legacy(s: &mut Source) -> (String, String, String) {
    // escapes and what they stand for
    const ESC: &[(&str, &str)] = &[
        ("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$BP$", "*"), ("$LP$", "("), ("$RP$", ")"), ("$C$", ","), ("$u20$", " "), ("$u7b$", "{"), ("$u7d$", "}"),
        ("..", "::"), ("$u5b$", "["), ("$u5d$", "]"), ("$SP$", "@"), ("$u27$", "'"), ("$u3b$", ";"), ("$u2b$", "+"),
    ];
    let mut m = String::new();
    let mut d = vec![];
    for _ in 0..s.range(1, 4) {
        let (mut raw, mut shown) = (String::new(), String::new());
        if s.chance(1, 3) {
            let e = s.pick(&ESC[..10]);
            // an identifier that begins with an escape gets an underscore
            raw = format!("_{}", e.0);
            shown = e.1.into();
        } else {
            let i = ident(s);
            raw.push_str(&i);
            shown.push_str(&i);
        }
        for _ in 0..s.below(4) {
            let e = s.pick(ESC);
            let i = ident(s);
            raw.push_str(e.0);
            raw.push_str(&i);
            shown.push_str(e.1);
            shown.push_str(&i);
        }
        m.push_str(&format!("{}{raw}", raw.len()));
        d.push(shown);
    }
    let h = hash(s);
    let generic = d.join("::");
    let (suffix, shown_suffix) = match s.below(6) {
        0 => (".123".to_string(), ".123".to_string()),
        1 => (".llvm.8A5BC0123".to_string(), String::new()),
        2 => (".cold.1".to_string(), ".cold.1".to_string()),
        _ => (String::new(), String::new()),
    };
    let pre = *s.pick(&["_ZN", "_ZN", "_ZN", "__ZN", "ZN"]);
    (format!("{pre}{m}17{h}E{suffix}"), format!("{generic}::{h}{shown_suffix}"), generic)
}

fn v0(s: &mut Source) -> String {
    fn id(s: &mut Source) -> String {
        let i = ident(s);
        let sep = if i.starts_with('_') || i.starts_with(|c: char| c.is_ascii_digit()) { "_" } else { "" };
        let dis = match s.below(4) {
            0 => "s_".to_string(),
            1 => format!("s{}_", s.pick(&["0", "1Z", "abcdEFG0123", "z"])),
            _ => String::new(),
        };
        format!("{dis}{}{sep}{i}", i.len())
    }
    fn ty(s: &mut Source, d: usize) -> String {
        if d == 0 {
            return s.pick(&["h", "j", "e", "b", "u", "l"]).to_string();
        }
        match s.below(7) {
            0 => format!("R{}", ty(s, d - 1)),
            1 => format!("S{}", ty(s, d - 1)),
            2 => format!("T{}{}E", ty(s, d - 1), ty(s, d - 1)),
            3 => format!("P{}", ty(s, d - 1)),
            4 => format!("A{}j{:x}_", ty(s, d - 1), s.below(40)),
            5 => path(s, d - 1),
            _ => s.pick(&["h", "j", "e", "b", "u", "l"]).to_string(),
        }
    }
    fn path(s: &mut Source, d: usize) -> String {
        if d == 0 {
            return format!("C{}", id(s));
        }
        match s.below(5) {
            0 => format!("Nv{}{}", path(s, d - 1), id(s)),
            1 => format!("Nt{}{}", path(s, d - 1), id(s)),
            2 => format!("NC{}{}", path(s, d - 1), id(s)),
            3 => {
                let mut t = format!("I{}", path(s, d - 1));
                for _ in 0..s.range(1, 2) {
                    t.push_str(&ty(s, d - 1));
                }
                t + "E"
            }
            _ => match s.below(3) {
                0 => format!("M{}{}", path(s, d - 1), ty(s, d - 1)),
                1 => format!("X{}{}{}", path(s, d - 1), ty(s, d - 1), path(s, d - 1)),
                _ => format!("Y{}{}", ty(s, d - 1), path(s, d - 1)),
            },
        }
    }
    let d = s.range(1, 4);
    let pre = *s.pick(&["_R", "_R", "R", "__R"]);
    format!("{pre}{}{}", path(s, d), s.pick(&["", "", ".llvm.123", ".5"]))
}

/// A C++ symbol; its readable form if it is one of the simple ones.
fn cpp(s: &mut Source) -> (String, Option<String>) {
    const T: &[(&str, &str)] = &[("i", "int"), ("c", "char"), ("d", "double"), ("b", "bool"), ("j", "unsigned int"), ("x", "long long")];
    let us = if s.chance(1, 5) { "__Z" } else { "_Z" };
    let scoped = s.chance(1, 2);
    let mut m = String::new();
    let mut names = vec![];
    for _ in 0..if scoped { s.range(2, 4) } else { 1 } {
        // distinct from a Rust hash
        let i = ident(s);
        m.push_str(&format!("{}{i}", i.len()));
        names.push(i);
    }
    let template = s.chance(1, 2);
    let mut args = vec![];
    let mut margs = String::new();
    if template {
        for _ in 0..s.range(1, 3) {
            let t = s.pick(T);
            margs.push_str(t.0);
            args.push(t.1);
        }
        m = format!("{m}I{margs}E");
    }
    let params: Vec<&(&str, &str)> = (0..s.below(4)).map(|_| s.pick(T)).collect();
    let mp: String = if params.is_empty() { "v".into() } else { params.iter().map(|p| p.0).collect() };
    let dp = params.iter().map(|p| p.1).collect::<Vec<_>>().join(", ");
    let name = names.join("::") + &if template { format!("<{}>", args.join(", ")) } else { String::new() };
    let (ret, mret) = if template { ("void ", "v") } else { ("", "") };
    let sym = if scoped { format!("{us}N{m}E{mret}{mp}") } else { format!("{us}{m}{mret}{mp}") };
    if s.chance(1, 2) {
        return (sym, Some(format!("{ret}{name}({dp})")));
    }
    // richer ones
    const R: &[&str] = &[
        "_ZNSt6vectorIiSaIiEE9push_backERKi", "_ZNKSt8functionIFvvEEclEv", "_ZN3fooIiE3barIcEEvT_", "_ZlsRSoRK1A", "_ZN1AC1Ev", "_ZN1AD0Ev", "_ZTV1A", "_ZTI3foo",
        "_ZThn8_N1A1fEv", "_ZGVZ1fvE1x", "_Z1fIXadL_Z1gvEEEvv", "_ZN12_GLOBAL__N_11fEv", "_GLOBAL__sub_I_main.cpp", "_GLOBAL__I_a", "_ZN5Ci_ifD1E4_ZnwAAm",
        "_Z1fDpT_", "_ZSt4moveIRiEONSt16remove_referenceIT_E4typeEOS2_", "_ZNSolsEi", "_Znwm", "_ZdlPv", "_ZN1a1bIJicEEEvDpT_", "_Z3fooILi3EEvv", "_ZN1XcvT_IiEEv", "_ZL3foov",
        "_ZZ4mainENKUlvE_clEv", "_ZUlvE_", "_Z1fM1AFivE", "_Z1fA10_i", "_Z1fPKc", "_ZN9__gnu_cxx13new_allocatorIcEC2Ev", "_Z1hRK3hasI1aE.isra.0",
    ];
    (s.pick(R).to_string(), None)
}

/// Any string made of the words that occur in readable and mangled names.
pub fn telling(s: &mut Source) -> String {
    const A: &[&str] = &[
        "operator", "operator<", "operator<<", "operator->", "operator()", "operator ", "(anonymous namespace)", "{{closure}}", "{closure#0}", "{vtable.shim}", "::h", "::", "0123456789abcdef", ".llvm.", ".cold",
        ".isra.0", " [clone .cold]", "[clone", "[abi:cxx11]", "$LT$", "$GT$", "$u20$", "..", ".", " const", "lambda", "'lambda'", "{lambda()#1}", "unsigned ", "impl ", " as ", "<impl", "dyn ", "&mut ", "~", "_ZN",
        "_Z", "_R", "17h", "E", "<", ">", "<T>", "(", ")", "(int)", "[", "]", "{", "}", "#", "#0", "é", "中", "😀", "\u{301}", " ", ",", "std", "core", "alloc", "x", "h", "9", "data", "code", "table", "elem", "$", "@", "@@", "/", "0x",
    ];
    let n = s.range(1, 5);
    (0..n).map(|_| *s.pick(A)).collect()
}

/// Any string, with the characters that matter in symbols.
fn wild(s: &mut Source) -> String {
    if s.chance(1, 3) {
        return telling(s);
    }
    const A: &[&str] = &[
        "<", ">", "::", "::h", ":", "h", "0123456789abcdef", "1", "e", "a", "x", " ", "&", ".", "_", "é", "中", "😀", "(", ")", "$LT$", "I", "E", "N", "S_", "S0_", "T_", "Z", "_Z", "_ZN", "_R",
        "17h", "3foo", "C1", "L", "X", "J", "D", "P", "v", "i", "K", "\u{0}", "\n", "\"", "9", "99999999999999999999", "St", "Sa", "p", "F", "M", "A", "B", "Y", "_GLOBAL_", "c", "t",
    ];
    let n = s.below(14);
    (0..n).map(|_| *s.pick(A)).collect()
}

fn mutate(s: &mut Source, x: &str) -> String {
    let mut c: Vec<char> = x.chars().collect();
    for _ in 0..s.range(1, 4) {
        if c.is_empty() {
            break;
        }
        let i = s.below(c.len());
        match s.below(6) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, *s.pick(&['I', 'E', 'S', '_', '0', '9', 'T', 'N', 'L', 'h', 'é', ':'])),
            2 => c[i] = *s.pick(&['I', 'E', 'S', '_', '0', '9', 'T', 'N', 'L', 'h', 'K', 'P']),
            3 => c.truncate(i),
            4 => {
                let j = s.range(i, c.len());
                let part: Vec<char> = c[i..j].to_vec();
                let k = s.below(c.len() + 1);
                for (o, ch) in part.into_iter().enumerate() {
                    c.insert(k + o, ch);
                }
            }
            _ => {
                let j = s.below(c.len());
                c.swap(i, j);
            }
        }
    }
    c.into_iter().collect()
}

fn huge(s: &mut Source) -> String {
    let k = s.range(1, 40);
    match s.below(5) {
        // every template argument list doubles the size of the text
        0 => {
            let mut t = format!("{}St4pairIiiE", s.pick(&["_Z1f", "__Z1f", "_ZN1a1fE"]));
            for n in 0..k {
                // the last type, or an earlier one
                let i = if s.chance(1, 8) { n } else { 2 * n };
                t.push_str(&format!("St4pairIS{0}_S{0}_E", base36(i)));
            }
            t
        }
        1 => format!("_Z1f{}i", "P".repeat(s.range(1, 3000))),
        2 => format!("_RNvC1a{}1f", "R".repeat(s.range(1, 3000))),
        3 => format!("_RINvC1a1f{}hE", "R".repeat(s.range(1, 3000))),
        _ => format!("{}{}", "a<".repeat(s.range(1, 3000)), ">".repeat(s.range(0, 3000))),
    }
}

fn base36(mut n: usize) -> String {
    const D: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    let mut v = vec![];
    loop {
        v.push(D[n % 36] as char);
        n /= 36;
        if n == 0 {
            break;
        }
    }
    v.iter().rev().collect()
}

fn plain(s: &mut Source) -> String {
    match s.below(8) {
        0 => ident(s),
        1 => format!("{}::{}", ident(s), ident(s)),
        2 => format!("{}<{}>::{}", ident(s), ident(s), ident(s)),
        3 => format!("<{} as {}>::{}", ident(s), ident(s), ident(s)),
        4 => format!("{}::{}", ident(s), hash(s)),
        5 => {
            // almost a hash
            let h = hash(s);
            let n = s.below(4);
            let h = match n {
                0 => h[..16].to_string(),
                1 => h + "0",
                2 => h.replacen('h', "g", 1),
                _ => h[..16].to_string() + "g",
            };
            format!("{}::{h}", ident(s))
        }
        6 => s.pick(&["RC4_set_key", "RC4", "R", "Z", "ZN", "_", "", "_R", "__R", "_ZN", "Read", "ZNotMangled", "h", "::h", "::", "a::h", "main", "operator<", "operator->", "operator>>", "a>b<c", "x<y", "x>y", "<x>", "<", ">", "a<>", "std::operator<< <char>"]).to_string(),
        _ => format!("{}<{}>({})", ident(s), ident(s), ident(s)),
    }
}

fn c11(c: &mut Ctx) -> Result<(), String> {
    let mut want_name = None;
    let mut want_generic = None;
    let kind = c.s.weighted(&[4, 5, 4, 6, 4, 4, 1]);
    let name = match kind {
        0 => plain(&mut c.s),
        1 => {
            let (m, d, g) = legacy(&mut c.s);
            want_name = Some(d);
            want_generic = Some(Some(g));
            m
        }
        2 => v0(&mut c.s),
        3 => {
            let (m, d) = cpp(&mut c.s);
            want_generic = d.as_ref().map(|d| d.find('<').map(|i| d[..i].to_string()));
            want_name = d;
            m
        }
        4 => wild(&mut c.s),
        5 => {
            let base = match c.s.below(4) {
                0 => legacy(&mut c.s).0,
                1 => v0(&mut c.s),
                2 => cpp(&mut c.s).0,
                _ => plain(&mut c.s),
            };
            mutate(&mut c.s, &base)
        }
        _ => huge(&mut c.s),
    };
    c.label(["plain", "Rust legacy", "Rust v0", "C++", "any string", "mutated symbol", "huge"][kind]);
    c.id(&name);
    let via = c.s.below(16);
    c.sample(|| name.chars().take(200).collect());
    let (got_name, got_generic) = if via == 0 {
        // through a module
        let bytes = module(&name);
        let items = sut::must_parse(&bytes)?;
        let v: Vec<_> = items.iter().filter(|i| sut::kind_of(i) == crate::graph::Kind::Code).map(|i| (i.name().to_string(), i.monomorphization_of().map(|x| x.to_string()))).collect();
        c.label("through a module");
        match <[_; 1]>::try_from(v) {
            Ok([x]) => x,
            Err(v) => return Err(format!("a module with one function has functions {v:?}")),
        }
    } else {
        sut::catch(&format!("naming {:?}", name.chars().take(300).collect::<String>()), || {
            let i = ir::Item::new(ir::Id::entry(0, 0), name.as_str(), 1, ir::Code::new(&name));
            (i.name().to_string(), i.monomorphization_of().map(|x| x.to_string()))
        })?
    };
    match (&want_name, readable(&name)) {
        (Some(w), Shown::As(r)) if *w != r => return Err(format!("HARNESS: {name:?} is readable as {w:?}, the libraries say {r:?}")),
        (None, Shown::As(r)) => want_name = Some(r),
        (None, Shown::Unclear(start)) if got_name != name && !got_name.starts_with(&start) => return Err(format!("function {name:?} is shown as {:?}...", got_name.chars().take(300).collect::<String>())),
        _ => {}
    }
    let want_name = match want_name {
        Some(w) => w,
        None => {
            // too large to say; it must at least be consistent
            c.label("unclear");
            got_name.clone()
        }
    };
    if got_name != want_name {
        return Err(format!("function {name:?} is shown as {got_name:?}, expected {want_name:?}"));
    }
    let want_generic = want_generic.unwrap_or_else(|| known_generic(&want_name));
    if got_generic != want_generic {
        return Err(format!("function {want_name:?} ({name:?}) is said to be an instantiation of {got_generic:?}, expected {want_generic:?}"));
    }
    // only functions are demangled
    if via == 1 {
        let i = sut::catch("naming data", || ir::Item::new(ir::Id::entry(0, 0), name.as_str(), 1, ir::Data::new(None)))?;
        if i.name() != name || i.monomorphization_of().is_some() {
            return Err(format!("data {name:?} is shown as {:?}, an instantiation of {:?}", i.name(), i.monomorphization_of()));
        }
        let i = sut::catch("naming an entry", || ir::Item::new(ir::Id::entry(0, 0), name.as_str(), 1, ir::Misc::new()))?;
        if i.name() != name || i.monomorphization_of().is_some() {
            return Err(format!("entry {name:?} is shown as {:?}, an instantiation of {:?}", i.name(), i.monomorphization_of()));
        }
    }
    c.label_if(want_name != name, "demangled");
    c.label_if(want_generic.is_some(), "instantiation");
    c.nontrivial = want_name != name || want_generic.is_some() || !name.is_ascii();
    Ok(())
}

/// A module with one function of the given name.
fn module(name: &str) -> Vec<u8> {
    fn leb(mut v: usize, o: &mut Vec<u8>) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                o.push(b);
                return;
            }
            o.push(b | 0x80);
        }
    }
    let mut m = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0, 1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0, 10, 4, 1, 2, 0, 0x0b];
    let mut sub = vec![1, 0];
    leb(name.len(), &mut sub);
    sub.extend_from_slice(name.as_bytes());
    let mut sec = vec![4];
    sec.extend_from_slice(b"name");
    sec.push(1);
    leb(sub.len(), &mut sec);
    sec.extend_from_slice(&sub);
    m.push(0);
    leb(sec.len(), &mut m);
    m.extend_from_slice(&sec);
    m
}
