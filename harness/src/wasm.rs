//! An independent WebAssembly model: a random well-formed (and validly typed)
//! module, its binary encoding, and the items and references it must yield.

use crate::graph::{known_generic, Graph, Kind, Node};
use crate::source::Source;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
    V128,
    FuncRef,
    ExternRef,
}

impl Ty {
    fn code(self) -> u8 {
        match self {
            Ty::I32 => 0x7f,
            Ty::I64 => 0x7e,
            Ty::F32 => 0x7d,
            Ty::F64 => 0x7c,
            Ty::V128 => 0x7b,
            Ty::FuncRef => 0x70,
            Ty::ExternRef => 0x6f,
        }
    }
    fn text(self) -> &'static str {
        match self {
            Ty::I32 => "i32",
            Ty::I64 => "i64",
            Ty::F32 => "f32",
            Ty::F64 => "f64",
            Ty::V128 => "v128",
            Ty::FuncRef => "funcref",
            Ty::ExternRef => "externref",
        }
    }
}

#[derive(Clone, Debug)]
pub enum ImportKind {
    Func(usize),
    Table(Ty),
    Memory,
    Global(Ty, bool),
    Tag(usize),
}

#[derive(Clone, Debug)]
pub struct Import {
    pub module: String,
    pub field: String,
    pub kind: ImportKind,
}

/// What an instruction sequence refers to.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ref {
    Func(usize),
    Global(usize),
    Data(usize),
    /// By constant address: what the address lies in, and what the recorded
    /// finding in the address lookup makes of it.
    DataTrue(usize),
    DataSeen(usize),
    Elem(usize),
}

#[derive(Clone, Debug)]
pub enum Init {
    Const(Ty),
    Addr(u32),
    GlobalGet(usize),
    RefFunc(usize),
    RefNull(Ty),
}

#[derive(Clone, Debug)]
pub struct Func {
    pub ty: usize,
    pub locals: Vec<(u32, Ty)>,
    pub body: Vec<Op>,
}

/// Stack-neutral statements.
#[derive(Clone, Debug)]
pub enum Op {
    Nop,
    Const(Ty),
    Call(usize),
    CallIndirect(usize, usize),
    GlobalGet(usize),
    GlobalSet(usize),
    /// load opcode, address constant, offset
    LoadConst(u8, u32, u32),
    /// load whose address is an i64-typed wrap or a local: no constant address
    /// A load whose address is computed; the third field is the way, the
    /// fourth a constant that is near but is not the address.
    LoadDynamic(u8, u32, u8, u32),
    StoreConst(u32, u32),
    RefFunc(usize),
    MemoryInit(usize),
    TableInit(usize, usize),
    DataDrop(usize),
    ElemDrop(usize),
    Block(u8, Vec<Op>),
    If(Vec<Op>, Vec<Op>),
    BrIf,
    BrTable(usize),
    Return,
    ReturnCall(usize),
    MemGrow,
    LocalSet,
    /// Code after which nothing is reached: one of a few ways.
    Leave(u8),
    /// Instructions that refer to nothing.
    Other(&'static [u8]),
}

/// Balanced instructions that refer to no item, for any module.
const OTHERS: &[&[u8]] = &[
    &[0x41, 5, 0x41, 3, 0x6a, 0x1a],
    &[0x42, 5, 0xa7, 0x1a],
    &[0x41, 1, 0x41, 2, 0x41, 3, 0x1c, 1, 0x7f, 0x1a],
    &[0x43, 0, 0, 0, 0, 0xfc, 0x00, 0x1a],
    &[0x41, 0, 0xc0, 0x1a],
    &[0xd0, 0x70, 0xd1, 0x1a],
    &[0x02, 0x7f, 0x41, 5, 0x0b, 0x1a],
    &[0x41, 5, 0xfd, 0x11, 0x1a],
    &[0xfe, 0x03, 0x00],
    &[0x06, 0x40, 0x19, 0x0b],
    &[0x06, 0x40, 0x01, 0x18, 0x00],
    &[0x03, 0x40, 0x41, 0, 0x0d, 0, 0x0b],
];

/// The same, with a memory.
const OTHERS_MEM: &[&[u8]] = &[
    &[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 0x0a, 0, 0],
    &[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 0x0b, 0],
    &[0x3f, 0, 0x1a],
    &[0x3f, 0, 0x42, 7, 0x37, 3, 8],
];

/// The same, with a table of functions at 0.
const OTHERS_TABLE: &[&[u8]] = &[
    &[0x41, 0, 0x25, 0, 0x1a],
    &[0xfc, 0x10, 0, 0x1a],
    &[0xd0, 0x70, 0x41, 0, 0xfc, 0x0f, 0, 0x1a],
    &[0x41, 0, 0xd0, 0x70, 0x26, 0],
    &[0x41, 0, 0xd0, 0x70, 0x41, 0, 0xfc, 0x11, 0],
    &[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 0x0e, 0, 0],
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ElemMode {
    Active(usize),
    Passive,
    Declared,
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub mode: ElemMode,
    pub offset: Init,
    /// None entries only with `exprs`.
    pub items: Vec<Option<usize>>,
    pub exprs: bool,
    /// Holds external references, which can only be null.
    pub external: bool,
}

#[derive(Clone, Debug)]
pub struct Data {
    pub offset: Option<Init>,
    pub len: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ExportKind {
    Func,
    Table,
    Memory,
    Global,
    Tag,
}

#[derive(Clone, Debug)]
pub enum NameSub {
    Module(String),
    Func(BTreeMap<usize, String>),
    Local,
    Data(BTreeMap<usize, String>),
    /// A name map subsection with the given id (types, tables, ...).
    Map(u8),
    /// A subsection id this tool does not know.
    Unknown(u8, usize),
}

#[derive(Clone, Debug)]
pub enum Custom {
    Plain(String, usize),
    Names(Vec<NameSub>),
}

#[derive(Clone, Debug, Default)]
pub struct Module {
    pub types: Vec<(Vec<Ty>, Vec<Ty>)>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>,
    pub tables: Vec<Ty>,
    pub memory: bool,
    /// Flags of the limits of further memories, which no code uses: 1 with a
    /// maximum, 2 shared, 4 of 64 bits.
    pub more_memories: Vec<u8>,
    /// Exception tags, which twiggy has no items for.
    pub tags: Vec<usize>,
    pub globals: Vec<(Ty, bool, Init)>,
    pub exports: Vec<(String, ExportKind, usize)>,
    pub start: Option<usize>,
    pub elems: Vec<Elem>,
    pub data_count: bool,
    pub datas: Vec<Data>,
    /// (position among the non-custom sections, section)
    pub customs: Vec<(usize, Custom)>,
    /// Emit optional sections even when they are empty.
    pub empty_sections: bool,
    /// Extra bytes for each encoded integer, used in encoding order, cyclically.
    pub pads: Vec<u8>,
    /// What there is much of, and how much.
    pub big: Option<(Big, usize)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Big {
    Types,
    Imports,
    Funcs,
    Globals,
    Exports,
    Elems,
    Datas,
    Body,
    Custom,
    Data,
    Items,
    Name,
    Params,
    Locals,
}

const BIG: &[Big] = &[Big::Types, Big::Imports, Big::Funcs, Big::Globals, Big::Exports, Big::Elems, Big::Datas, Big::Body, Big::Custom, Big::Data, Big::Items, Big::Name, Big::Params, Big::Locals, Big::Imports, Big::Funcs];

impl Module {
    pub fn imported(&self, f: impl Fn(&ImportKind) -> bool) -> usize {
        self.imports.iter().filter(|i| f(&i.kind)).count()
    }
    pub fn n_imp_funcs(&self) -> usize {
        self.imported(|k| matches!(k, ImportKind::Func(_)))
    }
    pub fn n_funcs(&self) -> usize {
        self.n_imp_funcs() + self.funcs.len()
    }
    pub fn func_tys(&self) -> Vec<usize> {
        let imported = self.imports.iter().filter_map(|i| match i.kind {
            ImportKind::Func(t) => Some(t),
            _ => None,
        });
        imported.chain(self.funcs.iter().map(|f| f.ty)).collect()
    }
    pub fn func_ty(&self, f: usize) -> usize {
        let n = self.n_imp_funcs();
        if f < n {
            self.imports
                .iter()
                .filter_map(|i| match i.kind {
                    ImportKind::Func(t) => Some(t),
                    _ => None,
                })
                .nth(f)
                .unwrap()
        } else {
            self.funcs[f - n].ty
        }
    }
    pub fn all_globals(&self) -> Vec<(Ty, bool)> {
        self.imports
            .iter()
            .filter_map(|i| match i.kind {
                ImportKind::Global(t, m) => Some((t, m)),
                _ => None,
            })
            .chain(self.globals.iter().map(|g| (g.0, g.1)))
            .collect()
    }
    pub fn all_tables(&self) -> Vec<Ty> {
        self.imports
            .iter()
            .filter_map(|i| match i.kind {
                ImportKind::Table(t) => Some(t),
                _ => None,
            })
            .chain(self.tables.iter().copied())
            .collect()
    }
    fn n_memories(&self) -> usize {
        usize::from(self.has_memory()) + self.more_memories.len()
    }
    pub fn has_memory(&self) -> bool {
        self.memory || self.imports.iter().any(|i| matches!(i.kind, ImportKind::Memory))
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct WasmOpts {
    pub max_funcs: usize,
    /// Names may repeat or need escapes.
    pub odd_names: bool,
    /// Function names are instances of generics often.
    pub generics: bool,
    /// Few calls (for path enumeration).
    pub sparse: bool,
    /// All item names are distinct.
    pub unique: bool,
    /// Names made of words that mean something in symbols.
    pub telling_names: bool,
    /// Pad integers.
    pub pad: bool,
    /// Rarely, make one kind of entry numerous or one entry large.
    pub big: bool,
}

impl Default for WasmOpts {
    fn default() -> Self {
        WasmOpts { max_funcs: 14, odd_names: false, generics: false, sparse: false, unique: true, telling_names: false, pad: true, big: false }
    }
}

const NUM: &[Ty] = &[Ty::I32, Ty::I64, Ty::F32, Ty::F64];
const ALL: &[Ty] = &[Ty::I32, Ty::I64, Ty::F32, Ty::F64, Ty::I32, Ty::V128, Ty::FuncRef, Ty::ExternRef];

fn val_tys(s: &mut Source, max: usize) -> Vec<Ty> {
    let n = if s.chance(1, 10) { s.range(0, max * 3) } else { s.range(0, max) };
    (0..n).map(|_| *s.pick(ALL)).collect()
}

/// Rarely, something that makes a name long.
fn length(s: &mut Source, o: &WasmOpts) -> String {
    if !s.chance(1, 100) {
        return String::new();
    }
    let most = if o.big { 20_000 } else { 3_000 };
    let n = *s.pick(&[120usize, 250, 1_020, 2_040, 4_090, 16_380]) + s.below(20);
    s.pick(&["long", "ab::", "x_é"]).repeat(n.min(most) / 4)
}

fn ident(s: &mut Source, tag: &str, i: usize, o: &WasmOpts) -> String {
    if o.telling_names && s.chance(1, 4) {
        return crate::checks::names::telling(s);
    }
    if !o.unique && s.chance(1, 16) {
        return String::new();
    }
    const W: &[&str] = &["a", "malloc", "env", "memory", "std::rt", "x_y", "é", "with space", "", "p.q", "(anonymous namespace)"];
    let w = *s.pick(W);
    if o.odd_names && s.chance(1, 4) {
        let tag = format!("{tag}{i}");
        crate::graph::odd_around(s, &tag)
    } else if o.unique {
        format!("{w}{}{tag}{i}", length(s, o))
    } else {
        format!("{w}{}", i / 2)
    }
}

pub fn generate(s: &mut Source, o: &WasmOpts) -> Module {
    let mut m = Module::default();
    let npads = if o.pad && s.chance(2, 5) { s.range(1, 12) } else { 0 };
    m.pads = (0..npads).map(|_| s.below(5) as u8).collect();
    m.empty_sections = s.chance(1, 8);
    let big = if o.big && s.chance(1, 120) { Some(*s.pick(BIG)) } else { None };
    let amount = match s.weighted(&[40, 1]) {
        0 => s.range(110, 500),
        _ => s.range(65_600, 98_000),
    };
    let extra = |b: Big| if big == Some(b) { amount } else { 0 };
    m.big = big.map(|b| (b, amount));

    let ntypes = s.range(1, 6);
    for _ in 0..ntypes {
        let p = val_tys(s, 3);
        let r = match s.below(5) {
            0..=1 => vec![],
            2..=3 => vec![*s.pick(ALL)],
            _ => val_tys(s, 3),
        };
        m.types.push((p, r));
    }
    for i in 0..extra(Big::Types) {
        m.types.push((vec![Ty::I32; i % 3], vec![Ty::I64; (i + 1) % 2]));
    }
    if big == Some(Big::Params) {
        // the most there can be is 1000
        m.types.push((vec![*s.pick(ALL); amount.min(1000)], vec![]));
    }
    let ntypes = m.types.len();
    let nimp = s.size(8);
    let mut has_mem = false;
    for i in 0..nimp {
        let kind = match s.below(6) {
            0..=2 => ImportKind::Func(s.below(ntypes)),
            3 => ImportKind::Table(if s.chance(1, 4) { Ty::ExternRef } else { Ty::FuncRef }),
            4 if !has_mem => {
                has_mem = true;
                ImportKind::Memory
            }
            _ => {
                let t = *s.pick(NUM);
                ImportKind::Global(t, s.chance(1, 2))
            }
        };
        m.imports.push(Import { module: ident(s, "m", i, o), field: ident(s, "i", i, o), kind });
    }
    // Types without results can be those of tags.
    let tag_tys: Vec<usize> = (0..ntypes).filter(|t| m.types[*t].1.is_empty()).collect();
    let tags = o.big && !tag_tys.is_empty() && s.chance(1, 12);
    if tags {
        for i in 0..s.below(3) {
            let at = s.below(m.imports.len() + 1);
            m.imports.insert(at, Import { module: "tag".into(), field: format!("t{i}"), kind: ImportKind::Tag(*s.pick(&tag_tys)) });
        }
        m.tags = (0..s.below(3)).map(|_| *s.pick(&tag_tys)).collect();
    }
    for i in 0..extra(Big::Imports) {
        let kind = match i % 10 {
            0..=7 => ImportKind::Func(i % ntypes),
            8 => ImportKind::Table(Ty::FuncRef),
            _ => ImportKind::Global(Ty::I32, i % 20 < 10),
        };
        m.imports.push(Import { module: "x".into(), field: format!("imp{i}"), kind });
    }
    let nf = match s.weighted(&[6, 3, 1]) {
        0 => s.below(5),
        1 => s.below(o.max_funcs + 1),
        _ => o.max_funcs,
    };
    let nfuncs = nf.max(if s.chance(1, 16) { 0 } else { 1 });
    for _ in 0..nfuncs {
        m.funcs.push(Func { ty: s.below(ntypes), locals: vec![], body: vec![] });
    }
    for i in 0..extra(Big::Funcs) {
        m.funcs.push(Func { ty: i % ntypes, locals: vec![], body: vec![] });
    }
    let nt = s.weighted(&[3, 3, 1]);
    for _ in 0..nt {
        m.tables.push(if s.chance(1, 5) { Ty::ExternRef } else { Ty::FuncRef });
    }
    if !has_mem {
        m.memory = s.chance(4, 5);
    }
    if m.has_memory() && s.chance(1, 8) {
        m.more_memories = (0..s.range(1, 3)).map(|_| *s.pick(&[0u8, 1, 3, 4, 5, 7])).collect();
    }
    let n_imp_glob = m.imported(|k| matches!(k, ImportKind::Global(..)));
    let imp_globs = m.all_globals();
    let ng = s.size(6);
    let n_all_funcs = m.n_funcs();
    for _ in 0..ng {
        let t = *s.pick(ALL);
        let consts: Vec<usize> = (0..n_imp_glob).filter(|g| imp_globs[*g].0 == t && !imp_globs[*g].1).collect();
        let init = match t {
            Ty::FuncRef if n_all_funcs > 0 && s.chance(2, 3) => Init::RefFunc(s.below(n_all_funcs)),
            Ty::FuncRef | Ty::ExternRef => Init::RefNull(t),
            _ if !consts.is_empty() && s.chance(1, 2) => Init::GlobalGet(*s.pick(&consts)),
            _ => Init::Const(t),
        };
        m.globals.push((t, s.chance(1, 2), init));
    }
    for i in 0..extra(Big::Globals) {
        m.globals.push((Ty::I32, i % 2 == 0, Init::Addr(i as u32)));
    }
    // Exports
    let tables = m.all_tables();
    let globals = m.all_globals();
    let nexp = s.size(7);
    for i in 0..nexp {
        let (k, n) = match s.below(7) {
            0..=3 => (ExportKind::Func, n_all_funcs),
            4 => (ExportKind::Table, tables.len()),
            5 => (ExportKind::Memory, m.n_memories()),
            _ => (ExportKind::Global, globals.len()),
        };
        if n > 0 {
            let ix = s.below(n);
            m.exports.push((ident(s, "e", i, o), k, ix));
        }
    }
    let imp_tags = m.imported(|k| matches!(k, ImportKind::Tag(_)));
    for i in 0..m.tags.len() {
        if s.chance(1, 2) {
            m.exports.push((format!("tag{i}"), ExportKind::Tag, imp_tags + i));
        }
    }
    for i in 0..extra(Big::Exports) {
        if n_all_funcs > 0 {
            m.exports.push((format!("exp{i}"), ExportKind::Func, i % n_all_funcs));
        }
    }
    if big == Some(Big::Name) && n_all_funcs > 0 {
        m.exports.push(("n".repeat(amount), ExportKind::Func, 0));
    }
    let tys = m.func_tys();
    let void: Vec<usize> = (0..n_all_funcs).filter(|f| { let t = &m.types[tys[*f]]; t.0.is_empty() && t.1.is_empty() }).collect();
    if !void.is_empty() && s.chance(1, 3) {
        m.start = Some(*s.pick(&void));
    }
    let i32_consts: Vec<usize> = (0..n_imp_glob).filter(|g| imp_globs[*g] == (Ty::I32, false)).collect();
    // Element segments
    let functables: Vec<usize> = (0..tables.len()).filter(|t| tables[*t] == Ty::FuncRef).collect();
    let ne = s.size(4);
    for _ in 0..ne {
        if n_all_funcs == 0 {
            break;
        }
        let mode = if !functables.is_empty() && s.chance(3, 4) {
            ElemMode::Active(*s.pick(&functables))
        } else if s.chance(1, 2) {
            ElemMode::Passive
        } else {
            ElemMode::Declared
        };
        let exprs = s.chance(1, 4);
        let k = s.size(6);
        let items = (0..k)
            .map(|_| if exprs && s.chance(1, 4) { None } else { Some(s.below(n_all_funcs)) })
            .collect();
        let offset = if !i32_consts.is_empty() && s.chance(1, 4) { Init::GlobalGet(*s.pick(&i32_consts)) } else { Init::Addr(s.below(200) as u32) };
        m.elems.push(Elem { mode, offset, items, exprs, external: false });
    }
    if o.big && s.chance(1, 12) {
        let table = tables.iter().position(|t| *t == Ty::ExternRef);
        let mode = match (table, s.below(3)) {
            (_, 0) => ElemMode::Declared,
            (Some(t), _) => ElemMode::Active(t),
            _ => ElemMode::Passive,
        };
        let k = s.below(4);
        let at = s.below(m.elems.len() + 1);
        m.elems.insert(at, Elem { mode, offset: Init::Addr(0), items: vec![None; k], exprs: true, external: true });
    }
    for i in 0..extra(Big::Elems) {
        if n_all_funcs > 0 {
            m.elems.push(Elem { mode: ElemMode::Passive, offset: Init::Addr(0), items: vec![Some(i % n_all_funcs)], exprs: false, external: false });
        }
    }
    if big == Some(Big::Items) && n_all_funcs > 0 {
        let mode = if functables.is_empty() { ElemMode::Passive } else { ElemMode::Active(functables[0]) };
        m.elems.push(Elem { mode, offset: Init::Addr(0), items: (0..amount).map(|i| Some(i % n_all_funcs)).collect(), exprs: s.chance(1, 3), external: false });
    }
    // Data segments: disjoint ranges, then shuffled.
    if m.has_memory() {
        let nd = s.size(7);
        let mut at: u64 = s.below(40) as u64;
        let high = s.chance(1, 4);
        let mut segs = vec![];
        for i in 0..nd {
            if high && i == nd / 2 {
                at = 0x8000_0000u64 - s.below(30) as u64;
            }
            let len = match s.below(6) {
                0 => 0,
                1..=4 => s.range(1, 24),
                _ => s.range(1, 300),
            };
            let d = match s.below(10) {
                0..=6 => {
                    let off = at;
                    at += len as u64;
                    at += if s.chance(1, 2) { s.below(40) as u64 } else { 0 };
                    Data { offset: Some(Init::Addr(off as u32)), len }
                }
                7 if !i32_consts.is_empty() => Data { offset: Some(Init::GlobalGet(*s.pick(&i32_consts))), len },
                _ => Data { offset: None, len },
            };
            segs.push(d);
        }
        if big == Some(Big::Data) {
            segs.push(Data { offset: Some(Init::Addr(at as u32)), len: amount });
            at += amount as u64 + 5;
        }
        s.shuffle(&mut segs);
        for _ in 0..extra(Big::Datas) {
            segs.push(Data { offset: Some(Init::Addr(at as u32)), len: 1 });
            at += 2;
        }
        m.datas = segs;
    }
    // Bodies
    for f in 0..m.funcs.len() {
        if f > 40 && f + 5 < m.funcs.len() {
            continue;
        }
        let nl = s.below(4);
        m.funcs[f].locals = (0..nl).map(|_| (s.below(4) as u32, *s.pick(ALL))).collect();
        let budget = if o.sparse { s.range(0, 3) } else { s.size(10) };
        let body = ops(s, &m, budget, 0, o, f);
        m.funcs[f].body = body;
    }
    if !m.funcs.is_empty() {
        let f = s.below(m.funcs.len());
        for i in 0..extra(Big::Body) {
            m.funcs[f].body.push(if i % 50 == 1 { Op::Call(i % n_all_funcs) } else { Op::Nop });
        }
        for i in 0..extra(Big::Locals).min(45_000) {
            m.funcs[f].locals.push((1, ALL[i % ALL.len()]));
        }
    }
    let needs_dc = m.funcs.iter().any(|f| has_data_ops(&f.body));
    m.data_count = needs_dc || (!m.datas.is_empty() && s.chance(1, 4));
    // Names and custom sections
    let nc = s.size(4);
    for i in 0..nc {
        let name = match s.below(4) {
            0 => "producers".to_string(),
            1 => format!(".debug_{i}"),
            2 => "linking".to_string(),
            _ => ident(s, "c", i, o),
        };
        let name = if o.unique { format!("{name}~{i}") } else { name };
        let len = s.size(200);
        m.customs.push((s.below(14), Custom::Plain(name, len)));
    }
    if big == Some(Big::Custom) {
        m.customs.push((s.below(14), Custom::Plain("large".into(), amount * s.range(1, 30))));
    }
    if s.chance(4, 5) {
        let mut subs = vec![];
        if s.chance(1, 3) {
            subs.push(NameSub::Module("mod".into()));
        }
        let mut fnames = BTreeMap::new();
        let density = s.below(3);
        let alike = s.chance(1, 6);
        for f in 0..n_all_funcs {
            if f > 100 && f + 20 < n_all_funcs && f % 997 != 0 {
                continue;
            }
            let named = match density {
                0 => true,
                1 => s.chance(1, 2),
                _ => s.chance(1, 8),
            };
            if named {
                let mut name = func_name(s, f, o);
                // Names that differ in little from another.
                if alike && !fnames.is_empty() && s.chance(1, 3) {
                    let like: &String = fnames.values().nth(s.below(fnames.len())).unwrap();
                    if like.len() < 200 && !like.contains('<') && !like.contains("::h") {
                        let other = crate::graph::alike_name(s, like);
                        if !other.is_empty() && !other.starts_with('_') && fnames.values().all(|n| *n != other) {
                            name = other;
                        }
                    }
                }
                fnames.insert(f, name);
            }
        }
        if big == Some(Big::Name) && n_all_funcs > 0 {
            fnames.insert(s.below(n_all_funcs), "v".repeat(amount));
        }
        if !fnames.is_empty() || s.chance(1, 2) {
            subs.push(NameSub::Func(fnames));
        }
        if s.chance(1, 4) {
            subs.push(NameSub::Local);
        }
        for id in 3..=8u8 {
            if s.chance(1, 12) {
                subs.push(NameSub::Map(id));
            }
        }
        if s.chance(1, 3) {
            let mut d = BTreeMap::new();
            for i in 0..m.datas.len() {
                if s.chance(2, 3) {
                    d.insert(i, ident(s, "d", i, o));
                }
            }
            subs.push(NameSub::Data(d));
        }
        if s.chance(1, 10) {
            let n = s.below(20);
            subs.push(NameSub::Unknown(*s.pick(&[10u8, 11, 33]), n));
        }
        // Readers skip what they do not know, wherever it is.
        if s.chance(1, 8) {
            for i in (1..subs.len()).rev() {
                subs.swap(i, s.below(i + 1));
            }
        }
        // Names in several places, as tools that merge modules leave them.
        if !o.unique && s.chance(1, 8) {
            let at = subs.iter().position(|x| matches!(x, NameSub::Func(_)));
            if let Some(NameSub::Func(names)) = at.map(|at| &mut subs[at]) {
                let (some, others) = std::mem::take(names).into_iter().partition(|_| s.chance(1, 2));
                *names = some;
                if s.chance(1, 2) {
                    subs.push(NameSub::Func(others));
                } else {
                    m.customs.push((s.below(14), Custom::Names(vec![NameSub::Func(others)])));
                }
            }
        }
        // Usually at the end, but any place is allowed by this tool's input.
        let pos = if s.chance(1, 4) { s.below(14) } else { 13 };
        m.customs.push((pos, Custom::Names(subs)));
    }
    m
}

fn func_name(s: &mut Source, f: usize, o: &WasmOpts) -> String {
    if o.telling_names && s.chance(1, 2) {
        return crate::checks::names::telling(s);
    }
    if o.odd_names && s.chance(1, 4) {
        return format!("q{}", crate::graph::odd_around(s, f));
    }
    if !o.unique && s.chance(1, 24) {
        return String::new();
    }
    let g = s.below(4);
    let k = if o.generics { s.below(6) } else { s.below(12) };
    let u = if o.unique { f } else { f / 3 };
    match k {
        1 => format!("gen{g}::run<T{u}>"),
        2 => format!("gen{g}::run::h{:016x}", 0xfedc_0000_0000_0000u64 + u as u64),
        3 => format!("gen{g}<A<B>, T{u}>::call(int)"),
        4 if o.generics => format!("gen{g}<T{u}>"),
        5 => format!("<Ty{u} as Trait>::method"),
        _ => format!("{}{}_{u}", length(s, o), s.pick(&["main", "core::fmt::write", "dlmalloc", "a b", "é.x"])),
    }
}

fn has_data_ops(b: &[Op]) -> bool {
    b.iter().any(|o| match o {
        Op::MemoryInit(_) | Op::DataDrop(_) | Op::LoadDynamic(_, _, 16, _) => true,
        Op::Block(_, b) => has_data_ops(b),
        Op::If(a, b) => has_data_ops(a) || has_data_ops(b),
        _ => false,
    })
}

fn ops(s: &mut Source, m: &Module, budget: usize, depth: usize, o: &WasmOpts, f: usize) -> Vec<Op> {
    const LOADS: &[u8] = &[0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35];
    let mut v = vec![];
    let nfuncs = m.n_funcs();
    let globals = m.all_globals();
    let tables = m.all_tables();
    let mem = m.has_memory();
    let functables: Vec<usize> = (0..tables.len()).filter(|t| tables[*t] == Ty::FuncRef).collect();
    let active: Vec<(u32, usize)> = m
        .datas
        .iter()
        .filter_map(|d| match d.offset {
            Some(Init::Addr(a)) => Some((a, d.len)),
            _ => None,
        })
        .collect();
    for _ in 0..budget {
        let op = match s.weighted(&[1, 1, 6, 2, 2, 5, 3, 1, 1, 1, 1, 1, 2, 1, 1, 2]) {
            0 => Op::Nop,
            1 => Op::Const(*s.pick(ALL)),
            2 if !(o.sparse && s.chance(1, 3)) => Op::Call(s.below(nfuncs)),
            3 if !globals.is_empty() => Op::GlobalGet(s.below(globals.len())),
            4 => {
                let mutable: Vec<usize> = (0..globals.len()).filter(|g| globals[*g].1).collect();
                if mutable.is_empty() {
                    Op::Nop
                } else {
                    Op::GlobalSet(*s.pick(&mutable))
                }
            }
            5 if mem => {
                let opc = *s.pick(LOADS);
                let addr = if !active.is_empty() && s.chance(9, 10) {
                    let (a, l) = *s.pick(&active);
                    let (a, l) = (u64::from(a), l as u64);
                    let x = match s.below(5) {
                        0 => a,
                        1 => a + l / 2,
                        2 => a + l.saturating_sub(1),
                        3 => a + l,
                        _ => a.saturating_sub(1),
                    };
                    x as u32
                } else {
                    s.u32_any()
                };
                let off = match s.below(3) {
                    0 => 0,
                    1 => (s.below(64) as u32).min(addr),
                    _ => {
                        let h = addr / 2;
                        s.below(h as usize + 1) as u32
                    }
                };
                if s.chance(1, 30) {
                    // effective address beyond 32 bits: no segment is there
                    let base = u32::MAX - s.below(20) as u32;
                    if !active.is_empty() && s.chance(2, 3) {
                        // a segment is where the address would be in 32 bits
                        let (a, l) = *s.pick(&active);
                        let inner = s.below(l.max(1)) as u32;
                        Op::LoadConst(opc, base, a.wrapping_add(inner).wrapping_sub(base).max(21))
                    } else {
                        Op::LoadConst(opc, base, u32::MAX - s.below(20) as u32)
                    }
                } else {
                    Op::LoadConst(opc, addr - off, off)
                }
            }
            6 if mem => {
                let near = if active.is_empty() { 8 } else { s.pick(&active).0 };
                let off = if s.chance(1, 2) { 0 } else { s.below(300) as u32 };
                Op::LoadDynamic(*s.pick(LOADS), off, s.below(22) as u8, near)
            }
            7 if mem => Op::StoreConst(if active.is_empty() { 8 } else { s.pick(&active).0 }, s.below(3) as u32),
            8 => {
                if nfuncs > 0 {
                    Op::RefFunc(s.below(nfuncs))
                } else {
                    Op::Nop
                }
            }
            9 if mem && !m.datas.is_empty() => {
                let d = s.below(m.datas.len());
                if s.chance(1, 3) {
                    Op::DataDrop(d)
                } else {
                    Op::MemoryInit(d)
                }
            }
            10 if !m.elems.is_empty() => {
                let e = s.below(m.elems.len());
                let of = if m.elems[e].external { Ty::ExternRef } else { Ty::FuncRef };
                let fit: Vec<usize> = (0..tables.len()).filter(|t| tables[*t] == of).collect();
                if !fit.is_empty() && s.chance(2, 3) {
                    Op::TableInit(*s.pick(&fit), e)
                } else {
                    Op::ElemDrop(e)
                }
            }
            11 if !functables.is_empty() => {
                let t = s.below(m.types.len());
                Op::CallIndirect(t, *s.pick(&functables))
            }
            12 if depth < 4 => {
                let k = s.below(3);
                let b = s.below(4);
                let inner = ops(s, m, b, depth + 1, o, f);
                match k {
                    0 => Op::Block(0x02, inner),
                    1 => Op::Block(0x03, inner),
                    _ => {
                        let eb = s.below(3);
                        let els = ops(s, m, eb, depth + 1, o, f);
                        Op::If(inner, els)
                    }
                }
            }
            13 => match s.below(4) {
                0 => Op::BrIf,
                1 => Op::BrTable(s.below(4)),
                2 if mem => Op::MemGrow,
                _ => Op::LocalSet,
            },
            14 => {
                if s.chance(1, 2) {
                    Op::Return
                } else {
                    let tys = m.func_tys();
                    let same: Vec<usize> = (0..nfuncs).filter(|g| m.types[tys[*g]].1 == m.types[m.funcs[f].ty].1).collect();
                    if same.is_empty() {
                        Op::Nop
                    } else {
                        Op::ReturnCall(*s.pick(&same))
                    }
                }
            }
            _ => match s.below(6) {
                0 | 1 => Op::Leave(s.below(5) as u8),
                2 | 3 => Op::Other(s.pick(OTHERS)),
                4 if mem => Op::Other(s.pick(OTHERS_MEM)),
                5 if m.all_tables().first() == Some(&Ty::FuncRef) => Op::Other(s.pick(OTHERS_TABLE)),
                _ => Op::Nop,
            },
        };
        v.push(op);
    }
    v
}

// ------------------------------------------------------------------ encoding

#[derive(Clone, Debug)]
pub struct Item {
    pub name: String,
    pub size: usize,
    pub kind: Kind,
    pub root: bool,
}

/// What the parser must make of the module.
#[derive(Clone, Debug, Default)]
pub struct Expected {
    pub items: Vec<Item>,
    pub edges: BTreeSet<(usize, usize)>,
    /// References by constant address, and what the recorded finding in the
    /// address lookup yields in their place.
    pub by_address: BTreeSet<(usize, usize)>,
    pub by_address_seen: BTreeSet<(usize, usize)>,
}

fn local_types(m: &Module, f: &Func) -> Vec<Ty> {
    m.types[f.ty].0.iter().copied().chain(f.locals.iter().flat_map(|(n, t)| std::iter::repeat(*t).take(*n as usize))).collect()
}

pub struct Enc<'m> {
    m: &'m Module,
    pad_at: usize,
    exp: Expected,
}

fn put(out: &mut Vec<u8>, mut v: u64, extra: usize, max: usize) {
    let start = out.len();
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            break;
        }
        out.push(b | 0x80);
    }
    let mut e = extra;
    while e > 0 && out.len() - start < max {
        let l = out.len() - 1;
        out[l] |= 0x80;
        out.push(0);
        e -= 1;
    }
}

fn put_s(out: &mut Vec<u8>, mut v: i64, extra: usize, max: usize) {
    let start = out.len();
    let neg = v < 0;
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            out.push(b);
            break;
        }
        out.push(b | 0x80);
    }
    let mut e = extra;
    while e > 0 && out.len() - start < max {
        let l = out.len() - 1;
        out[l] |= 0x80;
        out.push(if neg { 0x7f } else { 0 });
        e -= 1;
    }
}

impl<'m> Enc<'m> {
    fn pad(&mut self) -> usize {
        if self.m.pads.is_empty() {
            return 0;
        }
        let p = self.m.pads[self.pad_at % self.m.pads.len()];
        self.pad_at += 1;
        usize::from(p)
    }
    fn u(&mut self, out: &mut Vec<u8>, v: usize) {
        let p = self.pad();
        put(out, v as u64, p, 5);
    }
    fn i32(&mut self, out: &mut Vec<u8>, v: i32) {
        let p = self.pad();
        put_s(out, i64::from(v), p, 5);
    }
    fn i64(&mut self, out: &mut Vec<u8>, v: i64) {
        let p = self.pad();
        put_s(out, v, p, 10);
    }
    fn s(&mut self, out: &mut Vec<u8>, t: &str) {
        self.u(out, t.len());
        out.extend_from_slice(t.as_bytes());
    }

    fn constant(&mut self, out: &mut Vec<u8>, t: Ty) {
        match t {
            Ty::I32 => {
                out.push(0x41);
                self.i32(out, -5);
            }
            Ty::I64 => {
                out.push(0x42);
                self.i64(out, -77_777_777_777);
            }
            Ty::F32 => {
                out.push(0x43);
                out.extend_from_slice(&1.5f32.to_le_bytes());
            }
            Ty::F64 => {
                out.push(0x44);
                out.extend_from_slice(&1.5f64.to_le_bytes());
            }
            Ty::V128 => {
                out.extend_from_slice(&[0xfd, 0x0c]);
                out.extend_from_slice(&[7; 16]);
            }
            Ty::FuncRef | Ty::ExternRef => {
                out.push(0xd0);
                out.push(t.code());
            }
        }
    }

    fn init(&mut self, out: &mut Vec<u8>, i: &Init) {
        match i {
            Init::Const(t) | Init::RefNull(t) => self.constant(out, *t),
            Init::Addr(a) => {
                out.push(0x41);
                self.i32(out, *a as i32);
            }
            Init::GlobalGet(g) => {
                out.push(0x23);
                self.u(out, *g);
            }
            Init::RefFunc(f) => {
                out.push(0xd2);
                self.u(out, *f);
            }
        }
        out.push(0x0b);
    }

    fn op(&mut self, out: &mut Vec<u8>, op: &Op, f: &Func, refs: &mut BTreeSet<Ref>) {
        let m = self.m;
        match op {
            Op::Nop => out.push(0x01),
            Op::Const(t) => {
                self.constant(out, *t);
                out.push(0x1a);
            }
            Op::Call(g) => {
                let t = m.types[m.func_ty(*g)].clone();
                for p in &t.0 {
                    self.constant(out, *p);
                }
                out.push(0x10);
                self.u(out, *g);
                for _ in &t.1 {
                    out.push(0x1a);
                }
                refs.insert(Ref::Func(*g));
            }
            Op::ReturnCall(g) => {
                let t = m.types[m.func_ty(*g)].clone();
                // inside a block so that the code after it stays reachable
                out.push(0x02);
                out.push(0x40);
                for p in &t.0 {
                    self.constant(out, *p);
                }
                out.push(0x12);
                self.u(out, *g);
                out.push(0x0b);
                refs.insert(Ref::Func(*g));
            }
            Op::CallIndirect(t, tab) => {
                let ty = m.types[*t].clone();
                for p in &ty.0 {
                    self.constant(out, *p);
                }
                out.push(0x41);
                self.i32(out, 0);
                out.push(0x11);
                self.u(out, *t);
                self.u(out, *tab);
                for _ in &ty.1 {
                    out.push(0x1a);
                }
            }
            Op::GlobalGet(g) => {
                out.push(0x23);
                self.u(out, *g);
                out.push(0x1a);
                refs.insert(Ref::Global(*g));
            }
            Op::GlobalSet(g) => {
                let t = m.all_globals()[*g].0;
                self.constant(out, t);
                out.push(0x24);
                self.u(out, *g);
                refs.insert(Ref::Global(*g));
            }
            Op::LoadConst(opc, a, off) => {
                out.push(0x41);
                self.i32(out, *a as i32);
                out.push(*opc);
                self.u(out, 0);
                self.u(out, *off as usize);
                out.push(0x1a);
                let ea = u64::from(*a) + u64::from(*off);
                // What the recorded finding in get_data yields instead.
                let seen = (0..m.datas.len())
                    .filter_map(|i| match m.datas[i].offset {
                        Some(Init::Addr(s)) if m.datas[i].len > 0 && u64::from(s) >= ea => Some((s, i)),
                        _ => None,
                    })
                    .min();
                if let Some((_, i)) = seen {
                    refs.insert(Ref::DataSeen(i));
                }
                for (i, d) in m.datas.iter().enumerate() {
                    if let Some(Init::Addr(s)) = d.offset {
                        let s = u64::from(s);
                        if ea >= s && ea < s + d.len as u64 {
                            refs.insert(Ref::DataTrue(i));
                        }
                    }
                }
            }
            Op::LoadDynamic(opc, off, kind, near) => {
                // i32.const; i32.eqz: the address is computed
                let near = *near as i32;
                // The ways from 12 on leave a constant below the address.
                let left = matches!(*kind, 13 | 14 | 18 | 19);
                if !matches!(*kind, 1 | 12) && !left {
                    out.push(0x41);
                    self.i32(out, 0);
                    out.push(0x45);
                }
                let tys = local_types(m, f);
                let local = tys.iter().rposition(|t| *t == Ty::I32);
                let global = m.all_globals().iter().position(|g| g.0 == Ty::I32 && g.1);
                match kind {
                    1 => {
                        // the sum of two constants
                        out.push(0x41);
                        self.i32(out, 1);
                        out.push(0x41);
                        self.i32(out, near);
                        out.push(0x6a);
                    }
                    2 => {
                        out.push(0x41);
                        self.i32(out, near);
                        out.push(0x6a);
                    }
                    3 => {
                        if let Some(l) = local {
                            out.push(0x41);
                            self.i32(out, near);
                            out.push(0x21);
                            self.u(out, l);
                        }
                    }
                    4 => {
                        if let Some(g) = global {
                            out.push(0x41);
                            self.i32(out, near);
                            out.push(0x24);
                            self.u(out, g);
                            refs.insert(Ref::Global(g));
                        }
                    }
                    5 => {
                        out.push(0x41);
                        self.i32(out, near);
                        out.push(0x1a);
                    }
                    21 => {
                        // a vector is loaded from there
                        out.push(0x41);
                        self.i32(out, near);
                        out.extend_from_slice(&[0xfd, 0x00, 0x00, 0x00, 0x1a]);
                    }
                    6 => {
                        out.push(0x41);
                        self.i32(out, near);
                        out.extend_from_slice(&[0x40, 0x00, 0x1a]);
                    }
                    7 => {
                        out.extend_from_slice(&[0x02, 0x40, 0x41]);
                        self.i32(out, near);
                        out.push(0x0d);
                        self.u(out, 0);
                        out.push(0x0b);
                    }
                    8 => {
                        // the constant is what is stored
                        out.push(0x41);
                        self.i32(out, 0);
                        out.push(0x41);
                        self.i32(out, near);
                        out.extend_from_slice(&[0x36, 0x00, 0x00]);
                    }
                    9 => {
                        // the constant is the condition
                        out.push(0x41);
                        self.i32(out, 0);
                        out.push(0x45);
                        out.push(0x41);
                        self.i32(out, near);
                        out.push(0x1b);
                    }
                    10 => {
                        out.push(0x41);
                        self.i32(out, near);
                        out.extend_from_slice(&[0x04, 0x40, 0x0b]);
                    }
                    11 => {
                        out.push(0x41);
                        self.i32(out, near);
                        out.extend_from_slice(&[0x45, 0x6a]);
                    }
                    12 => {
                        // a load from the address that a constant address holds
                        self.op(out, &Op::LoadConst(0x28, near as u32, 0), f, refs);
                        out.pop();
                    }
                    13 | 14 | 18 | 19 => {
                        out.push(0x41);
                        self.i32(out, near);
                        let any_global = m.all_globals().iter().position(|g| g.0 == Ty::I32);
                        let func = m.func_tys().iter().position(|t| m.types[*t] == (vec![], vec![Ty::I32]));
                        match (kind, any_global, func, local) {
                            (13, Some(g), _, _) => {
                                out.push(0x23);
                                self.u(out, g);
                                refs.insert(Ref::Global(g));
                            }
                            (14, _, Some(g), _) => {
                                out.push(0x10);
                                self.u(out, g);
                                refs.insert(Ref::Func(g));
                            }
                            (18, _, _, Some(l)) => {
                                out.push(0x20);
                                self.u(out, l);
                            }
                            _ => out.extend_from_slice(&[0x3f, 0x00]),
                        }
                    }
                    15 => {
                        let func = m.func_tys().iter().position(|t| m.types[*t] == (vec![Ty::I32], vec![]));
                        if let Some(g) = func {
                            out.push(0x41);
                            self.i32(out, near);
                            out.push(0x10);
                            self.u(out, g);
                            refs.insert(Ref::Func(g));
                        }
                    }
                    16 => {
                        if !m.datas.is_empty() {
                            for v in [0, 0, near] {
                                out.push(0x41);
                                self.i32(out, v);
                            }
                            out.extend_from_slice(&[0xfc, 0x08]);
                            self.u(out, 0);
                            out.push(0x00);
                            refs.insert(Ref::Data(0));
                        }
                    }
                    17 => {
                        let table = m.all_tables().iter().position(|t| *t == Ty::FuncRef);
                        if let (Some(t), Some(false)) = (table, m.elems.first().map(|e| e.external)) {
                            for v in [0, 0, near] {
                                out.push(0x41);
                                self.i32(out, v);
                            }
                            out.extend_from_slice(&[0xfc, 0x0c]);
                            self.u(out, 0);
                            self.u(out, t);
                            refs.insert(Ref::Elem(0));
                        }
                    }
                    20 => {
                        let table = m.all_tables().iter().position(|t| *t == Ty::FuncRef);
                        let ty = m.types.iter().position(|t| t.0.is_empty() && t.1.is_empty());
                        if let (Some(t), Some(ty)) = (table, ty) {
                            out.push(0x41);
                            self.i32(out, near);
                            out.push(0x11);
                            self.u(out, ty);
                            self.u(out, t);
                        }
                    }
                    _ => {}
                }
                out.push(*opc);
                self.u(out, 0);
                self.u(out, *off as usize);
                out.push(0x1a);
                if left {
                    out.push(0x1a);
                }
            }
            Op::StoreConst(a, off) => {
                out.push(0x41);
                self.i32(out, *a as i32);
                out.push(0x41);
                self.i32(out, *a as i32);
                out.push(0x36);
                self.u(out, 0);
                self.u(out, *off as usize);
            }
            Op::RefFunc(g) => {
                out.push(0xd2);
                self.u(out, *g);
                out.push(0x1a);
                refs.insert(Ref::Func(*g));
            }
            Op::MemoryInit(d) => {
                for _ in 0..3 {
                    out.push(0x41);
                    self.i32(out, 0);
                }
                out.push(0xfc);
                out.push(0x08);
                self.u(out, *d);
                out.push(0x00);
                refs.insert(Ref::Data(*d));
            }
            Op::DataDrop(d) => {
                out.extend_from_slice(&[0xfc, 0x09]);
                self.u(out, *d);
            }
            Op::TableInit(t, e) => {
                for _ in 0..3 {
                    out.push(0x41);
                    self.i32(out, 0);
                }
                out.extend_from_slice(&[0xfc, 0x0c]);
                self.u(out, *e);
                self.u(out, *t);
                refs.insert(Ref::Elem(*e));
            }
            Op::ElemDrop(e) => {
                out.extend_from_slice(&[0xfc, 0x0d]);
                self.u(out, *e);
            }
            Op::Block(opc, b) => {
                out.push(*opc);
                out.push(0x40);
                for o in b {
                    self.op(out, o, f, refs);
                }
                out.push(0x0b);
            }
            Op::If(a, b) => {
                out.push(0x41);
                self.i32(out, 1);
                out.push(0x04);
                out.push(0x40);
                for o in a {
                    self.op(out, o, f, refs);
                }
                if !b.is_empty() {
                    out.push(0x05);
                    for o in b {
                        self.op(out, o, f, refs);
                    }
                }
                out.push(0x0b);
            }
            Op::BrIf => {
                out.push(0x02);
                out.push(0x40);
                out.push(0x41);
                self.i32(out, 0);
                out.push(0x0d);
                self.u(out, 0);
                out.push(0x0b);
            }
            Op::BrTable(k) => {
                out.push(0x02);
                out.push(0x40);
                out.push(0x41);
                self.i32(out, 0);
                out.push(0x0e);
                self.u(out, *k);
                for _ in 0..=*k {
                    self.u(out, 0);
                }
                out.push(0x0b);
            }
            Op::Return => {
                out.push(0x02);
                out.push(0x40);
                for r in m.types[f.ty].1.clone() {
                    self.constant(out, r);
                }
                out.push(0x0f);
                out.push(0x0b);
            }
            Op::Leave(way) => match way {
                0 => out.push(0x00),
                1 => out.extend_from_slice(&[0x02, 0x40, 0x00, 0x0b]),
                2 => out.extend_from_slice(&[0x02, 0x40, 0x0c, 0x00, 0x0b]),
                3 => out.extend_from_slice(&[0x03, 0x40, 0x00, 0x0b]),
                _ => {
                    for r in m.types[f.ty].1.clone() {
                        self.constant(out, r);
                    }
                    out.push(0x0f);
                }
            },
            Op::Other(code) => out.extend_from_slice(code),
            Op::MemGrow => {
                out.push(0x41);
                self.i32(out, 0);
                out.push(0x40);
                out.push(0);
                out.push(0x1a);
            }
            Op::LocalSet => {
                let tys = local_types(m, f);
                if let Some(t) = tys.last() {
                    self.constant(out, *t);
                    out.push(0x21);
                    self.u(out, tys.len() - 1);
                }
            }
        }
    }

    fn item(&mut self, name: String, size: usize, kind: Kind, root: bool) -> usize {
        self.exp.items.push(Item { name, size, kind, root });
        self.exp.items.len() - 1
    }
}

fn limits(e: &mut Enc, out: &mut Vec<u8>, max: bool) {
    out.push(u8::from(max));
    e.u(out, 1);
    if max {
        e.u(out, 65536);
    }
}

/// Encode the module, and compute the items and references it must yield.
pub fn encode(m: &Module) -> (Vec<u8>, Expected) {
    let mut e = Enc { m, pad_at: 0, exp: Expected::default() };
    // Pre-compute names.
    let mut fnames: BTreeMap<usize, String> = BTreeMap::new();
    let mut dnames: BTreeMap<usize, String> = BTreeMap::new();
    for (_, c) in &m.customs {
        if let Custom::Names(subs) = c {
            for sub in subs {
                match sub {
                    NameSub::Func(f) => fnames.extend(f.clone()),
                    NameSub::Data(d) => dnames.extend(d.clone()),
                    _ => {}
                }
            }
        }
    }
    let mut out: Vec<u8> = b"\0asm\x01\0\0\0".to_vec();
    e.item("wasm magic bytes".into(), 8, Kind::Misc, true);

    // Encode each section as (name, contents, entry items (size filled in)).
    struct Sect {
        id: u8,
        title: &'static str,
        body: Vec<u8>,
        items: Vec<usize>,
        present: bool,
    }
    let n_imp = m.n_imp_funcs();

    // type
    let mut sections: Vec<Sect> = vec![];
    let type_items: Vec<usize>;
    {
        let mut b = vec![];
        e.u(&mut b, m.types.len());
        let mut items = vec![];
        for (i, (p, r)) in m.types.iter().enumerate() {
            let st = b.len();
            b.push(0x60);
            e.u(&mut b, p.len());
            b.extend(p.iter().map(|t| t.code()));
            e.u(&mut b, r.len());
            b.extend(r.iter().map(|t| t.code()));
            let ps = p.iter().map(|t| t.text()).collect::<Vec<_>>().join(", ");
            let rs = match r.len() {
                0 => "nil".to_string(),
                1 => r[0].text().to_string(),
                _ => format!("({})", r.iter().map(|t| t.text()).collect::<Vec<_>>().join(", ")),
            };
            items.push(e.item(format!("type[{i}]: ({ps}) -> {rs}"), b.len() - st, Kind::Misc, false));
        }
        type_items = items.clone();
        sections.push(Sect { id: 1, title: "type", body: b, items, present: true });
    }
    // import
    let mut func_ent: Vec<usize> = vec![];
    let mut table_ent: Vec<usize> = vec![];
    let mut mem_ent: Vec<usize> = vec![];
    let mut global_ent: Vec<usize> = vec![];
    {
        let mut b = vec![];
        e.u(&mut b, m.imports.len());
        let mut items = vec![];
        for i in &m.imports {
            let st = b.len();
            e.s(&mut b, &i.module);
            e.s(&mut b, &i.field);
            match &i.kind {
                ImportKind::Func(t) => {
                    b.push(0);
                    e.u(&mut b, *t);
                }
                ImportKind::Table(t) => {
                    b.push(1);
                    b.push(t.code());
                    limits(&mut e, &mut b, true);
                }
                ImportKind::Memory => {
                    b.push(2);
                    limits(&mut e, &mut b, true);
                }
                ImportKind::Global(t, mu) => {
                    b.push(3);
                    b.push(t.code());
                    b.push(u8::from(*mu));
                }
                ImportKind::Tag(t) => {
                    b.extend_from_slice(&[4, 0]);
                    e.u(&mut b, *t);
                }
            }
            let it = e.item(format!("import {}::{}", i.module, i.field), b.len() - st, Kind::Misc, false);
            match i.kind {
                ImportKind::Func(_) => func_ent.push(it),
                ImportKind::Table(_) => table_ent.push(it),
                ImportKind::Memory => mem_ent.push(it),
                ImportKind::Global(..) => global_ent.push(it),
                ImportKind::Tag(_) => {}
            }
            items.push(it);
        }
        sections.push(Sect { id: 2, title: "import", body: b, items, present: !m.imports.is_empty() || m.empty_sections });
    }
    // function (entries merged into the code items)
    let mut func_entry_sizes = vec![];
    {
        let mut b = vec![];
        e.u(&mut b, m.funcs.len());
        for f in &m.funcs {
            let st = b.len();
            e.u(&mut b, f.ty);
            func_entry_sizes.push(b.len() - st);
        }
        sections.push(Sect { id: 3, title: "function", body: b, items: vec![], present: true });
    }
    // table
    {
        let mut b = vec![];
        e.u(&mut b, m.tables.len());
        let mut items = vec![];
        for (i, t) in m.tables.iter().enumerate() {
            let st = b.len();
            b.push(t.code());
            limits(&mut e, &mut b, i % 2 == 0);
            let it = e.item(format!("table[{i}]"), b.len() - st, Kind::Misc, true);
            table_ent.push(it);
            items.push(it);
        }
        sections.push(Sect { id: 4, title: "table", body: b, items, present: !m.tables.is_empty() || m.empty_sections });
    }
    // memory
    {
        let mut b = vec![];
        e.u(&mut b, usize::from(m.memory) + m.more_memories.len());
        let mut items = vec![];
        if m.memory {
            let st = b.len();
            limits(&mut e, &mut b, false);
            let it = e.item("memory[0]".into(), b.len() - st, Kind::Misc, false);
            mem_ent.push(it);
            items.push(it);
        }
        for flags in &m.more_memories {
            let st = b.len();
            b.push(*flags);
            // for 64 bits, more pages than fit in 32
            e.u(&mut b, if flags & 4 != 0 { 1 << 33 } else { 1 });
            if flags & 1 != 0 {
                e.u(&mut b, if flags & 4 != 0 { 1 << 40 } else { 65536 });
            }
            let it = e.item(format!("memory[{}]", items.len()), b.len() - st, Kind::Misc, false);
            mem_ent.push(it);
            items.push(it);
        }
        let present = !items.is_empty() || m.empty_sections;
        sections.push(Sect { id: 5, title: "memory", body: b, items, present });
    }
    // tag
    {
        let mut b = vec![];
        e.u(&mut b, m.tags.len());
        for t in &m.tags {
            b.push(0);
            e.u(&mut b, *t);
        }
        sections.push(Sect { id: 13, title: "tag", body: b, items: vec![], present: !m.tags.is_empty() });
    }
    // global
    {
        let mut b = vec![];
        e.u(&mut b, m.globals.len());
        let mut items = vec![];
        for (i, (t, mu, init)) in m.globals.iter().enumerate() {
            let st = b.len();
            b.push(t.code());
            b.push(u8::from(*mu));
            e.init(&mut b, init);
            let it = e.item(format!("global[{i}]"), b.len() - st, Kind::Data, false);
            global_ent.push(it);
            items.push(it);
        }
        sections.push(Sect { id: 6, title: "global", body: b, items, present: !m.globals.is_empty() || m.empty_sections });
    }
    // code items exist from here on
    for (i, _) in m.funcs.iter().enumerate() {
        let name = fnames.get(&(n_imp + i)).map(|n| crate::checks::names::shown(n)).unwrap_or_else(|| format!("code[{i}]"));
        let it = e.item(name, 0, Kind::Code, false);
        func_ent.push(it);
    }
    for (i, (_, _, init)) in m.globals.iter().enumerate() {
        let g = global_ent[global_ent.len() - m.globals.len() + i];
        init_edges(&mut e, g, init, &func_ent, &global_ent);
    }
    // export
    {
        let mut b = vec![];
        e.u(&mut b, m.exports.len());
        let mut items = vec![];
        for (n, k, ix) in &m.exports {
            let st = b.len();
            e.s(&mut b, n);
            b.push(match k {
                ExportKind::Func => 0,
                ExportKind::Table => 1,
                ExportKind::Memory => 2,
                ExportKind::Global => 3,
                ExportKind::Tag => 4,
            });
            e.u(&mut b, *ix);
            let it = e.item(format!("export \"{n}\""), b.len() - st, Kind::Misc, true);
            let to = match k {
                ExportKind::Func => Some(func_ent[*ix]),
                ExportKind::Table => Some(table_ent[*ix]),
                ExportKind::Memory => Some(mem_ent[*ix]),
                ExportKind::Global => Some(global_ent[*ix]),
                ExportKind::Tag => None,
            };
            e.exp.edges.extend(to.map(|to| (it, to)));
            items.push(it);
        }
        sections.push(Sect { id: 7, title: "export", body: b, items, present: !m.exports.is_empty() || m.empty_sections });
    }
    // start
    {
        let mut b = vec![];
        e.u(&mut b, m.start.unwrap_or(0));
        sections.push(Sect { id: 8, title: "start", body: b, items: vec![], present: m.start.is_some() });
    }
    // element
    let mut elem_ent = vec![];
    {
        let mut b = vec![];
        e.u(&mut b, m.elems.len());
        let mut items = vec![];
        for (i, el) in m.elems.iter().enumerate() {
            let st = b.len();
            let table0 = matches!(el.mode, ElemMode::Active(0));
            let explicit = !table0 || i % 3 == 2 || el.external;
            let base = match el.mode {
                ElemMode::Active(_) => {
                    if explicit {
                        2
                    } else {
                        0
                    }
                }
                ElemMode::Passive => 1,
                ElemMode::Declared => 3,
            };
            let flags = base + if el.exprs { 4 } else { 0 };
            e.u(&mut b, flags);
            if let ElemMode::Active(t) = el.mode {
                if explicit {
                    e.u(&mut b, t);
                }
                e.init(&mut b, &el.offset);
            }
            if flags & 3 != 0 {
                b.push(if el.external { 0x6f } else if el.exprs { 0x70 } else { 0x00 });
            }
            e.u(&mut b, el.items.len());
            for it in &el.items {
                if el.exprs {
                    match it {
                        Some(f) => {
                            b.push(0xd2);
                            e.u(&mut b, *f);
                        }
                        None => b.extend_from_slice(&[0xd0, if el.external { 0x6f } else { 0x70 }]),
                    }
                    b.push(0x0b);
                } else {
                    e.u(&mut b, it.unwrap_or(0));
                }
            }
            let it = e.item(format!("elem[{i}]"), b.len() - st, Kind::Misc, false);
            if let ElemMode::Active(t) = el.mode {
                e.exp.edges.insert((table_ent[t], it));
                init_edges(&mut e, it, &el.offset, &func_ent, &global_ent);
            }
            for f in &el.items {
                if el.exprs {
                    if let Some(f) = f {
                        e.exp.edges.insert((it, func_ent[*f]));
                    }
                } else {
                    e.exp.edges.insert((it, func_ent[f.unwrap_or(0)]));
                }
            }
            elem_ent.push(it);
            items.push(it);
        }
        sections.push(Sect { id: 9, title: "element", body: b, items, present: !m.elems.is_empty() || m.empty_sections });
    }
    // data count
    {
        let mut b = vec![];
        e.u(&mut b, m.datas.len());
        sections.push(Sect { id: 12, title: "data count", body: b, items: vec![], present: m.data_count });
    }
    // data items are known before the code that refers to them
    let mut data_sect = vec![];
    let mut data_ent = vec![];
    {
        e.u(&mut data_sect, m.datas.len());
        for (i, d) in m.datas.iter().enumerate() {
            let st = data_sect.len();
            match &d.offset {
                Some(init) => {
                    if i % 4 == 3 {
                        e.u(&mut data_sect, 2);
                        e.u(&mut data_sect, 0);
                    } else {
                        e.u(&mut data_sect, 0);
                    }
                    e.init(&mut data_sect, init);
                }
                None => e.u(&mut data_sect, 1),
            }
            e.u(&mut data_sect, d.len);
            data_sect.extend((0..d.len).map(|k| (k * 7 + i) as u8));
            let name = dnames.get(&i).map_or_else(|| format!("data[{i}]"), |n| format!("data segment \"{n}\""));
            let it = e.item(name, data_sect.len() - st, Kind::Data, false);
            if let Some(init) = &d.offset {
                init_edges(&mut e, it, init, &func_ent, &global_ent);
            }
            data_ent.push(it);
        }
    }
    // code
    {
        let mut b = vec![];
        e.u(&mut b, m.funcs.len());
        let mut items = vec![];
        for (i, f) in m.funcs.iter().enumerate() {
            let mut body = vec![];
            e.u(&mut body, f.locals.len());
            for (n, t) in &f.locals {
                e.u(&mut body, *n as usize);
                body.push(t.code());
            }
            let mut refs = BTreeSet::new();
            for o in &f.body {
                e.op(&mut body, o, f, &mut refs);
            }
            for r in m.types[f.ty].1.clone() {
                e.constant(&mut body, r);
            }
            body.push(0x0b);
            let st = b.len();
            e.u(&mut b, body.len());
            b.extend_from_slice(&body);
            let it = func_ent[n_imp + i];
            e.exp.items[it].size = b.len() - st + func_entry_sizes[i];
            e.exp.edges.insert((it, type_items[f.ty]));
            for r in refs {
                let to = match r {
                    Ref::Func(f) => func_ent[f],
                    Ref::Global(g) => global_ent[g],
                    Ref::Data(d) | Ref::DataTrue(d) | Ref::DataSeen(d) => data_ent[d],
                    Ref::Elem(x) => elem_ent[x],
                };
                match r {
                    Ref::DataTrue(_) => e.exp.by_address.insert((it, to)),
                    Ref::DataSeen(_) => e.exp.by_address_seen.insert((it, to)),
                    _ => e.exp.edges.insert((it, to)),
                };
            }
            items.push(it);
        }
        sections.push(Sect { id: 10, title: "code", body: b, items, present: true });
    }
    sections.push(Sect { id: 11, title: "data", body: data_sect, items: data_ent.clone(), present: !m.datas.is_empty() || m.empty_sections });

    // Lay the file out.
    let mut code_total = 0usize;
    let mut code_items_size = 0usize;
    let n_sections = sections.len();
    for pos in 0..=n_sections {
        for (at, c) in &m.customs {
            if *at == pos || (pos == n_sections && *at > pos) {
                custom(&mut e, &mut out, c);
            }
        }
        if pos == n_sections {
            break;
        }
        let sect = &sections[pos];
        if !sect.present {
            continue;
        }
        let st = out.len();
        out.push(sect.id);
        e.u(&mut out, sect.body.len());
        out.extend_from_slice(&sect.body);
        let whole = out.len() - st;
        let inner: usize = sect.items.iter().map(|i| e.exp.items[*i].size).sum();
        match sect.id {
            3 => code_total += whole,
            10 => {
                code_total += whole;
                code_items_size = inner;
            }
            8 => {
                let h = e.item("start section headers".into(), whole, Kind::Misc, true);
                e.exp.edges.insert((h, func_ent[m.start.unwrap()]));
            }
            _ => {
                e.item(format!("{} section headers", sect.title), whole - inner, Kind::Misc, true);
            }
        }
    }
    e.item("code section headers".into(), code_total - code_items_size, Kind::Misc, true);
    (out, e.exp)
}

fn init_edges(e: &mut Enc, from: usize, init: &Init, funcs: &[usize], globals: &[usize]) {
    match init {
        Init::GlobalGet(g) => {
            e.exp.edges.insert((from, globals[*g]));
        }
        Init::RefFunc(f) => {
            e.exp.edges.insert((from, funcs[*f]));
        }
        _ => {}
    }
}

fn name_map(e: &mut Enc, out: &mut Vec<u8>, m: &BTreeMap<usize, String>) {
    e.u(out, m.len());
    for (i, n) in m {
        e.u(out, *i);
        e.s(out, n);
    }
}

fn custom(e: &mut Enc, out: &mut Vec<u8>, c: &Custom) {
    let st = out.len();
    let mut body = vec![];
    let name = match c {
        Custom::Plain(n, _) => n.clone(),
        Custom::Names(_) => "name".to_string(),
    };
    e.s(&mut body, &name);
    let mut inner = 0;
    match c {
        Custom::Plain(n, len) => {
            let d = body.len();
            body.extend((0..*len).map(|k| (k * 5) as u8));
            inner = body.len() - d;
            e.item(format!("custom section '{n}'"), inner, Kind::Misc, false);
        }
        Custom::Names(subs) => {
            for sub in subs {
                let s0 = body.len();
                let mut p = vec![];
                let (id, title) = match sub {
                    NameSub::Module(n) => {
                        e.s(&mut p, n);
                        (0, "module name")
                    }
                    NameSub::Func(m) => {
                        name_map(e, &mut p, m);
                        (1, "function names")
                    }
                    NameSub::Local => {
                        e.u(&mut p, 1);
                        e.u(&mut p, 0);
                        name_map(e, &mut p, &[(0, "x".to_string())].into());
                        (2, "local names")
                    }
                    NameSub::Map(id) => {
                        if *id == 3 {
                            e.u(&mut p, 0);
                        } else {
                            name_map(e, &mut p, &[(0, "y".to_string())].into());
                        }
                        (*id, ["label names", "type names", "table names", "memory names", "global names", "element names"][usize::from(*id) - 3])
                    }
                    NameSub::Data(m) => {
                        name_map(e, &mut p, m);
                        (9, "data names")
                    }
                    NameSub::Unknown(id, n) => {
                        p.extend((0..*n).map(|k| k as u8));
                        (*id, "unknown name")
                    }
                };
                body.push(id);
                e.u(&mut body, p.len());
                body.extend_from_slice(&p);
                let sz = body.len() - s0;
                inner += sz;
                e.item(format!("\"{title}\" subsection"), sz, Kind::Debug, true);
            }
        }
    }
    out.push(0);
    e.u(out, body.len());
    out.extend_from_slice(&body);
    let whole = out.len() - st;
    e.item(format!("custom section '{name}' headers"), whole - inner, Kind::Misc, true);
}

impl Expected {
    /// The same as a plain graph; `seen` asks for what the recorded finding
    /// in the address lookup makes of references by constant address.
    pub fn graph(&self, total: usize, seen: bool) -> Graph {
        let mut g = Graph { total: total as u32, unique: true, ..Default::default() };
        let mut names = BTreeSet::new();
        for (i, it) in self.items.iter().enumerate() {
            if !names.insert(it.name.clone()) {
                g.unique = false;
            }
            let generic = if it.kind == Kind::Code { known_generic(&it.name) } else { None };
            g.nodes.push(Node { name: it.name.clone(), size: it.size as u32, kind: it.kind, generic });
            if it.root {
                g.roots.insert(i);
            }
        }
        g.edges = vec![BTreeSet::new(); self.items.len()];
        for (a, b) in self.edges.iter().chain(if seen { &self.by_address_seen } else { &self.by_address }) {
            g.edges[*a].insert(*b);
        }
        g
    }
}

impl Module {
    pub fn describe(&self) -> String {
        format!(
            "wasm module: {} types, {} imports, {} funcs, {} tables, mem={}, {} globals, {} exports, start={:?}, {} elems, {} data, {} customs, padded={}, big={:?}",
            self.types.len(), self.imports.len(), self.funcs.len(), self.tables.len(), self.n_memories(), self.globals.len(),
            self.exports.len(), self.start, self.elems.len(), self.datas.len(), self.customs.len(), !self.pads.is_empty(), self.big
        )
    }
}
