//! A writer for DWARF 2-5 debug information, and what twiggy has to make of it.

use crate::source::Source;
use std::collections::BTreeMap;

pub const TAG_SUBPROGRAM: u16 = 0x2e;

pub const AT_SIBLING: u16 = 0x01;
pub const AT_LOCATION: u16 = 0x02;
pub const AT_NAME: u16 = 0x03;
pub const AT_LOW_PC: u16 = 0x11;
pub const AT_HIGH_PC: u16 = 0x12;
pub const AT_INLINE: u16 = 0x20;
pub const AT_ABSTRACT_ORIGIN: u16 = 0x31;
pub const AT_DECLARATION: u16 = 0x3c;
pub const AT_SPECIFICATION: u16 = 0x47;
pub const AT_ENTRY_PC: u16 = 0x52;
pub const AT_RANGES: u16 = 0x55;
pub const AT_LINKAGE_NAME: u16 = 0x6e;
/// The linkage name of versions 2 and 3, a vendor extension there.
pub const AT_MIPS_LINKAGE_NAME: u16 = 0x2007;
pub const AT_STR_OFFSETS_BASE: u16 = 0x72;
pub const AT_ADDR_BASE: u16 = 0x73;
pub const AT_RNGLISTS_BASE: u16 = 0x74;

pub mod form {
    pub const ADDR: u16 = 0x01;
    pub const BLOCK2: u16 = 0x03;
    pub const BLOCK4: u16 = 0x04;
    pub const DATA2: u16 = 0x05;
    pub const DATA4: u16 = 0x06;
    pub const DATA8: u16 = 0x07;
    pub const STRING: u16 = 0x08;
    pub const BLOCK: u16 = 0x09;
    pub const BLOCK1: u16 = 0x0a;
    pub const DATA1: u16 = 0x0b;
    pub const FLAG: u16 = 0x0c;
    pub const SDATA: u16 = 0x0d;
    pub const STRP: u16 = 0x0e;
    pub const UDATA: u16 = 0x0f;
    pub const REF_ADDR: u16 = 0x10;
    pub const REF1: u16 = 0x11;
    pub const REF2: u16 = 0x12;
    pub const REF4: u16 = 0x13;
    pub const REF8: u16 = 0x14;
    pub const REF_UDATA: u16 = 0x15;
    pub const INDIRECT: u16 = 0x16;
    pub const SEC_OFFSET: u16 = 0x17;
    pub const EXPRLOC: u16 = 0x18;
    pub const FLAG_PRESENT: u16 = 0x19;
    pub const STRX: u16 = 0x1a;
    pub const ADDRX: u16 = 0x1b;
    pub const DATA16: u16 = 0x1e;
    pub const LINE_STRP: u16 = 0x1f;
    pub const REF_SIG8: u16 = 0x20;
    pub const IMPLICIT_CONST: u16 = 0x21;
    pub const LOCLISTX: u16 = 0x22;
    pub const RNGLISTX: u16 = 0x23;
    pub const STRX1: u16 = 0x25;
    pub const STRX2: u16 = 0x26;
    pub const STRX3: u16 = 0x27;
    pub const STRX4: u16 = 0x28;
    pub const ADDRX1: u16 = 0x29;
    pub const ADDRX2: u16 = 0x2a;
    pub const ADDRX3: u16 = 0x2b;
    pub const ADDRX4: u16 = 0x2c;
}

#[derive(Clone, Debug)]
pub enum Val {
    Num(u64),
    Bytes(Vec<u8>),
    /// The entry with this number (over all units).
    Ref(usize),
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub at: u16,
    pub form: u16,
    pub val: Val,
    pub indirect: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Die {
    pub tag: u16,
    pub attrs: Vec<Attr>,
    pub children: Vec<Die>,
    /// Says it has children although there are none.
    pub empty_list: bool,
    pub num: usize,
}

#[derive(Clone, Debug)]
pub struct Unit {
    pub version: u16,
    pub dwarf64: bool,
    pub addr_size: u8,
    /// DWARF 5 unit type.
    pub unit_type: u8,
    pub root: Die,
    pub pad: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Name {
    /// Given by the entry itself (as shown).
    Own(String),
    /// Given by the entry it refers to (as shown).
    Referenced(String),
    None,
}

#[derive(Clone, Debug)]
pub struct Function {
    pub name: Name,
    pub size: u32,
}

#[derive(Default, Debug)]
pub struct Debug {
    pub big: bool,
    pub units: Vec<Unit>,
    /// Section contents apart from info and abbrev.
    pub sections: BTreeMap<&'static str, Vec<u8>>,
    pub functions: Vec<Function>,
    pub features: Vec<&'static str>,
    pub entries: usize,
}

pub struct W {
    pub b: Vec<u8>,
    pub big: bool,
}

impl W {
    pub fn new(big: bool) -> W {
        W { b: vec![], big }
    }
    pub fn n(&mut self, v: u64, size: usize) {
        if self.big {
            self.b.extend_from_slice(&v.to_be_bytes()[8 - size..]);
        } else {
            self.b.extend_from_slice(&v.to_le_bytes()[..size]);
        }
    }
    pub fn u8(&mut self, v: u8) {
        self.b.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        self.n(v.into(), 2);
    }
    pub fn u32(&mut self, v: u32) {
        self.n(v.into(), 4);
    }
    pub fn u64(&mut self, v: u64) {
        self.n(v, 8);
    }
    pub fn uleb(&mut self, v: u64) {
        crate::mutate::leb(v, &mut self.b);
    }
    pub fn sleb(&mut self, mut v: i64) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
                self.b.push(b);
                return;
            }
            self.b.push(b | 0x80);
        }
    }
    pub fn put(&mut self, at: usize, v: u64, size: usize) {
        let mut w = W::new(self.big);
        w.n(v, size);
        self.b[at..at + size].copy_from_slice(&w.b);
    }
    /// An initial length; returns where to patch it.
    fn length(&mut self, dwarf64: bool) -> usize {
        if dwarf64 {
            self.u32(0xffff_ffff);
            self.u64(0);
        } else {
            self.u32(0);
        }
        self.b.len()
    }
    fn end(&mut self, start: usize, dwarf64: bool) {
        let n = (self.b.len() - start) as u64;
        let s = if dwarf64 { 8 } else { 4 };
        self.put(start - s, n, s);
    }
}

pub struct Limits {
    pub units: usize,
    pub entries: usize,
    pub mangled: fn(&mut Source) -> (String, String),
}

struct Gen<'a, 'b> {
    s: &'a mut Source<'b>,
    lim: &'a Limits,
    big: bool,
    version: u16,
    dwarf64: bool,
    addr_size: u8,
    sec: BTreeMap<&'static str, W>,
    /// Of the unit being made.
    strx: Vec<u64>,
    addrx: Vec<u64>,
    lists: Vec<Vec<u8>>,
    list_forms: usize,
    base: u64,
    left: usize,
    next: usize,
    budget: u64,
    out: Vec<Function>,
    feats: Vec<&'static str>,
    /// Entries that only carry a name: number, unit-wide position known later.
    named: Vec<(usize, String)>,
    first_of_unit: usize,
    /// The unit may contain definitions.
    defines: bool,
}

fn a(at: u16, form: u16, val: Val) -> Attr {
    Attr { at, form, val, indirect: false }
}

impl<'a, 'b> Gen<'a, 'b> {
    fn feat(&mut self, f: &'static str) {
        if !self.feats.contains(&f) {
            self.feats.push(f);
        }
    }
    fn sec(&mut self, name: &'static str) -> &mut W {
        let big = self.big;
        self.sec.entry(name).or_insert_with(|| W::new(big))
    }
    fn off_size(&self) -> usize {
        if self.dwarf64 {
            8
        } else {
            4
        }
    }
    fn maybe_indirect(&mut self, mut at: Attr) -> Attr {
        if at.form != form::IMPLICIT_CONST && self.s.chance(1, 40) {
            at.indirect = true;
            self.feat("indirect form");
        }
        at
    }

    fn add_str(&mut self, sect: &'static str, text: &[u8]) -> u64 {
        let junk = self.s.below(4);
        let w = self.sec(sect);
        for i in 0..junk {
            w.b.push(b'a' + i as u8);
        }
        if junk > 0 {
            w.b.push(0);
        }
        let o = w.b.len() as u64;
        w.b.extend_from_slice(text);
        w.b.push(0);
        o
    }

    fn string(&mut self, at: u16, text: &str) -> Attr {
        let t = text.as_bytes();
        let n = if self.version >= 5 { 5 } else { 2 };
        let r = match self.s.below(n) {
            0 => a(at, form::STRING, Val::Bytes(t.to_vec())),
            1 => {
                self.feat("strp");
                let o = self.add_str(".debug_str", t);
                a(at, form::STRP, Val::Num(o))
            }
            2 => {
                self.feat("line_strp");
                let o = self.add_str(".debug_line_str", t);
                a(at, form::LINE_STRP, Val::Num(o))
            }
            _ => {
                self.feat("strx");
                let o = self.add_str(".debug_str", t);
                self.strx.push(o);
                let f = *self.s.pick(&[form::STRX, form::STRX1, form::STRX2, form::STRX3, form::STRX4]);
                let f = if self.strx.len() > 250 { form::STRX } else { f };
                a(at, f, Val::Num(self.strx.len() as u64 - 1))
            }
        };
        self.maybe_indirect(r)
    }

    fn address(&mut self, at: u16, addr: u64) -> Attr {
        let r = if self.version >= 5 && self.s.chance(1, 2) {
            self.feat("addrx");
            for _ in 0..self.s.below(2) {
                self.addrx.push(7);
            }
            self.addrx.push(addr);
            let f = *self.s.pick(&[form::ADDRX, form::ADDRX1, form::ADDRX2, form::ADDRX3, form::ADDRX4]);
            // a one-byte index must fit
            let f = if self.addrx.len() > 250 { form::ADDRX } else { f };
            a(at, f, Val::Num(self.addrx.len() as u64 - 1))
        } else {
            a(at, form::ADDR, Val::Num(addr))
        };
        self.maybe_indirect(r)
    }

    fn max_addr(&self) -> u64 {
        match self.addr_size {
            2 => 0xf000,
            4 => 0xf000_0000,
            _ => 0xf000_0000_0000,
        }
    }

    fn size(&mut self) -> u64 {
        let v = match self.s.below(8) {
            0 => 0,
            1 => u64::from(self.s.u32_any()),
            2 => 1 << self.s.below(16),
            3 => 0x80 << self.s.below(8),
            _ => self.s.below(5000) as u64,
        };
        let v = v.min(self.budget).min(self.max_addr() - 1);
        self.budget -= v;
        v
    }

    fn place(&mut self, size: u64) -> u64 {
        let room = self.max_addr() - size;
        match self.s.below(4) {
            0 => self.s.raw64() % room,
            1 => 0x1000 % room,
            _ => u64::from(self.s.raw() >> self.s.below(24)) % room,
        }
    }

    /// Attributes for the code of a function of some size.
    fn location(&mut self) -> (Vec<Attr>, u64) {
        match self.s.below(5) {
            0 | 1 if self.version >= 4 => {
                let n = self.size();
                let lo = self.place(n);
                let low = self.address(AT_LOW_PC, lo);
                let mut forms = vec![form::UDATA, form::DATA8];
                if n < 1 << 32 {
                    forms.push(form::DATA4);
                    forms.push(form::DATA4);
                }
                if n < 1 << 16 {
                    forms.push(form::DATA2);
                }
                if n < 1 << 8 {
                    forms.push(form::DATA1);
                }
                forms.push(form::SDATA);
                if self.version >= 5 {
                    forms.push(form::IMPLICIT_CONST);
                }
                let f = *self.s.pick(&forms);
                if f == form::SDATA {
                    self.feat("signed size");
                }
                self.feat("relative end");
                let high = a(AT_HIGH_PC, f, Val::Num(n));
                let high = self.maybe_indirect(high);
                (vec![low, high], n)
            }
            0..=2 => {
                let n = self.size();
                let lo = self.place(n);
                self.feat("absolute end");
                let low = self.address(AT_LOW_PC, lo);
                let high = self.address(AT_HIGH_PC, lo + n);
                (vec![low, high], n)
            }
            _ => {
                let (at, n) = self.ranges();
                self.feat("ranges");
                let mut v = vec![at];
                match self.s.below(6) {
                    0 => {
                        let e = self.place(0);
                        v.push(self.address(AT_ENTRY_PC, e));
                    }
                    1 => {
                        let e = self.place(0);
                        v.push(self.address(AT_LOW_PC, e));
                        self.feat("ranges and start");
                    }
                    _ => {}
                }
                (v, n)
            }
        }
    }

    fn ranges(&mut self) -> (Attr, u64) {
        let k = self.s.size(6);
        let mut total = 0;
        let asz = self.addr_size as usize;
        let big = self.big;
        let mut w = W::new(big);
        let v5 = self.version >= 5;
        let mut base = self.base;
        let max = match asz {
            2 => 0xffff,
            4 => 0xffff_ffff,
            _ => u64::MAX,
        };
        for _ in 0..k {
            if self.s.chance(1, 4) {
                // another base address
                base = self.place(0);
                self.feat("base address entry");
                if v5 {
                    if self.s.chance(1, 2) {
                        self.addrx.push(base);
                        w.u8(1);
                        w.uleb(self.addrx.len() as u64 - 1);
                    } else {
                        w.u8(5);
                        w.n(base, asz);
                    }
                } else {
                    w.n(max, asz);
                    w.n(base, asz);
                }
            }
            let n = self.size();
            total += n;
            if v5 {
                match self.s.below(5) {
                    0 => {
                        // offsets from the base
                        let room = (self.max_addr() - n).saturating_sub(base);
                        if room == 0 {
                            w.u8(7);
                            let at = self.place(n);
                            w.n(at, asz);
                            w.uleb(n);
                        } else {
                            let o = u64::from(self.s.raw()) % room;
                            w.u8(4);
                            w.uleb(o);
                            w.uleb(o + n);
                        }
                    }
                    1 => {
                        let at = self.place(n);
                        w.u8(6);
                        w.n(at, asz);
                        w.n(at + n, asz);
                    }
                    2 => {
                        let at = self.place(n);
                        w.u8(7);
                        w.n(at, asz);
                        w.uleb(n);
                    }
                    3 => {
                        let at = self.place(n);
                        self.addrx.push(at);
                        self.addrx.push(at + n);
                        w.u8(2);
                        w.uleb(self.addrx.len() as u64 - 2);
                        w.uleb(self.addrx.len() as u64 - 1);
                    }
                    _ => {
                        let at = self.place(n);
                        self.addrx.push(at);
                        w.u8(3);
                        w.uleb(self.addrx.len() as u64 - 1);
                        w.uleb(n);
                    }
                }
            } else {
                let mut room = (self.max_addr() - n).saturating_sub(base);
                if room < 3 {
                    base = 0;
                    w.n(max, asz);
                    w.n(base, asz);
                    room = self.max_addr() - n;
                }
                // a pair of zeros would end the list
                let o = 1 + u64::from(self.s.raw()) % (room - 1).max(1);
                w.n(o, asz);
                w.n(o + n, asz);
            }
        }
        if v5 {
            w.u8(0);
        } else {
            w.n(0, asz);
            w.n(0, asz);
        }
        if v5 {
            self.lists.push(w.b);
            let i = self.lists.len() as u64 - 1;
            if self.s.chance(1, 2) {
                self.feat("rnglistx");
                self.list_forms += 1;
                return (a(AT_RANGES, form::RNGLISTX, Val::Num(i)), total);
            }
            // an offset, known once the unit is complete
            return (a(AT_RANGES, form::SEC_OFFSET, Val::Num(i | 1 << 63)), total);
        }
        let f = if self.version >= 4 {
            form::SEC_OFFSET
        } else if self.dwarf64 {
            form::DATA8
        } else {
            form::DATA4
        };
        let sec = self.sec(".debug_ranges");
        let o = sec.b.len() as u64;
        sec.b.extend(w.b);
        (a(AT_RANGES, f, Val::Num(o)), total)
    }

    /// Attributes without meaning to twiggy.
    fn noise(&mut self, out: &mut Vec<Attr>, max: usize) {
        use form::*;
        for _ in 0..self.s.below(max + 1) {
            let at = *self.s.pick(&[0x0bu16, 0x0d, 0x13, 0x1c, 0x2a, 0x32, 0x33, 0x34, 0x38, 0x39, 0x3a, 0x3b, 0x3f, 0x40, 0x49, 0x4c, 0x58, 0x59, 0x64, 0x6b, 0x87, 0x2117, 0x3e01, AT_SIBLING, AT_LOCATION]);
            if out.iter().any(|x| x.at == at) {
                continue;
            }
            let mut forms = vec![BLOCK2, BLOCK4, DATA2, DATA4, DATA8, STRING, BLOCK, BLOCK1, DATA1, FLAG, SDATA, UDATA, REF1, REF2, REF4, REF8, REF_UDATA, REF_ADDR];
            if self.version >= 4 {
                forms.extend([SEC_OFFSET, EXPRLOC, FLAG_PRESENT, REF_SIG8]);
            }
            if self.version >= 5 {
                forms.extend([DATA16, IMPLICIT_CONST, LOCLISTX]);
            }
            let f = *self.s.pick(&forms);
            let val = match f {
                BLOCK | BLOCK1 | BLOCK2 | BLOCK4 | EXPRLOC | STRING => {
                    let n = self.s.below(6);
                    Val::Bytes((0..n).map(|_| (self.s.raw() as u8).max(1)).collect())
                }
                DATA16 => Val::Bytes((0..16).map(|_| self.s.raw() as u8).collect()),
                FLAG => Val::Num(self.s.below(2) as u64),
                _ => Val::Num(u64::from(self.s.u32_any())),
            };
            let x = self.maybe_indirect(a(at, f, val));
            out.push(x);
        }
    }

    /// The linkage name: the standard attribute, that of before it was
    /// standard, or both with the same name.
    fn linkage(&mut self, m: &str) -> Vec<Attr> {
        let old = if self.version < 4 { 2 } else { 5 };
        if !self.s.chance(1, old) {
            return vec![self.string(AT_LINKAGE_NAME, m)];
        }
        self.feat("vendor linkage name");
        let mut v = vec![self.string(AT_MIPS_LINKAGE_NAME, m)];
        if self.s.chance(1, 6) {
            v.push(self.string(AT_LINKAGE_NAME, m));
        }
        v
    }

    fn names(&mut self) -> (Vec<Attr>, Name) {
        const W: &[&str] = &["main", "f", "operator()", "a::b", "ünïcode", "_start", "x y", "g<int>", "h", "é", "std::vec::Vec<T>::push", "lambda#1"];
        let plain = |s: &mut Source| -> String {
            if s.chance(1, 3) {
                s.pick(W).to_string()
            } else {
                format!("{}{}", s.pick(&["f", "fn_", "Z", "q"]), s.below(300))
            }
        };
        match self.s.below(6) {
            0 => (vec![], Name::None),
            1 | 2 => {
                let n = plain(self.s);
                (vec![self.string(AT_NAME, &n)], Name::Own(n))
            }
            3 => {
                let (m, shown) = (self.lim.mangled)(self.s);
                self.feat("linkage name only");
                (self.linkage(&m), Name::Own(shown))
            }
            _ => {
                let n = plain(self.s);
                let (m, shown) = if self.s.chance(2, 3) {
                    (self.lim.mangled)(self.s)
                } else {
                    let p = plain(self.s);
                    (p.clone(), p)
                };
                self.feat("both names");
                let mut v = self.linkage(&m);
                v.push(self.string(AT_NAME, &n));
                self.s.shuffle(&mut v);
                (v, Name::Own(shown))
            }
        }
    }

    fn mix(&mut self, attrs: Vec<Attr>) -> Vec<Attr> {
        let mut v = attrs;
        self.noise(&mut v, 3);
        self.s.shuffle(&mut v);
        v
    }

    fn die(&mut self, tag: u16, attrs: Vec<Attr>) -> Die {
        let num = self.next;
        self.next += 1;
        self.left = self.left.saturating_sub(1);
        let attrs = self.mix(attrs);
        Die { tag, attrs, children: vec![], empty_list: self.s.chance(1, 12), num }
    }

    fn tree(&mut self, depth: usize) -> Die {
        let kinds = if self.defines { [6, 2, 2, 6] } else { [0, 2, 0, 6] };
        let mut d = match self.s.weighted(&kinds) {
            // a definition
            0 => {
                let (mut attrs, name) = self.names();
                let (loc, size) = self.location();
                attrs.extend(loc);
                let mut name = name;
                if name == Name::None && !self.named.is_empty() && self.s.chance(2, 3) {
                    let (num, n) = self.s.pick(&self.named).clone();
                    let in_unit = num >= self.first_of_unit;
                    // too narrow for references between units
                    let narrow = self.version == 2 && self.addr_size == 2;
                    if in_unit || !narrow {
                        let at = *self.s.pick(&[AT_SPECIFICATION, AT_ABSTRACT_ORIGIN]);
                        let forms: &[u16] = match (in_unit, narrow) {
                            (true, true) => &[form::REF4, form::REF8],
                            (true, false) => &[form::REF4, form::REF8, form::REF_ADDR],
                            _ => &[form::REF_ADDR],
                        };
                        let f = *self.s.pick(forms);
                        attrs.push(a(at, f, Val::Ref(num)));
                        name = Name::Referenced(n);
                        self.feat("name by reference");
                    }
                }
                self.out.push(Function { name, size: size as u32 });
                self.die(TAG_SUBPROGRAM, attrs)
            }
            // a declaration or an abstract instance
            1 => {
                let (mut attrs, name) = self.names();
                match self.s.below(12) {
                    // where it is, but not how much
                    0 => {
                        let at = self.place(0);
                        attrs.push(self.address(AT_LOW_PC, at));
                        self.feat("start without end");
                    }
                    1 if self.version >= 4 => {
                        let n = self.s.below(200) as u64;
                        attrs.push(a(AT_HIGH_PC, form::DATA4, Val::Num(n)));
                        self.feat("end without start");
                    }
                    _ => {}
                }
                if self.s.chance(1, 2) {
                    let f = if self.version >= 4 && self.s.chance(1, 2) { form::FLAG_PRESENT } else { form::FLAG };
                    attrs.push(a(AT_DECLARATION, f, Val::Num(1)));
                    self.feat("declaration");
                } else if self.s.chance(3, 4) {
                    attrs.push(a(AT_INLINE, form::DATA1, Val::Num(self.s.below(4) as u64)));
                    self.feat("inlined only");
                }
                let d = self.die(TAG_SUBPROGRAM, attrs);
                if let (Name::Own(n), true) = (name, self.defines) {
                    self.named.push((d.num, n));
                }
                d
            }
            // something else with code
            2 => {
                let (mut attrs, _) = self.names();
                let left = self.budget;
                let (loc, _) = self.location();
                self.budget = left;
                attrs.extend(loc);
                self.feat("other entries with code");
                // lexical block, inlined subroutine, entry point, label, try block, module, call site
                let tag = *self.s.pick(&[0x0b, 0x1d, 0x03, 0x0a, 0x32, 0x1e, 0x48, 0x4109]);
                self.die(tag, attrs)
            }
            _ => {
                let (attrs, _) = self.names();
                let tag = *self.s.pick(&[0x0b, 0x39, 0x13, 0x02, 0x34, 0x05, 0x24, 0x16, 0x0f, 0x15, 0x2f, 0x3d, 0x4106, 0x21]);
                self.die(tag, attrs)
            }
        };
        if self.left > 0 && depth < 200 {
            let deep = self.s.chance(1, 2);
            let k = if deep { 1 } else { self.s.below(4) };
            for _ in 0..k {
                if self.left > 0 {
                    let c = self.tree(depth + 1);
                    d.children.push(c);
                }
            }
        }
        d
    }

    fn unit(&mut self) -> Unit {
        self.version = *self.s.pick(&[4, 5, 5, 3, 2]);
        self.dwarf64 = self.version >= 3 && self.s.chance(1, 4);
        self.addr_size = *self.s.pick(&[8, 8, 4, 4, 2]);
        self.strx.clear();
        self.addrx.clear();
        self.lists.clear();
        self.base = 0;
        self.first_of_unit = self.next;
        self.left = self.s.range(0, self.lim.entries);
        let unit_type = if self.version >= 5 { *self.s.pick(&[1, 1, 1, 3, 2, 4]) } else { 0 };
        self.defines = unit_type != 2;
        if unit_type == 4 {
            // a skeleton has no entries but its root
            self.left = 0;
        }
        let root_tag = if unit_type == 2 { 0x41 } else { 0x11 };
        let mut attrs = vec![];
        if self.s.chance(1, 2) {
            let n = format!("unit{}.rs", self.s.below(9));
            attrs.push(self.string(AT_NAME, &n));
        }
        if self.s.chance(1, 2) {
            self.base = self.place(0);
            let b = self.base;
            attrs.push(self.address(AT_LOW_PC, b));
            if self.version >= 4 && self.s.chance(1, 2) {
                attrs.push(a(AT_HIGH_PC, form::DATA4, Val::Num(self.s.below(10000) as u64)));
            }
        }
        let mut root = self.die(root_tag, attrs);
        while self.left > 0 {
            let c = self.tree(0);
            root.children.push(c);
            if self.s.chance(1, 10) {
                break;
            }
        }
        // far down
        if self.s.chance(1, 30) && unit_type != 4 {
            let mut d = self.tree(0);
            for _ in 0..self.s.range(60, 600) {
                let num = self.next;
                self.next += 1;
                d = Die { tag: *self.s.pick(&[0x0b, 0x39, 0x13]), attrs: vec![], children: vec![d], empty_list: false, num };
            }
            root.children.push(d);
            self.feat("deep nesting");
        }
        let off = self.off_size();
        // what the unit refers to by index
        if !self.strx.is_empty() {
            let d64 = self.dwarf64;
            let strx = std::mem::take(&mut self.strx);
            let w = self.sec(".debug_str_offsets");
            let at = w.length(d64);
            w.u16(5);
            w.u16(0);
            let base = w.b.len() as u64;
            for o in strx {
                w.n(o, off);
            }
            w.end(at, d64);
            root.attrs.push(a(AT_STR_OFFSETS_BASE, form::SEC_OFFSET, Val::Num(base)));
        }
        if !self.addrx.is_empty() {
            let d64 = self.dwarf64;
            let addrx = std::mem::take(&mut self.addrx);
            let asz = self.addr_size;
            let w = self.sec(".debug_addr");
            let at = w.length(d64);
            w.u16(5);
            w.u8(asz);
            w.u8(0);
            let base = w.b.len() as u64;
            for o in addrx {
                w.n(o, asz.into());
            }
            w.end(at, d64);
            root.attrs.push(a(AT_ADDR_BASE, form::SEC_OFFSET, Val::Num(base)));
        }
        if !self.lists.is_empty() {
            let d64 = self.dwarf64;
            let lists = std::mem::take(&mut self.lists);
            let asz = self.addr_size;
            let w = self.sec(".debug_rnglists");
            let at = w.length(d64);
            w.u16(5);
            w.u8(asz);
            w.u8(0);
            w.u32(lists.len() as u32);
            let base = w.b.len();
            let mut offs = vec![];
            let mut o = lists.len() * off;
            for l in &lists {
                w.n(o as u64, off);
                offs.push((base + o) as u64);
                o += l.len();
            }
            for l in lists {
                w.b.extend(l);
            }
            w.end(at, d64);
            root.attrs.push(a(AT_RNGLISTS_BASE, form::SEC_OFFSET, Val::Num(base as u64)));
            fn fix(d: &mut Die, offs: &[u64]) {
                for x in &mut d.attrs {
                    if let Val::Num(v) = &mut x.val {
                        if x.at == AT_RANGES && *v >> 63 == 1 {
                            *v = offs[(*v & 0xffff_ffff) as usize];
                        }
                    }
                }
                for c in &mut d.children {
                    fix(c, offs);
                }
            }
            fix(&mut root, &offs);
        }
        let mut attrs = std::mem::take(&mut root.attrs);
        self.s.shuffle(&mut attrs);
        root.attrs = attrs;
        if self.dwarf64 {
            self.feat("64-bit DWARF");
        }
        self.feat(["", "", "DWARF 2", "DWARF 3", "DWARF 4", "DWARF 5"][self.version as usize]);
        self.feat(match self.addr_size {
            2 => "2-byte addresses",
            4 => "4-byte addresses",
            _ => "8-byte addresses",
        });
        let pad = if self.s.chance(1, 6) { self.s.range(1, 5) } else { 0 };
        Unit { version: self.version, dwarf64: self.dwarf64, addr_size: self.addr_size, unit_type, root, pad }
    }
}

pub fn generate(s: &mut Source, lim: &Limits) -> Debug {
    let big = s.chance(1, 3);
    let k = s.size(lim.units);
    let mut g = Gen {
        s,
        lim,
        big,
        version: 4,
        dwarf64: false,
        addr_size: 8,
        sec: BTreeMap::new(),
        strx: vec![],
        addrx: vec![],
        lists: vec![],
        list_forms: 0,
        base: 0,
        left: 0,
        next: 0,
        budget: u32::MAX.into(),
        out: vec![],
        feats: vec![],
        named: vec![],
        first_of_unit: 0,
        defines: true,
    };
    let mut units = vec![];
    for _ in 0..k {
        let u = g.unit();
        units.push(u);
    }
    let (out, feats, next) = (g.out, g.feats, g.next);
    let sections = g.sec.into_iter().map(|(k, w)| (k, w.b)).collect();
    let mut d = Debug { big, units, sections, functions: out, features: feats, entries: next };
    d.finish(s);
    d
}

type Shape = (u16, bool, Vec<(u16, u16, Option<i64>)>);

fn shape(d: &Die) -> Shape {
    (
        d.tag,
        d.empty_list || !d.children.is_empty(),
        d.attrs
            .iter()
            .map(|x| match (&x.val, x.form, x.indirect) {
                (Val::Num(v), form::IMPLICIT_CONST, false) => (x.at, x.form, Some(*v as i64)),
                (_, f, i) => (x.at, if i { form::INDIRECT } else { f }, None),
            })
            .collect(),
    )
}

impl Debug {
    /// Write .debug_info and .debug_abbrev.
    fn finish(&mut self, s: &mut Source) {
        let big = self.big;
        let shared = s.chance(1, 4);
        let step = *s.pick(&[1u64, 1, 3, 100, 70000]);
        let from = *s.pick(&[1u64, 1, 2, 130]);
        let mut abbrev = W::new(big);
        let mut tables: Vec<(u64, BTreeMap<Shape, u64>)> = vec![];
        let table = |roots: &[&Die], abbrev: &mut W, s: &mut Source| {
            let mut m: BTreeMap<Shape, u64> = BTreeMap::new();
            let mut order = vec![];
            fn walk(d: &Die, f: &mut impl FnMut(&Die)) {
                f(d);
                for c in &d.children {
                    walk(c, f);
                }
            }
            for r in roots {
                walk(r, &mut |d| {
                    let sh = shape(d);
                    let n = m.len() as u64;
                    m.entry(sh.clone()).or_insert_with(|| {
                        order.push(sh);
                        from + n * step
                    });
                });
            }
            s.shuffle(&mut order);
            let off = abbrev.b.len() as u64;
            for sh in &order {
                abbrev.uleb(m[sh]);
                abbrev.uleb(sh.0.into());
                abbrev.u8(sh.1.into());
                for (at, f, c) in &sh.2 {
                    abbrev.uleb((*at).into());
                    abbrev.uleb((*f).into());
                    if let Some(c) = c {
                        abbrev.sleb(*c);
                    }
                }
                abbrev.u8(0);
                abbrev.u8(0);
            }
            abbrev.u8(0);
            (off, m)
        };
        if shared {
            let roots: Vec<&Die> = self.units.iter().map(|u| &u.root).collect();
            tables.push(table(&roots, &mut abbrev, s));
        } else {
            for u in &self.units {
                if s.chance(1, 8) {
                    abbrev.b.extend([1, 0x2e, 0, 0, 0, 0]);
                }
                tables.push(table(&[&u.root], &mut abbrev, s));
            }
        }
        let mut info = W::new(big);
        let mut starts: BTreeMap<usize, u64> = BTreeMap::new();
        // where, size, entry, start of the unit to subtract
        let mut refs: Vec<(usize, usize, usize, u64)> = vec![];
        for (i, u) in self.units.iter().enumerate() {
            let (aoff, m) = &tables[if shared { 0 } else { i }];
            let off = if u.dwarf64 { 8 } else { 4 };
            let unit_start = info.b.len();
            let at = info.length(u.dwarf64);
            info.u16(u.version);
            if u.version >= 5 {
                info.u8(u.unit_type);
                info.u8(u.addr_size);
                info.n(*aoff, off);
            } else {
                info.n(*aoff, off);
                info.u8(u.addr_size);
            }
            match u.unit_type {
                2 => {
                    info.u64(0x1122_3344_5566_7788);
                    info.n(0, off);
                }
                4 => info.u64(0x99),
                _ => {}
            }
            let mut stack: Vec<Option<&Die>> = vec![Some(&u.root)];
            while let Some(x) = stack.pop() {
                let Some(d) = x else {
                    info.u8(0);
                    continue;
                };
                starts.insert(d.num, info.b.len() as u64);
                let sh = shape(d);
                info.uleb(m[&sh]);
                for x in &d.attrs {
                    if x.indirect {
                        info.uleb(x.form.into());
                    }
                    let num = match &x.val {
                        Val::Num(v) => *v,
                        _ => 0,
                    };
                    let bytes: &[u8] = match &x.val {
                        Val::Bytes(b) => b,
                        _ => &[],
                    };
                    use form::*;
                    let fixed = match x.form {
                        ADDR => u.addr_size as usize,
                        DATA1 | FLAG | REF1 | STRX1 | ADDRX1 => 1,
                        DATA2 | REF2 | STRX2 | ADDRX2 => 2,
                        STRX3 | ADDRX3 => 3,
                        DATA4 | REF4 | STRX4 | ADDRX4 => 4,
                        DATA8 | REF8 | REF_SIG8 => 8,
                        STRP | LINE_STRP | SEC_OFFSET => off,
                        REF_ADDR => {
                            if u.version == 2 {
                                u.addr_size.into()
                            } else {
                                off
                            }
                        }
                        _ => 0,
                    };
                    if fixed > 0 {
                        if let Val::Ref(n) = x.val {
                            refs.push((info.b.len(), fixed, n, if x.form == REF_ADDR { 0 } else { unit_start as u64 }));
                        }
                        info.n(num, fixed);
                        continue;
                    }
                    match x.form {
                        UDATA | STRX | ADDRX | RNGLISTX | LOCLISTX | REF_UDATA => info.uleb(num),
                        SDATA => info.sleb(num as i64),
                        FLAG_PRESENT | IMPLICIT_CONST => {}
                        STRING => {
                            info.b.extend_from_slice(bytes);
                            info.u8(0);
                        }
                        BLOCK1 => {
                            info.u8(bytes.len() as u8);
                            info.b.extend_from_slice(bytes);
                        }
                        BLOCK2 => {
                            info.u16(bytes.len() as u16);
                            info.b.extend_from_slice(bytes);
                        }
                        BLOCK4 => {
                            info.u32(bytes.len() as u32);
                            info.b.extend_from_slice(bytes);
                        }
                        BLOCK | EXPRLOC => {
                            info.uleb(bytes.len() as u64);
                            info.b.extend_from_slice(bytes);
                        }
                        DATA16 => info.b.extend_from_slice(bytes),
                        f => panic!("form {f:#x}"),
                    }
                }
                if sh.1 {
                    stack.push(None);
                    stack.extend(d.children.iter().rev().map(Some));
                }
            }
            for _ in 0..u.pad {
                info.u8(0);
            }
            info.end(at, u.dwarf64);
        }
        for (at, size, num, base) in refs {
            info.put(at, starts[&num] - base, size);
        }
        self.sections.insert(".debug_info", info.b);
        self.sections.insert(".debug_abbrev", abbrev.b);
    }
}
