//! Puts debug sections into object files of several formats.

use crate::dwarf::W;
use crate::mutate::leb;
use crate::source::Source;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Container {
    Elf { wide: bool },
    MachO { wide: bool },
    Coff,
    Pe { wide: bool },
    Wasm,
}

impl Container {
    pub fn label(self) -> &'static str {
        match self {
            Container::Elf { wide: true } => "64-bit ELF",
            Container::Elf { wide: false } => "32-bit ELF",
            Container::MachO { wide: true } => "64-bit Mach-O",
            Container::MachO { wide: false } => "32-bit Mach-O",
            Container::Coff => "COFF",
            Container::Pe { .. } => "PE",
            Container::Wasm => "wasm with DWARF",
        }
    }
}

pub fn pick(s: &mut Source, big: bool) -> Container {
    let wide = s.chance(3, 4);
    match s.below(10) {
        0..=5 => Container::Elf { wide },
        6 => Container::MachO { wide },
        7 if !big => Container::Coff,
        8 if !big => Container::Pe { wide },
        9 if !big => Container::Wasm,
        _ => Container::Elf { wide },
    }
}

/// zlib data of stored blocks only.
pub fn zlib_stored(d: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let mut rest = d;
    loop {
        let n = rest.len().min(0xffff);
        let last = n == rest.len();
        o.push(last.into());
        o.extend((n as u16).to_le_bytes());
        o.extend((!(n as u16)).to_le_bytes());
        o.extend_from_slice(&rest[..n]);
        rest = &rest[n..];
        if last {
            break;
        }
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + u32::from(*x)) % 65521;
        b = (b + a) % 65521;
    }
    o.extend((b << 16 | a).to_be_bytes());
    o
}

pub fn write(s: &mut Source, c: Container, big: bool, sections: &[(&str, Vec<u8>)], feats: &mut Vec<&'static str>) -> Vec<u8> {
    let mut secs: Vec<(String, Vec<u8>)> = sections.iter().map(|(n, d)| (n.to_string(), d.clone())).collect();
    s.shuffle(&mut secs);
    if s.chance(1, 2) {
        let n = s.below(40);
        let d = (0..n).map(|_| s.raw() as u8).collect();
        let at = s.below(secs.len() + 1);
        secs.insert(at, (s.pick(&[".text", ".comment", ".debug_aranges", ".debug", ".debug_info.dwo", ".eh_frame"]).to_string(), d));
    }
    match c {
        Container::Elf { wide } => elf(s, wide, big, secs, feats),
        Container::MachO { wide } => macho(s, wide, big, secs),
        Container::Coff => coff(s, None, secs),
        Container::Pe { wide } => coff(s, Some(wide), secs),
        Container::Wasm => wasm(secs),
    }
}

fn elf(s: &mut Source, wide: bool, big: bool, secs: Vec<(String, Vec<u8>)>, feats: &mut Vec<&'static str>) -> Vec<u8> {
    let mut w = W::new(big);
    let word = if wide { 8 } else { 4 };
    w.b.extend([0x7f, b'E', b'L', b'F', if wide { 2 } else { 1 }, if big { 2 } else { 1 }, 1, 0]);
    w.b.extend([0; 8]);
    // executable or shared library
    w.u16(*s.pick(&[2, 3]));
    w.u16(*s.pick(&if wide { [62u16, 183, 21, 22] } else { [3u16, 40, 8, 20] }));
    w.u32(1);
    w.n(0x1000, word); // entry
    w.n(0, word); // no program headers
    let shoff = w.b.len();
    w.n(0, word);
    w.u32(0);
    w.u16(if wide { 64 } else { 52 });
    w.u16(0);
    w.u16(0);
    w.u16(if wide { 64 } else { 40 });
    w.u16(secs.len() as u16 + 2);
    w.u16(secs.len() as u16 + 1);
    // name, type, flags, offset, size
    let mut hdr: Vec<(usize, u32, u64, u64, u64)> = vec![];
    let mut names = vec![0u8];
    let compress = s.chance(1, 4);
    let mut add_name = |n: &str| {
        let o = names.len();
        names.extend_from_slice(n.as_bytes());
        names.push(0);
        o
    };
    for (n, d) in secs {
        let how = if compress && n.starts_with(".debug_") { s.below(3) } else { 0 };
        let pad = s.below(5);
        w.b.extend(std::iter::repeat(0xcc).take(pad));
        let at = w.b.len();
        let mut flags = 0;
        let mut name = n.clone();
        match how {
            1 => {
                feats.push("compressed sections");
                flags = 1 << 11;
                w.u32(1);
                if wide {
                    w.u32(0);
                }
                w.n(d.len() as u64, word);
                w.n(1, word);
                w.b.extend(zlib_stored(&d));
            }
            2 => {
                feats.push("compressed sections");
                name = n.replacen(".debug", ".zdebug", 1);
                w.b.extend(b"ZLIB");
                w.b.extend((d.len() as u64).to_be_bytes());
                w.b.extend(zlib_stored(&d));
            }
            _ => w.b.extend(d),
        }
        hdr.push((add_name(&name), 1, flags, at as u64, (w.b.len() - at) as u64));
    }
    let sn = add_name(".shstrtab");
    let at = w.b.len();
    let len = names.len();
    w.b.extend(names);
    hdr.push((sn, 3, 0, at as u64, len as u64));
    while w.b.len() % 8 != 0 {
        w.u8(0);
    }
    let sh = w.b.len() as u64;
    w.put(shoff, sh, word);
    w.b.extend(std::iter::repeat(0).take(if wide { 64 } else { 40 }));
    for (n, t, f, o, z) in hdr {
        w.u32(n as u32);
        w.u32(t);
        w.n(f, word);
        w.n(0, word);
        w.n(o, word);
        w.n(z, word);
        w.u32(0);
        w.u32(0);
        w.n(1, word);
        w.n(0, word);
    }
    w.b
}

fn macho(s: &mut Source, wide: bool, big: bool, secs: Vec<(String, Vec<u8>)>) -> Vec<u8> {
    let mut w = W::new(big);
    let word = if wide { 8 } else { 4 };
    w.u32(if wide { 0xfeed_facf } else { 0xfeed_face });
    w.u32(match (wide, big) {
        (true, false) => 0x0100_0007,
        (true, true) => 0x0100_0012,
        (false, false) => 7,
        (false, true) => 18,
    });
    w.u32(3);
    w.u32(*s.pick(&[2, 6, 10])); // executable, library, dSYM
    w.u32(1);
    let seg = if wide { 72 } else { 56 };
    let sect = if wide { 80 } else { 68 };
    w.u32((seg + sect * secs.len()) as u32);
    w.u32(0);
    if wide {
        w.u32(0);
    }
    let mut at = w.b.len() + seg + sect * secs.len();
    w.u32(if wide { 0x19 } else { 1 });
    w.u32((seg + sect * secs.len()) as u32);
    let mut name = b"__DWARF".to_vec();
    name.resize(16, 0);
    w.b.extend(&name);
    w.n(0x10000, word);
    w.n(0x10000, word);
    w.n(at as u64, word);
    let total: usize = secs.iter().map(|x| x.1.len()).sum();
    w.n(total as u64, word);
    w.u32(7);
    w.u32(7);
    w.u32(secs.len() as u32);
    w.u32(0);
    for (n, d) in &secs {
        let mut m = n.replacen('.', "__", 1).into_bytes();
        m.resize(16, 0);
        w.b.extend(&m);
        w.b.extend(&name);
        w.n(0x10000, word);
        w.n(d.len() as u64, word);
        w.u32(at as u32);
        for _ in 0..5 {
            w.u32(0);
        }
        w.u32(0);
        if wide {
            w.u32(0);
        }
        at += d.len();
    }
    for (_, d) in secs {
        w.b.extend(d);
    }
    // the 32-bit section header has no third reserved field
    w.b
}

/// A COFF object, or with `pe` an image.
fn coff(s: &mut Source, pe: Option<bool>, secs: Vec<(String, Vec<u8>)>) -> Vec<u8> {
    let mut w = W::new(false);
    if pe.is_some() {
        w.b.extend(b"MZ");
        w.b.resize(0x3c, 0);
        w.u32(0x80);
        w.b.resize(0x80, 0);
        w.b.extend(b"PE\0\0");
    }
    let wide = pe.unwrap_or_else(|| s.chance(1, 2));
    w.u16(if wide { 0x8664 } else { 0x14c });
    w.u16(secs.len() as u16);
    w.u32(0);
    let symtab = w.b.len();
    w.u32(0);
    w.u32(0);
    let opt = match pe {
        None => 0,
        Some(true) => 240,
        Some(false) => 224,
    };
    w.u16(opt);
    w.u16(if pe.is_some() { 0x22 } else { 0 });
    if let Some(wide) = pe {
        let start = w.b.len();
        w.u16(if wide { 0x20b } else { 0x10b });
        w.b.extend([14, 0]);
        w.u32(0x200);
        w.u32(0);
        w.u32(0);
        w.u32(0x1000);
        w.u32(0x1000);
        if !wide {
            w.u32(0x1000);
        }
        w.n(0x40_0000, if wide { 8 } else { 4 });
        w.u32(0x1000);
        w.u32(0x200);
        w.b.extend([6, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0]);
        w.u32(0);
        w.u32(0x20_0000);
        w.u32(0x400);
        w.u32(0);
        w.u16(3);
        w.u16(0);
        for v in [0x10_0000u64, 0x1000, 0x10_0000, 0x1000] {
            w.n(v, if wide { 8 } else { 4 });
        }
        w.u32(0);
        w.u32(16);
        w.b.resize(start + opt as usize, 0);
    }
    let mut strtab = vec![];
    let mut at = w.b.len() + 40 * secs.len();
    let mut rva = 0x1000u32;
    for (n, d) in &secs {
        let mut name = if n.len() > 8 {
            let o = strtab.len() + 4;
            strtab.extend_from_slice(n.as_bytes());
            strtab.push(0);
            format!("/{o}").into_bytes()
        } else {
            n.clone().into_bytes()
        };
        name.resize(8, 0);
        w.b.extend(name);
        w.u32(if pe.is_some() { d.len() as u32 } else { 0 });
        w.u32(if pe.is_some() { rva } else { 0 });
        w.u32(d.len() as u32);
        w.u32(at as u32);
        w.u32(0);
        w.u32(0);
        w.u32(0);
        w.u32(0x4200_0040);
        at += d.len();
        rva += (d.len() as u32 + 0xfff) & !0xfff;
        rva += 0x1000;
    }
    for (_, d) in secs {
        w.b.extend(d);
    }
    let at = w.b.len() as u64;
    w.put(symtab, at, 4);
    w.u32(strtab.len() as u32 + 4);
    w.b.extend(strtab);
    w.b
}

fn wasm(secs: Vec<(String, Vec<u8>)>) -> Vec<u8> {
    let mut w = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    for (n, d) in secs {
        let mut b = vec![];
        leb(n.len() as u64, &mut b);
        b.extend_from_slice(n.as_bytes());
        b.extend(d);
        w.push(0);
        leb(b.len() as u64, &mut w);
        w.extend(b);
    }
    w
}
