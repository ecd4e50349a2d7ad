//! Corrupts valid modules while keeping the framing around the damage intact,
//! so that the damage is reached.

use crate::source::Source;

pub fn leb(mut v: u64, o: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}

fn read_leb(d: &[u8], at: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    let mut sh = 0;
    loop {
        let b = *d.get(*at)?;
        *at += 1;
        v |= u64::from(b & 0x7f).checked_shl(sh)?;
        if b & 0x80 == 0 {
            return Some(v);
        }
        sh += 7;
        if sh > 35 {
            return None;
        }
    }
}

#[derive(Clone)]
pub struct Section {
    pub id: u8,
    pub body: Vec<u8>,
}

pub fn sections(d: &[u8]) -> Vec<Section> {
    let mut v = vec![];
    let mut at = 8;
    while at < d.len() {
        let id = d[at];
        at += 1;
        let Some(n) = read_leb(d, &mut at) else { break };
        let end = at.saturating_add(n as usize).min(d.len());
        v.push(Section { id, body: d[at..end].to_vec() });
        at = end;
    }
    v
}

/// Some bytes of arbitrary or suggestive content.
fn junk(s: &mut Source, max: usize) -> Vec<u8> {
    let n = s.below(max + 1);
    (0..n).map(|_| if s.chance(1, 2) { s.raw() as u8 } else { *s.pick(&[0u8, 1, 2, 0x0b, 0x10, 0x20, 0x23, 0x41, 0x60, 0x70, 0x7f, 0x80, 0xff, 0xfc, 0xfd, 0x28, 0x36]) }).collect()
}

fn number(s: &mut Source) -> Vec<u8> {
    let mut o = vec![];
    let v = u64::from(s.u32_any());
    leb(v, &mut o);
    if s.chance(1, 12) {
        // over-long
        let k = o.len() - 1;
        o[k] |= 0x80;
        o.extend([0x80, 0x80, 0x80, 0x00]);
    }
    o
}

/// Damage a few bytes.
pub fn bytes(s: &mut Source, d: &mut Vec<u8>) {
    for _ in 0..1 + s.weighted(&[6, 2, 1]) {
        let i = s.below(d.len() + 1);
        let j = (i + s.range(1, 4)).min(d.len());
        match s.below(9) {
            0 if i < d.len() => d[i] ^= 1 << s.below(8),
            1 if i < d.len() => d[i] = s.raw() as u8,
            2 => {
                let n = number(s);
                d.splice(i..j.max(i), n);
            }
            3 => {
                let n = number(s);
                d.splice(i..i, n);
            }
            4 => {
                d.drain(i..j);
            }
            5 => d.truncate(i),
            6 => {
                let n = junk(s, 6);
                d.splice(i..i, n);
            }
            7 => {
                let part = d[i..j].to_vec();
                let k = s.below(d.len() + 1);
                d.splice(k..k, part);
            }
            _ if i < d.len() => d[i] = d[i].wrapping_add(if s.chance(1, 2) { 1 } else { 255 }),
            _ => {}
        }
    }
}

/// Damage one section, keeping inner sizes right if it has some.
fn section(s: &mut Source, sec: &mut Section) {
    let mut parts: Option<(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>)> = None;
    if sec.id == 10 && !s.chance(1, 6) {
        // function bodies
        let mut at = 0;
        if read_leb(&sec.body, &mut at).is_some() {
            let head = sec.body[..at].to_vec();
            let mut v = vec![];
            while at < sec.body.len() {
                let Some(n) = read_leb(&sec.body, &mut at) else { break };
                let end = at.saturating_add(n as usize).min(sec.body.len());
                v.push((vec![], sec.body[at..end].to_vec()));
                at = end;
            }
            parts = Some((head, v));
        }
    } else if sec.id == 0 && sec.body.starts_with(b"\x04name") && !s.chance(1, 6) {
        let mut at = 5;
        let head = sec.body[..5].to_vec();
        let mut v = vec![];
        while at < sec.body.len() {
            let id = sec.body[at];
            at += 1;
            let Some(n) = read_leb(&sec.body, &mut at) else { break };
            let end = at.saturating_add(n as usize).min(sec.body.len());
            v.push((vec![id], sec.body[at..end].to_vec()));
            at = end;
        }
        parts = Some((head, v));
    }
    match parts {
        Some((mut head, mut v)) if !v.is_empty() => {
            let i = s.below(v.len());
            match s.below(8) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let x = v[i].clone();
                    v.push(x);
                }
                2 => v[i].1 = junk(s, 20),
                3 if sec.id == 10 => head = number(s),
                _ => bytes(s, &mut v[i].1),
            }
            let mut o = head;
            for (pre, body) in v {
                o.extend(pre);
                leb(body.len() as u64, &mut o);
                o.extend(body);
            }
            sec.body = o;
        }
        _ => match s.below(8) {
            0 => sec.body = junk(s, 30),
            1 => {
                // another count
                let mut at = 0;
                if read_leb(&sec.body, &mut at).is_some() {
                    let n = number(s);
                    sec.body.splice(0..at, n);
                }
            }
            _ => bytes(s, &mut sec.body),
        },
    }
}

/// A damaged version of module `d`; `other` may lend sections.
pub fn module(s: &mut Source, d: &[u8], other: &[u8]) -> Vec<u8> {
    if s.chance(1, 10) {
        let mut v = d.to_vec();
        bytes(s, &mut v);
        return v;
    }
    let mut secs = sections(d);
    for _ in 0..1 + s.weighted(&[6, 2, 1]) {
        if secs.is_empty() {
            secs.push(Section { id: s.below(14) as u8, body: junk(s, 20) });
            continue;
        }
        let i = s.below(secs.len());
        match s.below(14) {
            0 => {
                secs.remove(i);
            }
            1 => {
                let x = secs[i].clone();
                let j = s.below(secs.len() + 1);
                secs.insert(j, x);
            }
            2 => {
                let j = s.below(secs.len());
                secs.swap(i, j);
            }
            3 => secs[i].id = s.below(15) as u8,
            4 => {
                let b = junk(s, 20);
                let id = s.below(15) as u8;
                secs.insert(i, Section { id, body: b });
            }
            5 | 6 => {
                let o = sections(other);
                if !o.is_empty() {
                    let x = s.pick(&o).clone();
                    match secs.iter().position(|y| y.id == x.id) {
                        Some(k) if s.chance(3, 4) => secs[k] = x,
                        _ => secs.insert(i, x),
                    }
                }
            }
            _ => section(s, &mut secs[i]),
        }
    }
    let mut o = d[..8.min(d.len())].to_vec();
    if s.chance(1, 40) {
        o = junk(s, 9);
    }
    for sec in &secs {
        o.push(sec.id);
        if s.chance(1, 60) {
            let n = number(s);
            o.extend(n);
        } else {
            leb(sec.body.len() as u64, &mut o);
        }
        o.extend_from_slice(&sec.body);
    }
    o
}
