//! Damage to stored data: arbitrary corruption (C10), detectable damage of
//! checksummed structures (C11), formats that have to be refused (C13).

use crate::client::Dmg;
use crate::disk::*;
use crate::fsw::*;
use crate::hash::crc32c;
use crate::jbd::*;
use crate::model::*;
use crate::rng::Rng;

/// A place that holds a structure.
#[derive(Clone, Debug)]
pub enum Spot {
    Sb,
    Bgd(u32),
    Inode(u32),
    Ext { ino: u32, block: u64 },
    Ind { ino: u32, block: u64 },
    DirLeaf { ino: u32, fb: u32, block: u64 },
    DirIndex { ino: u32, fb: u32, block: u64, off: usize },
    Data { ino: u32, block: u64 },
    Jsb(u64),
    Jlog(u64),
}

fn spot_addr(st: &Fs, s: &Spot) -> (u64, usize) {
    let bs = u64::from(st.g.bs);
    match s {
        Spot::Sb => (1024, 1024),
        Spot::Bgd(i) => (st.bgd_addr(*i), st.g.desc.into()),
        Spot::Inode(i) => {
            let (b, o) = st.inode_addr(*i);
            (b * bs + o as u64, st.g.isize.into())
        }
        Spot::Ext { block, .. }
        | Spot::Ind { block, .. }
        | Spot::DirLeaf { block, .. }
        | Spot::DirIndex { block, .. }
        | Spot::Data { block, .. }
        | Spot::Jsb(block)
        | Spot::Jlog(block) => (*block * bs, bs as usize),
    }
}

fn spot_ino(s: &Spot) -> Option<u32> {
    match s {
        Spot::Inode(i) => Some(*i),
        Spot::Ext { ino, .. }
        | Spot::Ind { ino, .. }
        | Spot::DirLeaf { ino, .. }
        | Spot::DirIndex { ino, .. }
        | Spot::Data { ino, .. } => Some(*ino),
        _ => None,
    }
}

fn live_inodes(st: &Fs) -> Vec<u32> {
    st.lay.keys().copied().filter(|i| st.model.nodes.contains_key(i)).collect()
}

/// Where the index data of a directory block starts, if it is an index node.
fn index_off(st: &Fs, ino: u32, fb: u32) -> Option<usize> {
    let l = &st.lay[&ino];
    let ht = l.ht.as_ref()?;
    if fb == 0 {
        return Some(0x20);
    }
    if ht.leaves.iter().any(|(_, b)| *b == fb) {
        None
    } else {
        Some(8)
    }
}

fn dir_spots(st: &Fs, ino: u32) -> Vec<Spot> {
    let n = (st.model.node(ino).size / u64::from(st.g.bs)) as u32;
    let mut v = Vec::new();
    for fb in 0..n {
        let Some(block) = st.bmap(ino, fb) else { continue };
        v.push(match index_off(st, ino, fb) {
            Some(off) => Spot::DirIndex { ino, fb, block, off },
            None => Spot::DirLeaf { ino, fb, block },
        });
    }
    v
}

fn pick_spot(st: &Fs, jb: &[u64], r: &mut Rng) -> Spot {
    let inos = live_inodes(st);
    let dirs: Vec<u32> = inos.iter().copied().filter(|i| st.model.node(*i).is_dir()).collect();
    for _ in 0..30 {
        match r.below(16) {
            0 => return Spot::Sb,
            1 => return Spot::Bgd(r.below(st.g.ngroups().into()) as u32),
            2..=5 => {
                let ht: Vec<u32> = dirs.iter().copied().filter(|i| st.lay[i].ht.is_some()).collect();
                if !ht.is_empty() && r.chance(1, 4) {
                    return Spot::Inode(*r.pick(&ht));
                }
                return Spot::Inode(*r.pick(&inos));
            }
            6 | 7 => {
                // Any tree block.
                let c: Vec<(u32, u64)> = inos
                    .iter()
                    .filter_map(|i| match &st.lay[i].layout {
                        Layout::Ext { nodes, .. } => Some(nodes.iter().map(|b| (*i, *b)).collect::<Vec<_>>()),
                        _ => None,
                    })
                    .flatten()
                    .collect();
                if !c.is_empty() {
                    let (ino, block) = *r.pick(&c);
                    return Spot::Ext { ino, block };
                }
            }
            8 => {
                let c: Vec<(u32, u64)> = inos
                    .iter()
                    .filter_map(|i| match &st.lay[i].layout {
                        Layout::Map { inds, .. } => Some(inds.iter().map(|b| (*i, *b)).collect::<Vec<_>>()),
                        _ => None,
                    })
                    .flatten()
                    .collect();
                if !c.is_empty() {
                    let (ino, block) = *r.pick(&c);
                    return Spot::Ind { ino, block };
                }
            }
            9 | 10 => {
                let v = dir_spots(st, *r.pick(&dirs));
                if !v.is_empty() {
                    return r.pick(&v).clone();
                }
            }
            11 => {
                // Index nodes are rare among blocks: look for them.
                let ht: Vec<u32> = dirs.iter().copied().filter(|i| st.lay[i].ht.is_some()).collect();
                if !ht.is_empty() {
                    let v: Vec<Spot> = dir_spots(st, *r.pick(&ht)).into_iter().filter(|s| matches!(s, Spot::DirIndex { .. })).collect();
                    if !v.is_empty() {
                        return r.pick(&v).clone();
                    }
                }
            }
            12 => {
                let l: Vec<u32> = inos
                    .iter()
                    .copied()
                    .filter(|i| matches!(st.model.node(*i).kind, Kind::Link(_)) && st.bmap(*i, 0).is_some())
                    .collect();
                if !l.is_empty() {
                    let ino = *r.pick(&l);
                    return Spot::Data { ino, block: st.bmap(ino, 0).unwrap() };
                }
            }
            13 | 14 => {
                if !jb.is_empty() {
                    return Spot::Jsb(jb[0]);
                }
            }
            _ => {
                if jb.len() > 2 {
                    return Spot::Jlog(jb[1 + r.idx((jb.len() - 1).min(60))]);
                }
            }
        }
    }
    Spot::Inode(2)
}

/// Make the checksum of a structure match what it says now.
fn fix(st: &Fs, s: &Spot, d: &mut [u8]) {
    match s {
        Spot::Sb => csum_sb(d, st.g.csum),
        Spot::Bgd(i) => st.csum_bgd(*i, d),
        Spot::Inode(i) => {
            let gen = r32(d, 0x64);
            st.csum_inode(*i, gen, d);
        }
        Spot::Ext { ino, .. } => {
            if st.g.csum {
                let max = usize::from(r16(d, 4)).min((d.len() - 16) / 12);
                let o = 12 + 12 * max;
                let c = crc32c(st.inode_seed(*ino), &d[..o]);
                w32(d, o, c);
            }
        }
        Spot::DirLeaf { ino, .. } => {
            if st.g.csum {
                let n = d.len();
                let c = crc32c(st.inode_seed(*ino), &d[..n - 12]);
                w32(d, n - 4, c);
            }
        }
        Spot::DirIndex { ino, off, .. } => {
            let count = usize::from(r16(d, *off + 2));
            if off + count * 8 <= d.len() - 8 {
                st.csum_dx(*ino, d, *off);
            }
        }
        Spot::Jsb(_) => csum_jsb(d),
        Spot::Ind { .. } | Spot::Data { .. } | Spot::Jlog(_) => {}
    }
}

/// Offsets worth attacking, with their width.
fn hot_fields(st: &Fs, s: &Spot, d: &[u8], r: &mut Rng) -> (usize, usize) {
    let pick = |r: &mut Rng, v: &[(usize, usize)]| *r.pick(v);
    match s {
        Spot::Sb => pick(
            r,
            &[
                (0, 4), (4, 4), (0x14, 4), (0x18, 4), (0x18, 1), (0x20, 4), (0x28, 4), (0x54, 4), (0x58, 2), (0x5c, 4),
                (0x60, 4), (0x64, 4), (0xe0, 4), (0xfc, 1), (0xfe, 2), (0x150, 4), (0x158, 4), (0x15c, 2), (0x160, 4),
                (0x175, 1), (0x270, 4), (0x38, 2), (0x4c, 4), (0x78, 1),
            ],
        ),
        Spot::Bgd(_) => pick(r, &[(0, 4), (4, 4), (8, 4), (8, 4), (0x12, 2), (0x1e, 2), (0x20, 4), (0x24, 4), (0x28, 4), (0x28, 4)]),
        Spot::Inode(_) => match r.below(3) {
            0 => pick(r, &[(0, 2), (4, 4), (0x6c, 4), (0x20, 4), (0x1c, 4), (0x1a, 2), (0x80, 2), (0x64, 4), (0x7c, 2), (0x82, 2)]),
            1 if r16(d, 0x28) == 0xf30a && r.chance(1, 2) => {
                let n = usize::from(r16(d, 0x2a)).clamp(1, 4);
                let f = pick(r, &[(0, 4), (0, 4), (4, 2), (4, 4), (6, 2), (8, 4)]);
                (0x28 + 12 * (1 + r.idx(n)) + f.0, f.1)
            }
            1 => (0x28 + 4 * r.idx(15), 4),
            _ => (0x28 + r.idx(30) * 2, 2),
        },
        Spot::Ext { .. } => match r.below(2) {
            0 => pick(r, &[(0, 2), (2, 2), (4, 2), (6, 2)]),
            _ => {
                let n = usize::from(r16(d, 2)).clamp(1, (d.len() - 12) / 12);
                let e = 12 + 12 * r.idx(n);
                let f = pick(r, &[(0, 4), (4, 2), (4, 4), (6, 2), (8, 4), (8, 2), (10, 2)]);
                (e + f.0, f.1)
            }
        },
        Spot::Ind { .. } => {
            let n = if r.chance(1, 2) { 4 } else { d.len() / 4 };
            (4 * r.idx(n), 4)
        }
        Spot::DirLeaf { .. } => {
            // A record of the block.
            let mut v = vec![0usize];
            let mut o = 0;
            while o + 8 <= d.len() {
                let l = reclen_dec(r16(d, o + 4), d.len());
                if l < 8 || l % 4 != 0 {
                    break;
                }
                o += l;
                if o + 8 <= d.len() {
                    v.push(o);
                }
            }
            let e = *r.pick(&v);
            let f = pick(r, &[(0, 4), (4, 2), (4, 2), (6, 1), (6, 1), (7, 1), (8, 1), (8, 2)]);
            (e + f.0, f.1)
        }
        Spot::DirIndex { off, .. } => match r.below(3) {
            0 => pick(r, &[(0x18, 4), (0x1c, 1), (0x1d, 1), (0x1e, 1), (0x1f, 1), (4, 2), (6, 1), (0x10, 2), (0, 4), (0xc, 4)]),
            1 => (*off + *r.pick(&[0usize, 2]), 2),
            _ => {
                let n = usize::from(r16(d, *off + 2)).clamp(1, 30);
                (*off + 4 * r.idx(2 * n), 4)
            }
        },
        Spot::Data { .. } => (r.idx(64), 1),
        Spot::Jsb(_) => pick(r, &[(0, 4), (4, 4), (8, 4), (0xc, 4), (0x10, 4), (0x14, 4), (0x18, 4), (0x1c, 4), (0x1c, 4), (0x28, 4), (0x30, 4), (0x50, 1), (0xfc, 4)]),
        Spot::Jlog(_) => {
            let _ = st;
            match r.below(3) {
                0 => pick(r, &[(0, 4), (4, 4), (8, 4), (12, 4)]),
                1 => (12 + 4 * r.idx(12), 4),
                _ => (4 * r.idx(d.len() / 4), 4),
            }
        }
    }
}

fn value(st: &Fs, s: &Spot, old: u64, w: usize, r: &mut Rng) -> u64 {
    let max = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    let bs = u64::from(st.g.bs);
    let own = spot_addr(st, s).0 / bs;
    let v = match r.below(20) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max - 1,
        4 => max / 2,
        5 => max / 2 + 1,
        6 => old.wrapping_add(1),
        7 => old.wrapping_sub(1),
        8 => old.wrapping_mul(2),
        9 => old ^ (1 << r.below(8 * w as u64)),
        10 => own,
        11 => bs,
        12 => bs - r.below(16),
        13 => st.g.blocks,
        14 => st.g.blocks - 1,
        15 => *r.pick(&[2, 3, 4, 5, 7, 8, 12, 16, 32, 63, 64, 128, 255, 256, 0x7fff, 0x8000, 0x8001, 0xf30a]),
        16 => {
            // Some block that is in use for something.
            let k = r.below(st.g.blocks);
            st.used.first_in(k, st.g.blocks).unwrap_or(k)
        }
        17 => old | 1 << r.below(8 * w as u64),
        18 => r.below(bs),
        _ => r.next(),
    };
    v & max
}

fn put_le(d: &mut [u8], o: usize, w: usize, v: u64, be: bool) {
    for i in 0..w {
        let k = if be { w - 1 - i } else { i };
        if o + i < d.len() {
            d[o + i] = (v >> (8 * k)) as u8;
        }
    }
}
fn get_le(d: &[u8], o: usize, w: usize, be: bool) -> u64 {
    let mut v = 0;
    for i in 0..w {
        let k = if be { w - 1 - i } else { i };
        v |= u64::from(*d.get(o + i).unwrap_or(&0)) << (8 * k);
    }
    v
}

type Out = (String, Option<u32>, Vec<(u64, Vec<u8>)>);

pub fn structure(st: &Fs, img: &mut Image, jb: &[u64], r: &mut Rng) -> Out {
    let s = pick_spot(st, jb, r);
    let (addr, len) = spot_addr(st, &s);
    let old = img.peek(addr, len);
    let mut d = old.clone();
    let be = matches!(s, Spot::Jsb(_) | Spot::Jlog(_));
    let mut what = String::new();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3, 6]) {
        match r.below(12) {
            0..=8 => {
                let (o, w) = hot_fields(st, &s, &d, r);
                let v0 = get_le(&d, o, w, be);
                let v = value(st, &s, v0, w, r);
                put_le(&mut d, o, w, v, be);
                what.push_str(&format!(" [{o:#x}]:{v0:#x}->{v:#x}"));
            }
            9 => {
                let o = r.idx(len);
                let n = r.range(1, 16) as usize;
                for k in o..(o + n).min(len) {
                    d[k] = r.next() as u8;
                }
                what.push_str(&format!(" random at {o:#x}"));
            }
            10 => {
                let o = r.idx(len);
                d[o] ^= 1 << r.below(8);
                what.push_str(&format!(" bit at {o:#x}"));
            }
            _ => {
                let v = if r.chance(1, 2) { 0 } else { 0xff };
                let o = r.idx(len / 2 + 1);
                let n = r.range(1, (len - o) as u64) as usize;
                d[o..o + n].fill(v);
                what.push_str(&format!(" fill {o:#x}+{n:#x} with {v:#x}"));
            }
        }
    }
    if r.chance(1, 4) {
        pair(st, &s, &mut d, &mut what, r);
    }
    if r.chance(3, 4) {
        fix(st, &s, &mut d);
        if let (Spot::Jlog(_), Some(b)) = (&s, jb.first()) {
            let uuid = img.peek(*b * u64::from(st.g.bs) + 0x30, 16);
            fix_log(crc32c(!0, &uuid), &mut d);
        }
        what.push_str(" (checksum matches)");
    }
    img.poke(addr, &d);
    let name = format!("{s:?}");
    let k = name.split([' ', '(', '{']).next().unwrap().to_lowercase();
    (format!("{k} {name}:{what}"), spot_ino(&s), vec![(addr, old)])
}

/// Checksum of a block of the log.
fn fix_log(seed: u32, d: &mut [u8]) {
    if g32(d, 0) != MAGIC {
        return;
    }
    let o = match g32(d, 4) {
        1 | 5 => d.len() - 4,
        2 => 0x10,
        _ => return,
    };
    b32(d, o, 0);
    let c = crc32c(seed, d);
    b32(d, o, c);
}

/// Fields that vouch for each other, wrong together.
fn pair(st: &Fs, s: &Spot, d: &mut [u8], what: &mut String, r: &mut Rng) {
    let n = *r.pick(&[0u16, 1, 2, 3, 4, 5, 6, 7, 28, 29, 84, 85, 100, 126, 127, 128, 340, 341, 508, 1000, 5460, 5461, 8190, 0x7fff, 0x8000, 0xffff]);
    match s {
        Spot::Inode(_) | Spot::Ext { .. } => {
            let o = if matches!(s, Spot::Inode(_)) { 0x28 } else { 0 };
            if r16(d, o) == 0xf30a && r.chance(1, 2) {
                // An entry at the end of the range of numbers.
                let k = usize::from(r16(d, o + 2)).clamp(1, (d.len() - o - 12).min(48) / 12);
                let e = o + 12 * (1 + r.idx(k));
                let m = r.below(4);
                if m != 0 {
                    w32(d, e, u32::MAX - r.below(64) as u32);
                }
                if m != 1 && r16(d, o + 6) == 0 {
                    let b = st.g.blocks - r.below(8).min(st.g.blocks - 1);
                    w16(d, e + 4, *r.pick(&[1u16, 2, 7, 64, 0x7fff, 0x8000, 0x8001, 0xffff]));
                    if m == 0 {
                        w16(d, e + 6, (b >> 32) as u16);
                        w32(d, e + 8, b as u32);
                    }
                }
                what.push_str(&format!(" entry at {e:#x} to the end of the range"));
                return;
            }
            if r16(d, o) == 0xf30a || r.chance(1, 4) {
                w16(d, o, 0xf30a);
                w16(d, o + 2, n);
                w16(d, o + 4, n.saturating_add(r.below(2) as u16));
                if r.chance(1, 3) {
                    w16(d, o + 6, r.below(6) as u16);
                }
                what.push_str(&format!(" {n} entries of {n}"));
            }
        }
        Spot::DirIndex { off, .. } => {
            w16(d, *off, n.saturating_add(r.below(2) as u16));
            w16(d, *off + 2, n);
            what.push_str(&format!(" {n} entries of {n}"));
        }
        Spot::Sb => {
            let (k, m) = (u64::from(r32(d, 0x18)).min(10), r.below(6));
            match m {
                0 => {
                    // Fewer, larger or more, smaller groups.
                    let f = 1u32 << r.below(12);
                    let b = r32(d, 0x20);
                    w32(d, 0x20, if r.chance(1, 2) { b / f } else { b.wrapping_mul(f) });
                    let i = r32(d, 0x28);
                    w32(d, 0x28, if r.chance(1, 2) { i / f } else { i.wrapping_mul(f) });
                }
                1 => {
                    // Another block size, the same number of bytes.
                    let nk = r.below(7);
                    w32(d, 0x18, nk as u32);
                    let b = u64::from(r32(d, 4)) << k >> nk;
                    w32(d, 4, b as u32);
                    w32(d, 0x14, u32::from(nk == 0));
                }
                2 => {
                    w16(d, 0x58, 1 << r.below(16));
                    w16(d, 0xfe, 1 << r.below(16));
                }
                3 => {
                    w32(d, 4, u32::MAX);
                    w32(d, 0x150, r.next() as u32);
                    w32(d, 0x20, *r.pick(&[1u32, 8, u32::MAX, 0x8000_0000]));
                }
                4 => {
                    let t = r32(d, 0x60);
                    w32(d, 0x60, t ^ 0x80);
                    w16(d, 0xfe, *r.pick(&[0u16, 1, 16, 31, 32, 63, 64, 65, 0x8000, 0xffff]));
                }
                _ => {
                    let t = r32(d, 0x5c);
                    w32(d, 0x5c, t | 4);
                    let t = r32(d, 0x60);
                    w32(d, 0x60, t | 4);
                    w32(d, 0xe0, *r.pick(&[0u32, 1, 2, 5, 7, 8, 11, 12, 0x7fff_ffff, u32::MAX]));
                }
            }
            what.push_str(&format!(" pair {m}"));
        }
        Spot::Bgd(_) => {
            let bs = u64::from(st.g.bs);
            let v = *r.pick(&[u64::MAX / bs, u64::MAX / bs - 1, u64::MAX, st.g.blocks - 1, st.g.blocks, 1 << 63]);
            w32(d, 8, v as u32);
            if d.len() >= 64 {
                w32(d, 0x28, (v >> 32) as u32);
            }
            what.push_str(&format!(" inode table at {v:#x}"));
        }
        Spot::DirLeaf { .. } => {
            // Two records that tile their space, oddly.
            let bs = d.len();
            let l = 4 * r.below((bs / 4) as u64) as usize;
            if l < 8 || l + 8 > bs {
                return;
            }
            w16(d, 4, l as u16);
            d[6] = r.next() as u8;
            w16(d, l + 4, (bs - l) as u16);
            d[l + 6] = r.next() as u8;
            what.push_str(&format!(" records of {l} and {} bytes", bs - l));
        }
        _ => {}
    }
}

/// A block as it is in the live log, hostile, with checksums that vouch for
/// it; or one that goes to another place; or a log that ends early.
fn logged(st: &Fs, img: &mut Image, jb: &[u64], r: &mut Rng) -> Option<Out> {
    let bs = st.g.bs as usize;
    let jsb = img.get(jb[0]);
    let seed = crc32c(!0, &jsb[0x30..0x40]);
    let (mut seq, mut pos) = (g32(&jsb, 0x18), g32(&jsb, 0x1c) as usize);
    if pos == 0 || pos >= jb.len() {
        return None;
    }
    let at = |p: usize| if p >= jb.len() { p - jb.len() + 1 } else { p };
    // (descriptor, offset of the tag, log position of the data, sequence)
    let mut tags: Vec<(usize, usize, usize, u32)> = Vec::new();
    let mut revokes = Vec::new();
    let mut commits = Vec::new();
    for _ in 0..jb.len() {
        let d = img.get(jb[pos]);
        if g32(&d, 0) != MAGIC || g32(&d, 8) != seq {
            break;
        }
        let mut n = 1;
        match g32(&d, 4) {
            1 => {
                let mut o = 12;
                while o + 20 <= bs {
                    tags.push((pos, o, at(pos + n), seq));
                    n += 1;
                    let fl = g32(&d, o + 4);
                    if fl & 8 != 0 {
                        break;
                    }
                    o += if fl & 2 != 0 { 16 } else { 32 };
                }
            }
            2 => {
                commits.push(pos);
                seq = seq.wrapping_add(1);
            }
            5 => revokes.push(pos),
            _ => break,
        }
        pos = at(pos + n);
        if n >= jb.len() {
            break;
        }
    }
    if r.chance(1, 6) && !tags.is_empty() {
        // The journal ends in the middle of what it holds.
        let (ib, io) = st.inode_addr(st.jino);
        let (a, l) = (ib * bs as u64 + io as u64, usize::from(st.g.isize));
        let old = img.peek(a, l);
        let mut d = old.clone();
        let p = r.pick(&tags).2;
        w32(&mut d, 4, (p * bs) as u32 + r.below(3) as u32 * 7);
        w32(&mut d, 0x6c, 0);
        let gen = r32(&d, 0x64);
        st.csum_inode(st.jino, gen, &mut d);
        img.poke(a, &d);
        return Some((format!("logged journal of {p} blocks"), None, vec![(a, old)]));
    }
    if r.chance(1, 5) && !(revokes.is_empty() && commits.is_empty()) {
        let b = jb[*r.pick(if revokes.is_empty() { &commits } else { &revokes })];
        let old = img.get(b);
        let mut d = old.clone();
        let n = *r.pick(&[0u32, 1, 15, 16, 17, 20, 24, bs as u32 - 4, bs as u32, bs as u32 + 1, bs as u32 + 16, 0x7fff_ffff, u32::MAX]);
        b32(&mut d, 4, 5);
        b32(&mut d, 12, n);
        fix_log(seed, &mut d);
        img.put(b, d);
        return Some((format!("logged revoke block of {n} bytes"), None, vec![(b * bs as u64, old.clone())]));
    }
    if tags.is_empty() {
        return None;
    }
    let (mut dp, mut o, mut lp, mut sq) = *r.pick(&tags);
    if r.chance(1, 2) {
        // Rather one of the first blocks of the filesystem.
        let c: Vec<_> = tags.iter().filter(|t| g32(&img.get(jb[t.0]), t.1) < 3).collect();
        if !c.is_empty() {
            (dp, o, lp, sq) = **r.pick(&c);
        }
    }
    let (db, lb) = (jb[dp], jb[lp]);
    let mut desc = img.get(db);
    let undo = vec![(db * bs as u64, desc.clone()), (lb * bs as u64, img.get(lb))];
    let mut data = img.get(lb);
    let target = u64::from(g32(&desc, o)) | u64::from(g32(&desc, o + 8)) << 32;
    let mut what = format!("logged block {target} in sequence {sq}");
    let mut hot = None;
    if r.chance(1, 5) {
        let v = match r.below(4) {
            0 => st.g.blocks + r.below(3),
            1 => r.next() >> r.below(40),
            2 => jb[r.idx(jb.len())],
            _ => st.used.first_in(r.below(st.g.blocks), st.g.blocks).unwrap_or(0),
        };
        b32(&mut desc, o, v as u32);
        b32(&mut desc, o + 8, (v >> 32) as u32);
        what.push_str(&format!(" goes to {v}"));
    } else {
        let mut spot = None;
        for _ in 0..200 {
            let s = pick_spot(st, &[], r);
            let (a, l) = spot_addr(st, &s);
            if a >= target * bs as u64 && a + l as u64 <= (target + 1) * bs as u64 {
                spot = Some(s);
                break;
            }
        }
        match spot {
            Some(s) => {
                let (a, l) = spot_addr(st, &s);
                let x = (a - target * bs as u64) as usize;
                let mut d = data[x..x + l].to_vec();
                if matches!(s, Spot::Sb) && r.chance(1, 4) {
                    let k = r.below(8);
                    w32(&mut d, 0x18, k as u32);
                    what.push_str(&format!(" superblock with block size {k}"));
                } else if matches!(s, Spot::Sb) && r.chance(1, 3) {
                    // A filesystem that ends before, or within, its journal.
                    let k = jb[r.idx(jb.len())] + r.below(2);
                    w32(&mut d, 4, k as u32);
                    if st.g.is64 {
                        w32(&mut d, 0x150, (k >> 32) as u32);
                    }
                    what.push_str(&format!(" superblock with {k} blocks"));
                } else if r.chance(1, 3) {
                    pair(st, &s, &mut d, &mut what, r);
                } else {
                    let (o, w) = hot_fields(st, &s, &d, r);
                    let v0 = get_le(&d, o, w, false);
                    let v = value(st, &s, v0, w, r);
                    put_le(&mut d, o, w, v, false);
                    what.push_str(&format!(" {s:?} [{o:#x}]:{v0:#x}->{v:#x}"));
                }
                fix(st, &s, &mut d);
                hot = spot_ino(&s);
                data[x..x + l].copy_from_slice(&d);
            }
            None => {
                let k = r.idx(bs - 4);
                let v = r.next() as u32;
                w32(&mut data, k, v);
                what.push_str(&format!(" [{k:#x}]:={v:#x}"));
            }
        }
    }
    let c = crc32c(crc32c(seed, &sq.to_be_bytes()), &data);
    b32(&mut desc, o + 12, c);
    fix_log(seed, &mut desc);
    img.put(lb, data);
    img.put(db, desc);
    Some((what, hot, undo))
}

/// Structures that are each well-formed and lead in circles, or nowhere, or
/// to the same place over and over.
pub fn maze(st: &Fs, img: &mut Image, jb: &[u64], r: &mut Rng) -> Out {
    let bs = st.g.bs as usize;
    let inos: Vec<u32> = live_inodes(st).into_iter().filter(|i| *i != st.jino).collect();
    let want_dir = r.chance(1, 2);
    let c: Vec<u32> = inos.iter().copied().filter(|i| st.model.node(*i).is_dir() == want_dir).collect();
    let ino = if c.is_empty() { ROOT } else { *r.pick(&c) };
    let ino = if r.chance(1, 8) { ROOT } else { ino };
    let log = st.g.journal && st.recover && jb.len() > 2 && r.chance(1, 3);
    if log && r.chance(1, 2) {
        if let Some(o) = logged(st, img, jb, r) {
            return o;
        }
    }
    let ino = if log { st.jino } else { ino };
    let is_dir = st.model.node(ino).is_dir();
    // Free blocks to build with.
    let mut pool = Vec::new();
    let mut p = r.below(st.g.blocks);
    for _ in 0..400 {
        p = (p + 1) % st.g.blocks;
        if p > u64::from(st.g.first) && !st.used.contains(p) {
            pool.push(p);
        }
        if pool.len() >= 24 {
            break;
        }
    }
    if pool.len() < 3 {
        return random(st, img, r);
    }
    let mut undo = Vec::new();
    let mut put = |img: &mut Image, b: u64, d: &[u8]| {
        undo.push((b * bs as u64, img.peek(b * bs as u64, bs)));
        img.poke(b * bs as u64, d);
    };
    // What the data blocks hold.
    let ndata = r.range(1, 3).min(pool.len() as u64 - 2) as usize;
    let data: Vec<u64> = pool.split_off(pool.len() - ndata);
    let style = r.below(5);
    for b in &data {
        let mut d = vec![0u8; bs];
        match style {
            0 => {
                // One unused record.
                w16(&mut d, 4, reclen_enc(if st.g.csum { bs - 12 } else { bs }, bs));
            }
            1 => {
                // As many unused records as fit.
                let end = if st.g.csum { bs - 12 } else { bs };
                let mut o = 0;
                while o < end {
                    let l = if end - o < 16 { end - o } else { 8 };
                    w16(&mut d, o + 4, l as u16);
                    o += l;
                }
            }
            2 => {
                // The same entry again and again.
                let end = if st.g.csum { bs - 12 } else { bs };
                let mut o = 0;
                while o < end {
                    let l = if end - o < 24 { end - o } else { 12 };
                    w32(&mut d, o, ino);
                    w16(&mut d, o + 4, l as u16);
                    d[o + 6] = 1;
                    d[o + 7] = 2;
                    d[o + 8] = b'.';
                    o += l;
                }
            }
            3 => {
                for x in d.iter_mut() {
                    *x = *r.pick(b"/.a");
                }
            }
            _ => {
                let o = *r.pick(&inos);
                d = st.bmap(o, 0).map_or(d, |b| img.get(b));
            }
        }
        if is_dir {
            st.csum_leaf(ino, &mut d);
        }
        if log {
            // A block of the log whose time is now.
            let jsb = img.get(jb[0]);
            let seed = crc32c(!0, &jsb[0x30..0x40]);
            for _ in 0..40 {
                d = img.get(jb[1 + r.idx(jb.len() - 1)]);
                if g32(&d, 0) == MAGIC && g32(&d, 4) != 2 {
                    break;
                }
            }
            if r.chance(1, 2) {
                b32(&mut d, 0, MAGIC);
                b32(&mut d, 4, *r.pick(&[1u32, 5, 5]));
                b32(&mut d, 12, *r.pick(&[16u32, 24, bs as u32 - 4, 0, 20]));
            }
            b32(&mut d, 8, g32(&jsb, 0x18));
            fix_log(seed, &mut d);
        }
        put(img, *b, &d);
    }
    let (ib, io) = st.inode_addr(ino);
    let (iaddr, il) = (ib * bs as u64 + io as u64, usize::from(st.g.isize));
    let old_inode = img.peek(iaddr, il);
    let mut nd = old_inode.clone();
    let mut flags = r32(&nd, 0x20);
    let mut what;
    let k = if log { 6 } else { r.below(10) };
    if k < 5 {
        // An extent tree whose nodes are shared.
        let depth = r.range(0, 5) as usize;
        let spacing = r.below(4);
        let cap = (bs - 12 - if st.g.csum { 4 } else { 0 }) / 12;
        let width = match r.below(3) {
            0 => cap,
            1 => r.range(1, 5) as usize,
            _ => r.range(1, cap as u64) as usize,
        };
        let leaf = r.below(7);
        what = format!("maze extent tree of inode {ino}, depth {depth}, {width} wide, spacing {spacing}, leaf kind {leaf}, block kind {style}");
        let tag = |d: &mut [u8], n: usize, max: usize, dep: usize| {
            w16(d, 0, 0xf30a);
            w16(d, 2, n as u16);
            w16(d, 4, max as u16);
            w16(d, 6, dep as u16);
        };
        let leaf_entries = |d: &mut [u8], n: usize, r: &mut Rng| {
            let mut fb = 0u32;
            for i in 0..n {
                let o = 12 + 12 * i;
                let len = match leaf {
                    1 => 0x8000 + r.range(1, 0x7fff),
                    2 => 0,
                    3 => 0x8000,
                    4 => 1,
                    _ => r.range(1, 0x8000),
                } as u32;
                w32(d, o, if leaf == 5 { r.next() as u32 } else { fb });
                w16(d, o + 4, len as u16);
                let b = if leaf == 3 || leaf == 6 { data[0] - data[0].min(r.below(3)) } else { *r.pick(&data) };
                w32(d, o + 8, b as u32);
                w16(d, o + 6, (b >> 32) as u16);
                fb = fb.wrapping_add(len & 0x7fff);
            }
        };
        let levels: Vec<Vec<u64>> = (0..depth)
            .map(|_| {
                let n = r.range(1, 2) as usize;
                (0..n).filter_map(|_| pool.pop()).collect::<Vec<_>>()
            })
            .collect();
        // levels[0] are the leaves.
        for dep in 0..depth {
            for b in &levels[dep] {
                let mut d = vec![0u8; bs];
                let n = if dep == 0 && leaf == 0 { 0 } else { width };
                tag(&mut d, n, cap, dep);
                if dep == 0 {
                    leaf_entries(&mut d, n, r);
                } else {
                    index(&mut d, 12, n, spacing, &levels[dep - 1], r);
                }
                fix(st, &Spot::Ext { ino, block: *b }, &mut d);
                put(img, *b, &d);
            }
        }
        let mut root = [0u8; 60];
        let n = if depth == 0 && leaf == 0 { 0 } else { r.range(1, 4) as usize };
        tag(&mut root, n, 4, depth);
        if depth == 0 {
            leaf_entries(&mut root, n, r);
        } else {
            index(&mut root, 12, n, spacing, &levels[depth - 1], r);
        }
        nd[0x28..0x28 + 60].copy_from_slice(&root);
        flags |= FL_EXTENTS;
        if r.chance(2, 3) {
            flags &= !FL_INDEX;
        }
    } else if k < 8 {
        // Indirect blocks that are shared, or their own parents.
        what = format!("maze of indirect blocks of inode {ino}, block kind {style}");
        let n = r.range(1, 3) as usize;
        let t: Vec<u64> = (0..n).filter_map(|_| pool.pop()).collect();
        let chain = r.chance(1, 2);
        let t = if chain { (0..3).filter_map(|_| pool.pop()).collect() } else { t };
        let pick = |r: &mut Rng| match r.below(4) {
            0 | 1 => *r.pick(&t),
            2 => *r.pick(&data),
            _ => 0,
        };
        for (i, b) in t.iter().enumerate() {
            let mut d = vec![0u8; bs];
            let same = if chain {
                // Each full of the one before.
                Some(if i == 0 { data[0] } else { t[i - 1] })
            } else {
                r.chance(1, 2).then(|| pick(r))
            };
            for o in (0..bs).step_by(4) {
                w32(&mut d, o, same.unwrap_or_else(|| pick(r)) as u32);
            }
            put(img, *b, &d);
        }
        let z = r.chance(1, 2);
        for i in 0..15 {
            let v = if log && i == 0 {
                jb[0]
            } else if chain && i >= 12 && t.len() == 3 {
                t[i - 12]
            } else if (z || chain) && i < 12 {
                data[0]
            } else {
                pick(r)
            };
            w32(&mut nd, 0x28 + 4 * i, v as u32);
        }
        flags &= !FL_EXTENTS;
        if r.chance(2, 3) {
            flags &= !FL_INDEX;
        }
    } else {
        // An index of a directory that points at itself, upwards, out.
        let htd: Vec<u32> = inos.iter().copied().filter(|i| st.lay[i].ht.is_some()).collect();
        if htd.is_empty() {
            return random(st, img, r);
        }
        let ino = *r.pick(&htd);
        let v: Vec<Spot> = dir_spots(st, ino).into_iter().filter(|s| matches!(s, Spot::DirIndex { .. })).collect();
        let nb = st.model.node(ino).size / bs as u64;
        let mut undo = Vec::new();
        what = format!("maze htree of inode {ino}:");
        let levels = r.below(5) as u8;
        for s in &v {
            let Spot::DirIndex { block, off, fb, .. } = s else { continue };
            let a = *block * bs as u64;
            let mut d = img.peek(a, bs);
            undo.push((a, d.clone()));
            if *fb == 0 {
                d[0x1e] = levels;
            }
            let n = usize::from(r16(&d, off + 2)).clamp(1, (bs - off - 8) / 8);
            let same = r.chance(1, 3).then(|| r.below(nb + 2) as u32);
            for i in 0..n {
                if r.chance(2, 3) {
                    let t = same.unwrap_or(match r.below(6) {
                        0 => *fb,
                        1 => 0,
                        2 => nb as u32,
                        3 => r.next() as u32,
                        _ => r.below(nb) as u32,
                    });
                    w32(&mut d, off + 8 * i + 4, t);
                }
                if i > 0 && r.chance(1, 6) {
                    w32(&mut d, off + 8 * i, r.next() as u32);
                }
            }
            fix(st, s, &mut d);
            img.poke(a, &d);
            what.push_str(&format!(" block {fb}"));
        }
        return (what, Some(ino), undo);
    }
    let size = match r.below(6) {
        0 => u64::from(u32::MAX) * bs as u64,
        1 => r.below(1 << 32) * bs as u64,
        2 => (1 << r.range(8, 30)) * bs as u64,
        3 => r.next() >> r.below(40),
        4 => bs as u64 * r.range(1, 1000),
        _ => u64::from(r32(&nd, 4)),
    };
    w32(&mut nd, 4, size as u32);
    w32(&mut nd, 0x6c, (size >> 32) as u32);
    what.push_str(&format!(", size {size}"));
    w32(&mut nd, 0x20, flags);
    let gen = r32(&nd, 0x64);
    st.csum_inode(ino, gen, &mut nd);
    undo.push((iaddr, old_inode));
    img.poke(iaddr, &nd);
    undo.reverse();
    (what, Some(ino), undo)
}

fn index(d: &mut [u8], o: usize, n: usize, spacing: u64, to: &[u64], r: &mut Rng) {
    let step = (u32::MAX / (n as u32 + 1)).max(1);
    for i in 0..n {
        let e = o + 12 * i;
        let fb = match spacing {
            0 => 0,
            1 => i as u32,
            2 => i as u32 * step,
            _ => r.next() as u32,
        };
        w32(d, e, fb);
        let b = *r.pick(to);
        w32(d, e + 4, b as u32);
        w16(d, e + 8, (b >> 32) as u16);
    }
}

pub fn random(st: &Fs, img: &mut Image, r: &mut Rng) -> Out {
    let bs = u64::from(st.g.bs);
    let k = r.below(st.g.blocks);
    let b = st.used.first_in(k, st.g.blocks).unwrap_or(k);
    let a = b * bs + r.below(bs);
    let n = *r.pick(&[1, 4, 16, bs]) as usize;
    let n = n.min((st.g.blocks * bs - a) as usize);
    let old = img.peek(a, n);
    let v: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    img.poke(a, &v);
    (format!("random {n} bytes at {a}"), None, vec![(a, old)])
}

/// One structure written where another belongs.
pub fn copy(st: &Fs, img: &mut Image, jb: &[u64], r: &mut Rng) -> Out {
    let a = pick_spot(st, jb, r);
    let b = pick_spot(st, jb, r);
    let (aa, al) = spot_addr(st, &a);
    let (ba, bl) = spot_addr(st, &b);
    let n = al.min(bl);
    let old = img.peek(aa, n);
    let mut v = img.peek(ba, n);
    if n == al && r.chance(1, 2) {
        fix(st, &a, &mut v);
    }
    img.poke(aa, &v);
    (format!("copy of {b:?} over {a:?}"), spot_ino(&a), vec![(aa, old)])
}

// ------------------------------------------------------- detectable damage

pub struct Damaged {
    pub what: String,
    pub class: &'static str,
    pub refuse: Vec<Ec>,
    pub dmg: Option<Dmg>,
    pub hot: Option<u32>,
}

/// What of `ino`'s content goes through tree block `block`: file blocks
/// [lo, hi), as the tree itself tells.
fn ext_range(st: &Fs, img: &Image, ino: u32, block: u64) -> (u64, u64) {
    // Walk the tree as stored; an index entry covers up to its successor.
    fn walk(st: &Fs, img: &Image, d: &[u8], lo: u64, hi: u64, want: u64) -> Option<(u64, u64)> {
        let n = usize::from(r16(d, 2));
        if r16(d, 6) == 0 {
            return None;
        }
        for i in 0..n {
            let o = 12 + 12 * i;
            let child = u64::from(r32(d, o + 4)) | u64::from(r16(d, o + 8)) << 32;
            let a = u64::from(r32(d, o)).max(lo);
            let e = if i + 1 < n { u64::from(r32(d, o + 12)) } else { hi };
            if child == want {
                return Some((a, e));
            }
            if let Some(x) = walk(st, img, &img.get(child), a, e, want) {
                return Some(x);
            }
        }
        None
    }
    let (b, o) = st.inode_addr(ino);
    let blk = img.get(b);
    let root = &blk[o + 0x28..o + 0x28 + 60];
    walk(st, img, root, 0, 1 << 32, block).expect("tree block is not in its tree")
}

/// Damage one checksummed structure in a way its checksum must notice.
pub fn damage(st: &Fs, d: &mut Disk, r: &mut Rng) -> Option<Damaged> {
    let mut s = pick_spot(st, &[], r);
    for _ in 0..200 {
        let dir_ok = match &s {
            Spot::DirLeaf { ino, .. } | Spot::DirIndex { ino, .. } => {
                let m = st.model.dir(*ino);
                !m.encrypted && !m.badhash
            }
            _ => true,
        };
        if !matches!(s, Spot::Ind { .. } | Spot::Data { .. }) && dir_ok {
            break;
        }
        s = pick_spot(st, &[], r);
    }
    if matches!(s, Spot::Ind { .. } | Spot::Data { .. }) {
        return None;
    }
    let (addr, len) = spot_addr(st, &s);
    let old = d.img.peek(addr, len);
    // Which bytes the checksum covers.
    let mut cover: Vec<std::ops::Range<usize>> = vec![0..len];
    let mut burst = 32u64;
    match &s {
        Spot::Bgd(_) => burst = 16,
        Spot::Ext { .. } => cover = vec![0..12 + 12 * usize::from(r16(&old, 4)) + 4],
        Spot::DirLeaf { .. } => cover = vec![0..len - 12, len - 4..len],
        Spot::DirIndex { off, .. } => {
            let c = usize::from(r16(&old, off + 2));
            cover = vec![0..off + 8 * c, len - 8..len];
        }
        _ => {}
    }
    // In an inode without the upper checksum half only 16 bits check it.
    if let Spot::Inode(_) = s {
        if len == 128 || r16(&old, 0x80) < 4 {
            burst = 16;
        }
    }
    let mut v = old.clone();
    let mut how = String::new();
    let mut misdirect = None;
    match r.below(11) {
        10 => {
            // A checksum that was never filled in, over changed content.
            let at: Vec<(usize, usize)> = match &s {
                Spot::Inode(_) if burst == 16 => vec![(0x7c, 2)],
                Spot::Inode(_) => vec![(0x7c, 2), (0x82, 2)],
                Spot::Bgd(_) => vec![(0x1e, 2)],
                Spot::Sb => vec![(1020, 4)],
                Spot::Ext { .. } => vec![(12 + 12 * usize::from(r16(&old, 4)), 4)],
                _ => vec![(len - 4, 4)],
            };
            for (o, n) in at {
                v[o..o + n].fill(0);
            }
            if r.chance(1, 2) {
                let rg = r.pick(&cover).clone();
                let k = rg.start * 8 + r.idx(rg.len() * 8);
                v[k / 8] ^= 1 << (k % 8);
            }
            how = "checksum of zero".into();
        }
        0..=4 => {
            // A burst of bit errors within `burst` consecutive bits.
            let rg = r.pick(&cover).clone();
            let bits = (rg.len() * 8) as u64;
            let start = rg.start as u64 * 8 + r.below(bits);
            let end = (start + burst).min(rg.end as u64 * 8);
            let mut flips = vec![start];
            let n = match r.below(3) {
                0 => 0,
                1 => 1,
                _ => r.below(burst),
            };
            for _ in 0..n {
                let k = start + r.below(end - start);
                if !flips.contains(&k) {
                    flips.push(k);
                }
            }
            for k in &flips {
                v[(*k / 8) as usize] ^= 1 << (k % 8);
            }
            how = format!("{} bits flipped from bit {start} on", flips.len());
        }
        5 | 6 if len >= 1024 => {
            // A sector that was never written (zeros) or holds old data.
            let n = len / 512;
            let a = r.idx(n);
            let e = if r.chance(1, 2) { a + 1 } else { n };
            if r.chance(1, 2) {
                v[a * 512..e * 512].fill(0);
                how = format!("sectors {a}..{e} zero");
            } else {
                fill_pat(tag(MODE_RANDOM, r.next()), 0, &mut v[a * 512..e * 512]);
                how = format!("sectors {a}..{e} garbage");
            }
        }
        7 => {
            v.fill(0);
            how = "all zero".into();
        }
        _ => {
            // Another block, or another inode or descriptor, in its place.
            match &s {
                Spot::Inode(i) => {
                    let inos = live_inodes(st);
                    let o = *r.pick(&inos);
                    if o != *i {
                        let (a2, _) = spot_addr(st, &Spot::Inode(o));
                        v = d.img.peek(a2, len);
                        how = format!("inode {o} in its place");
                    }
                }
                Spot::Bgd(i) => {
                    let o = r.below(st.g.ngroups().into()) as u32;
                    if o != *i {
                        v = d.img.peek(st.bgd_addr(o), len);
                        how = format!("descriptor {o} in its place");
                    }
                }
                Spot::Sb => {
                    v[r.idx(1020)] ^= 1 << r.below(8);
                    how = "one bit".into();
                }
                _ => {
                    let o = pick_spot(st, &[], r);
                    let (a2, l2) = spot_addr(st, &o);
                    if l2 == len && a2 != addr {
                        v = d.img.peek(a2, len);
                        misdirect = Some(a2 / len as u64);
                        how = format!("{o:?} in its place");
                    }
                }
            }
        }
    }
    if how.is_empty() {
        return None;
    }
    // Zeroing a structure that is all zero within the covered part, or one
    // whose own checksum happens to fit, is no damage.
    if cover.iter().all(|c| v[c.clone()] == old[c.clone()]) {
        return None;
    }
    // The checksum is only looked at if the feature says so: the superblock
    // cannot lose that bit (a read of such a superblock is another, valid,
    // superblock of a filesystem without checksums).
    if matches!(s, Spot::Sb) && r32(&v, 0x64) & 0x400 == 0 {
        return None;
    }
    // What the checksum cannot see (checked with the format's own rule).
    if passes(st, &s, &v) || passes_as_any(st, &s, &v) {
        return None;
    }
    let mut refuse = vec![];
    let mut dmg = None;
    let class = match &s {
        Spot::Sb => {
            refuse = vec![Ec::Corrupt, Ec::Incompatible];
            "superblock"
        }
        Spot::Bgd(_) => {
            refuse = vec![Ec::Corrupt];
            "group descriptor"
        }
        Spot::Inode(i) => {
            dmg = Some(Dmg::Inode(*i));
            "inode"
        }
        Spot::Ext { ino, block } => {
            let (lo, hi) = ext_range(st, &d.img, *ino, *block);
            dmg = Some(Dmg::ExtNode { ino: *ino, block: *block, lo, hi });
            "extent block"
        }
        Spot::DirLeaf { ino, fb, .. } => {
            dmg = Some(Dmg::DirBlk { ino: *ino, fb: *fb, index: false });
            "directory block"
        }
        Spot::DirIndex { ino, fb, .. } => {
            dmg = Some(Dmg::DirBlk { ino: *ino, fb: *fb, index: true });
            "hash index block"
        }
        _ => return None,
    };
    // On the medium, or on the way from it.
    let transit = r.chance(1, 2);
    if transit {
        if let Some(from) = misdirect {
            let to = addr / u64::from(st.g.bs);
            d.damage.push((ReadDamage::Misdirect { to, from }, u64::MAX));
        } else {
            for (i, (a, b)) in old.iter().zip(&v).enumerate() {
                if a != b {
                    d.damage.push((ReadDamage::Flip { addr: addr + i as u64, mask: a ^ b }, u64::MAX));
                }
            }
        }
    } else {
        d.img.poke(addr, &v);
    }
    Some(Damaged {
        what: format!("{s:?}: {how}{}", if transit { " (in transit)" } else { " (on the medium)" }),
        class,
        refuse,
        hot: spot_ino(&s),
        dmg,
    })
}

/// Whether the structure's checksum, computed by the format's rule, fits.
fn passes(st: &Fs, s: &Spot, v: &[u8]) -> bool {
    let mut w = v.to_vec();
    match s {
        Spot::Ext { .. } => {
            // The rule places the checksum by the header; a header that no
            // longer is one is no valid block either way.
            let max = usize::from(r16(v, 4));
            if r16(v, 0) != 0xf30a || 12 + 12 * max + 4 > v.len() {
                return false;
            }
        }
        Spot::DirIndex { off, .. } => {
            let c = usize::from(r16(v, off + 2));
            if off + 8 * c > v.len() - 8 {
                return false;
            }
        }
        Spot::DirLeaf { .. } => {
            let n = v.len();
            // Without its tail record the block carries no checksum.
            if r32(v, n - 12) != 0 || r16(v, n - 8) != 12 || v[n - 5] != 0xde {
                return false;
            }
        }
        _ => {}
    }
    fix(st, s, &mut w);
    w == v
}

/// Whether a directory block is, by its checksum, some valid block of its
/// directory (another one, perhaps of another kind).
fn passes_as_any(st: &Fs, s: &Spot, v: &[u8]) -> bool {
    let (ino, fb) = match s {
        Spot::DirLeaf { ino, fb, .. } | Spot::DirIndex { ino, fb, .. } => (*ino, *fb),
        _ => return false,
    };
    let leaf = Spot::DirLeaf { ino, fb, block: 0 };
    passes(st, &leaf, v)
        || [8, 0x20].into_iter().any(|off| passes(st, &Spot::DirIndex { ino, fb, block: 0, off }, v))
}

// --------------------------------------------------- unsupported formats

pub fn unsupported(st: &Fs, img: &mut Image, jbd: Option<&Jbd>, r: &mut Rng) -> Option<(String, Vec<Ec>)> {
    let refuse = vec![Ec::Incompatible, Ec::Corrupt];
    let live = jbd.filter(|_| st.g.journal && st.recover);
    if let Some(j) = live.filter(|_| r.chance(3, 4)) {
        let jsb_b = j.jb[0];
        let mut jsb = img.get(jsb_b);
        let start = g32(&jsb, 0x1c);
        if start == 0 {
            return None;
        }
        let (txs, _) = j.prefix(img);
        let what;
        let k = r.below(12);
        if k <= 7 {
            let inc = g32(&jsb, 0x28);
            match k {
                0 => {
                    b32(&mut jsb, 0x28, inc & !JI_64BIT);
                    what = "journal-without-64bit".to_string();
                }
                1 => {
                    b32(&mut jsb, 0x28, inc & !JI_CSUM_V3 | *r.pick(&[0u32, 8]));
                    what = "journal-without-csum-v3".into();
                }
                2 => {
                    let bit = *r.pick(&[4u32, 8, 0x20, 0x40, 0x80, 0x100, 0x8000, 1 << 16, 1 << 31]);
                    b32(&mut jsb, 0x28, inc | bit);
                    what = format!("journal-feature {bit:#x}");
                }
                3 => {
                    let t = *r.pick(&[3u32, 3, 0, 1, 2, 5, 6, 0x0400_0000]);
                    b32(&mut jsb, 4, t);
                    what = format!("journal-superblock-type {t}");
                }
                4 => {
                    let t = *r.pick(&[0u8, 1, 2, 3, 5, 255]);
                    jsb[0x50] = t;
                    what = format!("journal-checksum-type {t}");
                }
                5 => {
                    let b = *r.pick(&[st.g.bs * 2, st.g.bs / 2, 0, 1, st.g.bs + 1]);
                    b32(&mut jsb, 0xc, b);
                    what = format!("journal-block-size {b}");
                }
                6 => {
                    b32(&mut jsb, 0, *r.pick(&[0u32, 0x9839_3bc0, 0xc03b_3999]));
                    what = "journal-magic".into();
                }
                _ => {
                    // A superblock whose checksum does not fit.
                    let o = *r.pick(&[0x18usize, 0x1c, 0x10, 0x100, 0x3ff, 0xfc, 0x30, 0x40]);
                    jsb[o] ^= 1 << r.below(8);
                    img.put(jsb_b, jsb);
                    return Some(("journal-superblock-checksum".into(), refuse));
                }
            }
            csum_jsb(&mut jsb);
            img.put(jsb_b, jsb);
            return Some((what, refuse));
        }
        if k <= 9 {
            // An escaped block in a committed transaction.
            let c: Vec<(u32, u32)> = txs
                .iter()
                .flat_map(|t| t.log.iter().filter(|(_, _, w)| *w == "descriptor").map(|(l, _, _)| (*l, t.tid)))
                .collect();
            if c.is_empty() {
                return None;
            }
            let (l, _) = *r.pick(&c);
            let b = j.jb[l as usize];
            let mut d = img.get(b);
            let mut tags = Vec::new();
            let mut o = 12;
            loop {
                let f = g32(&d, o + 4);
                tags.push(o);
                o += if f & 2 != 0 { 16 } else { 32 };
                if f & 8 != 0 {
                    break;
                }
            }
            let o = *r.pick(&tags);
            let f = g32(&d, o + 4);
            b32(&mut d, o + 4, f | 1);
            let n = d.len();
            b32(&mut d, n - 4, 0);
            let c = crc32c(j.seed(), &d);
            b32(&mut d, n - 4, c);
            img.put(b, d);
            return Some(("escaped-block in the live log".into(), refuse));
        }
        // A block type nobody knows, where the next block of the log is.
        let ty = *r.pick(&[0u32, 3, 4, 6, 7, 100, 0x0200_0000, u32::MAX]);
        let (l, seq) = if r.chance(1, 2) || txs.is_empty() {
            match txs.last() {
                Some(t) => {
                    let mut l = t.log.last().unwrap().0 + 1;
                    if l >= j.len() {
                        l = 1;
                    }
                    (l, t.tid.wrapping_add(1))
                }
                None => (start, g32(&jsb, 0x18)),
            }
        } else {
            let t = *r.pick(&txs);
            let h: Vec<u32> = t.log.iter().filter(|(_, _, w)| *w != "data").map(|(l, _, _)| *l).collect();
            (*r.pick(&h), t.tid)
        };
        let mut d = img.get(j.jb[l as usize]);
        b32(&mut d, 0, MAGIC);
        b32(&mut d, 4, ty);
        b32(&mut d, 8, seq);
        img.put(j.jb[l as usize], d);
        return Some((format!("unknown-journal-block-type {ty}"), refuse));
    }
    // Features of the filesystem itself.
    let mut sb = img.peek(1024, 1024);
    let inc = r32(&sb, 0x60);
    let what;
    if r.chance(1, 6) {
        w32(&mut sb, 0x60, inc & !2);
        what = "missing-filetype".to_string();
    } else {
        let known = [0x1u32, 0x8, 0x10, 0x100, 0x400, 0x1000, 0x4000, 0x8000, 0x20000];
        let mut bit = if r.chance(1, 2) { *r.pick(&known) } else { 1 << r.range(17, 31) };
        if r.chance(1, 5) {
            bit |= *r.pick(&known);
        }
        w32(&mut sb, 0x60, inc | bit);
        what = format!("feature {bit:#x}");
    }
    csum_sb(&mut sb, st.g.csum);
    img.poke(1024, &sb);
    Some((what, refuse))
}
