//! Seeded filesystem histories. A history is a list of items; every choice
//! an item makes comes from its own seed and the state it meets, so any item
//! can be dropped without changing what the others are.

use crate::disk::*;
use crate::fsw::*;
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const B_MKDIR: u16 = 0;
pub const B_CHAIN: u16 = 1;
pub const B_FILE: u16 = 2;
pub const B_FRAG: u16 = 3;
pub const B_SPARSE: u16 = 4;
pub const B_LARGE: u16 = 5;
pub const B_TEXT: u16 = 6;
pub const B_LINK: u16 = 7;
pub const B_SPECIAL: u16 = 8;
pub const B_HARD: u16 = 9;
pub const B_REMOVE: u16 = 10;
pub const B_RENAME: u16 = 11;
pub const B_ATTR: u16 = 12;
pub const B_REWRITE: u16 = 13;
pub const B_RESIZE: u16 = 14;
pub const B_PUNCH: u16 = 15;
pub const B_BULK: u16 = 16;
pub const B_HTREE: u16 = 17;
pub const B_COLLIDE: u16 = 18;
pub const B_ENCRYPT: u16 = 19;
pub const B_BADHASH: u16 = 20;
pub const B_PREALLOC: u16 = 21;
pub const B_LINKCHAIN: u16 = 22;
pub const B_THIN: u16 = 23;
pub const B_UNLINK_MANY: u16 = 24;
pub const B_RELABEL: u16 = 25;
pub const B_GROW: u16 = 26;
pub const B_WIDE: u16 = 27;
pub const NB: usize = 28;

pub const NAMES: [&str; NB] = [
    "mkdir", "mkdir-chain", "file", "fragmented-file", "sparse-file", "large-file", "text-file", "symlink",
    "special", "hardlink", "remove", "rename", "set-attr", "rewrite", "resize", "punch-hole", "bulk-names",
    "make-htree", "colliding-names", "encrypt", "unknown-hash-dir", "preallocate", "link-chain", "thin-dir",
    "unlink-many", "relabel", "grow", "wide-htree",
];

pub fn weights(list: &[(u16, u32)]) -> Vec<u32> {
    let mut w = vec![0; NB];
    for (k, v) in list {
        w[*k as usize] = *v;
    }
    w
}

pub fn base_weights() -> Vec<u32> {
    weights(&[
        (B_MKDIR, 6), (B_CHAIN, 1), (B_FILE, 6), (B_FRAG, 4), (B_SPARSE, 2), (B_TEXT, 4), (B_LINK, 6),
        (B_SPECIAL, 2), (B_HARD, 2), (B_REMOVE, 2), (B_RENAME, 2), (B_ATTR, 3), (B_REWRITE, 3), (B_RESIZE, 2),
        (B_PUNCH, 2), (B_BULK, 2), (B_HTREE, 2), (B_PREALLOC, 2), (B_THIN, 1),
        (B_RELABEL, 1), (B_GROW, 1), (B_WIDE, 1),
    ])
}

/// Limits a scenario puts on what its histories may do.
#[derive(Clone, Debug)]
pub struct Lim {
    /// Largest file size, in blocks.
    pub max_fb: u64,
    /// Blocks a single item may allocate.
    pub max_alloc: u64,
    pub max_bulk: u64,
    /// Leaves a wide directory may have.
    pub max_wide: u64,
    /// No items that use what only an unusual filesystem has.
    pub jdata: bool,
}

impl Default for Lim {
    fn default() -> Self {
        Lim { max_fb: 1 << 22, max_alloc: 64, max_bulk: 120, max_wide: 60, jdata: false }
    }
}

pub fn name(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 1,
        1 => 255,
        2 => r.range(200, 255) as usize,
        3 => r.range(16, 64) as usize,
        _ => r.range(1, 15) as usize,
    };
    let mode = r.below(8);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match mode {
            0 => {
                // Any byte but NUL and the separator.
                let b = r.range(1, 255) as u8;
                if b == b'/' {
                    0xff
                } else {
                    b
                }
            }
            1 => *r.pick(&[b'.', b'.', b'a', b' ']),
            2 => 0x80 | (r.next() as u8 & 0x7f),
            3 => *r.pick(&[b'a', b'b', b'A', b'B']),
            _ => b'a' + r.below(26) as u8,
        })
        .collect();
    if mode == 4 {
        let s = "é∂日𝄞ß".as_bytes();
        let k = v.len().min(s.len());
        v[..k].copy_from_slice(&s[..k]);
    }
    if v == b"." || v == b".." {
        v.push(b'x');
    }
    v
}

fn attrs(r: &mut Rng) -> (u16, u32, u32) {
    let id = |r: &mut Rng| match r.below(5) {
        0 => 0,
        1 => r.below(65536) as u32,
        2 => r.next() as u32,
        3 => *r.pick(&[0xffff, 0x10000, 0xffff_ffff, 0x8000_0000]),
        _ => 1000 + r.below(5) as u32,
    };
    let perm = if r.chance(1, 3) { r.below(0o10000) as u16 } else { *r.pick(&[0o644u16, 0o755, 0o600, 0o4755, 0o1777]) };
    (perm, id(r), id(r))
}

fn dirs(fs: &Fs) -> Vec<u32> {
    fs.model
        .nodes
        .iter()
        .filter(|(i, n)| n.dir().is_some_and(|d| !d.encrypted && !d.badhash) && **i != 11)
        .map(|(i, _)| *i)
        .collect()
}
fn regs(fs: &Fs) -> Vec<u32> {
    fs.model
        .nodes
        .iter()
        .filter(|(i, n)| matches!(n.kind, Kind::Reg(_)) && **i != fs.jino)
        .map(|(i, _)| *i)
        .collect()
}
fn pick_dir(fs: &Fs, r: &mut Rng) -> u32 {
    let d = dirs(fs);
    if r.chance(1, 3) {
        return ROOT;
    }
    *r.pick(&d)
}
fn fresh(fs: &Fs, d: u32, r: &mut Rng) -> Vec<u8> {
    for _ in 0..20 {
        let n = name(r);
        if !fs.model.dir(d).entries.contains_key(&n) {
            return n;
        }
    }
    let mut i = 0u64;
    loop {
        let n = format!("f{i}").into_bytes();
        if !fs.model.dir(d).entries.contains_key(&n) {
            return n;
        }
        i += 1;
    }
}

impl Fs {
    pub fn room(&self) -> u64 {
        if self.g.lazy {
            return 1 << 30;
        }
        let mut n = self.free_blocks();
        for (a, b) in self.held.iter() {
            n = n.saturating_sub(b - a);
        }
        n
    }
    /// Blocks the worst directory update may need beyond the item's own.
    fn dir_cost(&self, d: u32) -> u64 {
        let l = &self.lay[&d];
        let n = self.model.dir(d).entries.len() as u64;
        let mut c = 4;
        if l.ht.is_some() {
            c += n * 264 / u64::from(self.g.bs) + n / 2 + 8;
        }
        if let Layout::Ext { .. } = l.layout {
            c += 6;
        }
        c + self.model.node(d).size / u64::from(self.g.bs)
    }
}

fn content_mode(r: &mut Rng) -> u64 {
    *r.pick(&[MODE_RANDOM, MODE_RANDOM, MODE_ASCII, MODE_UTF8, MODE_ZERO])
}

fn new_file(fs: &mut Fs, r: &mut Rng) -> Option<u32> {
    let d = pick_dir(fs, r);
    let n = fresh(fs, d, r);
    if fs.room() < fs.dir_cost(d) + 30 {
        return None;
    }
    let (p, u, g) = attrs(r);
    let ext = r.chance(3, 5);
    fs.create(d, &n, p, u, g, Kind::Reg(BTreeMap::new()), ext, r)
}

fn tail_size(fs: &Fs, blocks: u64, r: &mut Rng) -> u64 {
    let bs = u64::from(fs.g.bs);
    if blocks == 0 {
        return 0;
    }
    match r.below(4) {
        0 => blocks * bs,
        1 => (blocks - 1) * bs + 1,
        2 => blocks * bs - 1,
        _ => (blocks - 1) * bs + 1 + r.below(bs),
    }
}

/// Positions of interest for a file of this filesystem.
/// Blocks that a file can have at most.
fn top(fs: &Fs, ino: u32, lim: &Lim) -> u64 {
    let p = fs.g.ptrs();
    match &fs.lay[&ino].layout {
        Layout::Map { .. } => lim.max_fb.min(12 + p + p * p + p * p * p),
        _ => lim.max_fb,
    }
}

fn spot(fs: &Fs, max: u64, r: &mut Rng) -> u64 {
    let p = fs.g.ptrs();
    let e = [0, 11, 12, 13, 12 + p - 1, 12 + p, 12 + p + 1, 12 + 2 * p, 12 + p + p * p - 1, 12 + p + p * p, 12 + p + p * p + p, 12 + p + 2 * p * p];
    let v = match r.below(3) {
        0 => r.skewed(max.saturating_sub(1)),
        _ => *r.pick(&e),
    };
    v.min(max.saturating_sub(1))
}

/// Grow/shrink to `size`, keeping the zero-beyond-EOF rule of the format out
/// of the picture by dropping whole blocks only.
fn resize(fs: &mut Fs, ino: u32, size: u64, r: &mut Rng) {
    let bs = u64::from(fs.g.bs);
    let old = fs.model.node(ino).size;
    let keep = size.div_ceil(bs);
    if size < old {
        let ob = old.div_ceil(bs);
        if keep < ob && keep < 1 << 32 {
            // Blocks beyond the end may stay allocated (preallocation).
            fs.unmap(ino, keep as u32, (1 << 32) - keep, false);
            fs.forget_content(ino, keep as u32, (1 << 32) - keep);
        }
    } else if size > old && old % bs != 0 {
        // The old tail block is extended: its bytes past the old end must
        // read as zero afterwards, so give it new contents.
        let fb = (old / bs) as u32;
        if fs.bmap(ino, fb).is_some() {
            let jd = fs.lay[&ino].jdata;
            if jd {
                fs.file_overwrite(ino, fb, 1, MODE_RANDOM, r);
            } else {
                fs.file_write(ino, fb, 1, MODE_RANDOM, 1, r);
            }
        }
    }
    fs.set_size(ino, size);
}

pub fn apply(fs: &mut Fs, kind: u16, seed: u64, lim: &Lim) -> String {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let bs = u64::from(fs.g.bs);
    let what = apply_inner(fs, kind, lim, bs, r).unwrap_or_else(|| "(no room)".into());
    format!("{}: {}", NAMES[kind as usize], what)
}

fn apply_inner(fs: &mut Fs, kind: u16, lim: &Lim, bs: u64, r: &mut Rng) -> Option<String> {
    match kind {
        B_RELABEL => {
            if !fs.g.hash_unsigned && r.chance(1, 3) && fs.lay.values().all(|l| l.ht.is_none()) {
                // The first mount decides how names are hashed.
                fs.g.hash_unsigned = true;
                fs.sb_dirty = true;
                fs.probe("hash_sign_decided");
                return Some("names are hashed as unsigned bytes".into());
            }
            // The kernel changes the UUID only where no checksum hangs on it.
            if r.chance(1, 2) && (fs.g.csum_seed.is_some() || !fs.g.csum) {
                let old = (fs.g.label, fs.g.hash_seed);
                fs.g.ids(r);
                (fs.g.label, fs.g.hash_seed) = old;
                fs.model.uuid = fs.g.uuid;
                if !fs.g.lazy {
                    fs.dgroups.extend(0..fs.g.ngroups());
                }
            } else {
                let old = (fs.g.uuid, fs.g.hash_seed);
                fs.g.label = [0; 16];
                fs.g.ids(r);
                (fs.g.uuid, fs.g.hash_seed) = old;
                fs.model.label = fs.g.label;
            }
            fs.sb_dirty = true;
            fs.probe("relabelled");
            Some(format!("label {:?} uuid {:02x?}", String::from_utf8_lossy(&fs.g.label), fs.g.uuid))
        }
        B_GROW => {
            let (a, b) = (fs.g.blocks, fs.g.ngroups());
            if !fs.grow(r) {
                return None;
            }
            fs.probe("grown");
            Some(format!("from {a} to {} blocks, from {b} to {} groups", fs.g.blocks, fs.g.ngroups()))
        }
        B_MKDIR => {
            let d = pick_dir(fs, r);
            let n = fresh(fs, d, r);
            if fs.room() < fs.dir_cost(d) + 30 {
                return None;
            }
            let (p, u, g) = attrs(r);
            let i = fs.mkdir(d, &n, p, u, g, r)?;
            Some(format!("{i} in {d} {:?}", String::from_utf8_lossy(&n)))
        }
        B_CHAIN => {
            let mut d = pick_dir(fs, r);
            let k = r.range(2, 12);
            let mut n = 0;
            for _ in 0..k {
                if fs.room() < fs.dir_cost(d) + 60 {
                    break;
                }
                let nm = fresh(fs, d, r);
                let nm = nm[..nm.len().min(8)].to_vec();
                if nm == b"." || nm == b".." || fs.model.dir(d).entries.contains_key(&nm) {
                    continue;
                }
                let Some(i) = fs.mkdir(d, &nm, 0o755, 0, 0, r) else { break };
                d = i;
                n += 1;
            }
            Some(format!("{n} levels down to {d}"))
        }
        B_FILE | B_TEXT => {
            let i = new_file(fs, r)?;
            let blocks = r.below(5);
            let mode = if kind == B_TEXT { *r.pick(&[MODE_ASCII, MODE_UTF8]) } else { content_mode(r) };
            let got = if blocks > 0 && fs.room() > 30 { fs.file_write(i, 0, blocks as u32, mode, 64, r) } else { 0 };
            let mut s = tail_size(fs, u64::from(got), r);
            if kind == B_TEXT && r.chance(2, 3) {
                // Two-byte characters stay whole, unless the block end is odd.
                s += s & 1;
            }
            fs.set_size(i, s);
            fs.write_mapping(i, r);
            Some(format!("{i} size {s}"))
        }
        B_FRAG | B_SPARSE | B_PREALLOC => {
            let i = new_file(fs, r)?;
            let is_ext = matches!(fs.lay[&i].layout, Layout::Ext { .. });
            let far = kind == B_SPARSE && lim.max_fb > 1 << 22 && r.chance(1, 2);
            let max = if far { lim.max_fb } else if kind == B_SPARSE { lim.max_fb.min(1 << (2 + r.below(21))) } else { r.range(1, 200).min(lim.max_fb) };
            let max = max.min(top(fs, i, lim));
            let mut budget = r.range(1, lim.max_alloc);
            let pieces = 1 + r.below(if kind == B_SPARSE { 8 } else { 24 });
            let mut end = 0u64;
            let mut wend = 0u64;
            for k in 0..pieces {
                let fb = if kind == B_SPARSE { spot(fs, max, r) } else { r.below(max) };
                let n = (1 + r.below(8)).min(max - fb).min(budget);
                // Every piece may need a chain of mapping blocks.
                if n == 0 || fs.room() < n + 60 + 4 * k {
                    break;
                }
                let un = is_ext && (kind == B_PREALLOC && r.chance(2, 3) || r.chance(1, 6));
                if un {
                    fs.unmap(i, fb as u32, n, false);
                    fs.forget_content(i, fb as u32, n);
                    fs.map_new(i, fb as u32, n as u32, true, 8, r);
                    fs.probe("unwritten_extent");
                } else {
                    let m = content_mode(r);
                    let piece = 1 + r.below(4) as u32;
                    fs.file_write(i, fb as u32, n as u32, m, piece, r);
                    wend = wend.max(fb + n);
                }
                budget -= n;
                end = end.max(fb + n);
            }
            let mut s = tail_size(fs, end, r);
            match r.below(6) {
                // A hole at the end.
                0 => s = s.saturating_add(r.below(20 * bs)),
                1 => s = tail_size(fs, max, r).max(s),
                // Allocation past the end of the file.
                2 if wend < end => s = tail_size(fs, wend + r.below(end - wend), r),
                _ => {}
            }
            if !is_ext {
                // Block maps of old filesystems stay below 2^32 blocks.
                s = s.min(top(fs, i, lim) * bs);
            }
            let s = s.min((1u64 << 32).saturating_mul(bs) - bs);
            fs.set_size(i, s);
            fs.write_mapping(i, r);
            Some(format!("{i} size {s} end block {end} {}", if is_ext { "extents" } else { "block map" }))
        }
        B_LARGE => {
            let i = new_file(fs, r)?;
            let want = if fs.g.lazy { r.range(1000, 70000) } else { (fs.room() / 2).max(1) };
            let want = want.min(fs.room().saturating_sub(60)).min(lim.max_alloc.max(if fs.g.lazy { 70000 } else { 0 }));
            if want == 0 {
                return None;
            }
            let want = match &fs.lay[&i].layout {
                Layout::Map { .. } => want.min(3000),
                _ => want,
            };
            let m = content_mode(r);
            let got = fs.file_write(i, 0, want as u32, m, 40000, r);
            let s = tail_size(fs, u64::from(got), r);
            fs.set_size(i, s);
            fs.write_mapping(i, r);
            if got > 32768 {
                fs.probe("extent_of_max_length");
            }
            Some(format!("{i} size {s}"))
        }
        B_LINK => {
            let d = pick_dir(fs, r);
            let n = fresh(fs, d, r);
            if fs.room() < fs.dir_cost(d) + 30 {
                return None;
            }
            let t = link_target(fs, d, r);
            let (p, u, g) = attrs(r);
            let ext = r.chance(1, 2);
            let i = fs.create(d, &n, p, u, g, Kind::Link(t.clone()), ext, r)?;
            Some(format!("{i} in {d} -> {:?}", String::from_utf8_lossy(&t[..t.len().min(80)])))
        }
        B_LINKCHAIN => {
            // l0 -> target, l1 -> l0, ... across the 40-link limit.
            let d = pick_dir(fs, r);
            let k = r.range(2, 45);
            let mut prev = link_target(fs, d, r);
            let tag = r.below(1000);
            let mut made = 0;
            for j in 0..k {
                if fs.room() < fs.dir_cost(d) + 30 {
                    break;
                }
                let n = format!("L{tag}_{j}").into_bytes();
                if fs.model.dir(d).entries.contains_key(&n) {
                    break;
                }
                fs.create(d, &n, 0o777, 0, 0, Kind::Link(prev), true, r)?;
                made += 1;
                prev = n;
                if r.chance(1, 8) {
                    prev.extend_from_slice(b"/");
                }
                if r.chance(1, 8) {
                    prev = [b"./".to_vec(), prev].concat();
                }
            }
            Some(format!("{made} links in {d}"))
        }
        B_SPECIAL => {
            let d = pick_dir(fs, r);
            let n = fresh(fs, d, r);
            if fs.room() < fs.dir_cost(d) + 30 {
                return None;
            }
            let k = match r.below(4) {
                0 => Kind::Fifo,
                1 => Kind::Sock,
                2 => Kind::Chr(r.next() as u32),
                _ => Kind::Blk(r.next() as u32),
            };
            let (p, u, g) = attrs(r);
            let i = fs.create(d, &n, p, u, g, k, false, r)?;
            Some(format!("{i} in {d}"))
        }
        B_HARD => {
            let c: Vec<u32> = fs.model.nodes.iter().filter(|(i, n)| !n.is_dir() && n.nlink < 60000 && **i != fs.jino).map(|(i, _)| *i).collect();
            if c.is_empty() {
                return None;
            }
            let d = pick_dir(fs, r);
            if fs.room() < fs.dir_cost(d) + 30 {
                return None;
            }
            let i = *r.pick(&c);
            let n = fresh(fs, d, r);
            fs.link(d, &n, i, r);
            Some(format!("{i} in {d}"))
        }
        B_REMOVE => {
            let d = pick_dir(fs, r);
            let c: Vec<Vec<u8>> = fs
                .model
                .dir(d)
                .entries
                .iter()
                .filter(|(n, i)| {
                    n.as_slice() != b"lost+found" && fs.model.node(**i).dir().is_none_or(|x| x.entries.is_empty())
                })
                .map(|(n, _)| n.clone())
                .collect();
            if c.is_empty() {
                return None;
            }
            let n = r.pick(&c).clone();
            fs.remove(d, &n, r.chance(3, 4));
            Some(format!("{:?} from {d}", String::from_utf8_lossy(&n)))
        }
        B_UNLINK_MANY => {
            let d = pick_dir(fs, r);
            let c: Vec<Vec<u8>> = fs
                .model
                .dir(d)
                .entries
                .iter()
                .filter(|(n, i)| {
                    n.as_slice() != b"lost+found" && fs.model.node(**i).dir().is_none_or(|x| x.entries.is_empty())
                })
                .map(|(n, _)| n.clone())
                .collect();
            let mut k = 0;
            for n in c {
                if r.chance(1, 2) {
                    fs.remove(d, &n, true);
                    k += 1;
                }
            }
            Some(format!("{k} from {d}"))
        }
        B_RENAME => {
            let p1 = pick_dir(fs, r);
            let c: Vec<Vec<u8>> = fs.model.dir(p1).entries.keys().filter(|n| n.as_slice() != b"lost+found").cloned().collect();
            if c.is_empty() {
                return None;
            }
            let n1 = r.pick(&c).clone();
            let ci = fs.model.dir(p1).entries[&n1];
            let p2 = pick_dir(fs, r);
            // Not into itself.
            let mut a = p2;
            loop {
                if a == ci {
                    return None;
                }
                if a == ROOT {
                    break;
                }
                a = fs.model.dir(a).parent;
            }
            if fs.room() < fs.dir_cost(p2) + 30 {
                return None;
            }
            let over: Vec<Vec<u8>> = fs
                .model
                .dir(p2)
                .entries
                .iter()
                .filter(|(n, i)| {
                    let (a, b) = (fs.model.node(**i), fs.model.node(ci));
                    n.as_slice() != b"lost+found"
                        && **i != ci
                        && a.is_dir() == b.is_dir()
                        && a.dir().is_none_or(|x| x.entries.is_empty())
                })
                .map(|(n, _)| n.clone())
                .collect();
            let n2 = if !over.is_empty() && r.chance(1, 2) { r.pick(&over).clone() } else { fresh(fs, p2, r) };
            fs.rename(p1, &n1, p2, &n2, r);
            Some(format!("{:?} of {p1} to {:?} of {p2}", String::from_utf8_lossy(&n1), String::from_utf8_lossy(&n2)))
        }
        B_ATTR => {
            let c: Vec<u32> = fs.model.nodes.keys().copied().filter(|i| *i != fs.jino).collect();
            let i = *r.pick(&c);
            let (p, u, g) = attrs(r);
            fs.set_attr(i, p, u, g);
            Some(format!("{i} {p:o} {u} {g}"))
        }
        B_REWRITE => {
            let c = regs(fs);
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            let top = top(fs, i, lim);
            let nb = fs.model.node(i).size.div_ceil(bs).min(top);
            let fb = r.below(nb + 2).min(top - 1);
            let n = (1 + r.below(6)).min(top - fb);
            if fs.room() < n + 40 {
                return None;
            }
            let m = content_mode(r);
            let old = fs.model.node(i).size;
            if fs.lay[&i].jdata && r.chance(1, 2) {
                fs.file_overwrite(i, fb as u32, n as u32, m, r);
                fs.write_mapping(i, r);
                return Some(format!("{i} in place blocks {fb}+{n}"));
            }
            if old % bs != 0 && old / bs < fb {
                resize(fs, i, old.next_multiple_of(bs), r);
            }
            let piece = 1 + r.below(8) as u32;
            let got = fs.file_write(i, fb as u32, n as u32, m, piece, r);
            let end = (fb + u64::from(got)) * bs;
            if got > 0 && end > old {
                let s = end - r.below(bs);
                fs.set_size(i, s.max(old));
            }
            fs.write_mapping(i, r);
            Some(format!("{i} blocks {fb}+{got}"))
        }
        B_RESIZE => {
            let c = regs(fs);
            if c.is_empty() || fs.room() < 40 {
                return None;
            }
            let i = *r.pick(&c);
            let old = fs.model.node(i).size;
            let s = match r.below(4) {
                0 => 0,
                1 => r.below(old + 1),
                2 => old + r.below(10 * bs),
                _ => r.below(old + 1) / bs * bs,
            };
            let s = s.min(top(fs, i, lim) * bs);
            resize(fs, i, s, r);
            fs.write_mapping(i, r);
            Some(format!("{i} {old} -> {s}"))
        }
        B_PUNCH => {
            let c = regs(fs);
            if c.is_empty() || fs.room() < 40 {
                return None;
            }
            let i = *r.pick(&c);
            let nb = fs.model.node(i).size.div_ceil(bs);
            if nb == 0 {
                return None;
            }
            let fb = r.below(nb.min(1 << 31)) as u32;
            let n = 1 + r.below(8);
            fs.unmap(i, fb, n, false);
            fs.forget_content(i, fb, n);
            fs.write_mapping(i, r);
            Some(format!("{i} blocks {fb}+{n}"))
        }
        B_BULK => {
            let d = pick_dir(fs, r);
            let c: Vec<u32> = fs.model.nodes.iter().filter(|(i, n)| !n.is_dir() && n.nlink < 60000 && **i != fs.jino).map(|(i, _)| *i).collect();
            let mut tgt = if c.is_empty() { None } else { Some(*r.pick(&c)) };
            let k = r.range(3, lim.max_bulk);
            let long = r.below(3);
            let mut made = 0;
            for j in 0..k {
                if fs.room() < fs.dir_cost(d) + 30 {
                    break;
                }
                let mut n = if r.chance(1, 2) { format!("n{j}_{}", r.below(1000)).into_bytes() } else { fresh(fs, d, r) };
                if long == 0 {
                    n.resize(r.range(n.len() as u64, 255) as usize, b'z');
                }
                if fs.model.dir(d).entries.contains_key(&n) {
                    continue;
                }
                match tgt {
                    Some(t) if fs.model.node(t).nlink < 60000 && !r.chance(1, 20) => fs.link(d, &n, t, r),
                    _ => {
                        let (p, u, g) = attrs(r);
                        tgt = fs.create(d, &n, p, u, g, Kind::Reg(BTreeMap::new()), false, r);
                        tgt?;
                    }
                }
                made += 1;
            }
            Some(format!("{made} names in {d}"))
        }
        B_THIN => {
            // Remove most names of a directory: holes inside its blocks.
            let d = pick_dir(fs, r);
            let c: Vec<Vec<u8>> = fs
                .model
                .dir(d)
                .entries
                .iter()
                .filter(|(n, i)| n.as_slice() != b"lost+found" && !fs.model.node(**i).is_dir() && fs.model.node(**i).nlink > 1)
                .map(|(n, _)| n.clone())
                .collect();
            let mut k = 0;
            for n in c {
                let i = fs.model.dir(d).entries[&n];
                if fs.model.node(i).nlink > 1 && r.chance(2, 3) {
                    fs.remove(d, &n, true);
                    k += 1;
                }
            }
            Some(format!("{k} names gone from {d}"))
        }
        B_HTREE | B_COLLIDE => {
            let d = pick_dir(fs, r);
            let ver = *r.pick(&[fs.g.hash_ver, 1, 2]);
            if kind == B_COLLIDE {
                collide(fs, d, ver, r);
            }
            let n = fs.model.dir(d).entries.len() as u64;
            if fs.room() < 2 * n + 60 {
                return None;
            }
            let ht = Ht {
                ver,
                depth: r.chance(1, 2) as u8,
                leaves: vec![],
                fan: 2 + r.skewed(20) as u32,
                fill: *r.pick(&[1u32, 10, 30, 50, 70, 100]),
                split: kind == B_COLLIDE,
            };
            fs.build_htree(d, &ht, 0, r);
            let l = fs.lay[&d].ht.as_ref().unwrap();
            Some(format!("{d}: hash {ver}, depth {}, {} leaves", l.depth, l.leaves.len()))
        }
        B_WIDE => {
            // A hash tree with many leaves, most of which have few names
            // left.
            let d = pick_dir(fs, r);
            let have = fs.model.dir(d).entries.len() as u64;
            let most = fs.room().saturating_sub(2 * have + 80).min(lim.max_wide).min((16 << 20) / u64::from(fs.g.bs));
            if most < 8 {
                return None;
            }
            let pad = if r.chance(1, 2) { most - r.below(most / 4) } else { r.range(4, most) };
            let ht = Ht {
                ver: *r.pick(&[fs.g.hash_ver, 1, 2]),
                depth: r.chance(1, 3) as u8,
                leaves: vec![],
                fan: *r.pick(&[3u32, 20, 100, 300, 100_000]),
                fill: *r.pick(&[1u32, 10, 100]),
                split: false,
            };
            fs.build_htree(d, &ht, pad as usize, r);
            let l = fs.lay[&d].ht.as_ref().unwrap();
            Some(format!("{d}: depth {}, {} leaves", l.depth, l.leaves.len()))
        }
        B_ENCRYPT => {
            if !fs.g.encrypt {
                return None;
            }
            // A file or link that was moved or linked to a place outside
            // the encrypted directory it was created in, or a directory.
            let files: Vec<u32> = fs
                .model
                .nodes
                .iter()
                .filter(|(i, n)| matches!(n.kind, Kind::Reg(_) | Kind::Link(_)) && **i > 11 && **i != fs.jino)
                .map(|(i, _)| *i)
                .collect();
            if !files.is_empty() && r.chance(1, 2) {
                let i = *r.pick(&files);
                fs.lay.get_mut(&i).unwrap().flags |= FL_ENCRYPT;
                fs.model.node_mut(i).enc = true;
                fs.write_inode(i);
                return Some(format!("{i}"));
            }
            let c: Vec<u32> = dirs(fs).into_iter().filter(|i| *i != ROOT).collect();
            if c.is_empty() {
                return None;
            }
            let d = *r.pick(&c);
            fs.lay.get_mut(&d).unwrap().flags |= FL_ENCRYPT;
            fs.model.dir_mut(d).encrypted = true;
            fs.write_inode(d);
            Some(format!("{d}"))
        }
        B_BADHASH => {
            let c: Vec<u32> = dirs(fs).into_iter().filter(|i| *i != ROOT).collect();
            if c.is_empty() || fs.room() < 100 {
                return None;
            }
            let d = *r.pick(&c);
            let ht = Ht { ver: fs.g.hash_ver, depth: 0, leaves: vec![], fan: 10, fill: 80, split: false };
            fs.build_htree(d, &ht, 0, r);
            let v = *r.pick(&[0u8, 3, 4, 5, 6, 7, 255, 0x81]);
            let b = fs.bmap(d, 0).unwrap();
            let mut blk = fs.img.get(b);
            blk[0x1c] = v;
            fs.csum_dx(d, &mut blk, 0x20);
            fs.put(b, blk);
            fs.model.dir_mut(d).badhash = true;
            Some(format!("{d}: hash version {v}"))
        }
        _ => None,
    }
}

/// Add names with equal hashes.
fn collide(fs: &mut Fs, d: u32, ver: u8, r: &mut Rng) {
    let c: Vec<u32> = fs.model.nodes.iter().filter(|(i, n)| !n.is_dir() && n.nlink < 60000 && **i != fs.jino).map(|(i, _)| *i).collect();
    if c.is_empty() {
        return;
    }
    let t = *r.pick(&c);
    if fs.g.hash_seed == [0; 4] {
        // Many names, one hash.
        let last = r.chance(1, 2);
        let mut names = crate::hash::same_hash(ver, last);
        if last {
            fs.probe("names_of_last_hash");
        }
        let leave = r.idx(names.len() - 2);
        for _ in 0..leave {
            names.swap_remove(r.idx(names.len()));
        }
        for n in names {
            if fs.room() < fs.dir_cost(d) + 40 {
                return;
            }
            if !fs.model.dir(d).entries.contains_key(&n) {
                fs.link(d, &n, t, r);
            }
        }
        return;
    }
    let len = r.range(6, 250) as usize;
    let salt = r.next();
    let mut seen: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut found = 0;
    for i in 0..120_000u64 {
        let mut n = format!("{:x}", crate::rng::mix(salt ^ i)).into_bytes();
        n.resize(n.len().max(len), b'q');
        let h = fs.hash_of(ver, &n);
        if let Some(o) = seen.insert(h, n.clone()) {
            if fs.room() < fs.dir_cost(d) + 40 {
                return;
            }
            for x in [o, n] {
                if !fs.model.dir(d).entries.contains_key(&x) {
                    fs.link(d, &x, t, r);
                }
            }
            found += 1;
            if found >= 3 {
                return;
            }
        }
    }
}

/// A symlink target of some interest.
pub fn link_target(fs: &Fs, d: u32, r: &mut Rng) -> Vec<u8> {
    let all: Vec<(u32, Vec<u8>)> = fs.model.paths();
    let mut t: Vec<u8> = match r.below(10) {
        0 | 1 => r.pick(&all).1.clone(),
        2 | 3 => {
            // Relative: a sibling or something below a sibling.
            let e = &fs.model.dir(d).entries;
            if e.is_empty() {
                b"..".to_vec()
            } else {
                let k = r.idx(e.len());
                let (n, c) = e.iter().nth(k).unwrap();
                let mut t = n.clone();
                if let Some(dd) = fs.model.node(*c).dir() {
                    if !dd.entries.is_empty() && r.chance(2, 3) {
                        let k = r.idx(dd.entries.len());
                        t.push(b'/');
                        t.extend_from_slice(dd.entries.keys().nth(k).unwrap());
                    }
                }
                t
            }
        }
        4 => {
            let mut t = b"../".repeat(1 + r.idx(4));
            let (_, p) = r.pick(&all);
            t.extend_from_slice(&p[1..]);
            t
        }
        5 => b"missing/target".to_vec(),
        6 => (*r.pick(&[&b"."[..], b"..", b"/", b"./.", b"//", b"../..", b"/.", b"/.."])).to_vec(),
        7 => name(r),
        8 => {
            let mut t = r.pick(&all).1.clone();
            t.push(b'/');
            t
        }
        _ => {
            let mut t = Vec::new();
            for c in r.pick(&all).1.clone().split(|c| *c == b'/').skip(1) {
                t.extend_from_slice(if r.chance(1, 3) { b"//" } else { b"/" });
                if r.chance(1, 3) {
                    t.extend_from_slice(b"./");
                }
                t.extend_from_slice(c);
            }
            t
        }
    };
    if t.is_empty() {
        t = b"/".to_vec();
    }
    // Some long enough to need a block, some at the inline limit.
    let lim = (fs.g.bs as usize - 1).min(4000);
    match r.below(8) {
        0 => {
            let want = r.range(56, 66) as usize;
            while t.len() < want {
                t.insert(0, if t[0] == b'/' { b'/' } else { break });
            }
        }
        1 if t[0] == b'/' => {
            let want = r.range(60, lim as u64) as usize;
            let mut p = b"/.".repeat((want.saturating_sub(t.len())) / 2);
            p.extend_from_slice(&t);
            t = p;
        }
        2 if t[0] != b'/' => {
            let want = r.range(50, 300) as usize;
            let mut p = b"./".repeat((want.saturating_sub(t.len())) / 2);
            p.extend_from_slice(&t);
            t = p;
        }
        _ => {}
    }
    t.truncate(lim);
    t
}
