//! An incremental ext4 writer. It keeps the logical state (reference model +
//! layouts) and the exact block image a correct ext4 implementation would
//! have in its page cache; the journal simulator decides what of it reaches
//! the medium.

use crate::disk::{tag, Blk, Image};
use crate::geo::*;
use crate::hash::{crc16, crc32c, dirhash};
use crate::model::*;
use crate::rng::{mix2, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn w16(d: &mut [u8], o: usize, v: u16) {
    d[o..o + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn w32(d: &mut [u8], o: usize, v: u32) {
    d[o..o + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn r16(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([d[o], d[o + 1]])
}
pub fn r32(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]])
}

#[derive(Clone, Default)]
pub struct Ranges(BTreeMap<u64, u64>);

impl Ranges {
    pub fn contains(&self, b: u64) -> bool {
        self.0.range(..=b).next_back().is_some_and(|(_, e)| b < *e)
    }
    pub fn add(&mut self, s: u64, e: u64) {
        if s >= e {
            return;
        }
        let (mut s, mut e) = (s, e);
        let over: Vec<(u64, u64)> = self
            .0
            .range(..=e)
            .rev()
            .take_while(|(_, ee)| **ee >= s)
            .map(|(a, b)| (*a, *b))
            .collect();
        for (a, b) in over {
            self.0.remove(&a);
            s = s.min(a);
            e = e.max(b);
        }
        self.0.insert(s, e);
    }
    pub fn remove(&mut self, s: u64, e: u64) {
        let over: Vec<(u64, u64)> = self
            .0
            .range(..e)
            .rev()
            .take_while(|(_, ee)| **ee > s)
            .map(|(a, b)| (*a, *b))
            .collect();
        for (a, b) in over {
            self.0.remove(&a);
            if a < s {
                self.0.insert(a, s);
            }
            if b > e {
                self.0.insert(e, b);
            }
        }
    }
    /// First member of [s, e), if any.
    pub fn first_in(&self, s: u64, e: u64) -> Option<u64> {
        if let Some((_, ee)) = self.0.range(..=s).next_back() {
            if *ee > s {
                return Some(s);
            }
        }
        self.0.range(s..e).next().map(|(a, _)| *a)
    }
    /// End of the range containing b.
    pub fn end_of(&self, b: u64) -> u64 {
        self.0.range(..=b).next_back().map_or(b, |(_, e)| *e)
    }
    pub fn iter(&self) -> impl Iterator<Item = (u64, u64)> + '_ {
        self.0.iter().map(|(a, b)| (*a, *b))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ext {
    pub fb: u32,
    pub len: u32,
    pub phys: u64,
    pub unwritten: bool,
}

#[derive(Clone, Debug)]
pub enum Layout {
    None,
    Inline(Vec<u8>),
    Dev(u32),
    Ext { exts: Vec<Ext>, nodes: Vec<u64>, fan: u32, root_fan: u32, min_depth: u16 },
    Map { map: BTreeMap<u32, u32>, inds: Vec<u64> },
}

#[derive(Clone, Debug)]
pub struct Lay {
    pub flags: u32,
    pub layout: Layout,
    pub ht: Option<Ht>,
    /// Data blocks of this inode are journaled (treated as metadata).
    pub jdata: bool,
}

#[derive(Clone, Debug)]
pub struct Ht {
    pub ver: u8,
    pub depth: u8,
    /// (first hash, file block) of the leaves, in order.
    pub leaves: Vec<(u32, u32)>,
    pub fan: u32,
    pub fill: u32,
    /// Let a leaf end between names of equal hash.
    pub split: bool,
}

pub const FL_ENCRYPT: u32 = 0x800;
pub const FL_INDEX: u32 = 0x1000;
pub const FL_HUGE: u32 = 0x40000;
pub const FL_EXTENTS: u32 = 0x80000;

#[derive(Clone)]
pub struct Group {
    pub bb: u64,
    pub ib: u64,
    pub it: u64,
    pub live: bool,
}

#[derive(Clone)]
pub struct Fs {
    pub g: Geo,
    pub img: Image,
    pub model: Model,
    pub lay: BTreeMap<u32, Lay>,
    pub groups: Vec<Group>,
    pub used: Ranges,
    /// Not reusable yet although logically free.
    pub held: Ranges,
    pub iused: BTreeSet<u32>,
    /// Metadata blocks whose content changed since `take_dirty`.
    pub dirty: BTreeSet<u64>,
    /// File data blocks written since `take_dirty` (ordered data).
    pub data_dirty: BTreeSet<u64>,
    /// Metadata blocks freed since `take_dirty`.
    pub freed_meta: BTreeSet<u64>,
    pub freed: Vec<(u64, u64)>,
    /// Allocated but not written since (what lies there is of no account).
    pub fresh: BTreeSet<u64>,
    pub dgroups: BTreeSet<u32>,
    pub sb_dirty: bool,
    pub recover: bool,
    pub state_sb: Vec<u8>,
    pub defer_free: bool,
    pub live_groups: Vec<u32>,
    pub frag: u64,
    /// Block numbers that differ in this bit are sought.
    pub alias: u32,
    /// Freed metadata blocks of a huge device.
    reuse: Vec<u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub jino: u32,
    pub next_gen: u64,
}

fn dirent_len(n: usize) -> usize {
    (8 + n).next_multiple_of(4)
}

pub fn reclen_enc(len: usize, bs: usize) -> u16 {
    if len < 65536 {
        len as u16
    } else {
        debug_assert!(bs == 65536);
        65535
    }
}
pub fn reclen_dec(v: u16, bs: usize) -> usize {
    if bs == 65536 && (v == 65535 || v == 0) {
        65536
    } else {
        v as usize
    }
}

impl Fs {
    /// Chooses where each group's bitmaps and inode table go.
    fn place_groups(&mut self, r: &mut Rng) -> bool {
        let (used, itb) = (self.used.clone(), self.g.itable_blocks());
        let live: BTreeSet<u32> = self.live_groups.iter().copied().collect();
        for i in 0..self.g.ngroups() {
            if !live.contains(&i) {
                let f = self.g.group_first(i);
                self.groups.push(Group { bb: f, ib: f + 1, it: f + 2, live: false });
                continue;
            }
            let homes: Vec<u32> = if self.g.flex { self.live_groups.clone() } else { vec![i] };
            let mut at = vec![];
            for n in [1, 1, itb] {
                let mut found = None;
                for attempt in 0..60 {
                    let h = if attempt < 40 { *r.pick(&homes) } else { homes[attempt % homes.len()] };
                    let f = self.g.group_first(h);
                    let len = u64::from(self.g.group_len(h));
                    let span = if self.g.lazy { len.min(20000) } else { len };
                    // Without flex_bg start right behind the descriptors.
                    let from = if self.g.flex { f + r.below(span) } else { f };
                    found = self.find_run(from, f + len, n).or_else(|| self.find_run(f, f + len, n));
                    if found.is_some() {
                        break;
                    }
                }
                let Some(s) = found else {
                    self.used = used;
                    self.groups.clear();
                    return false;
                };
                self.used.add(s, s + n);
                at.push(s);
            }
            self.groups.push(Group { bb: at[0], ib: at[1], it: at[2], live: true });
        }
        true
    }

    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }

    // ---------------------------------------------------------------- mkfs

    pub fn mkfs(g: Geo, r: &mut Rng) -> Fs {
        let ng = g.ngroups();
        let img = Image::new(g.bs as usize, g.blocks, r.next());
        let mut fs = Fs {
            model: Model { bs: g.bs, label: g.label, uuid: g.uuid, nodes: BTreeMap::new() },
            img,
            lay: BTreeMap::new(),
            groups: Vec::with_capacity(ng as usize),
            used: Ranges::default(),
            held: Ranges::default(),
            iused: BTreeSet::new(),
            dirty: BTreeSet::new(),
            data_dirty: BTreeSet::new(),
            freed_meta: BTreeSet::new(),
            freed: Vec::new(),
            fresh: BTreeSet::new(),
            dgroups: BTreeSet::new(),
            sb_dirty: true,
            recover: false,
            state_sb: Vec::new(),
            defer_free: false,
            live_groups: Vec::new(),
            frag: r.below(5),
            probes: BTreeMap::new(),
            jino: 8,
            next_gen: r.next(),
            alias: 0,
            reuse: Vec::new(),
            g,
        };
        let gdtb = fs.g.gdt_blocks() + u64::from(fs.g.resgdt);
        // Fixed areas.
        if fs.g.first == 0 {
            fs.used.add(0, fs.g.gdt_start() + gdtb);
        }
        if fs.g.lazy {
            let mut l: BTreeSet<u32> = BTreeSet::new();
            l.insert(0);
            l.insert(ng - 1);
            for _ in 0..r.range(1, 3) {
                l.insert(r.below(u64::from(ng)) as u32);
            }
            if fs.g.blocks > 1 << 32 {
                // Groups above 2^32 blocks.
                let lo = ((1u64 << 32) / u64::from(fs.g.bpg)) as u32;
                l.insert(r.range(u64::from(lo), u64::from(ng - 1)) as u32);
            }
            // Groups whose block numbers have low bits in common.
            let base = *r.pick(&l.iter().copied().collect::<Vec<_>>());
            let s = if r.chance(1, 2) { 32 } else { r.range(20, 33) };
            let b = fs.g.group_first(base) + u64::from(fs.g.bpg) / 2 + (1 << s);
            if b < fs.g.blocks {
                l.insert(fs.group_of(b));
                fs.alias = s as u32;
            }
            fs.live_groups = l.into_iter().collect();
        } else {
            fs.live_groups = (0..ng).collect();
        }
        for i in 0..ng {
            if fs.g.has_super(i) {
                let f = fs.g.group_first(i);
                if !fs.g.lazy || i < 2 {
                    fs.used.add(f, (f + 1 + gdtb).min(fs.g.blocks));
                }
            }
        }
        if !fs.place_groups(r) {
            // Scattered metadata did not fit.
            fs.g.flex = false;
            assert!(fs.place_groups(r), "mkfs: no room for group metadata: {:?}", fs.g);
        }
        let itb = fs.g.itable_blocks();
        for i in fs.live_groups.clone() {
            let it = fs.groups[i as usize].it;
            for b in it..it + itb {
                fs.img.put(b, vec![0; fs.g.bs as usize]);
            }
            fs.dgroups.insert(i);
        }
        for i in 1..11 {
            fs.iused.insert(i);
        }
        // Root and lost+found.
        let now = r.next();
        fs.new_dir_node(ROOT, ROOT, 0o755, 0, 0, now);
        fs.init_dir(ROOT, r);
        fs.iused.insert(11);
        fs.new_dir_node(11, ROOT, 0o700, 0, 0, now);
        fs.init_dir(11, r);
        fs.dir_add(ROOT, b"lost+found", 11, r);
        fs.model.node_mut(ROOT).nlink = 3;
        fs.write_inode(ROOT);
        fs
    }

    /// Online resize: the last group is filled up, groups are added.
    pub fn grow(&mut self, r: &mut Rng) -> bool {
        if self.g.lazy || self.g.blocks > 1 << 20 {
            return false;
        }
        let ng = self.g.ngroups();
        let bpg = u64::from(self.g.bpg);
        let per = self.g.bs / u32::from(self.g.desc);
        let room = (self.g.gdt_blocks() as u32 + self.g.resgdt) * per;
        let gdt = self.g.gdt_blocks() + u64::from(self.g.resgdt);
        let itb = self.g.itable_blocks();
        let full = self.g.group_first(ng - 1) + bpg;
        let add = r.below(4).min(u64::from(room - ng));
        let to = if add == 0 {
            if full == self.g.blocks {
                return false;
            }
            r.range(self.g.blocks + 1, full)
        } else {
            let need = 1 + gdt + 2 + itb + 4;
            if need > bpg {
                return false;
            }
            full + (add - 1) * bpg + r.range(need, bpg)
        };
        let old = self.g.gdt_blocks();
        self.g.blocks = to;
        let new = self.g.gdt_blocks();
        self.g.resgdt -= (new - old) as u32;
        for b in old..new {
            self.put(self.g.gdt_start() + b, vec![0; self.g.bs as usize]);
        }
        self.img.nblocks = to;
        self.dgroups.insert(ng - 1);
        for i in ng..self.g.ngroups() {
            let f = self.g.group_first(i);
            if self.g.has_super(i) {
                self.used.add(f, f + 1 + gdt);
            }
            let mut at = vec![];
            for n in [1, 1, itb] {
                let s = self.find_run(f, f + u64::from(self.g.group_len(i)), n).unwrap();
                self.used.add(s, s + n);
                at.push(s);
            }
            for b in at[2]..at[2] + itb {
                self.img.put(b, vec![0; self.g.bs as usize]);
                self.data_dirty.insert(b);
            }
            self.groups.push(Group { bb: at[0], ib: at[1], it: at[2], live: true });
            self.live_groups.push(i);
            self.dgroups.insert(i);
        }
        self.sb_dirty = true;
        true
    }

    fn find_run(&self, from: u64, to: u64, n: u64) -> Option<u64> {
        let mut p = from;
        loop {
            // Skip used and held.
            loop {
                let q = if self.used.contains(p) { self.used.end_of(p) } else { p };
                let q = if self.held.contains(q) { self.held.end_of(q) } else { q };
                if q == p {
                    break;
                }
                p = q;
            }
            if p + n > to {
                return None;
            }
            let a = self.used.first_in(p, p + n);
            let b = self.held.first_in(p, p + n);
            match (a, b) {
                (None, None) => return Some(p),
                (x, y) => p = x.unwrap_or(u64::MAX).min(y.unwrap_or(u64::MAX)),
            }
        }
    }

    fn group_of(&self, b: u64) -> u32 {
        ((b - u64::from(self.g.first)) / u64::from(self.g.bpg)) as u32
    }

    /// Allocate up to `want` contiguous blocks; returns (start, got).
    pub fn alloc(&mut self, want: u64, max_addr: u64, r: &mut Rng) -> Option<(u64, u64)> {
        let n = want.max(1);
        if self.alias > 0 && r.chance(1, 3) {
            // Right where the number differs in one bit from that of a
            // block in use.
            let f = self.g.group_first(*r.pick(&self.live_groups));
            let p = f + r.below(u64::from(self.g.bpg).min(1 << 15));
            let u = self.used.first_in(p, f + u64::from(self.g.bpg)).or_else(|| self.used.first_in(f, p));
            let c = u.map(|u| if u >> self.alias & 1 == 1 { u - (1 << self.alias) } else { u + (1 << self.alias) });
            if let Some(c) = c.filter(|c| *c < self.g.blocks && *c >= u64::from(self.g.first)) {
                let gi = self.group_of(c);
                let e = (self.g.group_first(gi) + u64::from(self.g.group_len(gi))).min(max_addr);
                if self.live_groups.contains(&gi) {
                    let mut k = n;
                    while k > 0 {
                        if c + k <= e && self.find_run(c, c + k, k) == Some(c) {
                            self.used.add(c, c + k);
                            self.fresh.extend(c..c + k);
                            self.dgroups.insert(gi);
                            self.sb_dirty = true;
                            self.probe("block_number_one_bit_off");
                            return Some((c, k));
                        }
                        k /= 2;
                    }
                }
            }
        }
        if self.g.lazy && self.defer_free && !self.reuse.is_empty() && r.chance(1, 2) {
            // On a device this large blocks would hardly ever come again.
            let i = r.idx(self.reuse.len());
            let c = self.reuse[i];
            if c < max_addr && self.find_run(c, c + 1, 1) == Some(c) {
                self.reuse.swap_remove(i);
                self.used.add(c, c + 1);
                self.fresh.insert(c);
                self.dgroups.insert(self.group_of(c));
                self.sb_dirty = true;
                self.probe("reused_block_on_huge_device");
                return Some((c, 1));
            }
        }
        for attempt in 0..24 {
            let gi = if attempt < 16 {
                *r.pick(&self.live_groups.clone())
            } else {
                self.live_groups[(attempt as usize - 16) % self.live_groups.len()]
            };
            let f = self.g.group_first(gi);
            let e = (f + u64::from(self.g.group_len(gi))).min(max_addr);
            if f >= e {
                continue;
            }
            // Try shrinking sizes.
            let mut k = n;
            while k > 0 {
                let from = if r.below(5) < self.frag || self.g.lazy { f + r.below(e - f) } else { f };
                if let Some(s) = self.find_run(from, e, k).or_else(|| self.find_run(f, e, k)) {
                    self.used.add(s, s + k);
                    self.fresh.extend(s..s + k);
                    self.dgroups.insert(gi);
                    self.sb_dirty = true;
                    return Some((s, k));
                }
                k /= 2;
            }
        }
        None
    }

    pub fn free(&mut self, s: u64, n: u64, meta: bool) {
        self.used.remove(s, s + n);
        self.dgroups.insert(self.group_of(s));
        self.dgroups.insert(self.group_of(s + n - 1));
        self.sb_dirty = true;
        if self.defer_free {
            self.held.add(s, s + n);
            self.freed.push((s, s + n));
        }
        for b in s..s + n {
            if meta {
                self.freed_meta.insert(b);
                if self.g.lazy && self.defer_free {
                    self.reuse.push(b);
                }
            }
            self.dirty.remove(&b);
            self.data_dirty.remove(&b);
            self.fresh.remove(&b);
        }
    }

    fn alloc1(&mut self, r: &mut Rng) -> u64 {
        self.alloc(1, u64::MAX, r).expect("sim fs full").0
    }

    pub fn free_blocks(&self) -> u64 {
        // Only meaningful for small images.
        let mut n = self.g.blocks - u64::from(self.g.first);
        for (a, b) in self.used.iter() {
            n -= b - a.max(u64::from(self.g.first));
        }
        n
    }

    // ------------------------------------------------------------- put/csum

    pub fn put(&mut self, b: u64, d: Vec<u8>) {
        if !self.fresh.remove(&b) {
            if let Some(Blk::Raw(o)) = self.img.map.get(&b) {
                if **o == d {
                    return;
                }
            }
        }
        self.img.put(b, d);
        self.dirty.insert(b);
        self.freed_meta.remove(&b);
    }
    fn put_data(&mut self, b: u64, t: u64, jdata: bool) {
        self.img.put_pat(b, t);
        self.fresh.remove(&b);
        if jdata {
            self.dirty.insert(b);
            self.freed_meta.remove(&b);
        } else {
            self.data_dirty.insert(b);
        }
    }

    pub fn inode_seed(&self, ino: u32) -> u32 {
        let gen = self.model.nodes.get(&ino).map_or(0, |n| n.gen);
        let c = crc32c(self.g.seed(), &ino.to_le_bytes());
        crc32c(c, &gen.to_le_bytes())
    }

    // --------------------------------------------------------------- inodes

    pub fn inode_addr(&self, ino: u32) -> (u64, usize) {
        let gi = (ino - 1) / self.g.ipg;
        let idx = (ino - 1) % self.g.ipg;
        let a = u64::from(idx) * u64::from(self.g.isize);
        let it = self.groups[gi as usize].it;
        (it + a / u64::from(self.g.bs), (a % u64::from(self.g.bs)) as usize)
    }

    pub fn alloc_inode(&mut self, r: &mut Rng) -> Option<u32> {
        for attempt in 0..32 {
            let gi = if attempt < 16 { *r.pick(&self.live_groups.clone()) } else { self.live_groups[attempt % self.live_groups.len()] };
            let lo = gi * self.g.ipg + 1;
            let hi = lo + self.g.ipg;
            let start = match r.below(3) {
                0 => hi - 1,
                1 => lo,
                _ => lo + r.below(u64::from(self.g.ipg)) as u32,
            };
            for k in 0..self.g.ipg {
                let i = lo + (start - lo + k) % self.g.ipg;
                if i >= 12 && !self.iused.contains(&i) {
                    self.iused.insert(i);
                    self.dgroups.insert(gi);
                    self.sb_dirty = true;
                    return Some(i);
                }
            }
        }
        None
    }

    fn mapping_block_count(&self, ino: u32) -> u64 {
        match &self.lay[&ino].layout {
            Layout::Ext { exts, nodes, .. } => exts.iter().map(|e| u64::from(e.len)).sum::<u64>() + nodes.len() as u64,
            Layout::Map { map, inds } => (map.len() + inds.len()) as u64,
            _ => 0,
        }
    }

    pub fn render_inode(&self, ino: u32) -> Vec<u8> {
        let n = self.model.node(ino);
        let l = &self.lay[&ino];
        let mut d = vec![0u8; self.g.isize as usize];
        w16(&mut d, 0, n.mode());
        w16(&mut d, 2, n.uid as u16);
        w32(&mut d, 4, n.size as u32);
        for (o, k) in [(8, 1), (0xc, 2), (0x10, 3)] {
            w32(&mut d, o, 1_600_000_000 + (mix2(u64::from(n.gen), k) as u32 & 0xffffff));
        }
        w16(&mut d, 0x18, n.gid as u16);
        w16(&mut d, 0x1a, n.nlink as u16);
        let sectors = self.mapping_block_count(ino) * (u64::from(self.g.bs) / 512);
        let mut flags = l.flags;
        if self.g.odd_flags && ino != self.jino {
            if let Kind::Reg(_) | Kind::Dir(_) = n.kind {
                // secrm, unrm, sync, immutable, append, nodump, noatime,
                // notail, dirsync, topdir, projinherit
                flags |= mix2(u64::from(n.gen), 77) as u32 & mix2(u64::from(ino), 78) as u32 & 0x2003_80fb;
            }
        }
        if sectors >> 48 != 0 {
            flags |= FL_HUGE;
        }
        w32(&mut d, 0x1c, sectors as u32);
        w32(&mut d, 0x20, flags);
        let ib = self.render_iblock(ino);
        d[0x28..0x28 + 60].copy_from_slice(&ib);
        w32(&mut d, 0x64, n.gen);
        w32(&mut d, 0x6c, (n.size >> 32) as u32);
        w16(&mut d, 0x74, (sectors >> 32) as u16);
        w16(&mut d, 0x78, (n.uid >> 16) as u16);
        w16(&mut d, 0x7a, (n.gid >> 16) as u16);
        if self.g.isize > 128 {
            // Some inodes date from before the extra fields were in use.
            let x = mix2(u64::from(n.gen), 11);
            let extra = match x % 8 {
                0 => 0,
                1 => 4,
                2 => 4 * (1 + (x >> 8) % u64::from((self.g.isize - 128) / 4)) as u16,
                _ => self.g.extra_isize,
            };
            w16(&mut d, 0x80, extra);
            // Times in the extra area, so that its bytes matter.
            if extra >= 24 {
                w32(&mut d, 0x90, 1_600_000_000 + (n.gen & 0xffff));
            }
            // A small attribute behind the fields.
            let o = 128 + usize::from(extra);
            let end = d.len();
            if x >> 20 & 3 == 0 && end - o >= 40 {
                w32(&mut d, o, 0xea02_0000);
                let e = o + 4;
                d[e] = 1;
                d[e + 1] = 1;
                let len = 1 + (x >> 24 & 7) as usize;
                w16(&mut d, e + 2, ((end - 8) - e) as u16);
                w32(&mut d, e + 8, len as u32);
                d[e + 16] = b'a';
                d[end - 8..end - 8 + len].fill(0x61 + (x & 15) as u8);
            }
        }
        self.csum_inode(ino, n.gen, &mut d);
        d
    }

    pub fn csum_inode(&self, ino: u32, gen: u32, d: &mut [u8]) {
        if !self.g.csum {
            return;
        }
        w16(d, 0x7c, 0);
        let hi = d.len() > 128 && r16(d, 0x80) >= 4;
        if hi {
            w16(d, 0x82, 0);
        }
        let c = crc32c(self.g.seed(), &ino.to_le_bytes());
        let c = crc32c(c, &gen.to_le_bytes());
        let c = crc32c(c, d);
        w16(d, 0x7c, c as u16);
        if hi {
            w16(d, 0x82, (c >> 16) as u16);
        }
    }

    pub fn write_inode(&mut self, ino: u32) {
        let d = self.render_inode(ino);
        self.put_inode_raw(ino, &d);
    }
    pub fn put_inode_raw(&mut self, ino: u32, d: &[u8]) {
        let (b, o) = self.inode_addr(ino);
        let mut blk = self.img.get(b);
        blk[o..o + d.len()].copy_from_slice(d);
        self.put(b, blk);
    }
    pub fn clear_inode(&mut self, ino: u32, keep_garbage: bool) {
        let gi = (ino - 1) / self.g.ipg;
        self.dgroups.insert(gi);
        self.sb_dirty = true;
        self.iused.remove(&ino);
        let (b, o) = self.inode_addr(ino);
        let mut blk = self.img.get(b);
        if keep_garbage {
            // As the kernel leaves it: no links, deletion time set, mode kept.
            let gen = r32(&blk, o + 0x64);
            let n = self.g.isize as usize;
            w16(&mut blk, o + 0x1a, 0);
            w32(&mut blk, o + 4, 0);
            w32(&mut blk, o + 0x6c, 0);
            w32(&mut blk, o + 0x1c, 0);
            w16(&mut blk, o + 0x74, 0);
            w32(&mut blk, o + 0x14, 1_700_000_000);
            if r32(&blk, o + 0x20) & FL_EXTENTS == 0 {
                blk[o + 0x28..o + 0x28 + 60].fill(0);
            } else {
                w16(&mut blk, o + 0x28 + 2, 0);
                w16(&mut blk, o + 0x28 + 6, 0);
            }
            let (_, rest) = blk.split_at_mut(o);
            self.csum_inode(ino, gen, &mut rest[..n]);
        } else {
            blk[o..o + self.g.isize as usize].fill(0);
        }
        self.put(b, blk);
    }

    fn gen(&mut self) -> u32 {
        self.next_gen = crate::rng::mix(self.next_gen);
        self.next_gen as u32
    }

    pub fn add_node(&mut self, ino: u32, perm: u16, uid: u32, gid: u32, kind: Kind, layout: Layout, flags: u32) {
        let size = match &kind {
            Kind::Link(t) => t.len() as u64,
            _ => 0,
        };
        let gen = self.gen();
        self.model.nodes.insert(ino, Rc::new(Node { perm, uid, gid, size, nlink: 1, gen, enc: false, kind }));
        self.lay.insert(ino, Lay { flags, layout, ht: None, jdata: false });
    }

    fn new_dir_node(&mut self, ino: u32, parent: u32, perm: u16, uid: u32, gid: u32, _t: u64) {
        let ext = self.g.extents;
        let layout = if ext { self.empty_ext(4) } else { Layout::Map { map: BTreeMap::new(), inds: vec![] } };
        let kind = Kind::Dir(DirM { entries: BTreeMap::new(), parent, encrypted: false, badhash: false });
        self.add_node(ino, perm, uid, gid, kind, layout, if ext { FL_EXTENTS } else { 0 });
        self.model.node_mut(ino).nlink = 2;
    }

    pub fn empty_ext(&self, root_fan: u32) -> Layout {
        Layout::Ext { exts: vec![], nodes: vec![], fan: u32::MAX, root_fan, min_depth: 0 }
    }

    // -------------------------------------------------------------- mapping

    /// Rewrite the tree/indirect blocks of `ino` and its inode.
    pub fn write_mapping(&mut self, ino: u32, r: &mut Rng) {
        let lay = self.lay[&ino].clone();
        match lay.layout {
            Layout::Ext { exts, nodes, fan, root_fan, min_depth } => {
                let nodes = self.build_ext(ino, &exts, nodes, fan, root_fan, min_depth, r);
                if let Layout::Ext { nodes: n, .. } = &mut self.lay.get_mut(&ino).unwrap().layout {
                    *n = nodes;
                }
            }
            Layout::Map { map, inds } => {
                let inds = self.build_map(ino, &map, inds, r);
                if let Layout::Map { inds: n, .. } = &mut self.lay.get_mut(&ino).unwrap().layout {
                    *n = inds;
                }
            }
            _ => {}
        }
        self.write_inode(ino);
    }

    /// Split the list so that no extent exceeds the on-disk length limits.
    pub fn norm_exts(exts: &[Ext]) -> Vec<Ext> {
        let mut out = Vec::new();
        for e in exts {
            let max = if e.unwritten { 32767 } else { 32768 };
            let mut o = 0;
            while o < e.len {
                let n = (e.len - o).min(max);
                out.push(Ext { fb: e.fb + o, len: n, phys: e.phys + u64::from(o), unwritten: e.unwritten });
                o += n;
            }
        }
        out
    }

    fn ext_tree(&self, exts: &[Ext], fan: u32, root_fan: u32, min_depth: u16) -> Vec<Vec<std::ops::Range<usize>>> {
        // levels[0] = leaf nodes as ranges of extents, levels[k] = ranges of
        // nodes of level k-1; the root holds the last level (<= 4 entries).
        let cap = (self.g.bs - 12) / 12;
        let mut fan = fan.clamp(1, cap);
        loop {
            let mut levels: Vec<Vec<std::ops::Range<usize>>> = Vec::new();
            let mut n = exts.len();
            while (n > root_fan as usize || levels.len() < min_depth as usize) && n > 0 {
                let f = if levels.is_empty() { fan } else { fan.max(2) } as usize;
                let mut v = Vec::new();
                let mut i = 0;
                while i < n {
                    v.push(i..(i + f).min(n));
                    i += f;
                }
                n = v.len();
                levels.push(v);
                if levels.len() > 5 {
                    break;
                }
            }
            if levels.len() <= 5 && n <= 4 {
                return levels;
            }
            if fan == cap {
                // Too many extents for this block size with min_depth.
                assert!(n <= 4 && levels.len() <= 5, "extent tree too big");
            }
            fan = (fan * 2).min(cap);
        }
    }

    fn ext_hdr(d: &mut [u8], n: usize, max: usize, depth: u16) {
        w16(d, 0, 0xf30a);
        w16(d, 2, n as u16);
        w16(d, 4, max as u16);
        w16(d, 6, depth);
        w32(d, 8, 0);
    }
    fn ext_leaf(d: &mut [u8], i: usize, e: &Ext) {
        let o = 12 + 12 * i;
        w32(d, o, e.fb);
        let l = if e.unwritten { e.len + 32768 } else { e.len };
        w16(d, o + 4, l as u16);
        w16(d, o + 6, (e.phys >> 32) as u16);
        w32(d, o + 8, e.phys as u32);
    }
    fn ext_idx(d: &mut [u8], i: usize, fb: u32, child: u64) {
        let o = 12 + 12 * i;
        w32(d, o, fb);
        w32(d, o + 4, child as u32);
        w16(d, o + 8, (child >> 32) as u16);
        w16(d, o + 10, 0);
    }

    #[allow(clippy::too_many_arguments)]
    fn build_ext(&mut self, ino: u32, exts: &[Ext], old: Vec<u64>, fan: u32, root_fan: u32, min_depth: u16, r: &mut Rng) -> Vec<u64> {
        let exts = Self::norm_exts(exts);
        let levels = self.ext_tree(&exts, fan, root_fan, min_depth);
        let need: usize = levels.iter().map(|l| l.len()).sum();
        let mut nodes = old;
        while nodes.len() > need {
            let b = nodes.pop().unwrap();
            self.free(b, 1, true);
        }
        while nodes.len() < need {
            let b = self.alloc1(r);
            nodes.push(b);
        }
        match levels.len() {
            0 => {}
            1 => self.probe("extent_depth_1"),
            2 => self.probe("extent_depth_2"),
            3 => self.probe("extent_depth_3"),
            4 => self.probe("extent_depth_4"),
            _ => self.probe("extent_depth_5"),
        }
        let cap = ((self.g.bs - 12) / 12) as usize;
        let seed = self.inode_seed(ino);
        let mut base = 0;
        let mut prev_base = 0;
        // First file block below each node of the previous level.
        let mut firsts: Vec<u32> = Vec::new();
        for (li, lv) in levels.iter().enumerate() {
            let mut nf = Vec::new();
            for (ni, rg) in lv.iter().enumerate() {
                let mut d = vec![0u8; self.g.bs as usize];
                Self::ext_hdr(&mut d, rg.len(), cap, li as u16);
                // Stale entries behind the valid ones.
                if r.chance(1, 2) {
                    let s = 12 + 12 * rg.len();
                    let e = 12 + 12 * cap;
                    for (k, x) in d[s..e].iter_mut().enumerate() {
                        *x = mix2(u64::from(ino), k as u64) as u8;
                    }
                }
                for (i, c) in rg.clone().enumerate() {
                    if li == 0 {
                        Self::ext_leaf(&mut d, i, &exts[c]);
                    } else {
                        Self::ext_idx(&mut d, i, firsts[c], nodes[prev_base + c]);
                    }
                }
                if self.g.csum {
                    let o = 12 + 12 * cap;
                    let c = crc32c(seed, &d[..o]);
                    w32(&mut d, o, c);
                }
                nf.push(if li == 0 { exts[rg.start].fb } else { firsts[rg.start] });
                self.put(nodes[base + ni], d);
            }
            firsts = nf;
            prev_base = base;
            base += lv.len();
        }
        nodes
    }

    fn render_iblock(&self, ino: u32) -> [u8; 60] {
        let mut d = [0u8; 60];
        match &self.lay[&ino].layout {
            Layout::None => {}
            Layout::Inline(t) => d[..t.len()].copy_from_slice(t),
            Layout::Dev(v) => {
                let (maj, min) = (v >> 20, v & 0xfffff);
                if maj < 256 && min < 256 {
                    w32(&mut d, 0, maj << 8 | min);
                } else {
                    w32(&mut d, 4, (min & 0xff) | (maj << 8) | ((min & !0xff) << 12));
                }
            }
            Layout::Ext { exts, nodes, fan, root_fan, min_depth } => {
                let exts = Self::norm_exts(exts);
                let levels = self.ext_tree(&exts, *fan, *root_fan, *min_depth);
                if levels.is_empty() {
                    Self::ext_hdr(&mut d, exts.len(), 4, 0);
                    for (i, e) in exts.iter().enumerate() {
                        Self::ext_leaf(&mut d, i, e);
                    }
                } else {
                    let top = levels.last().unwrap();
                    let base: usize = levels[..levels.len() - 1].iter().map(|l| l.len()).sum();
                    Self::ext_hdr(&mut d, top.len(), 4, levels.len() as u16);
                    for i in 0..top.len() {
                        // First block: descend.
                        let mut k = i;
                        for l in (0..levels.len()).rev() {
                            k = levels[l][k].start;
                        }
                        Self::ext_idx(&mut d, i, exts[k].fb, nodes[base + i]);
                    }
                }
            }
            Layout::Map { map, inds } => {
                for (fb, p) in map.range(0..12) {
                    w32(&mut d, *fb as usize * 4, *p);
                }
                let (tops, _) = self.map_tree(map, inds);
                for (i, t) in tops.iter().enumerate() {
                    w32(&mut d, (12 + i) * 4, *t as u32);
                }
            }
        }
        d
    }

    /// Indirect blocks needed for `map`, in a fixed order, with their
    /// contents; `inds` supplies the addresses.
    fn map_tree(&self, map: &BTreeMap<u32, u32>, inds: &[u64]) -> ([u64; 3], Vec<(u64, Vec<u8>)>) {
        let p = self.g.ptrs();
        let mut tops = [0u64; 3];
        // key: (level path) -> content
        let mut next = 0usize;
        let mut ids: BTreeMap<(u8, u64, u64), usize> = BTreeMap::new();
        let mut content: Vec<BTreeMap<u64, u64>> = Vec::new();
        let bases = [12u64, 12 + p, 12 + p + p * p];
        let mut get = |k: (u8, u64, u64), content: &mut Vec<BTreeMap<u64, u64>>| -> usize {
            *ids.entry(k).or_insert_with(|| {
                content.push(BTreeMap::new());
                next += 1;
                next - 1
            })
        };
        let addr = |i: usize| inds.get(i).copied().unwrap_or(0);
        for (fb, ph) in map.range(12..) {
            let f = u64::from(*fb);
            let ph = u64::from(*ph);
            if f < bases[1] {
                let a = get((1, 0, 0), &mut content);
                tops[0] = addr(a);
                content[a].insert(f - bases[0], ph);
            } else if f < bases[2] {
                let o = f - bases[1];
                let a = get((2, 0, 0), &mut content);
                tops[1] = addr(a);
                let b = get((3, o / p, 0), &mut content);
                content[a].insert(o / p, addr(b));
                content[b].insert(o % p, ph);
            } else {
                let o = f - bases[2];
                let a = get((4, 0, 0), &mut content);
                tops[2] = addr(a);
                let b = get((5, o / (p * p), 0), &mut content);
                content[a].insert(o / (p * p), addr(b));
                let c = get((6, o / p, 0), &mut content);
                content[b].insert(o / p % p, addr(c));
                content[c].insert(o % p, ph);
            }
        }
        let blocks = content
            .iter()
            .enumerate()
            .map(|(i, m)| {
                let mut d = vec![0u8; self.g.bs as usize];
                for (k, v) in m {
                    w32(&mut d, *k as usize * 4, *v as u32);
                }
                (addr(i), d)
            })
            .collect();
        (tops, blocks)
    }

    fn build_map(&mut self, _ino: u32, map: &BTreeMap<u32, u32>, old: Vec<u64>, r: &mut Rng) -> Vec<u64> {
        let (_, b) = self.map_tree(map, &[]);
        let need = b.len();
        let mut inds = old;
        while inds.len() > need {
            let b = inds.pop().unwrap();
            self.free(b, 1, true);
        }
        while inds.len() < need {
            let (b, _) = self.alloc(1, 1 << 32, r).expect("sim fs full");
            inds.push(b);
        }
        let (_, blocks) = self.map_tree(map, &inds);
        for (b, d) in blocks {
            self.put(b, d);
        }
        inds
    }

    /// Physical block of file block `fb` (None: hole or unwritten).
    pub fn bmap(&self, ino: u32, fb: u32) -> Option<u64> {
        match &self.lay[&ino].layout {
            Layout::Ext { exts, .. } => exts
                .iter()
                .find(|e| fb >= e.fb && fb - e.fb < e.len)
                .filter(|e| !e.unwritten)
                .map(|e| e.phys + u64::from(fb - e.fb)),
            Layout::Map { map, .. } => map.get(&fb).map(|x| u64::from(*x)),
            _ => None,
        }
    }

    pub fn all_blocks(&self, ino: u32) -> (Vec<(u64, u64)>, Vec<u64>) {
        match &self.lay[&ino].layout {
            Layout::Ext { exts, nodes, .. } => {
                (exts.iter().map(|e| (e.phys, u64::from(e.len))).collect(), nodes.clone())
            }
            Layout::Map { map, inds } => (map.values().map(|p| (u64::from(*p), 1)).collect(), inds.clone()),
            _ => (vec![], vec![]),
        }
    }

    fn ext_insert(exts: &mut Vec<Ext>, e: Ext) {
        let i = exts.partition_point(|x| x.fb < e.fb);
        if i > 0 {
            let p = &mut exts[i - 1];
            if p.fb + p.len == e.fb
                && p.phys + u64::from(p.len) == e.phys
                && p.unwritten == e.unwritten
                && p.len + e.len <= 32767
            {
                p.len += e.len;
                return;
            }
        }
        exts.insert(i, e);
    }

    /// Remove the mapping of [fb, fb+n), freeing the blocks.
    pub fn unmap(&mut self, ino: u32, fb: u32, n: u64, meta: bool) {
        let end = (u64::from(fb) + n).min(1 << 32);
        let mut lay = self.lay.remove(&ino).unwrap();
        let meta = meta || lay.jdata;
        match &mut lay.layout {
            Layout::Ext { exts, .. } => {
                let mut out = Vec::new();
                for e in exts.drain(..) {
                    let (a, b) = (u64::from(e.fb), u64::from(e.fb) + u64::from(e.len));
                    let (x, y) = (a.max(u64::from(fb)), b.min(end));
                    if x >= y {
                        out.push(e);
                        continue;
                    }
                    if a < x {
                        out.push(Ext { fb: e.fb, len: (x - a) as u32, phys: e.phys, unwritten: e.unwritten });
                    }
                    if y < b {
                        out.push(Ext { fb: y as u32, len: (b - y) as u32, phys: e.phys + (y - a), unwritten: e.unwritten });
                    }
                    self.free(e.phys + (x - a), y - x, meta);
                }
                *exts = out;
            }
            Layout::Map { map, .. } => {
                let del: Vec<u32> = map.range(fb..).take_while(|(k, _)| u64::from(**k) < end).map(|(k, _)| *k).collect();
                for k in del {
                    let p = map.remove(&k).unwrap();
                    self.free(u64::from(p), 1, meta);
                }
            }
            _ => {}
        }
        self.lay.insert(ino, lay);
    }

    /// Map [fb, fb+n) to fresh blocks. `pieces` limits contiguity.
    /// Returns the number of blocks mapped (less if space ran out).
    pub fn map_new(&mut self, ino: u32, fb: u32, n: u32, unwritten: bool, piece: u32, r: &mut Rng) -> u32 {
        let mut done = 0;
        let is_map = matches!(self.lay[&ino].layout, Layout::Map { .. });
        while done < n {
            let want = (n - done).min(piece.max(1));
            let lim = if is_map { 1 << 32 } else { 1 << 48 };
            let Some((s, k)) = self.alloc(u64::from(want), lim, r) else { break };
            let k = k as u32;
            match &mut self.lay.get_mut(&ino).unwrap().layout {
                Layout::Ext { exts, .. } => {
                    Self::ext_insert(exts, Ext { fb: fb + done, len: k, phys: s, unwritten });
                }
                Layout::Map { map, .. } => {
                    for i in 0..k {
                        map.insert(fb + done + i, (s + u64::from(i)) as u32);
                    }
                }
                _ => panic!("map_new on unmapped inode"),
            }
            done += k;
        }
        done
    }

    // ---------------------------------------------------------------- files

    /// Give file blocks [fb, fb+n) fresh contents in freshly allocated blocks
    /// (never overwriting blocks an earlier committed state refers to).
    pub fn file_write(&mut self, ino: u32, fb: u32, n: u32, mode: u64, piece: u32, r: &mut Rng) -> u32 {
        self.unmap(ino, fb, u64::from(n), false);
        let got = self.map_new(ino, fb, n, false, piece, r);
        let jdata = self.lay[&ino].jdata;
        let mut pats = Vec::new();
        for i in 0..got {
            let b = self.bmap(ino, fb + i).unwrap();
            let t = tag(mode, r.next());
            self.put_data(b, t, jdata);
            pats.push((fb + i, t));
        }
        if let Kind::Reg(c) = &mut self.model.node_mut(ino).kind {
            for i in 0..n {
                c.remove(&(fb + i));
            }
            for (f, t) in pats {
                c.insert(f, t);
            }
        }
        got
    }

    /// Overwrite mapped blocks in place (only sound for journaled data).
    pub fn file_overwrite(&mut self, ino: u32, fb: u32, n: u32, mode: u64, r: &mut Rng) {
        let jdata = self.lay[&ino].jdata;
        for i in 0..n {
            if let Some(b) = self.bmap(ino, fb + i) {
                let t = tag(mode, r.next());
                self.put_data(b, t, jdata);
                if let Kind::Reg(c) = &mut self.model.node_mut(ino).kind {
                    c.insert(fb + i, t);
                }
            }
        }
    }

    pub fn set_size(&mut self, ino: u32, size: u64) {
        self.model.node_mut(ino).size = size;
    }

    /// Drop contents recorded for blocks at or after `fb`.
    pub fn forget_content(&mut self, ino: u32, fb: u32, n: u64) {
        if let Kind::Reg(c) = &mut self.model.node_mut(ino).kind {
            let end = u64::from(fb) + n;
            let del: Vec<u32> = c.range(fb..).take_while(|(k, _)| u64::from(**k) < end).map(|(k, _)| *k).collect();
            for k in del {
                c.remove(&k);
            }
        }
    }

    // ---------------------------------------------------------- directories

    pub fn dir_tail(&self) -> usize {
        if self.g.csum {
            12
        } else {
            0
        }
    }

    /// A record that fills a 64 KiB block has two encodings.
    fn whole_block(&self, ino: u32, d: &mut [u8]) {
        if d.len() == 65536 && r16(d, 4) == 65535 && (ino ^ self.g.hash_seed[0]) & 3 == 0 {
            w16(d, 4, 0);
        }
    }

    pub fn csum_leaf(&self, ino: u32, d: &mut [u8]) {
        self.whole_block(ino, d);
        if !self.g.csum {
            return;
        }
        let n = d.len();
        w32(d, n - 12, 0);
        w16(d, n - 8, 12);
        d[n - 6] = 0;
        d[n - 5] = 0xde;
        let c = crc32c(self.inode_seed(ino), &d[..n - 12]);
        w32(d, n - 4, c);
    }

    pub fn csum_dx(&self, ino: u32, d: &mut [u8], cnt_off: usize) {
        self.whole_block(ino, d);
        if !self.g.csum {
            return;
        }
        let n = d.len();
        w32(d, n - 8, 0);
        let count = usize::from(r16(d, cnt_off + 2));
        let c = crc32c(self.inode_seed(ino), &d[..cnt_off + count * 8]);
        let c = crc32c(c, &d[n - 8..n - 4]);
        let c = crc32c(c, &[0; 4]);
        w32(d, n - 4, c);
    }

    fn put_dirent(d: &mut [u8], o: usize, ino: u32, rec: usize, name: &[u8], ft: u8) {
        let bs = d.len();
        w32(d, o, ino);
        w16(d, o + 4, reclen_enc(rec, bs));
        d[o + 6] = name.len() as u8;
        d[o + 7] = ft;
        d[o + 8..o + 8 + name.len()].copy_from_slice(name);
    }

    fn empty_leaf(&self, ino: u32) -> Vec<u8> {
        let bs = self.g.bs as usize;
        let mut d = vec![0u8; bs];
        let e = bs - self.dir_tail();
        w16(&mut d, 4, reclen_enc(e, bs));
        self.csum_leaf(ino, &mut d);
        d
    }

    fn dir_new_block(&mut self, ino: u32, r: &mut Rng) -> u32 {
        let bs = u64::from(self.g.bs);
        let fb = (self.model.node(ino).size / bs) as u32;
        let got = self.map_new(ino, fb, 1, false, 1, r);
        assert!(got == 1, "sim fs full (dir)");
        self.model.node_mut(ino).size += bs;
        fb
    }

    pub fn init_dir(&mut self, ino: u32, r: &mut Rng) {
        let parent = self.model.dir(ino).parent;
        let fb = self.dir_new_block(ino, r);
        let b = self.bmap(ino, fb).unwrap();
        let bs = self.g.bs as usize;
        let mut d = vec![0u8; bs];
        let e = bs - self.dir_tail();
        Self::put_dirent(&mut d, 0, ino, 12, b".", FT_DIR);
        Self::put_dirent(&mut d, 12, parent, e - 12, b"..", FT_DIR);
        self.csum_leaf(ino, &mut d);
        self.put(b, d);
        self.write_mapping(ino, r);
    }

    fn leaf_insert(&self, d: &mut [u8], name: &[u8], child: u32, ft: u8) -> bool {
        let bs = d.len();
        let end = bs - self.dir_tail();
        let need = dirent_len(name.len());
        let mut o = 0;
        while o < end {
            let rec = reclen_dec(r16(d, o + 4), bs).min(end - o);
            let live = r32(d, o) != 0;
            let usedlen = if live { dirent_len(d[o + 6] as usize) } else { 0 };
            if rec >= usedlen + need {
                if live {
                    w16(d, o + 4, usedlen as u16);
                    Self::put_dirent(d, o + usedlen, child, rec - usedlen, name, ft);
                } else {
                    Self::put_dirent(d, o, child, rec, name, ft);
                }
                return true;
            }
            o += rec;
        }
        false
    }

    fn leaf_remove(&self, d: &mut [u8], name: &[u8]) -> bool {
        let bs = d.len();
        let end = bs - self.dir_tail();
        let mut o = 0;
        let mut prev: Option<usize> = None;
        while o < end {
            let rec = reclen_dec(r16(d, o + 4), bs).min(end - o);
            let nl = d[o + 6] as usize;
            if r32(d, o) != 0 && &d[o + 8..o + 8 + nl] == name {
                match prev {
                    Some(p) => {
                        let pr = reclen_dec(r16(d, p + 4), bs);
                        w16(d, p + 4, reclen_enc(pr + rec, bs));
                    }
                    None => w32(d, o, 0),
                }
                return true;
            }
            prev = Some(o);
            o += rec;
        }
        false
    }

    pub fn hash_of(&self, ver: u8, name: &[u8]) -> u32 {
        dirhash(ver, self.g.hash_unsigned, &self.g.hash_seed, name)
    }

    /// Leaves (file blocks) that may hold `name`.
    fn ht_leaves(&self, ht: &Ht, h: u32) -> Vec<usize> {
        let mut i = ht.leaves.partition_point(|(s, _)| (*s & !1) <= h).max(1) - 1;
        let mut v = vec![i];
        // Entries with an equal hash may precede in a continued chain.
        while i > 0 && ht.leaves[i].0 & 1 == 1 && ht.leaves[i].0 & !1 == h {
            i -= 1;
            v.push(i);
        }
        v
    }

    /// Add an entry on disk and in the model.
    pub fn dir_add(&mut self, dir: u32, name: &[u8], child: u32, r: &mut Rng) {
        let ft = self.model.node(child).ft();
        let old = self.model.dir_mut(dir).entries.insert(name.to_vec(), child);
        assert!(old.is_none(), "dir_add: exists");
        if let Some(ht) = self.lay[&dir].ht.clone() {
            let h = self.hash_of(ht.ver, name);
            let li = *self.ht_leaves(&ht, h).last().unwrap();
            let fb = ht.leaves[li].1;
            let b = self.bmap(dir, fb).unwrap();
            let mut d = self.img.get(b);
            if self.leaf_insert(&mut d, name, child, ft) {
                self.csum_leaf(dir, &mut d);
                self.put(b, d);
                self.probe("htree_insert_in_place");
            } else {
                self.probe("htree_insert_rebuild");
                self.build_htree(dir, &ht, 0, r);
            }
            return;
        }
        let nb = (self.model.node(dir).size / u64::from(self.g.bs)) as u32;
        for fb in 0..nb {
            let b = self.bmap(dir, fb).unwrap();
            let mut d = self.img.get(b);
            if self.leaf_insert(&mut d, name, child, ft) {
                self.csum_leaf(dir, &mut d);
                self.put(b, d);
                return;
            }
        }
        self.probe("dir_grow");
        let fb = self.dir_new_block(dir, r);
        let b = self.bmap(dir, fb).unwrap();
        let mut d = self.empty_leaf(dir);
        assert!(self.leaf_insert(&mut d, name, child, ft));
        self.csum_leaf(dir, &mut d);
        self.put(b, d);
        self.write_mapping(dir, r);
    }

    pub fn dir_del(&mut self, dir: u32, name: &[u8]) -> u32 {
        let child = self.model.dir_mut(dir).entries.remove(name).expect("dir_del: missing");
        let fbs: Vec<u32> = match &self.lay[&dir].ht {
            Some(ht) => {
                let h = self.hash_of(ht.ver, name);
                self.ht_leaves(ht, h).into_iter().map(|i| ht.leaves[i].1).collect()
            }
            None => (0..(self.model.node(dir).size / u64::from(self.g.bs)) as u32).collect(),
        };
        for fb in fbs {
            let b = self.bmap(dir, fb).unwrap();
            let mut d = self.img.get(b);
            if self.leaf_remove(&mut d, name) {
                self.csum_leaf(dir, &mut d);
                self.put(b, d);
                return child;
            }
        }
        panic!("dir_del: entry not on disk: {name:?}");
    }

    /// Change what an entry points at (rename over, ".." update).
    pub fn dir_set(&mut self, dir: u32, name: &[u8], child: u32) {
        let ft = self.model.node(child).ft();
        if name != b".." {
            self.model.dir_mut(dir).entries.insert(name.to_vec(), child);
        }
        let nb = (self.model.node(dir).size / u64::from(self.g.bs)) as u32;
        let bs = self.g.bs as usize;
        for fb in 0..nb {
            let b = self.bmap(dir, fb).unwrap();
            let mut d = self.img.get(b);
            let is_root = fb == 0 && self.lay[&dir].ht.is_some();
            let end = if is_root { 24 } else { bs - self.dir_tail() };
            let mut o = 0;
            while o < end {
                let rec = reclen_dec(r16(&d, o + 4), bs);
                let nl = d[o + 6] as usize;
                if r32(&d, o) != 0 && &d[o + 8..o + 8 + nl] == name {
                    w32(&mut d, o, child);
                    d[o + 7] = ft;
                    if is_root {
                        self.csum_dx(dir, &mut d, 0x20);
                    } else {
                        self.csum_leaf(dir, &mut d);
                    }
                    self.put(b, d);
                    return;
                }
                if rec == 0 {
                    break;
                }
                o += rec;
            }
        }
        panic!("dir_set: missing");
    }

    /// Turn a directory into (or rebuild it as) a hash tree.
    pub fn build_htree(&mut self, dir: u32, p: &Ht, pad: usize, r: &mut Rng) {
        let bs = self.g.bs as usize;
        let leaf_cap = bs - self.dir_tail();
        let tail8 = if self.g.csum { 8 } else { 0 };
        let root_lim = (bs - 0x20 - tail8) / 8;
        let node_lim = (bs - 8 - tail8) / 8;
        let mut es: Vec<(u32, Vec<u8>, u32, u8)> = self
            .model
            .dir(dir)
            .entries
            .iter()
            .map(|(n, c)| (self.hash_of(p.ver, n), n.clone(), *c, self.model.node(*c).ft()))
            .collect();
        es.sort_by(|a, b| a.0.cmp(&b.0).then_with(|| mix2(7, crate::hash::fnv(&a.1)).cmp(&mix2(7, crate::hash::fnv(&b.1)))));
        let mut fill = (p.fill as usize).clamp(1, 100);
        let mut fan = (p.fan as usize).clamp(2, node_lim);
        // Extra leaves, empty or not: their hashes are those of names, or
        // next to them, or any.
        let pads: Vec<u32> = (0..if es.is_empty() { 0 } else { pad })
            .map(|_| {
                let any = r.next() as u32;
                let h = if r.chance(1, 3) { es[r.idx(es.len())].0.wrapping_add([0, 0, 2][r.idx(3)]) } else { any };
                h & !1
            })
            .filter(|h| *h != 0 && *h < 0xffff_fffc)
            .collect();
        // Partition into leaves.
        let (leaves, depth) = loop {
            let mut leaves: Vec<(u32, Vec<usize>)> = Vec::new();
            let mut cur: Vec<usize> = Vec::new();
            let mut len = 0;
            let budget = (leaf_cap * fill / 100).max(264);
            for (i, e) in es.iter().enumerate() {
                let l = dirent_len(e.1.len());
                let between = p.split && i > 0 && es[i - 1].0 == e.0;
                if !cur.is_empty() && (len + l > leaf_cap || len + l > budget || between) {
                    leaves.push((0, std::mem::take(&mut cur)));
                    len = 0;
                }
                cur.push(i);
                len += l;
            }
            leaves.push((0, cur));
            let mut prev_last: Option<u32> = None;
            for (k, (h, v)) in leaves.iter_mut().enumerate() {
                if k > 0 {
                    let f = es[v[0]].0;
                    *h = f | u32::from(prev_last == Some(f));
                }
                if let Some(l) = v.last() {
                    prev_last = Some(es[*l].0);
                }
            }
            for h in &pads {
                // Divide the leaf that this hash belongs to.
                let k = leaves.partition_point(|(b, _)| b <= h) - 1;
                if leaves[k].0 & !1 == *h {
                    continue;
                }
                let at = leaves[k].1.partition_point(|e| es[*e].0 < *h);
                let rest = leaves[k].1.split_off(at);
                leaves.insert(k + 1, (*h, rest));
            }
            let depth: u8 = if p.depth == 0 && leaves.len() <= root_lim { 0 } else { 1 };
            if depth == 0 || leaves.len() <= root_lim * fan {
                break (leaves, depth);
            }
            if fan < node_lim {
                fan = (fan * 2).min(node_lim);
            } else {
                fill = (fill * 2).min(100);
            }
        };
        if leaves.len() > 500 {
            self.probe("htree_over_500_leaves");
        }
        if leaves.iter().any(|(h, _)| h & 1 == 1) {
            self.probe("htree_collision_split");
        }
        self.probe(if depth == 0 { "htree_depth_0" } else { "htree_depth_1" });
        let ninner = if depth == 0 { 0 } else { leaves.len().div_ceil(fan) };
        let total = 1 + ninner + leaves.len();
        // Block roles are shuffled over the file, except the root.
        let mut order: Vec<u32> = (1..total as u32).collect();
        for i in (1..order.len()).rev() {
            let j = r.idx(i + 1);
            order.swap(i, j);
        }
        while self.model.node(dir).size < (total * bs) as u64 {
            self.dir_new_block(dir, r);
        }
        let have = (self.model.node(dir).size / bs as u64) as u32;
        let inner: Vec<u32> = order[..ninner].to_vec();
        let leaf_fb: Vec<u32> = order[ninner..].to_vec();
        // Leaves.
        for (k, (_, v)) in leaves.iter().enumerate() {
            let mut d = self.empty_leaf(dir);
            for i in v {
                let (_, n, c, ft) = &es[*i];
                assert!(self.leaf_insert(&mut d, n, *c, *ft), "htree leaf overflow");
            }
            self.csum_leaf(dir, &mut d);
            let b = self.bmap(dir, leaf_fb[k]).unwrap();
            self.put(b, d);
        }
        if total < have as usize {
            // Fewer blocks than before: give the rest back.
            self.unmap(dir, total as u32, u64::from(have) - total as u64, true);
            self.set_size(dir, (total * bs) as u64);
        }
        let dx = |d: &mut [u8], off: usize, lim: usize, es: &[(u32, u32)]| {
            w16(d, off, lim as u16);
            w16(d, off + 2, es.len() as u16);
            for (i, (h, b)) in es.iter().enumerate() {
                if i > 0 {
                    w32(d, off + i * 8, *h);
                }
                w32(d, off + i * 8 + 4, *b);
            }
        };
        let le: Vec<(u32, u32)> = leaves.iter().zip(&leaf_fb).map(|((h, _), b)| (*h, *b)).collect();
        let mut top: Vec<(u32, u32)> = le.clone();
        if depth == 1 {
            top.clear();
            for (k, ch) in le.chunks(fan).enumerate() {
                let mut d = vec![0u8; bs];
                w16(&mut d, 4, reclen_enc(bs, bs));
                dx(&mut d, 8, node_lim, ch);
                self.csum_dx(dir, &mut d, 8);
                let b = self.bmap(dir, inner[k]).unwrap();
                self.put(b, d);
                top.push((ch[0].0, inner[k]));
            }
        }
        let mut d = vec![0u8; bs];
        let parent = self.model.dir(dir).parent;
        Self::put_dirent(&mut d, 0, dir, 12, b".", FT_DIR);
        Self::put_dirent(&mut d, 12, parent, bs - 12, b"..", FT_DIR);
        d[0x1c] = p.ver;
        d[0x1d] = 8;
        d[0x1e] = depth;
        dx(&mut d, 0x20, root_lim, &top);
        self.csum_dx(dir, &mut d, 0x20);
        let b = self.bmap(dir, 0).unwrap();
        self.put(b, d);
        let l = self.lay.get_mut(&dir).unwrap();
        l.flags |= FL_INDEX;
        l.ht = Some(Ht { ver: p.ver, depth, leaves: le, fan: fan as u32, fill: fill as u32, split: p.split });
        self.write_mapping(dir, r);
    }

    // ------------------------------------------------ high-level operations

    pub fn mkdir(&mut self, parent: u32, name: &[u8], perm: u16, uid: u32, gid: u32, r: &mut Rng) -> Option<u32> {
        let ino = self.alloc_inode(r)?;
        self.new_dir_node(ino, parent, perm, uid, gid, 0);
        self.init_dir(ino, r);
        self.dir_add(parent, name, ino, r);
        self.model.node_mut(parent).nlink += 1;
        self.write_inode(parent);
        Some(ino)
    }

    pub fn create(&mut self, parent: u32, name: &[u8], perm: u16, uid: u32, gid: u32, kind: Kind, ext: bool, r: &mut Rng) -> Option<u32> {
        let ino = self.alloc_inode(r)?;
        let ext = ext && self.g.extents;
        let mut flags = 0;
        let layout = match &kind {
            Kind::Link(t) if t.len() <= 59 => Layout::Inline(t.clone()),
            Kind::Chr(v) | Kind::Blk(v) => Layout::Dev(*v),
            Kind::Fifo | Kind::Sock => Layout::None,
            _ if ext => {
                flags = FL_EXTENTS;
                let mut l = self.empty_ext(4);
                if let Layout::Ext { fan, root_fan, min_depth, .. } = &mut l {
                    if matches!(kind, Kind::Reg(_)) && r.chance(1, 2) {
                        *fan = r.range(1, 4) as u32;
                        *root_fan = r.range(1, 4) as u32;
                        *min_depth = r.skewed(5) as u16;
                    }
                }
                l
            }
            _ => Layout::Map { map: BTreeMap::new(), inds: vec![] },
        };
        let long = match &kind {
            Kind::Link(t) if t.len() > 59 => Some(t.clone()),
            _ => None,
        };
        self.add_node(ino, perm, uid, gid, kind, layout, flags);
        if let Some(t) = long {
            let bs = self.g.bs as usize;
            assert!(t.len() < bs);
            let got = self.map_new(ino, 0, 1, false, 1, r);
            assert!(got == 1, "sim fs full");
            let b = self.bmap(ino, 0).unwrap();
            let mut d = vec![0u8; bs];
            d[..t.len()].copy_from_slice(&t);
            self.put(b, d);
        }
        self.write_mapping(ino, r);
        self.dir_add(parent, name, ino, r);
        Some(ino)
    }

    pub fn link(&mut self, parent: u32, name: &[u8], ino: u32, r: &mut Rng) {
        self.model.node_mut(ino).nlink += 1;
        self.write_inode(ino);
        self.dir_add(parent, name, ino, r);
    }

    fn drop_inode(&mut self, ino: u32, garbage: bool) {
        let is_file = matches!(self.model.node(ino).kind, Kind::Reg(_));
        let jd = self.lay[&ino].jdata;
        let (data, meta) = self.all_blocks(ino);
        for (s, n) in data {
            self.free(s, n, !is_file || jd);
        }
        for b in meta {
            self.free(b, 1, true);
        }
        self.clear_inode(ino, garbage);
        self.model.nodes.remove(&ino);
        self.lay.remove(&ino);
    }

    /// unlink or rmdir (the directory must be empty).
    pub fn remove(&mut self, parent: u32, name: &[u8], garbage: bool) {
        let c = self.dir_del(parent, name);
        if self.model.node(c).is_dir() {
            self.model.node_mut(parent).nlink -= 1;
            self.write_inode(parent);
            self.drop_inode(c, garbage);
        } else {
            let n = self.model.node_mut(c);
            n.nlink -= 1;
            if n.nlink == 0 {
                self.drop_inode(c, garbage);
            } else {
                self.write_inode(c);
            }
        }
    }

    pub fn rename(&mut self, p1: u32, n1: &[u8], p2: u32, n2: &[u8], r: &mut Rng) {
        let c = self.model.dir(p1).entries[n1];
        let isdir = self.model.node(c).is_dir();
        if let Some(old) = self.model.dir(p2).entries.get(n2).copied() {
            if old == c {
                return;
            }
            self.dir_del(p1, n1);
            self.dir_set(p2, n2, c);
            if self.model.node(old).is_dir() {
                self.model.node_mut(p2).nlink -= 1;
                self.drop_inode(old, true);
            } else {
                let n = self.model.node_mut(old);
                n.nlink -= 1;
                if n.nlink == 0 {
                    self.drop_inode(old, true);
                } else {
                    self.write_inode(old);
                }
            }
        } else {
            self.dir_del(p1, n1);
            self.dir_add(p2, n2, c, r);
        }
        if isdir && p1 != p2 {
            self.dir_set(c, b"..", p2);
            self.model.dir_mut(c).parent = p2;
            self.model.node_mut(p1).nlink -= 1;
            self.model.node_mut(p2).nlink += 1;
        }
        self.write_inode(p1);
        self.write_inode(p2);
    }

    pub fn set_attr(&mut self, ino: u32, perm: u16, uid: u32, gid: u32) {
        let n = self.model.node_mut(ino);
        n.perm = perm;
        n.uid = uid;
        n.gid = gid;
        self.write_inode(ino);
    }

    // ------------------------------------------------- groups & superblock

    pub fn bgd_addr(&self, i: u32) -> u64 {
        let per = self.g.bs / u32::from(self.g.desc);
        (self.g.gdt_start() + u64::from(i / per)) * u64::from(self.g.bs) + u64::from(i % per) * u64::from(self.g.desc)
    }

    pub fn csum_bgd(&self, i: u32, d: &mut [u8]) {
        if !self.g.csum {
            if self.g.ro_compat & R_GDT_CSUM != 0 {
                let c = crc16(!0, &self.g.uuid);
                let c = crc16(c, &i.to_le_bytes());
                let mut c = crc16(c, &d[..0x1e]);
                if d.len() > 32 {
                    c = crc16(c, &d[0x20..]);
                }
                w16(d, 0x1e, c);
            }
            return;
        }
        w16(d, 0x1e, 0);
        let c = crc32c(self.g.seed(), &i.to_le_bytes());
        let c = crc32c(c, d);
        w16(d, 0x1e, c as u16);
    }

    fn render_group(&mut self, i: u32) -> Vec<u8> {
        let gr = self.groups[i as usize].clone();
        let mut d = vec![0u8; self.g.desc as usize];
        let bs = self.g.bs as usize;
        let gdt_csum = self.g.csum || self.g.ro_compat & R_GDT_CSUM != 0;
        let mut flags = if gdt_csum { 4u16 } else { 0 };
        let (mut fb, mut fi, mut dirs) = (0u32, self.g.ipg, 0u32);
        let mut unused = 0u32;
        let mut sums = (0u32, 0u32);
        if gr.live {
            let f = self.g.group_first(i);
            let len = self.g.group_len(i);
            let mut bm = vec![0u8; bs];
            let mut set = |a: u64, b: u64| {
                for k in a..b {
                    bm[(k / 8) as usize] |= 1 << (k % 8);
                }
            };
            fb = len;
            let (s, e) = (f, f + u64::from(len));
            let mut p = s;
            while let Some(a) = self.used.first_in(p, e) {
                let b = self.used.end_of(a).min(e);
                set(a - f, b - f);
                fb -= (b - a) as u32;
                p = b;
                if p >= e {
                    break;
                }
            }
            set(u64::from(len), (bs as u64) * 8);
            let mut im = vec![0u8; bs];
            let lo = i * self.g.ipg + 1;
            let mut last = 0;
            for ino in self.iused.range(lo..lo + self.g.ipg) {
                let k = ino - lo;
                im[(k / 8) as usize] |= 1 << (k % 8);
                fi -= 1;
                last = k + 1;
                if self.model.nodes.get(ino).is_some_and(|n| n.is_dir()) {
                    dirs += 1;
                }
            }
            if gdt_csum {
                unused = self.g.ipg - last;
            }
            for k in self.g.ipg..(bs as u32) * 8 {
                im[(k / 8) as usize] |= 1 << (k % 8);
            }
            if self.g.csum {
                sums.0 = crc32c(self.g.seed(), &bm[..self.g.bpg as usize / 8]);
                sums.1 = crc32c(self.g.seed(), &im[..self.g.ipg as usize / 8]);
            }
            self.put(gr.bb, bm);
            self.put(gr.ib, im);
        } else {
            flags |= 3;
        }
        w32(&mut d, 0, gr.bb as u32);
        w32(&mut d, 4, gr.ib as u32);
        w32(&mut d, 8, gr.it as u32);
        w16(&mut d, 0xc, fb as u16);
        w16(&mut d, 0xe, fi as u16);
        w16(&mut d, 0x10, dirs as u16);
        w16(&mut d, 0x12, flags);
        w16(&mut d, 0x18, sums.0 as u16);
        w16(&mut d, 0x1a, sums.1 as u16);
        w16(&mut d, 0x1c, unused as u16);
        if self.g.is64 {
            w32(&mut d, 0x20, (gr.bb >> 32) as u32);
            w32(&mut d, 0x24, (gr.ib >> 32) as u32);
            w32(&mut d, 0x28, (gr.it >> 32) as u32);
            w16(&mut d, 0x2c, (fb >> 16) as u16);
            w16(&mut d, 0x2e, (fi >> 16) as u16);
            w16(&mut d, 0x30, (dirs >> 16) as u16);
            w16(&mut d, 0x32, (unused >> 16) as u16);
            w16(&mut d, 0x38, (sums.0 >> 16) as u16);
            w16(&mut d, 0x3a, (sums.1 >> 16) as u16);
        }
        self.csum_bgd(i, &mut d);
        d
    }

    pub fn render_sb(&self) -> Vec<u8> {
        let g = &self.g;
        let mut d = vec![0u8; 1024];
        let ng = g.ngroups();
        w32(&mut d, 0, ng.wrapping_mul(g.ipg));
        w32(&mut d, 4, g.blocks as u32);
        let free = self.free_blocks();
        w32(&mut d, 0xc, free as u32);
        w32(&mut d, 0x10, ng.wrapping_mul(g.ipg).wrapping_sub(self.iused.len() as u32));
        w32(&mut d, 0x14, g.first);
        w32(&mut d, 0x18, g.bs.trailing_zeros() - 10);
        w32(&mut d, 0x1c, g.bs.trailing_zeros() - 10);
        w32(&mut d, 0x20, g.bpg);
        w32(&mut d, 0x24, g.bpg);
        w32(&mut d, 0x28, g.ipg);
        w32(&mut d, 0x2c, 1_600_000_000);
        w32(&mut d, 0x30, 1_600_000_001);
        w16(&mut d, 0x34, 1);
        w16(&mut d, 0x36, 0xffff);
        w16(&mut d, 0x38, 0xef53);
        w16(&mut d, 0x3a, 1);
        w16(&mut d, 0x3c, 1);
        w32(&mut d, 0x40, 1_600_000_000);
        w32(&mut d, 0x48, g.creator);
        w32(&mut d, 0x4c, 1);
        w32(&mut d, 0x54, 11);
        w16(&mut d, 0x58, g.isize);
        let mut compat = g.compat;
        let mut incompat = g.incompat();
        if g.journal {
            compat |= C_HAS_JOURNAL;
            if self.recover {
                incompat |= I_RECOVER;
            }
            w32(&mut d, 0xe0, self.jino);
        }
        w32(&mut d, 0x5c, compat);
        w32(&mut d, 0x60, incompat);
        w32(&mut d, 0x64, g.ro_compat);
        d[0x68..0x78].copy_from_slice(&g.uuid);
        d[0x78..0x88].copy_from_slice(&g.label);
        for i in 0..4 {
            w32(&mut d, 0xec + 4 * i, g.hash_seed[i]);
        }
        d[0xfc] = g.hash_ver;
        w16(&mut d, 0xce, g.resgdt as u16);
        w16(&mut d, 0xfe, if g.is64 { g.desc } else { 0 });
        w32(&mut d, 0x108, 1_600_000_000);
        w32(&mut d, 0x150, (g.blocks >> 32) as u32);
        w32(&mut d, 0x158, (free >> 32) as u32);
        if g.isize > 128 {
            w16(&mut d, 0x15c, g.extra_isize);
            w16(&mut d, 0x15e, g.extra_isize);
        }
        w32(&mut d, 0x160, if g.hash_unsigned { 2 } else { 1 });
        d[0x174] = if g.flex { 4 } else { 0 };
        if g.csum {
            d[0x175] = 1;
        }
        if let Some(s) = g.csum_seed {
            w32(&mut d, 0x270, s);
        }
        csum_sb(&mut d, g.csum);
        d
    }

    pub fn sb_block(&self) -> (u64, usize) {
        if self.g.bs == 1024 {
            (1, 0)
        } else {
            (0, 1024)
        }
    }

    /// Bring bitmaps, descriptors and superblock in the image up to date.
    pub fn sync(&mut self) {
        for i in std::mem::take(&mut self.dgroups) {
            let d = self.render_group(i);
            self.put_bgd(i, &d);
        }
        if self.sb_dirty {
            self.sb_dirty = false;
            let sb = self.render_sb();
            let (b, o) = self.sb_block();
            let mut blk = match self.img.map.get(&b) {
                Some(Blk::Raw(d)) => (**d).clone(),
                _ => vec![0; self.g.bs as usize],
            };
            blk[o..o + 1024].copy_from_slice(&sb);
            self.put(b, blk);
        }
    }

    fn put_bgd(&mut self, i: u32, d: &[u8]) {
        let a = self.bgd_addr(i);
        let bs = u64::from(self.g.bs);
        let (b, o) = (a / bs, (a % bs) as usize);
        let mut blk = match self.img.map.get(&b) {
            Some(Blk::Raw(d)) => (**d).clone(),
            _ => vec![0; bs as usize],
        };
        blk[o..o + d.len()].copy_from_slice(d);
        self.put(b, blk);
    }

    /// First full write-out: every descriptor, backups included.
    pub fn finish_mkfs(&mut self, backups: bool) {
        let ng = self.g.ngroups();
        if self.g.lazy {
            let bs = self.g.bs as usize;
            let per = self.g.bs / u32::from(self.g.desc);
            let mut blk = vec![0u8; bs];
            for i in 0..ng {
                let d = self.render_group(i);
                let o = ((i % per) * u32::from(self.g.desc)) as usize;
                blk[o..o + d.len()].copy_from_slice(&d);
                if i % per == per - 1 || i == ng - 1 {
                    let b = self.g.gdt_start() + u64::from(i / per);
                    self.put(b, std::mem::replace(&mut blk, vec![0u8; bs]));
                }
            }
            self.dgroups.clear();
        } else {
            self.dgroups.extend(0..ng);
        }
        self.sb_dirty = true;
        self.sync();
        if backups && !self.g.lazy {
            for i in 1..ng {
                if !self.g.has_super(i) {
                    continue;
                }
                let f = self.g.group_first(i);
                let mut sb = self.render_sb();
                w16(&mut sb, 0x5a, i as u16);
                csum_sb(&mut sb, self.g.csum);
                let mut blk = vec![0u8; self.g.bs as usize];
                blk[..1024].copy_from_slice(&sb);
                if f < self.g.blocks {
                    self.img.put(f, blk);
                }
                for k in 0..self.g.gdt_blocks() {
                    let d = self.img.get(self.g.gdt_start() + k);
                    if f + 1 + k < self.g.blocks {
                        self.img.put(f + 1 + k, d);
                    }
                }
            }
        }
    }
}

pub fn csum_sb(d: &mut [u8], csum: bool) {
    if csum {
        let c = crc32c(!0, &d[..0x3fc]);
        w32(d, 0x3fc, c);
    }
}

impl Fs {
    /// File block of a directory that holds the entry `name`.
    pub fn entry_block(&self, dir: u32, name: &[u8]) -> Option<u32> {
        let n = (self.model.node(dir).size / u64::from(self.g.bs)) as u32;
        for fb in 0..n {
            let Some(b) = self.bmap(dir, fb) else { continue };
            if self.find_in_block(&self.img.get(b), name).is_some() {
                return Some(fb);
            }
        }
        None
    }

    /// Offset of a live entry in a directory block.
    pub fn find_in_block(&self, d: &[u8], name: &[u8]) -> Option<usize> {
        let bs = d.len();
        let mut o = 0;
        while o + 8 <= bs {
            let l = reclen_dec(r16(d, o + 4), bs);
            if l < 8 || o + l > bs {
                return None;
            }
            let nl = usize::from(d[o + 6]);
            if r32(d, o) != 0 && nl == name.len() && &d[o + 8..o + 8 + nl] == name {
                return Some(o);
            }
            o += l;
        }
        None
    }

    /// Index nodes a lookup passes (file blocks, the root first), and the
    /// leaf where the hash of `name` begins.
    pub fn ht_path(&self, dir: u32, name: &[u8]) -> (Vec<u32>, u32) {
        let ht = self.lay[&dir].ht.as_ref().unwrap();
        let h = self.hash_of(ht.ver, name);
        let mut nodes = vec![0u32];
        let root = self.img.get(self.bmap(dir, 0).unwrap());
        let pick = |d: &[u8], off: usize| -> u32 {
            let n = usize::from(r16(d, off + 2));
            let mut b = r32(d, off + 4);
            for i in 1..n {
                if r32(d, off + 8 * i) <= h {
                    b = r32(d, off + 8 * i + 4);
                }
            }
            b
        };
        let mut next = pick(&root, 0x20);
        for _ in 0..root[0x1e] {
            nodes.push(next);
            let d = self.img.get(self.bmap(dir, next).unwrap());
            next = pick(&d, 8);
        }
        // The leaf that really holds it may be a continuation.
        (nodes, self.entry_block(dir, name).unwrap_or(next))
    }
}
