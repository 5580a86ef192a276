//! A journaling writer (jbd2, checksum v3) over a disk with a volatile write
//! cache. It decides what reaches the medium and when; a crash leaves any
//! subset of the unflushed sectors behind.

use crate::disk::{fill_pat, Blk, Image};
use crate::fsw::*;
use crate::hash::crc32c;
use crate::model::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const MAGIC: u32 = 0xc03b_3998;
pub const JI_REVOKE: u32 = 1;
pub const JI_64BIT: u32 = 2;
pub const JI_CSUM_V3: u32 = 0x10;

pub fn b32(d: &mut [u8], o: usize, v: u32) {
    d[o..o + 4].copy_from_slice(&v.to_be_bytes());
}
pub fn g32(d: &[u8], o: usize) -> u32 {
    u32::from_be_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]])
}

#[derive(Clone)]
struct W {
    b: u64,
    d: Blk,
    atomic: bool,
}

/// One transaction as it was handed to the log.
#[derive(Clone)]
pub struct Tx {
    pub tid: u32,
    /// (log block, expected bytes, what it is)
    pub log: Vec<(u32, Rc<Vec<u8>>, &'static str)>,
    pub after: Rc<Fs>,
    pub nrev: usize,
    pub ndesc: usize,
    pub touched: Vec<u64>,
    /// A home write of this transaction was submitted.
    pub home: bool,
    /// Recognised as committed by the writer.
    pub committed: bool,
    pub wrapped: bool,
}

#[derive(Clone)]
pub struct JCfg {
    pub tags_per_desc: usize,
    pub revokes_per_block: usize,
    pub seq: u32,
    pub uuid: [u8; 16],
    pub incompat: u32,
    /// Freed blocks are reused only once the freeing transaction is
    /// checkpointed (so that log damage cannot meet reused blocks).
    pub strict_reuse: bool,
    /// A revoked block is also logged, as it last was, in the transaction
    /// that revokes it.
    pub stale_log: bool,
    /// Transactions of revokes only, of blocks not in use.
    pub lone_revokes: bool,
}

#[derive(Clone)]
pub struct Jbd {
    pub cfg: JCfg,
    pub medium: Image,
    pend: Vec<W>,
    /// Journal file block -> device block.
    pub jb: Vec<u64>,
    pub head: u32,
    pub tail: u32,
    pub seq: u32,
    pub tail_seq: u32,
    flushed: bool,
    ckpt: BTreeMap<u64, (u32, Blk)>,
    pub txs: Vec<Tx>,
    /// State at mount (before the first transaction of this mount).
    pub base: Rc<Fs>,
    held_by: Vec<(u32, u64, u64)>,
    pub events: u64,
    pub crash_at: Option<u64>,
    pub crashed: bool,
    pub stats: BTreeMap<&'static str, u64>,
    pub overflow: bool,
    /// The last recovery came upon a superblock not of that state.
    sb_stale: bool,
}

impl Fs {
    /// Allocate the journal file (before finish_mkfs).
    pub fn make_journal(&mut self, blocks: u32, r: &mut Rng) -> bool {
        let ext = self.g.extents && r.chance(4, 5);
        let layout = if ext { self.empty_ext(4) } else { Layout::Map { map: BTreeMap::new(), inds: vec![] } };
        let j = self.jino;
        self.add_node(j, 0o600, 0, 0, Kind::Reg(BTreeMap::new()), layout, if ext { FL_EXTENTS } else { 0 });
        self.g.journal = true;
        let piece = *r.pick(&[1u32, 3, 17, 100_000, 100_000, 100_000]);
        let got = self.map_new(j, 0, blocks, false, piece, r);
        if got < blocks {
            return false;
        }
        self.set_size(j, u64::from(blocks) * u64::from(self.g.bs));
        self.write_mapping(j, r);
        true
    }
}

fn to_bytes(bs: usize, d: &Blk) -> Rc<Vec<u8>> {
    match d {
        Blk::Raw(r) => r.clone(),
        Blk::Pat(t) => {
            let mut v = vec![0; bs];
            fill_pat(*t, 0, &mut v);
            Rc::new(v)
        }
    }
}

pub fn render_jsb(bs: u32, maxlen: u32, seq: u32, start: u32, cfg: &JCfg) -> Vec<u8> {
    let mut d = vec![0u8; bs as usize];
    b32(&mut d, 0, MAGIC);
    b32(&mut d, 4, 4);
    b32(&mut d, 0xc, bs);
    b32(&mut d, 0x10, maxlen);
    b32(&mut d, 0x14, 1);
    b32(&mut d, 0x18, seq);
    b32(&mut d, 0x1c, start);
    b32(&mut d, 0x28, cfg.incompat);
    d[0x30..0x40].copy_from_slice(&cfg.uuid);
    b32(&mut d, 0x40, 1);
    d[0x50] = 4;
    csum_jsb(&mut d);
    d
}

pub fn csum_jsb(d: &mut [u8]) {
    b32(d, 0xfc, 0);
    let c = crc32c(!0, &d[..1024]);
    b32(d, 0xfc, c);
}

impl Jbd {
    /// Take over a freshly made filesystem: everything durable, log empty.
    pub fn new(fs: &mut Fs, cfg: JCfg, r: &mut Rng) -> Jbd {
        let n = (fs.model.node(fs.jino).size / u64::from(fs.g.bs)) as u32;
        let jb: Vec<u64> = (0..n).map(|i| fs.bmap(fs.jino, i).unwrap()).collect();
        // What lies in the log area from before.
        let mode = r.below(3);
        for b in jb.iter().skip(1) {
            match mode {
                0 => fs.img.put(*b, vec![0; fs.g.bs as usize]),
                1 => {
                    // Leftovers that look like journal blocks of other times.
                    let mut v = vec![0u8; fs.g.bs as usize];
                    fill_pat(r.next() >> 2, 0, &mut v);
                    if r.chance(1, 2) {
                        b32(&mut v, 0, MAGIC);
                        b32(&mut v, 4, *r.pick(&[1u32, 2, 5]));
                        b32(&mut v, 8, cfg.seq.wrapping_sub(1 + r.below(50) as u32));
                    }
                    fs.img.put(*b, v);
                }
                _ => {}
            }
        }
        fs.defer_free = true;
        fs.dirty.clear();
        fs.data_dirty.clear();
        fs.freed_meta.clear();
        fs.freed.clear();
        fs.held = Ranges::default();
        let seq = cfg.seq;
        let jsb = render_jsb(fs.g.bs, n, seq, 0, &cfg);
        fs.img.put(jb[0], jsb);
        let mut j = Jbd {
            cfg,
            medium: fs.img.clone(),
            pend: Vec::new(),
            jb,
            head: 1,
            tail: 1,
            seq,
            tail_seq: seq,
            flushed: true,
            ckpt: BTreeMap::new(),
            txs: Vec::new(),
            base: Rc::new(fs.clone()),
            held_by: Vec::new(),
            events: 0,
            crash_at: None,
            crashed: false,
            stats: BTreeMap::new(),
            overflow: false,
            sb_stale: false,
        };
        j.set_recover(fs, true);
        j
    }

    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn bs(&self) -> usize {
        self.medium.bs
    }
    pub fn len(&self) -> u32 {
        self.jb.len() as u32
    }

    /// The mounted-with-journal flag of the ext4 superblock (direct write).
    fn set_recover(&mut self, fs: &mut Fs, on: bool) {
        fs.recover = on;
        fs.sb_dirty = true;
        fs.sync();
        let (b, _) = fs.sb_block();
        let d = fs.img.map[&b].clone();
        fs.dirty.remove(&b);
        self.medium.map.insert(b, d);
        self.base = Rc::new(fs.clone());
    }

    // ---------------------------------------------------------- the device

    fn event(&mut self) -> bool {
        if self.crashed {
            return false;
        }
        self.events += 1;
        if Some(self.events) == self.crash_at {
            self.crashed = true;
        }
        !self.crashed
    }
    fn submit(&mut self, b: u64, d: Blk, atomic: bool) {
        if self.crashed {
            return;
        }
        // A crash "at" a write may still leave (part of) it behind.
        self.pend.push(W { b, d, atomic });
        self.event();
    }
    fn flush(&mut self) {
        if !self.event() {
            return;
        }
        for w in std::mem::take(&mut self.pend) {
            self.medium.map.insert(w.b, w.d);
        }
    }
    /// Forced unit access: only this write (and earlier ones to the same
    /// block) becomes durable.
    fn fua(&mut self, b: u64, d: Blk, atomic: bool) {
        self.submit(b, d.clone(), atomic);
        if !self.crashed {
            self.pend.retain(|w| w.b != b);
            self.medium.map.insert(b, d);
        }
    }

    /// Power loss: each unflushed write is lost, kept or torn.
    /// All submitted writes reach the medium.
    pub fn settle(&mut self) {
        for w in std::mem::take(&mut self.pend) {
            self.medium.map.insert(w.b, w.d);
        }
    }

    pub fn crash(&mut self, r: &mut Rng) {
        self.crashed = true;
        let bs = self.bs();
        let style = r.below(5);
        let pend = std::mem::take(&mut self.pend);
        let n = pend.len();
        for (i, w) in pend.into_iter().enumerate() {
            let keep = match style {
                0 => 0,
                1 => 2,
                2 => u64::from(i * 2 < n) * 2,
                _ => r.below(3),
            };
            let keep = if w.atomic && keep == 1 { 2 } else { keep };
            match keep {
                0 => self.stat("write_lost"),
                2 => {
                    self.medium.map.insert(w.b, w.d);
                    self.stat("write_survived_unflushed");
                }
                _ => {
                    let new = to_bytes(bs, &w.d);
                    let mut old = self.medium.get(w.b);
                    let mut s = 0;
                    let cut = r.idx(bs / 512 + 1);
                    let prefix = r.chance(1, 2);
                    while s < bs / 512 {
                        let take = if prefix { s < cut } else { r.chance(1, 2) };
                        if take {
                            old[s * 512..s * 512 + 512].copy_from_slice(&new[s * 512..s * 512 + 512]);
                        }
                        s += 1;
                    }
                    self.medium.map.insert(w.b, Blk::Raw(Rc::new(old)));
                    self.stat("write_torn");
                }
            }
        }
        self.undo_collisions();
        self.stat("crash");
    }

    /// Two versions of a block that ends in its own crc32c (the superblock,
    /// an extent block of one file) have the same crc32c as a whole, so no
    /// reader of the log can tell one from the other. Such a write is taken
    /// to have survived.
    fn undo_collisions(&mut self) {
        let mut last: BTreeMap<u32, Rc<Vec<u8>>> = BTreeMap::new();
        for t in &self.txs {
            for (l, d, _) in &t.log {
                last.insert(*l, d.clone());
            }
        }
        for (l, d) in last {
            let b = self.jb[l as usize];
            let now = self.medium.get(b);
            if now != *d && crc32c(!0, &now) == crc32c(!0, &d) {
                self.medium.map.insert(b, Blk::Raw(d));
                self.stat("collision_undone");
            }
        }
    }

    // -------------------------------------------------------------- the log

    pub fn used(&self) -> u32 {
        if self.head >= self.tail {
            self.head - self.tail
        } else {
            self.len() - 1 - (self.tail - self.head)
        }
    }
    /// Log blocks that may be written (one is never filled).
    pub fn free_log(&self) -> u32 {
        if self.flushed {
            self.len() - 2
        } else {
            self.len() - 2 - self.used()
        }
    }
    fn next_log(&mut self) -> u32 {
        let h = self.head;
        self.head += 1;
        if self.head >= self.len() {
            self.head = 1;
        }
        h
    }
    fn hdr(&self, ty: u32) -> Vec<u8> {
        let mut d = vec![0u8; self.bs()];
        b32(&mut d, 0, MAGIC);
        b32(&mut d, 4, ty);
        b32(&mut d, 8, self.seq);
        d
    }
    pub fn seed(&self) -> u32 {
        crc32c(!0, &self.cfg.uuid)
    }
    fn tail_csum(&self, d: &mut [u8]) {
        let n = d.len();
        b32(d, n - 4, 0);
        let c = crc32c(self.seed(), d);
        b32(d, n - 4, c);
    }

    fn log_write(&mut self, tx: &mut Tx, d: Vec<u8>, what: &'static str) {
        let l = self.next_log();
        if l == 1 && !tx.log.is_empty() {
            tx.wrapped = true;
        }
        let d = Rc::new(d);
        tx.log.push((l, d.clone(), what));
        if what == "commit" {
            // PREFLUSH + FUA.
            self.flush();
            self.fua(self.jb[l as usize], Blk::Raw(d), false);
        } else {
            self.submit(self.jb[l as usize], Blk::Raw(d), false);
        }
    }

    pub fn need(&self, fs: &Fs) -> u32 {
        let d = fs.dirty.len() + if self.cfg.stale_log { fs.freed_meta.len() } else { 0 };
        let nd = d.div_ceil(self.cfg.tags_per_desc.max(1));
        let nr = fs.freed_meta.len().div_ceil(self.cfg.revokes_per_block);
        (d + nd + nr + 1 + if self.cfg.lone_revokes { 2 } else { 0 }) as u32
    }

    /// The state after the last transaction.
    fn last(&self) -> Rc<Fs> {
        self.txs.iter().rev().find(|t| t.committed).map_or_else(|| self.base.clone(), |t| t.after.clone())
    }

    fn revoke_block(&self, ch: &[u64]) -> Vec<u8> {
        let mut d = self.hdr(5);
        b32(&mut d, 12, 16 + 8 * ch.len() as u32);
        for (i, b) in ch.iter().enumerate() {
            d[16 + 8 * i..24 + 8 * i].copy_from_slice(&b.to_be_bytes());
        }
        self.tail_csum(&mut d);
        d
    }

    fn commit_block(&self) -> Vec<u8> {
        let mut d = self.hdr(2);
        b32(&mut d, 52, 1_700_000_000 + self.seq % 1000);
        b32(&mut d, 56, self.seq % 999_999_999);
        let c = crc32c(self.seed(), &d);
        b32(&mut d, 16, c);
        d
    }

    /// A transaction that does nothing but revoke blocks nobody uses; the
    /// next one may.
    fn lone_revokes(&mut self, fs: &Fs, r: &mut Rng) {
        let last = self.last();
        let mut free: Vec<u64> =
            fs.dirty.iter().chain(&fs.data_dirty).copied().filter(|b| !last.used.contains(*b) && !last.held.contains(*b)).collect();
        if fs.g.lazy {
            // Free blocks one bit off from blocks in the log.
            for b in self.txs.iter().flat_map(|t| &t.touched) {
                let c = b ^ 1u64 << *r.pick(&[32u64, 32, 31, 24, 16]);
                if c < fs.g.blocks && !last.used.contains(c) && !last.held.contains(c) && r.chance(1, 2) {
                    free.push(c);
                }
            }
        }
        while free.len() > self.cfg.revokes_per_block {
            free.swap_remove(r.idx(free.len()));
        }
        if free.is_empty() {
            return;
        }
        let mut tx = Tx {
            tid: self.seq,
            log: Vec::new(),
            after: last,
            nrev: free.len(),
            ndesc: 0,
            touched: Vec::new(),
            home: false,
            committed: false,
            wrapped: false,
        };
        let d = self.revoke_block(&free);
        self.log_write(&mut tx, d, "revoke");
        let d = self.commit_block();
        self.log_write(&mut tx, d, "commit");
        tx.committed = !self.crashed;
        self.txs.push(tx);
        self.stat("transaction_of_revokes_only");
        if !self.crashed {
            self.seq = self.seq.wrapping_add(1);
        }
    }

    /// Commit everything dirty as one transaction.
    pub fn commit(&mut self, fs: &mut Fs, r: &mut Rng) {
        if self.crashed {
            return;
        }
        fs.sync();
        self.medium.nblocks = self.medium.nblocks.max(fs.img.nblocks);
        let need = self.need(fs);
        if need > self.len() - 2 {
            self.overflow = true;
            return;
        }
        if need > self.free_log() {
            self.checkpoint_all();
            self.update_tail();
        }
        if self.crashed {
            return;
        }
        if self.flushed {
            self.flushed = false;
            self.write_jsb(self.seq, self.head);
            self.tail = self.head;
            self.tail_seq = self.seq;
        }
        if self.crashed {
            return;
        }
        if self.cfg.lone_revokes && r.chance(1, 2) {
            self.lone_revokes(fs, r);
            if self.crashed {
                return;
            }
        }
        let meta: Vec<u64> = std::mem::take(&mut fs.dirty).into_iter().collect();
        let data: Vec<u64> = std::mem::take(&mut fs.data_dirty).into_iter().collect();
        let revoke: Vec<u64> = std::mem::take(&mut fs.freed_meta).into_iter().collect();
        let freed = std::mem::take(&mut fs.freed);
        let mut tx = Tx {
            tid: self.seq,
            log: Vec::new(),
            after: self.base.clone(),
            nrev: revoke.len(),
            ndesc: 0,
            touched: meta.clone(),
            home: false,
            committed: false,
            wrapped: false,
        };
        // Ordered data first.
        for b in &data {
            self.submit(*b, fs.img.map[b].clone(), false);
        }
        for ch in revoke.chunks(self.cfg.revokes_per_block) {
            let d = self.revoke_block(ch);
            self.log_write(&mut tx, d, "revoke");
        }
        // The order of blocks inside a transaction is arbitrary.
        let mut order = meta.clone();
        let mut stale: BTreeMap<u64, Blk> = BTreeMap::new();
        if self.cfg.stale_log {
            let last = self.last();
            for b in revoke.iter().filter(|b| !meta.contains(b)) {
                if let Some(d) = last.img.map.get(b) {
                    stale.insert(*b, d.clone());
                    order.push(*b);
                    self.stat("revoked_block_logged_all_the_same");
                }
            }
        }
        if r.chance(1, 2) {
            for i in (1..order.len()).rev() {
                order.swap(i, r.idx(i + 1));
            }
        }
        let bs = self.bs();
        let seed = self.seed();
        for ch in order.chunks(self.cfg.tags_per_desc.max(1)) {
            let mut d = self.hdr(1);
            let mut o = 12;
            let mut bodies = Vec::new();
            for (i, b) in ch.iter().enumerate() {
                let body = to_bytes(bs, stale.get(b).unwrap_or_else(|| &fs.img.map[b]));
                let mut flags = 0;
                if i > 0 {
                    flags |= 2;
                }
                if i == ch.len() - 1 {
                    flags |= 8;
                }
                let c = crc32c(seed, &self.seq.to_be_bytes());
                let mut body = (*body).clone();
                let c = crc32c(c, &body);
                if g32(&body, 0) == MAGIC {
                    flags |= 1;
                    b32(&mut body, 0, 0);
                    self.stat("escaped_block");
                }
                b32(&mut d, o, *b as u32);
                b32(&mut d, o + 4, flags);
                b32(&mut d, o + 8, (*b >> 32) as u32);
                b32(&mut d, o + 12, c);
                o += 16;
                if i == 0 {
                    d[o..o + 16].copy_from_slice(&self.cfg.uuid);
                    o += 16;
                }
                bodies.push(body);
            }
            self.tail_csum(&mut d);
            tx.ndesc += 1;
            self.log_write(&mut tx, d, "descriptor");
            for b in bodies {
                self.log_write(&mut tx, b, "data");
            }
        }
        // Snapshot as of this commit.
        let mut snap = fs.clone();
        snap.dirty.clear();
        snap.data_dirty.clear();
        snap.freed_meta.clear();
        snap.freed.clear();
        tx.after = Rc::new(snap);
        let d = self.commit_block();
        self.log_write(&mut tx, d, "commit");
        tx.committed = !self.crashed;
        if tx.wrapped {
            self.stat("transaction_wraps_log_end");
        }
        if tx.nrev > 0 {
            self.stat("transaction_with_revokes");
        }
        if tx.ndesc > 1 {
            self.stat("transaction_with_several_descriptors");
        }
        self.txs.push(tx);
        if self.crashed {
            return;
        }
        self.stat("transaction_committed");
        for b in &meta {
            self.ckpt.insert(*b, (self.seq, fs.img.map[b].clone()));
        }
        for b in &revoke {
            self.ckpt.remove(b);
        }
        for (s, e) in freed {
            if self.cfg.strict_reuse {
                self.held_by.push((self.seq, s, e));
            } else {
                fs.held.remove(s, e);
            }
        }
        self.seq = self.seq.wrapping_add(1);
        if self.seq == 0 {
            self.stat("sequence_number_wrapped");
        }
    }

    fn write_jsb(&mut self, seq: u32, start: u32) {
        let d = render_jsb(self.bs() as u32, self.len(), seq, start, &self.cfg);
        // The kernel forces these out; the sector holding the fields is
        // written atomically.
        self.fua(self.jb[0], Blk::Raw(Rc::new(d)), true);
    }

    /// Write some home blocks back (no barrier).
    pub fn writeback(&mut self, part: (u64, u64), r: &mut Rng) {
        let keys: Vec<u64> = self.ckpt.keys().copied().filter(|_| r.chance(part.0, part.1)).collect();
        self.write_home(keys, true);
    }
    fn write_home(&mut self, mut keys: Vec<u64>, shuffle: bool) {
        if shuffle {
            let k = keys.len();
            for i in (1..k).rev() {
                let j = (crate::rng::mix(self.events ^ i as u64) % (i as u64 + 1)) as usize;
                keys.swap(i, j);
            }
        }
        for b in keys {
            if self.crashed {
                return;
            }
            let Some((tid, d)) = self.ckpt.get(&b).cloned() else { continue };
            for t in self.txs.iter_mut() {
                if t.tid == tid {
                    t.home = true;
                }
            }
            let sb = if self.bs() == 1024 { 1 } else { 0 };
            if b == sb {
                self.descriptors_first(&d);
            }
            if self.crashed {
                return;
            }
            self.submit(b, d, b == sb);
            if !self.crashed {
                self.ckpt.remove(&b);
            }
            self.stat("home_write");
        }
    }
    /// A superblock that speaks of more groups than the one on the medium
    /// goes home after their descriptors: before that not even the kernel
    /// could mount.
    fn descriptors_first(&mut self, new: &Blk) {
        let bs = self.bs();
        let (sb, o) = if bs == 1024 { (1, 0) } else { (0, 1024) };
        let count = |d: &[u8]| (r32(d, o + 4), r32(d, o + 0x150));
        let new = to_bytes(bs, new);
        if count(&new) == count(&self.medium.get(sb)) {
            return;
        }
        let desc = r16(&new, o + 0xfe) as usize;
        let blocks = (r32(&new, o + 4) - r32(&new, o + 0x14)) as usize;
        let groups = blocks.div_ceil(r32(&new, o + 0x20) as usize);
        let first = if bs == 1024 { 2 } else { 1 };
        for b in first..first + groups.div_ceil(bs / desc) as u64 {
            if let Some((tid, d)) = self.ckpt.get(&b).cloned() {
                for t in self.txs.iter_mut().filter(|t| t.tid == tid) {
                    t.home = true;
                }
                self.submit(b, d, false);
                if self.crashed {
                    return;
                }
                self.ckpt.remove(&b);
            }
        }
        self.flush();
        self.stat("grown_superblock_home");
    }
    pub fn checkpoint_all(&mut self) {
        let keys: Vec<u64> = self.ckpt.keys().copied().collect();
        self.write_home(keys, false);
    }
    /// Move the tail past everything that is home.
    pub fn update_tail(&mut self) {
        if self.crashed || self.flushed {
            return;
        }
        let oldest = self.txs.iter().find(|t| t.committed && self.ckpt.values().any(|(x, _)| *x == t.tid)).cloned();
        let (seq, start) = match &oldest {
            Some(t) => (t.tid, t.log[0].0),
            None => (self.seq, self.head),
        };
        if seq == self.tail_seq {
            return;
        }
        self.flush();
        if self.crashed {
            return;
        }
        self.write_jsb(seq, start);
        if self.crashed {
            return;
        }
        self.tail = start;
        self.tail_seq = seq;
        self.stat("log_tail_moved");
    }
    pub fn release_held(&mut self, fs: &mut Fs) {
        if !self.cfg.strict_reuse {
            return;
        }
        let ts = self.tail_seq;
        let done: Vec<(u32, u64, u64)> =
            self.held_by.iter().copied().filter(|(t, _, _)| (t.wrapping_sub(ts) as i32) < 0).collect();
        self.held_by.retain(|(t, _, _)| (t.wrapping_sub(ts) as i32) >= 0);
        for (_, s, e) in done {
            fs.held.remove(s, e);
        }
    }

    /// Checkpoint everything and mark the log empty (sync / freeze).
    pub fn quiesce(&mut self, fs: &mut Fs, unmount: bool, r: &mut Rng) {
        fs.sync();
        if !fs.dirty.is_empty() || !fs.data_dirty.is_empty() || !fs.freed_meta.is_empty() {
            self.commit(fs, r);
        }
        self.checkpoint_all();
        self.flush();
        if self.crashed || self.overflow {
            return;
        }
        self.write_jsb(self.seq, 0);
        if self.crashed {
            return;
        }
        self.flushed = true;
        self.tail = self.head;
        self.tail_seq = self.seq;
        self.stat("log_marked_empty");
        if unmount {
            self.txs.clear();
            self.set_recover(fs, false);
            self.stat("clean_unmount");
        }
    }

    /// Mount again after a clean unmount.
    pub fn remount(&mut self, fs: &mut Fs) {
        self.set_recover(fs, true);
    }

    /// A device that lied about what is durable: one block of the log is not
    /// what was written. Only such damage is kept that a writer following
    /// the rules recovers from to a state it once committed.
    pub fn lie(&mut self, r: &mut Rng) -> Option<String> {
        let jsb = self.medium.get(self.jb[0]);
        if g32(&jsb, 0x1c) == 0 {
            return None;
        }
        // Only what the device holds of a block as last written to it.
        let mut last: BTreeMap<u32, (u32, &'static str, Rc<Vec<u8>>)> = BTreeMap::new();
        for t in &self.txs {
            for (l, d, w) in &t.log {
                last.insert(*l, (t.tid, *w, d.clone()));
            }
        }
        let blocks: Vec<(u32, u32, &'static str)> = last
            .into_iter()
            .filter(|(l, (_, _, d))| self.medium.get(self.jb[*l as usize]) == **d)
            .map(|(l, (tid, w, _))| (l, tid, w))
            .collect();
        if blocks.is_empty() {
            return None;
        }
        for _ in 0..6 {
            // Data blocks are most, the others decide more.
            let few: Vec<_> = blocks.iter().filter(|(_, _, w)| *w == "revoke").collect();
            let (l, tid, what) =
                if !few.is_empty() && r.chance(1, 3) { **r.pick(&few) } else { *r.pick(&blocks) };
            let b = self.jb[l as usize];
            let old = self.medium.get(b);
            let mut v = old.clone();
            let n = v.len();
            let how = match r.below(5) {
                4 => {
                    // A checksum that is not there.
                    if !self.drop_checksum(&mut v, what, r) {
                        continue;
                    }
                    "checksum of zero"
                }
                0 | 1 => {
                    // The type field decides between damage and an unknown
                    // format; leave it alone.
                    let lo = if what == "data" { 0 } else { 8 };
                    let start = (lo * 8) as u64 + r.below((n - lo) as u64 * 8);
                    for _ in 0..r.range(1, 6) {
                        let k = (start + r.below(32)).min(n as u64 * 8 - 1);
                        v[(k / 8) as usize] ^= 1 << (k % 8);
                    }
                    "bits flipped"
                }
                2 => {
                    let s = r.idx(n / 512);
                    v[s * 512..s * 512 + 512].fill(0);
                    "sector of zeros"
                }
                _ => {
                    // Another block of the log, of another transaction; most
                    // confusing if it is of the same kind.
                    let same: Vec<u32> =
                        blocks.iter().filter(|(_, t, w)| *t != tid && *w == what).map(|(l, _, _)| *l).collect();
                    let (mut l2, t2, _) = *r.pick(&blocks);
                    if !same.is_empty() && r.chance(1, 2) {
                        l2 = *r.pick(&same);
                    } else if t2 == tid {
                        continue;
                    }
                    v = self.medium.get(self.jb[l2 as usize]);
                    "another block in its place"
                }
            };
            // Two blocks that each end in their own crc32c (superblocks,
            // extent blocks of one file) collide under the log's crc32c: no
            // reader of the log could tell.
            if v == old || crc32c(!0, &v) == crc32c(!0, &old) {
                continue;
            }
            let mut trial = self.clone();
            trial.medium.put(b, v.clone());
            let fs = trial.recover();
            if trial.agrees(&fs).is_some() {
                continue;
            }
            self.medium.put(b, v);
            return Some(format!("{what} block {l} of transaction {tid}: {how}"));
        }
        None
    }

    fn drop_checksum(&self, v: &mut [u8], what: &'static str, r: &mut Rng) -> bool {
        let n = v.len();
        match what {
            "commit" => b32(v, 16, 0),
            "revoke" => b32(v, n - 4, 0),
            "descriptor" if r.chance(1, 2) => b32(v, n - 4, 0),
            "descriptor" => {
                // That of one of the data blocks; the rest is in order.
                let mut o = 12;
                loop {
                    let fl = g32(v, o + 4);
                    if fl & 8 != 0 || r.chance(1, 3) {
                        b32(v, o + 12, 0);
                        break;
                    }
                    o += if fl & 2 != 0 { 16 } else { 32 };
                }
                self.tail_csum(v);
            }
            _ => return false,
        }
        true
    }

    // ---------------------------------------------------------- the oracle

    /// Transactions of the live log whose blocks are all intact on `m`.
    pub fn prefix(&self, m: &Image) -> (Vec<&Tx>, Rc<Fs>) {
        let jsb = m.get(self.jb[0]);
        let (mut seq, start) = (g32(&jsb, 0x18), g32(&jsb, 0x1c));
        let mut out: Vec<&Tx> = Vec::new();
        let mut state = self.base.clone();
        for t in &self.txs {
            if t.committed && (t.tid.wrapping_sub(seq) as i32) < 0 {
                state = t.after.clone();
            }
        }
        if start == 0 {
            return (out, state);
        }
        let mut pos = start;
        loop {
            let Some(t) = self.txs.iter().find(|t| t.tid == seq) else { break };
            if t.log[0].0 != pos {
                break;
            }
            if !t.log.iter().all(|(l, d, _)| m.get(self.jb[*l as usize]) == **d) {
                break;
            }
            // A transaction is only complete with its commit block.
            if t.log.last().unwrap().2 != "commit" {
                break;
            }
            out.push(t);
            state = t.after.clone();
            seq = seq.wrapping_add(1);
            pos = t.log.last().unwrap().0 + 1;
            if pos >= self.len() {
                pos = 1;
            }
        }
        (out, state)
    }

    /// What the kernel's recovery makes of the medium; a new mount follows.
    pub fn recover(&mut self) -> Fs {
        let m = self.medium.clone();
        let (txs, state) = self.prefix(&m);
        let mut revoked: BTreeMap<u64, usize> = BTreeMap::new();
        for (i, t) in txs.iter().enumerate() {
            for (_, d, what) in &t.log {
                if *what == "revoke" {
                    let n = (g32(d, 12) as usize - 16) / 8;
                    for k in 0..n {
                        let b = u64::from_be_bytes(d[16 + 8 * k..24 + 8 * k].try_into().unwrap());
                        revoked.insert(b, i);
                    }
                }
            }
        }
        let mut put: Vec<(u64, Rc<Vec<u8>>)> = Vec::new();
        for (i, t) in txs.iter().enumerate() {
            let mut it = t.log.iter();
            while let Some((_, d, what)) = it.next() {
                if *what != "descriptor" {
                    continue;
                }
                let mut o = 12;
                loop {
                    let b = u64::from(g32(d, o)) | u64::from(g32(d, o + 8)) << 32;
                    let fl = g32(d, o + 4);
                    let mut body = it.next().unwrap().1.clone();
                    if fl & 1 != 0 {
                        let v: &mut Vec<u8> = Rc::make_mut(&mut body);
                        b32(v, 0, MAGIC);
                    }
                    if revoked.get(&b).is_none_or(|k| *k < i) {
                        put.push((b, body));
                    }
                    o += if fl & 2 != 0 { 16 } else { 32 };
                    if fl & 8 != 0 {
                        break;
                    }
                }
            }
        }
        let last = txs.last().map(|t| t.tid);
        let jsb = m.get(self.jb[0]);
        let mut next = last.map_or(g32(&jsb, 0x18), |t| t.wrapping_add(1)).wrapping_add(1);
        // Where the device lied, whole transactions may lie behind the
        // damage. A sequence number of theirs must not come again: a
        // leftover could then follow a new transaction as if it belonged
        // there, and no reader could tell.
        for t in &self.txs {
            if (t.tid.wrapping_add(1).wrapping_sub(next) as i32) > 0 {
                next = t.tid.wrapping_add(1);
            }
        }
        for (b, d) in put {
            self.medium.map.insert(b, Blk::Raw(d));
        }
        // The recovered medium must carry exactly the committed state.
        let mut fs = (*state).clone();
        let keep: BTreeSet<u64> = self.jb.iter().copied().collect();
        for (b, d) in &self.medium.map {
            if keep.contains(b) || !fs.img.map.contains_key(b) {
                fs.img.map.insert(*b, d.clone());
            }
        }
        // Blocks not in use keep whatever the medium holds.
        let free: Vec<u64> = self.medium.map.keys().copied().filter(|b| !fs.used.contains(*b)).collect();
        for b in free {
            fs.img.map.insert(b, self.medium.map[&b].clone());
        }
        fs.held = Ranges::default();
        fs.freed.clear();
        fs.defer_free = true;
        self.txs.clear();
        self.ckpt.clear();
        self.held_by.clear();
        self.pend.clear();
        self.crashed = false;
        self.crash_at = None;
        self.seq = next;
        self.tail_seq = next;
        self.head = 1;
        self.tail = 1;
        self.flushed = true;
        let jsb = render_jsb(self.bs() as u32, self.len(), next, 0, &self.cfg);
        self.medium.map.insert(self.jb[0], Blk::Raw(Rc::new(jsb)));
        let (sb, _) = fs.sb_block();
        self.sb_stale = self.medium.get(sb) != *to_bytes(self.bs(), &fs.img.map[&sb]);
        self.set_recover(&mut fs, true);
        self.stat("recovery");
        fs
    }

    /// Self-check: after recovery every used block equals the snapshot's.
    pub fn agrees(&self, fs: &Fs) -> Option<u64> {
        if self.sb_stale {
            return Some(fs.sb_block().0);
        }
        let jbs: BTreeSet<u64> = self.jb.iter().copied().collect();
        for (b, d) in &fs.img.map {
            if !fs.used.contains(*b) || jbs.contains(b) || fs.fresh.contains(b) {
                continue;
            }
            let want = to_bytes(self.bs(), d);
            if self.medium.get(*b) != *want {
                return Some(*b);
            }
        }
        None
    }
}
