//! The simulated device: a sparse block image plus a fault plan, behind the
//! library's own `Ext4Read` seam. Everything the library can observe about
//! storage is decided here.

use crate::rng::mix;
use ext4_view::Ext4Read;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::error::Error;
use std::fmt;
use std::rc::Rc;

#[derive(Clone)]
pub enum Blk {
    Raw(Rc<Vec<u8>>),
    Pat(u64),
}

pub const MODE_RANDOM: u64 = 0;
pub const MODE_ASCII: u64 = 1;
pub const MODE_UTF8: u64 = 2;
pub const MODE_ZERO: u64 = 3;

pub fn tag(mode: u64, v: u64) -> u64 {
    (mode << 62) | (v & ((1 << 62) - 1))
}

/// Bytes `off..off+buf.len()` of the pattern named by `tag`.
pub fn fill_pat(tag: u64, off: usize, buf: &mut [u8]) {
    let mode = tag >> 62;
    match mode {
        MODE_ZERO => buf.fill(0),
        MODE_UTF8 => {
            for (i, b) in buf.iter_mut().enumerate() {
                let w = mix(tag ^ ((off + i) / 2) as u64);
                *b = if (off + i) % 2 == 0 { 0xc3 } else { 0x80 | (w & 0x1f) as u8 };
            }
        }
        _ => {
            let base = mix(tag);
            let mut i = 0;
            while i < buf.len() {
                let p = off + i;
                let w = mix(base ^ (p / 8) as u64).to_le_bytes();
                let s = p % 8;
                let n = (8 - s).min(buf.len() - i);
                buf[i..i + n].copy_from_slice(&w[s..s + n]);
                i += n;
            }
            if mode == MODE_ASCII {
                for b in buf.iter_mut() {
                    *b = 32 + *b % 95;
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct Image {
    pub bs: usize,
    pub nblocks: u64,
    pub map: BTreeMap<u64, Blk>,
    pub garbage: u64,
}

impl Image {
    pub fn new(bs: usize, nblocks: u64, garbage: u64) -> Self {
        Image { bs, nblocks, map: BTreeMap::new(), garbage }
    }
    pub fn blk_into(&self, b: u64, off: usize, dst: &mut [u8]) {
        match self.map.get(&b) {
            Some(Blk::Raw(d)) => dst.copy_from_slice(&d[off..off + dst.len()]),
            Some(Blk::Pat(t)) => fill_pat(*t, off, dst),
            // Free space holds leftovers of earlier lives of the device.
            None => fill_pat(tag(MODE_RANDOM, mix(self.garbage ^ b)), off, dst),
        }
    }
    pub fn get(&self, b: u64) -> Vec<u8> {
        let mut v = vec![0; self.bs];
        self.blk_into(b, 0, &mut v);
        v
    }
    pub fn put(&mut self, b: u64, d: Vec<u8>) {
        assert_eq!(d.len(), self.bs);
        assert!(b < self.nblocks, "image write beyond device: {b}");
        self.map.insert(b, Blk::Raw(Rc::new(d)));
    }
    pub fn put_pat(&mut self, b: u64, t: u64) {
        assert!(b < self.nblocks);
        self.map.insert(b, Blk::Pat(t));
    }
    pub fn read(&self, start: u64, dst: &mut [u8]) {
        let bs = self.bs as u64;
        let mut pos = start;
        let mut i = 0;
        while i < dst.len() {
            let off = (pos % bs) as usize;
            let n = (self.bs - off).min(dst.len() - i);
            self.blk_into(pos / bs, off, &mut dst[i..i + n]);
            pos += n as u64;
            i += n;
        }
    }
    /// Overwrite bytes at an absolute byte address.
    pub fn poke(&mut self, addr: u64, data: &[u8]) {
        let bs = self.bs as u64;
        let mut done = 0;
        while done < data.len() {
            let a = addr + done as u64;
            let (b, off) = (a / bs, (a % bs) as usize);
            let n = (self.bs - off).min(data.len() - done);
            let part = &data[done..done + n];
            if let Some(Blk::Raw(r)) = self.map.get_mut(&b) {
                Rc::make_mut(r)[off..off + n].copy_from_slice(part);
            } else {
                let mut d = self.get(b);
                d[off..off + n].copy_from_slice(part);
                self.map.insert(b, Blk::Raw(Rc::new(d)));
            }
            done += n;
        }
    }
    pub fn peek(&self, addr: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.read(addr, &mut v);
        v
    }
    pub fn size(&self) -> u64 {
        self.nblocks * self.bs as u64
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0; self.size() as usize];
        self.read(0, &mut v);
        v
    }
}

/// The error a faulty device returns; the token identifies the very fault.
#[derive(Debug)]
pub struct SimErr(pub u64);
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simulated device fault #{}", self.0)
    }
}
impl Error for SimErr {}

/// Find the fault token in an error returned by the library.
pub fn token_of(e: &(dyn Error + Send + Sync + 'static)) -> Option<u64> {
    if let Some(s) = e.downcast_ref::<SimErr>() {
        return Some(s.0);
    }
    if let Some(io) = e.downcast_ref::<std::io::Error>() {
        return io.get_ref().and_then(token_of);
    }
    None
}

#[derive(Clone, Debug, PartialEq)]
pub enum FaultKind {
    /// Error without touching the buffer.
    Clean,
    /// Error after filling a prefix with the true bytes.
    Short,
    /// Error after filling the buffer with garbage.
    Garbage,
    /// Error after filling all of the buffer correctly.
    Late,
}

#[derive(Clone, Debug)]
pub enum Trigger {
    /// The n-th device read counted from arming (0 = next), for `len` reads.
    Nth { n: u64, len: u64 },
    /// Every read overlapping [lo, hi) bytes, at most `len` times.
    Range { lo: u64, hi: u64, len: u64 },
    /// Every read until disarmed.
    Dead,
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub trigger: Trigger,
    pub kind: FaultKind,
    pub flavor: u8,
}

/// Damage applied to what one or more reads deliver (not to the medium).
#[derive(Clone, Debug)]
pub enum ReadDamage {
    /// Flip bits of the byte at an absolute address.
    Flip { addr: u64, mask: u8 },
    /// Deliver block `from` in place of block `to`.
    Misdirect { to: u64, from: u64 },
    /// Deliver zeros for [addr, addr+len).
    Zero { addr: u64, len: u64 },
}

#[derive(Clone, Copy, Debug)]
pub struct Req {
    pub start: u64,
    pub len: u64,
    pub ok: bool,
}

pub struct StepBudget;

pub struct Disk {
    pub img: Image,
    pub dev_size: u64,
    pub fs_size: u64,
    pub faults: Vec<Fault>,
    pub damage: Vec<(ReadDamage, u64)>,
    pub next_token: u64,
    /// Tokens of faults fired since `begin_op`.
    pub fired: Vec<u64>,
    pub reads: u64,
    pub bytes: u64,
    pub op_reads: u64,
    pub op_budget: u64,
    pub log: Vec<Req>,
    pub keep_log: bool,
    /// First request that left [1024, fs_size).
    pub stray: Option<Req>,
    pub stats: BTreeMap<&'static str, u64>,
    pub damage_hits: u64,
}

impl Disk {
    pub fn new(img: Image) -> Rc<RefCell<Disk>> {
        let size = img.size();
        Rc::new(RefCell::new(Disk {
            dev_size: size,
            fs_size: size,
            img,
            faults: Vec::new(),
            damage: Vec::new(),
            next_token: 1,
            fired: Vec::new(),
            reads: 0,
            bytes: 0,
            op_reads: 0,
            op_budget: u64::MAX,
            log: Vec::new(),
            keep_log: false,
            stray: None,
            stats: BTreeMap::new(),
            damage_hits: 0,
        }))
    }
    pub fn begin_op(&mut self) {
        self.fired.clear();
        self.op_reads = 0;
        self.log.clear();
    }
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn make_err(&mut self, flavor: u8) -> Box<dyn Error + Send + Sync + 'static> {
        use std::io::ErrorKind as K;
        let t = self.next_token;
        self.next_token += 1;
        self.fired.push(t);
        let k = match flavor % 8 {
            0 => return Box::new(SimErr(t)),
            1 => K::Interrupted,
            2 => K::UnexpectedEof,
            3 => K::NotFound,
            4 => K::PermissionDenied,
            5 => K::InvalidData,
            6 => K::WouldBlock,
            _ => K::Other,
        };
        Box::new(std::io::Error::new(k, SimErr(t)))
    }
    fn consult(&mut self, start: u64, len: u64) -> Option<Fault> {
        let mut hit = None;
        let mut i = 0;
        while i < self.faults.len() {
            let f = &mut self.faults[i];
            let mut gone = false;
            let mut fire = false;
            match &mut f.trigger {
                Trigger::Nth { n, len } => {
                    if *n > 0 {
                        *n -= 1;
                    } else {
                        fire = true;
                        *len -= 1;
                        gone = *len == 0;
                    }
                }
                Trigger::Range { lo, hi, len: k } => {
                    if start < *hi && start + len > *lo {
                        fire = true;
                        *k -= 1;
                        gone = *k == 0;
                    }
                }
                Trigger::Dead => fire = true,
            }
            if fire && hit.is_none() {
                hit = Some(f.clone());
            }
            if gone {
                self.faults.remove(i);
            } else {
                i += 1;
            }
        }
        hit
    }
    fn deliver(&mut self, start: u64, dst: &mut [u8]) {
        self.img.read(start, dst);
        if self.damage.is_empty() {
            return;
        }
        let end = start + dst.len() as u64;
        let bs = self.img.bs as u64;
        let mut dmg = std::mem::take(&mut self.damage);
        let mut hits = 0;
        for (d, left) in dmg.iter_mut() {
            if *left == 0 {
                continue;
            }
            let mut hit = false;
            match d {
                ReadDamage::Flip { addr, mask } => {
                    if *addr >= start && *addr < end {
                        dst[(*addr - start) as usize] ^= *mask;
                        hit = true;
                    }
                }
                ReadDamage::Zero { addr, len } => {
                    let (a, b) = ((*addr).max(start), (*addr + *len).min(end));
                    if a < b {
                        dst[(a - start) as usize..(b - start) as usize].fill(0);
                        hit = true;
                    }
                }
                ReadDamage::Misdirect { to, from } => {
                    let (t0, t1) = (*to * bs, (*to + 1) * bs);
                    let (a, b) = (t0.max(start), t1.min(end));
                    if a < b {
                        let off = a - t0;
                        let n = (b - a) as usize;
                        let src = self.img.peek(*from * bs + off, n);
                        dst[(a - start) as usize..(b - start) as usize].copy_from_slice(&src);
                        hit = true;
                    }
                }
            }
            if hit {
                *left -= 1;
                hits += 1;
            }
        }
        dmg.retain(|(_, l)| *l > 0);
        self.damage = dmg;
        self.damage_hits += hits;
    }
    fn do_read(
        &mut self,
        start: u64,
        dst: &mut [u8],
    ) -> Result<(), Box<dyn Error + Send + Sync + 'static>> {
        self.reads += 1;
        self.op_reads += 1;
        let len = dst.len() as u64;
        self.bytes += len;
        let mut req = Req { start, len, ok: false };
        let end = start.checked_add(len);
        let inside = end.is_some_and(|e| e <= self.fs_size) && start >= 1024;
        if !inside && self.stray.is_none() {
            self.stray = Some(req);
        }
        if self.op_reads > self.op_budget {
            std::panic::panic_any(StepBudget);
        }
        if let Some(f) = self.consult(start, len) {
            let avail = end.is_some_and(|e| e <= self.dev_size);
            match f.kind {
                FaultKind::Clean => self.stat("read_error_clean"),
                FaultKind::Short => {
                    if avail {
                        let n = dst.len() / 2;
                        self.img.read(start, &mut dst[..n]);
                    }
                    self.stat("read_error_after_partial_fill");
                }
                FaultKind::Garbage => {
                    fill_pat(tag(MODE_RANDOM, start ^ self.next_token), 0, dst);
                    self.stat("read_error_after_garbage_fill");
                }
                FaultKind::Late => {
                    if avail {
                        self.img.read(start, dst);
                    }
                    self.stat("read_error_after_full_fill");
                }
            }
            let e = self.make_err(f.flavor);
            if self.keep_log {
                self.log.push(req);
            }
            return Err(e);
        }
        if end.is_none_or(|e| e > self.dev_size) {
            self.stat("read_beyond_device_end");
            if self.keep_log {
                self.log.push(req);
            }
            // A truncated device: what exists is delivered, then the error.
            if start < self.dev_size {
                let n = (self.dev_size - start).min(len) as usize;
                self.img.read(start, &mut dst[..n]);
            }
            if self.dev_size < self.fs_size {
                return Err(self.make_err(2));
            }
            // Nothing was injected here: the request itself was wrong.
            return Err(Box::new(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, SimErr(0))));
        }
        self.deliver(start, dst);
        req.ok = true;
        if self.keep_log {
            self.log.push(req);
        }
        Ok(())
    }
}

pub struct SimReader(pub Rc<RefCell<Disk>>);

impl Ext4Read for SimReader {
    fn read(
        &mut self,
        start: u64,
        dst: &mut [u8],
    ) -> Result<(), Box<dyn Error + Send + Sync + 'static>> {
        self.0.borrow_mut().do_read(start, dst)
    }
}
