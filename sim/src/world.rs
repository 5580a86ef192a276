//! One simulated run: a filesystem with a history, a device, a writer that
//! may crash, clients, and a list of items (the schedule) that says what
//! happens next. Everything is a function of the run's seed and its items;
//! every item carries its own seed, so that leaving items out leaves the
//! others as they were.

use crate::client::*;
use crate::corrupt;
use crate::disk::*;
use crate::fsw::*;
use crate::gen::*;
use crate::geo::*;
use crate::jbd::*;
use crate::rec::*;
use crate::rng::{mix2, Rng};
use std::rc::Rc;

pub const J_MOUNT: u16 = 200;
pub const J_COMMIT: u16 = 201;
pub const J_WRITEBACK: u16 = 202;
pub const J_CHECKPOINT: u16 = 203;
pub const J_QUIESCE: u16 = 204;
pub const J_UNMOUNT: u16 = 205;
pub const J_ARM: u16 = 206;
pub const J_CRASH: u16 = 207;
pub const J_FREEZE: u16 = 208;
pub const J_TAIL: u16 = 209;
pub const NJ: usize = 10;
pub const JNAMES: [&str; NJ] = [
    "mount", "commit", "write-back", "checkpoint", "quiesce", "unmount", "arm-crash", "crash", "freeze", "move-tail",
];

pub const F_NTH: u16 = 300;
pub const F_RANGE: u16 = 301;
pub const F_DEAD: u16 = 302;
pub const F_HEAL: u16 = 303;
pub const F_FLAKY: u16 = 304;
pub const F_SWEEP: u16 = 305;
pub const NF: usize = 6;
pub const FNAMES: [&str; NF] = ["fail-nth-read", "fail-region", "device-dead", "heal", "flaky", "fail-each-read-of-one-call"];

pub const X_STRUCT: u16 = 400;
pub const X_RANDOM: u16 = 401;
pub const X_COPY: u16 = 402;
pub const X_REPAIR: u16 = 403;
pub const X_MAZE: u16 = 404;
pub const D_DAMAGE: u16 = 410;
pub const G_REFUSE: u16 = 420;
pub const G_JUNK: u16 = 421;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Item {
    pub kind: u16,
    pub seed: u64,
}

pub fn item_name(k: u16) -> &'static str {
    match k {
        0..=99 => NAMES[k as usize],
        100..=199 => ONAMES[(k - 100) as usize],
        200..=299 => JNAMES[(k - 200) as usize],
        300..=399 => FNAMES[(k - 300) as usize],
        X_STRUCT => "corrupt-structure",
        X_RANDOM => "corrupt-random",
        X_COPY => "corrupt-copy-block",
        X_REPAIR => "undo-corruption",
        X_MAZE => "corrupt-maze",
        D_DAMAGE => "damage",
        G_REFUSE => "make-unsupported",
        G_JUNK => "junk-in-idle-journal",
        _ => "?",
    }
}

/// What is fixed for the whole run.
pub struct Cfg {
    pub geo: Geo,
    pub journal: Option<u32>,
    pub jcfg: JCfg,
    pub lim: Lim,
    pub mode: Mode,
    pub watch: bool,
    pub log_damage: bool,
    pub focus: Option<u64>,
}

pub fn config(prop: u8, seed: u64) -> Cfg {
    let mut rr = Rng::new(mix2(seed, 2));
    let r = &mut rr;
    let journaled = match prop {
        1 => true,
        2 | 3 => r.chance(1, 2),
        4 | 6 | 10 => r.chance(1, 3),
        12 => r.chance(2, 5),
        13 => r.chance(3, 4),
        11 => false,
        _ => r.chance(1, 10),
    };
    let huge = !journaled
        && match prop {
            6 | 9 => r.chance(1, 4),
            12 => r.chance(1, 3),
            4 => r.chance(1, 3),
            5 | 2 | 3 | 7 => r.chance(1, 10),
            _ => false,
        };
    let huge_log = journaled && matches!(prop, 1 | 4 | 12) && r.chance(1, 12);
    let mut geo = if huge_log {
        let mut g = Geo::huge(r);
        while g.bs < 32768 {
            g = Geo::huge(r);
        }
        g
    } else if journaled {
        Geo::journaled(r)
    } else if huge {
        Geo::huge(r)
    } else {
        Geo::small(r)
    };
    if prop == 9 && !journaled && !huge && r.chance(1, 40) {
        geo = Geo::many_inodes(r);
    }
    let wide = !journaled
        && geo.bs <= 8192
        && match prop {
            7 => r.chance(1, 8),
            4 | 8 | 11 | 12 => r.chance(1, 50),
            _ => false,
        };
    if prop == 11 {
        while !geo.csum {
            geo = Geo::small(r);
        }
    }
    if prop == 7 && r.chance(1, 5) {
        geo.hash_seed = [0; 4];
    }
    if matches!(prop, 7 | 8 | 13) {
        geo.encrypt = r.chance(1, 3);
    } else if matches!(prop, 1 | 3 | 4 | 6) {
        geo.encrypt = r.chance(1, 8);
    }
    let bs = geo.bs as usize;
    let full = (bs - 12 - 16 - 4) / 16;
    let jcfg = JCfg {
        tags_per_desc: match r.below(3) {
            0 => full,
            1 => r.range(1, 4) as usize,
            _ => r.range(1, full.min(40) as u64) as usize,
        },
        revokes_per_block: *r.pick(&[1usize, 2, 3, 30, 100, (geo.bs as usize - 20) / 8]),
        seq: match r.below(5) {
            0 => 1,
            1 => 0xffff_ffff - r.below(12) as u32,
            2 => 0x7fff_ffff - r.below(12) as u32,
            _ => 1 + r.below(1 << 30) as u32,
        },
        uuid: std::array::from_fn(|_| r.next() as u8),
        incompat: JI_64BIT | JI_CSUM_V3 | if r.chance(4, 5) { JI_REVOKE } else { 0 },
        strict_reuse: false,
        stale_log: r.chance(1, 5),
        lone_revokes: r.chance(1, 5),
    };
    let mut jcfg = jcfg;
    let log_damage = prop == 1 && r.chance(1, 3);
    jcfg.strict_reuse = log_damage || r.chance(1, 4);
    let journal = journaled.then(|| match r.below(4) {
        _ if huge_log => r.range(16, 50) as u32,
        0 => r.range(12, 40) as u32,
        1 => r.range(40, 120) as u32,
        _ => r.range(24, 300) as u32,
    });
    if let Some(n) = journal {
        // Room for the log and for the filesystem beside it.
        let per = u64::from(geo.bpg);
        let want = u64::from(n) + 300;
        let have = geo.blocks;
        if have < want * 2 {
            let k = (want * 2 - have).div_ceil(per);
            let last = geo.blocks;
            geo.blocks = last + k * per;
            geo.fit();
        }
    }
    let mut lim = Lim::default();
    if journaled {
        lim.max_alloc = if prop == 1 { 16 } else { 40 };
        lim.max_bulk = if prop == 1 { 30 } else { 60 };
        lim.max_fb = 6000;
        lim.max_wide = if prop == 1 { 10 } else { 30 };
    }
    match prop {
        4 | 5 | 6 => {
            lim.max_alloc = lim.max_alloc.max(150);
            // A seek takes time in proportion to the distance.
            if prop != 4 && !journaled && r.chance(1, 40) {
                lim.max_fb = 1 << r.range(23, 26);
            }
        }
        7 => lim.max_bulk = 250,
        10 | 11 => lim.max_fb = 1 << 16,
        2 | 3 => lim.max_fb = lim.max_fb.min(1 << 18),
        _ => {}
    }
    if wide {
        // Room for a directory of many blocks.
        let k = u64::from(1600 / geo.bpg + 1);
        geo.blocks += k * u64::from(geo.bpg);
        geo.fit();
        lim.max_wide = 1500;
        lim.max_alloc = 20;
    }
    let mode = match prop {
        10 => Mode::Any,
        11 => Mode::Damaged,
        _ => Mode::Exact,
    };
    Cfg {
        geo,
        journal,
        jcfg,
        lim,
        mode,
        watch: prop == 12,
        log_damage,
        focus: r.chance(1, 3).then(|| r.next()),
    }
}

pub struct World {
    pub prop: u8,
    pub cfg: Cfg,
    fs: Option<Fs>,
    jbd: Option<Jbd>,
    pub client: Option<Client>,
    /// The run is over (its history does not fit the filesystem).
    over: bool,
    setup: Rng,
    undo: Vec<(u64, Vec<u8>)>,
    /// Description of a planted unsupported format.
    unsupported: Option<String>,
}

impl World {
    pub fn new(prop: u8, seed: u64, rec: &mut Rec) -> World {
        let cfg = config(prop, seed);
        let mut setup = Rng::new(mix2(seed, 3));
        rec.ev(20, || format!("filesystem {:?}", cfg.geo));
        let mut fs = Fs::mkfs(cfg.geo.clone(), &mut setup);
        let mut over = false;
        if let Some(n) = cfg.journal {
            if setup.chance(1, 6) {
                // A journal that was added to a filesystem in use.
                if let Some(i) = fs.alloc_inode(&mut setup) {
                    fs.jino = i;
                    rec.stat("journal_in_ordinary_inode");
                }
            }
            if !fs.make_journal(n, &mut setup) {
                over = true;
                rec.stat("no_room_for_journal");
            }
            rec.ev(21, || format!("journal of {n} blocks {:?}", fs.bmap(fs.jino, 0)));
        }
        World { prop, cfg, fs: Some(fs), jbd: None, client: None, over, setup, undo: vec![], unsupported: None }
    }

    /// All of a run: its items in order, then what the device did.
    pub fn run(prop: u8, seed: u64, items: &[Item], rec: &mut Rec) -> R {
        let mut w = World::new(prop, seed, rec);
        let mut out = Ok(());
        for it in items {
            if w.over {
                break;
            }
            rec.ev(mix2(9, it.kind.into()), || format!("-- {} #{:x}", item_name(it.kind), it.seed));
            rec.shape = mix2(rec.shape, it.kind.into());
            out = w.step(*it, rec);
            if out.is_err() {
                break;
            }
        }
        crate::alloc::set_cap(usize::MAX);
        w.finish(rec);
        out
    }

    fn finish(&mut self, rec: &mut Rec) {
        if let Some(c) = &self.client {
            for (k, v) in &c.disk.borrow().stats {
                rec.add(&format!("fault.{k}"), *v);
            }
            let d = c.disk.borrow();
            rec.add("device_reads", d.reads);
            rec.add("device_bytes_read", d.bytes);
            rec.add("fault.read_delivered_damaged", d.damage_hits);
            let fs = &c.st;
            rec.state(mix2(50, mix2(fs.g.bs.into(), mix2(fs.g.desc.into(), fs.g.isize.into()))));
        }
        if let Some(f) = self.client.as_ref().map(|c| c.st.clone()) {
            for (k, v) in &f.probes {
                rec.add(&format!("layout.{k}"), *v);
            }
        }
        if let Some(j) = &self.jbd {
            for (k, v) in &j.stats {
                rec.add(&format!("journal.{k}"), *v);
            }
        }
    }

    fn limits(&self, c: &mut Client) {
        let d = c.disk.borrow();
        let n = d.fs_size / u64::from(c.model.bs);
        let d_size = d.dev_size;
        drop(d);
        if self.prop == 10 {
            c.cap_load = 128 << 20;
            c.cap_op = 256 << 20;
            // The block group descriptors are read one by one, to the end of
            // the device if the superblock claims that many.
            c.max_reads = 50_000 + 40 * n + d_size / 32;
        } else {
            // Nothing a client does in one call needs more reads than this.
            c.max_reads = 4_000_000;
        }
        c.watch = self.cfg.watch;
        c.focus = self.cfg.focus;
    }

    /// Hand the filesystem to the clients.
    fn start_client(&mut self, rec: &mut Rec) {
        if self.client.is_some() {
            return;
        }
        if self.jbd.is_some() {
            self.freeze(self.prop.into(), rec);
            return;
        }
        let mut fs = self.fs.take().unwrap();
        fs.finish_mkfs(self.setup.chance(1, 2));
        let img = fs.img.clone();
        let mut c = Client::new(Rc::new(fs), img, self.cfg.mode);
        self.limits(&mut c);
        rec.ev(22, || "clients start".into());
        self.client = Some(c);
    }

    /// The writer is gone for good; the clients get the medium it left.
    fn freeze(&mut self, seed: u64, rec: &mut Rec) {
        if self.client.is_some() {
            return;
        }
        let mut r = Rng::new(seed);
        let Some(j) = &mut self.jbd else {
            self.start_client(rec);
            return;
        };
        j.crash(&mut r);
        let (txs, state) = j.prefix(&j.medium);
        let n = txs.len();
        rec.add("journal.transactions_to_replay", n as u64);
        if n > 0 {
            rec.stat("clients_on_crashed_medium");
        }
        rec.ev(mix2(23, n as u64), || format!("clients start on what the crash left, {n} transactions to replay"));
        let mut c = Client::new(state, j.medium.clone(), self.cfg.mode);
        self.limits(&mut c);
        self.client = Some(c);
        self.fs = None;
    }

    fn step(&mut self, it: Item, rec: &mut Rec) -> R {
        match it.kind {
            0..=99 => self.build(it, rec),
            100..=199 => {
                self.start_client(rec);
                let c = self.client.as_mut().unwrap();
                if matches!(it.kind, O_LOADVEC | O_LOADFILE | O_TRUNCATED) && !c.refuse.is_empty() && it.kind == O_TRUNCATED {
                    return Ok(());
                }
                c.op(it.kind, it.seed, rec)
            }
            200..=299 => self.journal(it, rec),
            300..=399 => {
                self.start_client(rec);
                if it.kind == F_SWEEP {
                    return self.sweep(it, rec);
                }
                self.fault(it, rec);
                Ok(())
            }
            X_STRUCT | X_RANDOM | X_COPY | X_MAZE | X_REPAIR => {
                self.start_client(rec);
                self.corrupt(it, rec);
                Ok(())
            }
            D_DAMAGE => {
                self.start_client(rec);
                self.damage(it, rec);
                Ok(())
            }
            G_REFUSE => {
                self.start_client(rec);
                self.refuse(it, rec);
                Ok(())
            }
            G_JUNK => {
                self.start_client(rec);
                self.junk(it, rec);
                Ok(())
            }
            _ => panic!("unknown item {}", it.kind),
        }
    }

    fn build(&mut self, it: Item, rec: &mut Rec) -> R {
        if self.client.is_some() {
            return Ok(());
        }
        if let Some(j) = &self.jbd {
            if j.crashed {
                return Ok(());
            }
        }
        let fs = self.fs.as_mut().unwrap();
        let s = apply(fs, it.kind, it.seed, &self.cfg.lim);
        rec.ev(30, || s);
        rec.stat("history_step");
        if let Some(j) = &mut self.jbd {
            let mut r = Rng::new(mix2(it.seed, 77));
            if j.need(fs) > (j.len() - 2) / 2 {
                j.commit(fs, &mut r);
                if j.overflow {
                    self.over = true;
                    rec.stat("history_too_big_for_journal");
                }
            }
        }
        Ok(())
    }

    fn journal(&mut self, it: Item, rec: &mut Rec) -> R {
        if self.client.is_some() || self.cfg.journal.is_none() {
            return Ok(());
        }
        let mut rr = Rng::new(it.seed);
        let r = &mut rr;
        if it.kind == J_MOUNT {
            if self.jbd.is_none() {
                let fs = self.fs.as_mut().unwrap();
                fs.finish_mkfs(true);
                let j = Jbd::new(fs, self.cfg.jcfg.clone(), r);
                self.jbd = Some(j);
            }
            return Ok(());
        }
        if it.kind == J_CRASH {
            return if self.jbd.is_some() { self.crash_check(it.seed, rec) } else { Ok(()) };
        }
        if it.kind == J_FREEZE {
            self.freeze(it.seed, rec);
            return Ok(());
        }
        let Some(j) = &mut self.jbd else { return Ok(()) };
        let fs = self.fs.as_mut().unwrap();
        match it.kind {
            J_COMMIT => j.commit(fs, r),
            J_WRITEBACK => {
                let p = r.range(1, 4);
                j.writeback((p, 4), r);
                if r.chance(1, 2) {
                    j.update_tail();
                    j.release_held(fs);
                }
            }
            J_CHECKPOINT => {
                j.checkpoint_all();
                j.update_tail();
                j.release_held(fs);
            }
            J_TAIL => {
                j.update_tail();
                j.release_held(fs);
            }
            J_QUIESCE => j.quiesce(fs, false, r),
            J_UNMOUNT => {
                j.quiesce(fs, true, r);
                if !j.crashed && !j.overflow && self.prop == 1 {
                    let m = j.medium.clone();
                    let st = Rc::new(fs.clone());
                    self.look(st, m, it.seed, "cleanly unmounted", rec)?;
                }
                if !self.jbd.as_ref().unwrap().crashed {
                    let j = self.jbd.as_mut().unwrap();
                    let fs = self.fs.as_mut().unwrap();
                    if r.chance(3, 4) || self.prop == 1 {
                        // Mounted again.
                        j.remount(fs);
                    }
                }
            }
            J_ARM => {
                let n = match r.below(3) {
                    0 => r.below(12),
                    1 => r.below(60),
                    _ => r.below(400),
                };
                j.crash_at = Some(j.events + 1 + n);
            }
            _ => {}
        }
        let j = self.jbd.as_ref().unwrap();
        rec.ev(mix2(31, j.events), || format!("   {} device events, log {}..{} of {}, sequence {}", j.events, j.tail, j.head, j.len(), j.seq));
        if j.overflow {
            self.over = true;
            rec.stat("history_too_big_for_journal");
        }
        Ok(())
    }

    /// Load a medium and compare everything with a state.
    fn look(&mut self, st: Rc<Fs>, m: Image, seed: u64, how: &str, rec: &mut Rec) -> R {
        let mut r = Rng::new(mix2(seed, 5));
        let mut c = Client::new(st, m, Mode::Exact);
        self.limits(&mut c);
        rec.ev(24, || format!("   view of the {how} medium"));
        if c.load(rec, &mut r)? {
            c.verify_all(rec, &mut r)?;
            for _ in 0..r.below(12) {
                let k = *r.pick(&[O_META, O_READ, O_DIRALL, O_NAMES, O_OPEN, O_FREAD, O_FSPARSE, O_READLINK, O_CANON, O_EXISTS]);
                c.op(k, r.next(), rec)?;
            }
        }
        let d = c.disk.borrow();
        rec.add("device_reads", d.reads);
        rec.add("device_bytes_read", d.bytes);
        Ok(())
    }

    /// Power loss; the library's view must be the committed prefix; then the
    /// writer recovers and goes on.
    fn crash_check(&mut self, seed: u64, rec: &mut Rec) -> R {
        let mut rr = Rng::new(seed);
        let r = &mut rr;
        let log_damage = self.cfg.log_damage && r.chance(1, 2);
        let j = self.jbd.as_mut().unwrap();
        j.crash(r);
        if log_damage {
            if let Some(s) = j.lie(r) {
                rec.ev(25, || format!("   the device lied: {s}"));
                rec.stat("fault.log_block_damaged");
            }
        }
        let (txs, state) = j.prefix(&j.medium);
        let (n, all) = (txs.len(), j.txs.len());
        let wrapped = txs.iter().any(|t| t.wrapped);
        let nrev: usize = txs.iter().map(|t| t.nrev).sum();
        rec.add("journal.transactions_replayed", n as u64);
        if wrapped {
            rec.stat("journal.replay_over_log_end");
        }
        if nrev > 0 {
            rec.stat("journal.replay_with_revokes");
        }
        if n < all {
            rec.stat("journal.crash_lost_transactions");
        }
        if n > 0 {
            rec.nontrivial = true;
        }
        rec.stat("crash_checked");
        rec.state(mix2(60, mix2(n.min(20) as u64, mix2(u64::from(wrapped), (nrev.min(50)) as u64))));
        rec.ev(mix2(26, n as u64), || {
            let v: Vec<String> = j.txs.iter().map(|t| format!("{}{}", t.tid, if t.committed { "" } else { "?" })).collect();
            format!("   crash after device event {}: {n} transactions to replay of {}", j.events, v.join(" "))
        });
        let m = j.medium.clone();
        self.look(state, m, seed, "crashed", rec)?;
        let j = self.jbd.as_mut().unwrap();
        let fs = j.recover();
        if let Some(b) = j.agrees(&fs) {
            panic!("SIMULATOR: recovered medium differs from the model's state at block {b}");
        }
        self.fs = Some(fs);
        Ok(())
    }

    // --------------------------------------------------------------- faults

    fn fault(&mut self, it: Item, rec: &mut Rec) {
        let mut r = Rng::new(it.seed);
        let c = self.client.as_mut().unwrap();
        let kind = match r.below(4) {
            0 => FaultKind::Clean,
            1 => FaultKind::Short,
            2 => FaultKind::Garbage,
            _ => FaultKind::Late,
        };
        let flavor = r.below(8) as u8;
        let bs = u64::from(c.model.bs);
        let mut d = c.disk.borrow_mut();
        let trigger = match it.kind {
            F_HEAL => {
                d.faults.clear();
                rec.ev(40, || "device works".into());
                rec.stat("device_healed");
                return;
            }
            F_DEAD => Trigger::Dead,
            F_NTH => Trigger::Nth { n: if r.chance(2, 3) { r.below(6) } else { r.skewed(120) }, len: *r.pick(&[1, 1, 1, 2, 3, 10]) },
            F_FLAKY => {
                for _ in 0..r.range(2, 6) {
                    let n = r.below(30);
                    d.faults.push(Fault { trigger: Trigger::Nth { n, len: 1 }, kind: kind.clone(), flavor });
                }
                rec.ev(43, || "several of the next reads fail".into());
                return;
            }
            _ => {
                let keys: Vec<u64> = d.img.map.keys().copied().collect();
                let b = *r.pick(&keys);
                let lo = b * bs;
                let hi = lo + *r.pick(&[1, bs / 2, bs, 4 * bs, 64 * bs]);
                Trigger::Range { lo, hi, len: *r.pick(&[1, 1, 2, 5, u64::MAX]) }
            }
        };
        rec.ev(41, || format!("device fault armed: {trigger:?} {kind:?}"));
        d.faults.push(Fault { trigger, kind, flavor });
    }

    /// One call, again and again from a fresh load, with another one of its
    /// device reads failing each time; each time followed by a retry.
    fn sweep(&mut self, it: Item, rec: &mut Rec) -> R {
        let mut r = Rng::new(it.seed);
        let kind = *r.pick(&[
            O_LOAD, O_META, O_LMETA, O_CANON, O_EXISTS, O_READLINK, O_READ, O_READ, O_READSTR, O_OPEN, O_DIRALL, O_DIRALL,
            O_NAMES, O_NAMES, O_WALK, O_SAME, O_FREAD, O_FSTD, O_FSEEK, O_FSEEKSTD, O_FTOEND, O_FSPARSE, O_FSPARSE,
        ]);
        let (seed, flavor) = (r.next(), r.below(8) as u8);
        let len = *r.pick(&[1u64, 1, 1, 2, 3]);
        let file_op = matches!(kind, O_FREAD | O_FSTD | O_FSEEK | O_FSEEKSTD | O_FTOEND | O_FSPARSE);
        // Where the file's cursor is before the call.
        let moved = r.chance(1, 2);
        // A file with its mapping in blocks of its own.
        let mapped = r.chance(2, 3);
        // Retries that fail, too.
        let more = r.below(3);
        let c = self.client.as_mut().unwrap();
        let mut total = None;
        let mut todo: Vec<u64> = vec![0];
        let limit = c.disk.borrow().reads + 60_000;
        while let Some(j) = todo.pop() {
            if c.disk.borrow().reads > limit {
                break;
            }
            c.disk.borrow_mut().faults.clear();
            c.fss.clear();
            c.files.clear();
            c.dirs.clear();
            c.ents.clear();
            if kind != O_LOAD {
                c.op(O_LOAD, seed, rec)?;
            }
            if file_op {
                for k in 0..4 + 8 * u64::from(mapped) {
                    c.op(O_OPEN, mix2(seed, k), rec)?;
                    let Some(f) = c.files.last() else { continue };
                    let many = match c.st.lay.get(&f.ino).map(|l| &l.layout) {
                        Some(Layout::Ext { nodes, .. }) => nodes.len() > 1,
                        Some(Layout::Map { inds, .. }) => inds.len() > 1,
                        _ => false,
                    };
                    if !mapped || many {
                        break;
                    }
                    c.files.pop();
                }
                if c.files.is_empty() {
                    c.op(O_OPEN, seed, rec)?;
                }
                if moved {
                    c.op(O_FSEEK, seed, rec)?;
                }
            }
            let before = c.disk.borrow().reads;
            if total.is_some() {
                let fk = match r.below(4) {
                    0 => FaultKind::Clean,
                    1 => FaultKind::Short,
                    2 => FaultKind::Garbage,
                    _ => FaultKind::Late,
                };
                rec.ev(44, || format!("device read {j} of the next call fails: {fk:?}"));
                let trigger = Trigger::Nth { n: j, len };
                c.disk.borrow_mut().faults.push(Fault { trigger, kind: fk, flavor });
                rec.stat("sweep_points");
            }
            c.op(kind, seed, rec)?;
            let n = c.disk.borrow().reads - before;
            match total {
                None => {
                    total = Some(n);
                    rec.stat("sweeps");
                    if n <= 24 {
                        todo = (0..n).collect();
                    } else {
                        todo = (0..8).chain(n - 4..n).collect();
                        for _ in 0..12 {
                            todo.push(r.range(8, n - 5));
                        }
                    }
                }
                Some(n) => {
                    for _ in 0..more {
                        c.disk.borrow_mut().faults.clear();
                        let trigger = Trigger::Nth { n: r.below(n + 2) * r.below(2), len };
                        c.disk.borrow_mut().faults.push(Fault { trigger, kind: FaultKind::Clean, flavor });
                        c.op(kind, seed, rec)?;
                        rec.stat("sweep_retries_that_fail");
                    }
                    c.disk.borrow_mut().faults.clear();
                    c.op(kind, seed, rec)?;
                }
            }
        }
        c.disk.borrow_mut().faults.clear();
        Ok(())
    }

    // ----------------------------------------------------------- corruption

    fn corrupt(&mut self, it: Item, rec: &mut Rec) {
        let mut r = Rng::new(it.seed);
        let c = self.client.as_mut().unwrap();
        let st = c.st.clone();
        let mut d = c.disk.borrow_mut();
        if it.kind == X_REPAIR {
            if let Some((a, v)) = self.undo.pop() {
                d.img.poke(a, &v);
                rec.ev(42, || format!("bytes at {a} restored"));
            }
            return;
        }
        let jb: &[u64] = self.jbd.as_ref().map_or(&[], |j| &j.jb);
        let (what, hot, undo) = match it.kind {
            X_STRUCT => corrupt::structure(&st, &mut d.img, jb, &mut r),
            X_RANDOM => corrupt::random(&st, &mut d.img, &mut r),
            X_MAZE => corrupt::maze(&st, &mut d.img, jb, &mut r),
            _ => corrupt::copy(&st, &mut d.img, jb, &mut r),
        };
        drop(d);
        self.undo.extend(undo);
        rec.stat("fault.stored_data_corrupted");
        rec.stat(&format!("corrupted.{}", what.split(' ').next().unwrap_or("")));
        rec.nontrivial = true;
        if let Some(h) = hot {
            c.hot.push(h);
        }
        rec.ev(44, || what);
    }

    fn damage(&mut self, it: Item, rec: &mut Rec) {
        let mut r = Rng::new(it.seed);
        let c = self.client.as_mut().unwrap();
        if c.damage.is_some() || !c.refuse.is_empty() {
            return;
        }
        let st = c.st.clone();
        let loaded = !c.idle();
        let mut d = c.disk.borrow_mut();
        let Some(x) = corrupt::damage(&st, &mut d, &mut r) else { return };
        drop(d);
        rec.ev(45, || x.what.clone());
        rec.stat(&format!("damaged.{}", x.class));
        rec.nontrivial = true;
        c.refuse = x.refuse;
        c.damage = x.dmg;
        if let Some(h) = x.hot {
            c.hot.push(h);
        }
        if loaded {
            // What is already loaded or cached stays usable.
            c.damage_late = true;
        }
        if let Some(Dmg::Inode(i) | Dmg::DirBlk { ino: i, .. } | Dmg::ExtNode { ino: i, .. }) = &c.damage {
            rec.state(mix2(70, mix2(crate::hash::fnv(x.class.as_bytes()), st.model.node(*i).ft().into())));
        }
    }

    fn refuse(&mut self, it: Item, rec: &mut Rec) {
        let mut r = Rng::new(it.seed);
        if self.unsupported.is_some() {
            return;
        }
        let c = self.client.as_mut().unwrap();
        if !c.idle() {
            return;
        }
        let st = c.st.clone();
        let mut d = c.disk.borrow_mut();
        let Some((what, ecs)) = corrupt::unsupported(&st, &mut d.img, self.jbd.as_ref(), &mut r) else { return };
        drop(d);
        rec.stat(&format!("refuse.{}", what.split(' ').next().unwrap_or("")));
        rec.nontrivial = true;
        rec.state(crate::hash::fnv(what.as_bytes()));
        rec.ev(46, || what.clone());
        c.refuse = ecs;
        self.unsupported = Some(what);
    }

    /// Fill an idle journal with anything at all.
    fn junk(&mut self, it: Item, rec: &mut Rec) {
        let mut r = Rng::new(it.seed);
        let c = self.client.as_mut().unwrap();
        let st = c.st.clone();
        if !st.g.journal || st.recover || !c.idle() {
            return;
        }
        let n = (st.model.node(st.jino).size / u64::from(st.g.bs)) as u32;
        let mut d = c.disk.borrow_mut();
        for fb in 0..n {
            let Some(b) = st.bmap(st.jino, fb) else { continue };
            match r.below(4) {
                0 => d.img.put_pat(b, r.next() >> 2),
                1 => d.img.put(b, vec![0; st.g.bs as usize]),
                2 => {
                    let mut v = d.img.get(b);
                    b32(&mut v, 0, MAGIC);
                    b32(&mut v, 4, r.below(8) as u32);
                    b32(&mut v, 8, r.below(100) as u32);
                    d.img.put(b, v);
                }
                _ => {}
            }
        }
        rec.stat("idle_journal_filled_with_junk");
        rec.nontrivial = true;
        rec.ev(47, || format!("{n} journal blocks overwritten"));
    }
}
