//! Seeded generation of the schedules, one flavour per property.

use crate::client::*;
use crate::gen::*;
use crate::rng::{mix2, Rng};
use crate::world::*;

struct P {
    r: Rng,
    out: Vec<Item>,
}

impl P {
    fn push(&mut self, kind: u16) {
        let seed = self.r.next();
        self.out.push(Item { kind, seed });
    }
    fn build(&mut self, n: u64, w: &[u32]) {
        for _ in 0..n {
            let k = self.r.weighted(w) as u16;
            self.push(k);
        }
    }
    fn op(&mut self, w: &[u32]) {
        let k = 100 + self.r.weighted(w) as u16;
        self.push(k);
    }
    fn ops(&mut self, n: u64, w: &[u32]) {
        for _ in 0..n {
            self.op(w);
        }
    }
    /// A journaling writer at work; ends with the medium as a crash left it.
    fn writer(&mut self, n: u64, w: &[u32]) {
        self.push(J_MOUNT);
        for _ in 0..n {
            match self.r.below(10) {
                0 | 1 => self.push(J_COMMIT),
                2 if self.r.chance(1, 2) => self.push(J_WRITEBACK),
                3 if self.r.chance(1, 3) => self.push(J_CHECKPOINT),
                4 if self.r.chance(1, 6) => self.push(J_QUIESCE),
                _ => self.build(1, w),
            }
        }
        if self.r.chance(3, 4) {
            self.push(J_COMMIT);
        }
        if self.r.chance(1, 8) {
            self.push(J_UNMOUNT);
        }
        self.push(J_FREEZE);
    }
    fn fault(&mut self) {
        let k = match self.r.below(10) {
            0..=4 => F_NTH,
            5 | 6 => F_RANGE,
            7 | 8 => F_FLAKY,
            _ => F_DEAD,
        };
        self.push(k);
    }
}

fn plus(mut w: Vec<u32>, list: &[(u16, u32)]) -> Vec<u32> {
    for (k, v) in list {
        w[*k as usize] = *v;
    }
    w
}

fn general_ops() -> Vec<u32> {
    opw(&[
        (O_LOAD, 3), (O_CLONE, 3), (O_DROP, 2), (O_IDENT, 2), (O_META, 6), (O_LMETA, 6), (O_CANON, 3), (O_EXISTS, 4),
        (O_READLINK, 4), (O_READ, 10), (O_READSTR, 3), (O_OPEN, 6), (O_CLOSE, 1), (O_FREAD, 10), (O_FSTD, 5),
        (O_FSEEK, 6), (O_FSEEKSTD, 4), (O_FINFO, 2), (O_FTOEND, 4), (O_READDIR, 3), (O_DIRNEXT, 6), (O_DIRALL, 4),
        (O_ENTRY, 4), (O_WALK, 4), (O_NAMES, 2), (O_SAME, 1), (O_FSPARSE, 4),
    ])
}

/// How much one run does; tier-dependent through `scale`.
pub fn plan(prop: u8, seed: u64) -> Vec<Item> {
    let mut p = P { r: Rng::new(mix2(seed, 1)), out: Vec::new() };
    let cfg = config(prop, seed);
    let mut base = base_weights();
    if cfg.lim.max_wide > 1000 {
        base[B_WIDE as usize] = 8;
    }
    let journaled = cfg.journal.is_some();
    let size = match p.r.below(6) {
        0 => p.r.range(1, 6),
        1 | 2 => p.r.range(4, 15),
        3 | 4 => p.r.range(10, 35),
        _ => p.r.range(30, 70),
    };
    match prop {
        1 => {
            let w = plus(base, &[(B_REMOVE, 5), (B_RENAME, 4), (B_RESIZE, 4), (B_REWRITE, 4), (B_UNLINK_MANY, 2), (B_ATTR, 5), (B_HTREE, 2), (B_LARGE, 0), (B_RELABEL, 2), (B_GROW, 3), (B_ENCRYPT, if cfg.geo.encrypt { 2 } else { 0 })]);
            let pre = p.r.below(12);
            p.build(pre, &w);
            p.push(J_MOUNT);
            let cycles = p.r.range(1, 4);
            for _ in 0..cycles {
                let n = match p.r.below(4) {
                    0 => p.r.range(1, 6),
                    1 | 2 => p.r.range(4, 25),
                    _ => p.r.range(20, 80),
                };
                let arm = p.r.below(n * 3 / 2 + 1);
                let cw = p.r.range(1, 4);
                for i in 0..n {
                    if i == arm {
                        p.push(J_ARM);
                    }
                    match p.r.below(12) {
                        x if x < cw => p.push(J_COMMIT),
                        4 if p.r.chance(1, 2) => p.push(J_WRITEBACK),
                        5 if p.r.chance(1, 4) => p.push(J_CHECKPOINT),
                        5 if p.r.chance(1, 3) => p.push(J_TAIL),
                        6 if p.r.chance(1, 12) => p.push(J_QUIESCE),
                        6 if p.r.chance(1, 16) => p.push(J_UNMOUNT),
                        _ => p.build(1, &w),
                    }
                }
                p.push(J_CRASH);
            }
        }
        2 | 3 => {
            let w = plus(base, &[(B_LARGE, 1), (B_LINKCHAIN, 1), (B_HTREE, 3), (B_BULK, 4)]);
            if journaled {
                p.build(size / 3, &w);
                p.writer(size, &w);
            } else {
                p.build(size, &w);
            }
            let w = plus_op(general_ops(), &[(O_LOAD, if prop == 2 { 14 } else { 5 }), (O_TRUNCATED, 1)]);
            if p.r.chance(1, 3) {
                let n = p.r.range(1, 6);
                for _ in 0..n {
                    p.push(F_SWEEP);
                }
            }
            let rounds = p.r.range(1, 4);
            for _ in 0..rounds {
                let k = p.r.range(4, 25);
                if p.r.chance(1, 2) {
                    let n = p.r.below(6);
                    p.ops(n, &w);
                }
                for _ in 0..k {
                    if p.r.chance(2, 5) {
                        p.fault();
                    }
                    p.op(&w);
                    if p.r.chance(1, 8) {
                        p.push(F_HEAL);
                    }
                }
                p.push(F_HEAL);
                let n = p.r.range(3, if prop == 3 { 25 } else { 8 });
                p.ops(n, &w);
            }
            if prop == 3 && p.r.chance(1, 2) {
                p.push(O_VERIFY);
            }
        }
        4 => {
            let w = plus(base, &[(B_LARGE, 2), (B_FRAG, 6), (B_REWRITE, 3)]);
            if journaled {
                p.build(size / 2, &w);
                p.writer(size, &w);
            } else {
                p.build(size + 10, &w);
            }
            let w = plus_op(general_ops(), &[(O_LOAD, 2), (O_CLONE, 5), (O_DROP, 3), (O_LOADVEC, 1), (O_LOADFILE, 1), (O_FSPARSE, 8), (O_FTOEND, 6)]);
            let n = p.r.range(40, 220);
            p.ops(n, &w);
            if p.r.chance(1, 3) {
                p.push(O_VERIFY);
                p.ops(20, &w);
            }
        }
        5 => {
            let w = weights(&[
                (B_MKDIR, 2), (B_FILE, 8), (B_FRAG, 8), (B_SPARSE, 6), (B_LARGE, 3), (B_TEXT, 3), (B_REWRITE, 3),
                (B_RESIZE, 5), (B_PUNCH, 5), (B_PREALLOC, 4), (B_HARD, 1), (B_LINK, 1),
            ]);
            p.build(size.max(4), &w);
            if journaled {
                p.writer(6, &w);
            }
            let w = opw(&[
                (O_OPEN, 8), (O_CLOSE, 1), (O_FREAD, 20), (O_FSTD, 12), (O_FSEEK, 16), (O_FSEEKSTD, 14), (O_FINFO, 4),
                (O_FTOEND, 5), (O_FSPARSE, 8), (O_LOAD, 1),
            ]);
            let n = p.r.range(20, 140);
            p.ops(n, &w);
        }
        6 => {
            let w = weights(&[
                (B_MKDIR, 3), (B_FILE, 6), (B_FRAG, 9), (B_SPARSE, 8), (B_LARGE, 4), (B_TEXT, 4), (B_REWRITE, 4),
                (B_RESIZE, 6), (B_PUNCH, 6), (B_PREALLOC, 6), (B_HARD, 1), (B_REMOVE, 2),
                (B_ENCRYPT, if cfg.geo.encrypt { 1 } else { 0 }),
            ]);
            p.build(size.max(4), &w);
            if journaled {
                p.writer(size / 2 + 2, &w);
            }
            let w = opw(&[
                (O_READ, 14), (O_READSTR, 4), (O_OPEN, 6), (O_FTOEND, 8), (O_FSPARSE, 14), (O_FREAD, 4), (O_FSEEK, 3),
                (O_LOAD, 1), (O_LOADVEC, 1),
            ]);
            let n = p.r.range(8, 50);
            p.ops(n, &w);
            p.push(O_VERIFY);
        }
        7 => {
            let w = weights(&[
                (B_MKDIR, 8), (B_CHAIN, 1), (B_FILE, 3), (B_LINK, 4), (B_SPECIAL, 3), (B_HARD, 3), (B_REMOVE, 8),
                (B_RENAME, 8), (B_BULK, 10), (B_HTREE, 8), (B_COLLIDE, 3), (B_WIDE, base[B_WIDE as usize]), (B_UNLINK_MANY, 5), (B_THIN, 3),
                (B_ENCRYPT, if cfg.geo.encrypt { 1 } else { 0 }), (B_ATTR, 2),
            ]);
            p.build(size.max(3), &w);
            if journaled {
                p.writer(size / 2 + 2, &w);
            }
            let w = opw(&[
                (O_DIRALL, 14), (O_READDIR, 3), (O_DIRNEXT, 10), (O_ENTRY, 5), (O_NAMES, 20), (O_EXISTS, 5),
                (O_LMETA, 5), (O_LOAD, 1),
            ]);
            let n = p.r.range(10, 50);
            p.ops(n, &w);
            if p.r.chance(1, 2) {
                p.push(O_VERIFY);
            }
        }
        8 => {
            let w = weights(&[
                (B_MKDIR, 8), (B_CHAIN, 4), (B_FILE, 4), (B_LINK, 18), (B_SPECIAL, 3), (B_HARD, 2), (B_RENAME, 3),
                (B_REMOVE, 2), (B_LINKCHAIN, 3), (B_BULK, 1), (B_HTREE, 1), (B_TEXT, 1), (B_WIDE, base[B_WIDE as usize] / 2),
                (B_ENCRYPT, if cfg.geo.encrypt { 1 } else { 0 }),
            ]);
            p.build(size + 6, &w);
            if journaled {
                p.writer(6, &w);
            }
            let w = opw(&[
                (O_META, 8), (O_LMETA, 8), (O_CANON, 14), (O_EXISTS, 6), (O_READLINK, 8), (O_READ, 4), (O_READSTR, 2),
                (O_OPEN, 4), (O_READDIR, 3), (O_DIRALL, 2), (O_WALK, 16), (O_SAME, 8), (O_LOAD, 1),
            ]);
            let n = p.r.range(20, 120);
            p.ops(n, &w);
        }
        9 => {
            let w = plus(base, &[(B_ATTR, 14), (B_SPECIAL, 5), (B_RESIZE, 5), (B_LARGE, 2), (B_SPARSE, 4)]);
            p.build(size.max(4), &w);
            if journaled {
                p.writer(size / 2 + 2, &w);
            }
            let w = opw(&[
                (O_IDENT, 5), (O_META, 12), (O_LMETA, 12), (O_FINFO, 5), (O_OPEN, 6), (O_DIRALL, 8), (O_ENTRY, 8),
                (O_LOAD, 3), (O_LOADVEC, 1), (O_LOADFILE, 1),
            ]);
            let n = p.r.range(15, 70);
            p.ops(n, &w);
            p.push(O_VERIFY);
        }
        10 => {
            let w = plus(base, &[(B_LARGE, 1), (B_LINKCHAIN, 1), (B_HTREE, 5), (B_BULK, 3), (B_COLLIDE, 1), (B_FRAG, 6)]);
            if journaled {
                p.build(size / 2, &w);
                p.writer(size, &w);
            } else {
                p.build(size, &w);
            }
            let w = plus_op(
                general_ops(),
                &[(O_LOAD, 6), (O_DROP, 1), (O_SAME, 4), (O_DIRALL, 8), (O_NAMES, 3), (O_FTOEND, 5), (O_FSPARSE, 5), (O_READ, 12)],
            );
            let before = p.r.chance(1, 3);
            if before {
                let n = p.r.range(1, 12);
                p.ops(n, &w);
            }
            let rounds = p.r.range(1, 8);
            for _ in 0..rounds {
                let n = p.r.range(1, 4);
                for _ in 0..n {
                    let k = match p.r.below(12) {
                        0 => X_RANDOM,
                        1 | 2 => X_COPY,
                        3 | 4 => X_MAZE,
                        _ => X_STRUCT,
                    };
                    p.push(k);
                }
                p.push(O_LOAD);
                let n = p.r.range(3, 14);
                p.ops(n, &w);
                if p.r.chance(1, 5) {
                    p.fault();
                    p.ops(3, &w);
                    p.push(F_HEAL);
                }
                let undo = p.r.below(4);
                for _ in 0..undo {
                    p.push(X_REPAIR);
                }
            }
        }
        11 => {
            let w = plus(base, &[(B_LARGE, 1), (B_LINKCHAIN, 1), (B_HTREE, 6), (B_BULK, 4), (B_FRAG, 6)]);
            p.build(size.max(3), &w);
            let w = plus_op(
                general_ops(),
                &[(O_LOAD, 3), (O_DROP, 1), (O_SAME, 4), (O_DIRALL, 8), (O_NAMES, 6), (O_FTOEND, 4), (O_FSPARSE, 4), (O_READ, 12), (O_VERIFY, 1)],
            );
            if p.r.chance(1, 5) {
                let n = p.r.range(1, 10);
                p.ops(n, &w);
            }
            p.push(D_DAMAGE);
            p.push(O_LOAD);
            let n = p.r.range(8, 40);
            p.ops(n, &w);
        }
        12 => {
            let w = plus(base, &[(B_LARGE, 2), (B_LINKCHAIN, 1)]);
            if journaled {
                p.build(size / 2, &w);
                p.writer(size, &w);
            } else {
                p.build(size, &w);
            }
            let w = plus_op(general_ops(), &[(O_LOAD, 5), (O_IDENT, 3), (O_FINFO, 5)]);
            let n = p.r.range(10, 90);
            let faulty = p.r.chance(1, 3);
            if faulty && p.r.chance(1, 2) {
                let n = p.r.range(1, 3);
                for _ in 0..n {
                    p.push(F_SWEEP);
                }
            }
            for _ in 0..n {
                if faulty && p.r.chance(1, 5) {
                    p.fault();
                }
                p.op(&w);
                if faulty && p.r.chance(1, 3) {
                    p.push(F_HEAL);
                }
            }
            p.push(F_HEAL);
            p.push(O_VERIFY);
        }
        13 => {
            let w = plus(base, &[(B_HTREE, 3), (B_BULK, 3), (B_BADHASH, 2), (B_ENCRYPT, if cfg.geo.encrypt { 3 } else { 0 })]);
            let flavour = p.r.below(10);
            if journaled && flavour < 8 {
                p.build(size / 2, &w);
                p.writer(size, &w);
            } else {
                p.build(size, &w);
            }
            if flavour < 6 {
                p.push(G_REFUSE);
            }
            if flavour >= 6 || p.r.chance(1, 3) {
                p.push(G_JUNK);
            }
            let w = plus_op(general_ops(), &[(O_LOAD, 6), (O_LOADVEC, 1), (O_DIRALL, 8), (O_NAMES, 4)]);
            p.push(O_LOAD);
            let n = p.r.range(4, 30);
            p.ops(n, &w);
            if p.r.chance(1, 3) {
                p.push(O_VERIFY);
            }
        }
        _ => {}
    }
    p.out
}

fn plus_op(mut w: Vec<u32>, list: &[(u16, u32)]) -> Vec<u32> {
    for (k, v) in list {
        w[(*k - 100) as usize] = *v;
    }
    w
}
