//! Filesystem geometry and feature choices.

use crate::hash::crc32c;
use crate::rng::Rng;

pub const C_HAS_JOURNAL: u32 = 0x4;
pub const C_EXT_ATTR: u32 = 0x8;
pub const C_DIR_INDEX: u32 = 0x20;
pub const I_FILETYPE: u32 = 0x2;
pub const I_RECOVER: u32 = 0x4;
pub const I_EXTENTS: u32 = 0x40;
pub const I_64BIT: u32 = 0x80;
pub const I_FLEX_BG: u32 = 0x200;
pub const I_CSUM_SEED: u32 = 0x2000;
pub const I_ENCRYPT: u32 = 0x10000;
pub const R_SPARSE: u32 = 0x1;
pub const R_LARGE_FILE: u32 = 0x2;
pub const R_GDT_CSUM: u32 = 0x10;
pub const R_HUGE_FILE: u32 = 0x8;
pub const R_BIGALLOC: u32 = 0x200;
pub const R_DIR_NLINK: u32 = 0x20;
pub const R_EXTRA_ISIZE: u32 = 0x40;
pub const R_CSUM: u32 = 0x400;

#[derive(Clone, Debug)]
pub struct Geo {
    pub bs: u32,
    pub blocks: u64,
    pub first: u32,
    pub bpg: u32,
    pub ipg: u32,
    pub isize: u16,
    pub extra_isize: u16,
    pub desc: u16,
    pub is64: bool,
    pub csum: bool,
    pub csum_seed: Option<u32>,
    pub extents: bool,
    pub flex: bool,
    pub journal: bool,
    pub encrypt: bool,
    /// Inode flags that a reader need not care about.
    pub odd_flags: bool,
    pub compat: u32,
    pub ro_compat: u32,
    pub label: [u8; 16],
    pub uuid: [u8; 16],
    pub hash_seed: [u32; 4],
    /// 1 half-MD4, 2 TEA.
    pub hash_ver: u8,
    pub hash_unsigned: bool,
    /// Only some groups are materialised (huge devices).
    pub lazy: bool,
    pub creator: u32,
    pub label_garbage: bool,
    /// Blocks kept free behind the descriptors for more of them.
    pub resgdt: u32,
}

impl Geo {
    pub fn ngroups(&self) -> u32 {
        (self.blocks - u64::from(self.first)).div_ceil(u64::from(self.bpg)) as u32
    }
    pub fn group_first(&self, g: u32) -> u64 {
        u64::from(self.first) + u64::from(g) * u64::from(self.bpg)
    }
    pub fn group_len(&self, g: u32) -> u32 {
        (self.blocks - self.group_first(g)).min(u64::from(self.bpg)) as u32
    }
    pub fn gdt_start(&self) -> u64 {
        if self.bs == 1024 {
            2
        } else {
            1
        }
    }
    pub fn gdt_blocks(&self) -> u64 {
        let per = u64::from(self.bs) / u64::from(self.desc);
        u64::from(self.ngroups()).div_ceil(per)
    }
    pub fn itable_blocks(&self) -> u64 {
        (u64::from(self.ipg) * u64::from(self.isize)).div_ceil(u64::from(self.bs))
    }
    pub fn has_super(&self, g: u32) -> bool {
        if g <= 1 {
            return true;
        }
        if self.ro_compat & R_SPARSE == 0 {
            return true;
        }
        for p in [3u64, 5, 7] {
            let mut x = p;
            while x < u64::from(g) {
                x *= p;
            }
            if x == u64::from(g) {
                return true;
            }
        }
        false
    }
    pub fn seed(&self) -> u32 {
        self.csum_seed.unwrap_or_else(|| crc32c(!0, &self.uuid))
    }
    pub fn incompat(&self) -> u32 {
        let mut v = I_FILETYPE;
        if self.extents {
            v |= I_EXTENTS;
        }
        if self.is64 {
            v |= I_64BIT;
        }
        if self.flex {
            v |= I_FLEX_BG;
        }
        if self.csum_seed.is_some() {
            v |= I_CSUM_SEED;
        }
        if self.encrypt {
            v |= I_ENCRYPT;
        }
        v
    }
    pub fn ptrs(&self) -> u64 {
        u64::from(self.bs) / 4
    }

    /// A small, fully materialised filesystem.
    pub fn small(r: &mut Rng) -> Geo {
        let bs = *r.pick(&[1024u32, 1024, 1024, 2048, 2048, 4096, 4096, 4096, 8192, 16384, 32768, 65536]);
        let csum = r.chance(2, 3);
        let is64 = r.chance(1, 2);
        let desc: u16 = if is64 { *r.pick(&[64u16, 64, 64, 128, 256, 512, 1024]) } else { 32 };
        let ngroups = 1 + r.skewed(11) as u32;
        Geo::build(r, bs, csum, is64, desc, ngroups, 400)
    }

    /// Like `small`, fit to carry a journal that the library can replay.
    pub fn journaled(r: &mut Rng) -> Geo {
        let bs = *r.pick(&[1024u32, 1024, 1024, 2048, 2048, 4096, 4096, 8192]);
        let csum = r.chance(9, 10);
        let desc: u16 = *r.pick(&[64u16, 64, 64, 128, 256, 512]);
        let ngroups = 1 + r.skewed(7) as u32;
        let mut g = Geo::build(r, bs, csum, true, desc, ngroups, 700);
        g.journal = true;
        g
    }

    fn build(r: &mut Rng, bs: u32, csum: bool, is64: bool, desc: u16, ngroups: u32, spread: u64) -> Geo {
        let isize = {
            let o: &[u16] = &[128, 128, 256, 256, 256, 256, 512, 1024, 2048];
            (*r.pick(o)).min(bs.min(2048) as u16)
        };
        let first = u32::from(bs == 1024);
        let ipg_unit = (bs / u32::from(isize)).max(1);
        let unit = ipg_unit.max(8);
        let want = r.range(16, 64) as u32;
        let ipg = want.div_ceil(unit) * unit;
        let ipg = ipg.max(16);
        let gdt = (u64::from(ngroups) * u64::from(desc)).div_ceil(u64::from(bs)) as u32;
        let itb = (ipg * u32::from(isize)).div_ceil(bs);
        let resgdt = if r.chance(1, 2) { r.range(1, 3) as u32 } else { 0 };
        let need = 1 + gdt + resgdt + 2 + itb;
        let bpg = (need + r.range(40, spread) as u32).next_multiple_of(8).clamp(64, bs * 8);
        let last = r.range(u64::from(need) + 8, u64::from(bpg));
        let blocks = u64::from(first) + u64::from(ngroups - 1) * u64::from(bpg) + last;
        let mut g = Geo {
            bs,
            blocks,
            first,
            bpg,
            ipg,
            isize,
            extra_isize: if isize > 128 { *r.pick(&[32u16, 32, 28, 24]) } else { 0 },
            desc,
            is64,
            csum,
            csum_seed: if csum && r.chance(1, 3) { Some(r.next() as u32) } else { None },
            extents: is64 || r.chance(4, 5),
            flex: r.chance(1, 2),
            journal: false,
            encrypt: false,
            odd_flags: r.chance(1, 3),
            compat: C_DIR_INDEX | C_EXT_ATTR,
            ro_compat: R_SPARSE | R_LARGE_FILE,
            label: [0; 16],
            uuid: [0; 16],
            hash_seed: [0; 4],
            hash_ver: 1 + (r.chance(1, 2) as u8),
            hash_unsigned: r.chance(1, 4),
            lazy: false,
            creator: 0,
            label_garbage: r.chance(1, 4),
            resgdt,
        };
        g.ids(r);
        if g.csum {
            g.ro_compat |= R_CSUM;
        } else if r.chance(1, 4) {
            g.ro_compat |= R_GDT_CSUM;
        }
        if bs == 1024 && r.chance(1, 8) {
            // Clusters of several blocks let the first one be block 0.
            g.first = 0;
            g.blocks -= 1;
            g.ro_compat |= R_BIGALLOC;
        }
        if r.chance(1, 8) {
            // A superblock copy in every group.
            g.ro_compat &= !R_SPARSE;
        }
        // Features a reader need not care about, known and unknown.
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 5) {
                if r.chance(1, 2) {
                    g.compat |= *r.pick(&[0x1u32, 0x2, 0x10, 0x40, 0x80, 0x100, 0x200, 0x800, 0x1000, 1 << 13, 1 << 17, 1 << 31]);
                } else {
                    g.ro_compat |=
                        *r.pick(&[0x4u32, R_HUGE_FILE, R_DIR_NLINK, 0x80, 0x100, R_BIGALLOC, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x1_0000, 0x1_0000, 1 << 17, 1 << 31]);
                }
            }
        }
        if g.isize > 128 {
            g.ro_compat |= R_EXTRA_ISIZE;
        }
        g
    }

    /// More groups mean more descriptors, which still have to fit a group.
    pub fn fit(&mut self) {
        loop {
            let need = 1 + self.gdt_blocks() + u64::from(self.resgdt) + 2 + self.itable_blocks() + 16;
            if need <= u64::from(self.bpg) {
                break;
            }
            self.resgdt = 0;
            self.bpg = (need as u32).next_multiple_of(8);
        }
        // The last group must hold its own metadata.
        let rem = self.group_len(self.ngroups() - 1);
        let want = (8 + 3 + self.itable_blocks() + self.gdt_blocks() + u64::from(self.resgdt)) as u32;
        if rem < want {
            self.blocks += u64::from(want - rem);
        }
    }

    pub fn ids(&mut self, r: &mut Rng) {
        for b in self.uuid.iter_mut() {
            *b = r.next() as u8;
        }
        let n = r.below(17) as usize;
        for b in self.label.iter_mut().take(n) {
            *b = match r.below(4) {
                0 => r.next() as u8,
                _ => b'a' + r.below(26) as u8,
            };
        }
        if r.chance(5, 6) {
            for s in self.hash_seed.iter_mut() {
                *s = r.next() as u32;
            }
        }
    }

    /// Groups with more inodes than 16 bits can count.
    pub fn many_inodes(r: &mut Rng) -> Geo {
        let bs = *r.pick(&[16384u32, 32768, 65536]);
        let csum = r.chance(1, 2);
        let ngroups = r.range(1, 3) as u32;
        let mut g = Geo::build(r, bs, csum, true, 64, ngroups, 100);
        g.isize = *r.pick(&[128u16, 256]);
        g.extra_isize = g.extra_isize.min(g.isize - 128);
        if g.isize > 128 {
            g.extra_isize = 32;
            g.ro_compat |= R_EXTRA_ISIZE;
        } else {
            g.ro_compat &= !R_EXTRA_ISIZE;
        }
        let unit = bs / u32::from(g.isize);
        g.ipg = (r.range(65600, u64::from(bs) * 8) as u32 / unit) * unit;
        g.ipg = g.ipg.max(65536 + unit);
        g.fit();
        g
    }

    /// A huge sparse device with block numbers above 32 bits or byte offsets
    /// near the limits.
    pub fn huge(r: &mut Rng) -> Geo {
        let mut g = Geo::small(r);
        g.bs = *r.pick(&[16384u32, 32768, 65536, 65536]);
        g.first = 0;
        g.is64 = true;
        g.desc = *r.pick(&[64u16, 64, 128]);
        g.bpg = (g.bs * 8).min(65528 * 8);
        g.isize = *r.pick(&[256u16, 512, 1024]);
        g.extra_isize = 32;
        g.ro_compat |= R_EXTRA_ISIZE | 0x8;
        let unit = (g.bs / u32::from(g.isize)).max(8);
        g.ipg = unit * r.range(1, 3) as u32;
        let over = r.chance(3, 4);
        let base: u64 = if over { 1 << 32 } else { 1 << r.range(24, 31) };
        g.blocks = base + r.below(base / 8 + 1);
        // The last group must hold its own metadata.
        let rem = g.blocks % u64::from(g.bpg);
        if rem < 4096 {
            g.blocks += 4096 - rem;
        }
        g.lazy = true;
        g.resgdt = 0;
        g.extents = true;
        g.flex = r.chance(1, 2);
        g
    }
}
