//! `sim image SEED OUT [JOURNAL-BLOCKS]`: materialise generated filesystems,
//! to cross-check generator and journal simulator with e2fsprogs
//! (tools/crosscheck.py; development time only).

use crate::*;

pub fn main(a: &[String]) -> i32 {
    let seed: u64 = a[0].parse().unwrap();
    let out = &a[1];
    let mut r = rng::Rng::new(seed);
    let journal: Option<u32> = a.get(2).map(|s| s.parse().unwrap());
    let mut g = if journal.is_some() { geo::Geo::journaled(&mut r) } else { geo::Geo::small(&mut r) };
    if journal.is_some() && g.ngroups() * g.bpg < 8000 {
        g.blocks += u64::from(g.bpg) * (8000 / u64::from(g.bpg));
    }
    // e2fsck refuses feature bits it does not know, and wants others to
    // come with structures that no reader of files looks at.
    g.compat &= 0x2c;
    g.ro_compat &= 0x45b;
    if g.bs == 1024 && g.first == 0 {
        g.first = 1;
        g.blocks += 1;
    }
    g.fit();
    println!("{g:?}");
    let mut fs = fsw::Fs::mkfs(g, &mut r);
    let mut w = gen::base_weights();
    w[gen::B_COLLIDE as usize] = 1;
    w[gen::B_LINKCHAIN as usize] = 1;
    w[gen::B_UNLINK_MANY as usize] = 1;
    let Some(jn) = journal else {
        for _ in 0..r.below(60) {
            let k = r.weighted(&w) as u16;
            println!("{}", gen::apply(&mut fs, k, r.next(), &gen::Lim::default()));
        }
        fs.finish_mkfs(true);
        std::fs::write(out, fs.img.to_vec()).unwrap();
        return 0;
    };
    if !fs.make_journal(jn, &mut r) {
        println!("NOROOM");
        return 0;
    }
    fs.finish_mkfs(true);
    let bs = fs.g.bs as usize;
    let cfg = jbd::JCfg {
        tags_per_desc: if r.chance(1, 2) { (bs - 12 - 16 - 4) / 16 } else { r.range(1, 8) as usize },
        revokes_per_block: if r.chance(1, 2) { 100 } else { 3 },
        seq: *r.pick(&[1u32, 77, 0xfffffff0]),
        uuid: [7; 16],
        incompat: jbd::JI_64BIT | jbd::JI_CSUM_V3 | jbd::JI_REVOKE,
        strict_reuse: r.chance(1, 2),
        stale_log: r.chance(1, 3),
        lone_revokes: r.chance(1, 3),
    };
    let mut j = jbd::Jbd::new(&mut fs, cfg, &mut r);
    let lim = gen::Lim { max_fb: 4000, max_alloc: 24, max_bulk: 20, max_wide: 20, jdata: false };
    let cycles = r.range(1, 4);
    for c in 0..cycles {
        let n = r.range(1, 40);
        for i in 0..n {
            if i == n / 2 {
                j.crash_at = Some(j.events + 1 + r.below(150));
            }
            match r.below(6) {
                0 | 1 => j.commit(&mut fs, &mut r),
                2 => {
                    j.writeback((1, 2), &mut r);
                    j.update_tail();
                    j.release_held(&mut fs);
                }
                _ => {
                    let k = r.weighted(&w) as u16;
                    println!("{}", gen::apply(&mut fs, k, r.next(), &lim));
                }
            }
            if j.overflow {
                println!("OVERFLOW");
                return 0;
            }
            if j.crashed {
                break;
            }
        }
        j.crash(&mut r);
        if c == cycles - 1 {
            std::fs::write(out, j.medium.to_vec()).unwrap();
        }
        let (t, _) = j.prefix(&j.medium);
        println!("prefix {} of {}", t.len(), j.txs.len());
        fs = j.recover();
        if let Some(b) = j.agrees(&fs) {
            println!("DISAGREE block {b}");
        }
    }
    std::fs::write(format!("{out}.exp"), fs.img.to_vec()).unwrap();
    let list = |v: Vec<u64>| v.iter().map(u64::to_string).collect::<Vec<_>>().join(" ");
    let used = (0..fs.g.blocks)
        .filter(|b| fs.used.contains(*b) && !fs.fresh.contains(b) && fs.img.map.contains_key(b) && !j.jb.contains(b))
        .collect();
    std::fs::write(format!("{out}.used"), list(used)).unwrap();
    let bk = (0..fs.g.ngroups())
        .filter(|g| fs.g.has_super(*g))
        .flat_map(|g| {
            let f = fs.g.group_first(g);
            f..f + 1 + fs.g.gdt_blocks()
        })
        .collect();
    std::fs::write(format!("{out}.bk"), list(bk)).unwrap();
    println!("{:?}", j.stats);
    0
}
