//! Fixed histories: deterministic scenarios that stay in every batch.

use crate::client::*;
use crate::fsw::Fs;
use crate::gen::*;
use crate::geo::Geo;
use crate::hash::fnv;
use crate::jbd::*;
use crate::rec::*;
use crate::rng::Rng;
use crate::world::config;
use std::rc::Rc;

pub struct Scenario {
    pub id: &'static str,
    pub run: fn(&mut Rec) -> R,
}
impl Scenario {
    pub fn seed(&self) -> u64 {
        fnv(self.id.as_bytes())
    }
}

pub fn list(prop: u8) -> Vec<Scenario> {
    match prop {
        1 => vec![
            Scenario { id: "revoke-block-nearly-full", run: |rec| revokes(123, rec) },
            Scenario { id: "revoke-block-full", run: |rec| revokes(125, rec) },
        ],
        _ => vec![],
    }
}

pub fn by_seed(prop: u8, seed: u64) -> Option<fn(&mut Rec) -> R> {
    list(prop).into_iter().find(|s| s.seed() == seed).map(|s| s.run)
}

/// Three transactions, the second of which revokes `n` blocks in one revoke
/// block; power is lost after all of them are on the medium.
fn revokes(n: usize, rec: &mut Rec) -> R {
    let mut r = Rng::new(7);
    let mut geo = Geo::journaled(&mut r);
    while geo.bs != 1024 {
        geo = Geo::journaled(&mut r);
    }
    geo.blocks += 4 * u64::from(geo.bpg);
    let mut fs = Fs::mkfs(geo, &mut r);
    assert!(fs.make_journal(200, &mut r));
    fs.finish_mkfs(true);
    let mut jc = config(1, 1).jcfg;
    jc.seq = 41;
    jc.incompat |= JI_REVOKE;
    jc.revokes_per_block = 125;
    jc.tags_per_desc = 20;
    let lim = Lim::default();
    let mut j = Jbd::new(&mut fs, jc, &mut r);
    let mut states = vec![];
    for step in 0..3u64 {
        let s = apply(&mut fs, B_MKDIR, 100 + step, &lim);
        rec.ev(30, || s);
        if step == 1 {
            let last = fs.g.blocks;
            let free: Vec<u64> = (0..last).rev().filter(|b| !fs.used.contains(*b)).take(n).collect();
            assert_eq!(free.len(), n);
            fs.freed_meta.extend(free);
        }
        j.commit(&mut fs, &mut r);
        assert!(!j.overflow);
        states.push(fs.clone());
        rec.ev(31, || format!("   committed, log {}..{} of {}", j.tail, j.head, j.len()));
    }
    // Everything submitted so far reached the medium.
    j.settle();
    let (txs, state) = j.prefix(&j.medium);
    assert_eq!(txs.len(), 3);
    let mut c = Client::new(state, j.medium.clone(), Mode::Exact);
    let full = c.load(rec, &mut r)?.then(|| c.verify_all(rec, &mut r)).unwrap_or(Ok(()));
    let Err(v) = full else { return Ok(()) };
    // What the finding describes: the view stops before that transaction.
    let mut c = Client::new(Rc::new(states[0].clone()), j.medium.clone(), Mode::Exact);
    if c.load(rec, &mut r)? && c.verify_all(rec, &mut r).is_ok() {
        return viol("replay-stops-at-revoke-block", format!("a transaction with {n} revokes in one block, and what follows it, is not replayed: {}", v.msg));
    }
    Err(v)
}
