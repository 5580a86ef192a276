//! Command line: batches of seeded runs over worker processes, minimising of
//! failures, replay files, evidence.
//!
//!   sim check C05 --tier quick --seed 1 --root /verif
//!   sim replay FILE          run a replay file, compare with what it recorded
//!   sim trace C05 INDEX      one run of a batch, with its whole trace
//!   sim image SEED OUT [N]   a filesystem image (with a journal of N blocks)
//!
//! A run is a function of (property, seed, items) only. Workers share
//! nothing, and which worker makes which run changes nothing.

use crate::plan::plan;
use crate::rec::*;
use crate::rng::mix2;
use crate::scenario;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// CPU seconds one call may take before it counts as a hang.
const CALL_CPU: usize = 12;

/// Limits the CPU time of the calls of one run, and of the whole run.
fn cpu_limit(secs: usize) {
    crate::alloc::set_call_cpu(secs);
    crate::alloc::arm(crate::alloc::VIRTUAL, secs * 12);
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if i.payload().is::<crate::disk::StepBudget>() {
            "step budget".to_string()
        } else {
            "?".to_string()
        };
        let loc = i.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        *PANIC.lock().unwrap() = Some((loc, msg));
    }));
}

/// Class of outcomes that are the simulator's own fault.
const BROKEN: &str = "simulator";

fn one(prop: u8, seed: u64, items: &[Item], rec: &mut Rec) -> R {
    match one_run(prop, seed, items, rec) {
        // C12 is about the requests alone. Whatever else goes wrong is for
        // the other properties' checks to report.
        Err(v) if prop == 12 && !matches!(v.class.as_str(), BROKEN | "stray-read" | "needless-read" | "foreign-io-error") => {
            rec.stat("run_ended_by_violation_of_another_property");
            Ok(())
        }
        r => r,
    }
}

fn one_run(prop: u8, seed: u64, items: &[Item], rec: &mut Rec) -> R {
    crate::alloc::set_cap(usize::MAX);
    crate::alloc::set_in_lib(false);
    let r = catch_unwind(AssertUnwindSafe(|| World::run(prop, seed, items, rec)));
    crate::alloc::set_cap(usize::MAX);
    match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.lock().unwrap().take().unwrap_or_default();
            if msg == "step budget" && crate::alloc::in_lib() {
                return viol("hang", "one call made more device reads than any such call can need".into());
            }
            // Relative source paths are the simulator's.
            if loc.starts_with("src/") || !crate::alloc::in_lib() {
                return viol(BROKEN, format!("{loc}: {msg}"));
            }
            let short = loc.rsplit("/src/").next().unwrap_or(&loc).to_string();
            viol(&format!("panic@{short}"), format!("the library panicked at {loc}: {msg}"))
        }
    }
}

fn prop_no(s: &str) -> Option<u8> {
    s.strip_prefix('C')?.parse().ok()
}

fn run_seed(base: u64, prop: u8, index: u64) -> u64 {
    mix2(mix2(base, u64::from(prop)), index)
}

/// Runs of a batch.
fn batch(prop: u8, thorough: bool) -> u64 {
    let q = match prop {
        1 => 12000,
        2 => 9000,
        3 => 7000,
        4 => 2400,
        5 => 9600,
        6 => 4800,
        7 => 1600,
        8 => 2400,
        9 => 6000,
        10 => 4500,
        11 => 10000,
        12 => 6000,
        13 => 20000,
        _ => 100,
    };
    if thorough {
        q * 25
    } else {
        q
    }
}

struct Args {
    pos: Vec<String>,
    opt: BTreeMap<String, String>,
}
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.opt.get(k).map(String::as_str)
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, num)
    }
}
fn num(s: &str) -> u64 {
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).unwrap(),
        None => s.parse().unwrap(),
    }
}

pub fn main() -> i32 {
    let mut a = Args { pos: vec![], opt: BTreeMap::new() };
    let mut it = std::env::args().skip(1);
    while let Some(s) = it.next() {
        if let Some(k) = s.strip_prefix("--") {
            a.opt.insert(k.to_string(), it.next().unwrap_or_default());
        } else {
            a.pos.push(s);
        }
    }
    let cmd = a.pos.first().cloned().unwrap_or_default();
    match cmd.as_str() {
        "check" => check(&a),
        "worker" => worker(&a),
        "exec" => exec(&a),
        "replay" => replay(&a),
        "trace" => trace(&a),
        "image" => crate::image::main(&a.pos[1..]),
        _ => {
            eprintln!("usage: sim check|replay|trace|image ...");
            2
        }
    }
}

// ------------------------------------------------------------------- workers

/// `sim worker --prop --seed --from W --step N --runs M --dir D`
fn worker(a: &Args) -> i32 {
    hook();
    let prop = a.num("prop", 0) as u8;
    let base = a.num("seed", 1);
    let (w, n, runs) = (a.num("from", 0), a.num("step", 1), a.num("runs", 0));
    let dir = PathBuf::from(a.get("dir").unwrap());
    let deadline = Instant::now() + Duration::from_secs(a.num("wall", 100_000));
    let status = dir.join(format!("status-{w}"));
    let stop = dir.join("stop");
    let mut log = std::io::BufWriter::new(std::fs::File::create(dir.join(format!("log-{w}"))).unwrap());
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut ops = 0;
    let mut items_run = 0u64;
    let mut runs_with: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = w;
    let mut sf = std::fs::File::create(&status).unwrap();
    let mut fail = None;
    let slow = std::env::var_os("SIM_SLOW").is_some();
    while i < runs {
        if Instant::now() > deadline {
            break;
        }
        if let Ok(s) = std::fs::read_to_string(&stop) {
            if s.trim().parse::<u64>().is_ok_and(|m| m < i) {
                break;
            }
        }
        use std::os::unix::fs::FileExt;
        sf.write_at(format!("{i:>20}").as_bytes(), 0).unwrap();
        let seed = run_seed(base, prop, i);
        let items = plan(prop, seed);
        let mut rec = Rec::default();
        let t0 = Instant::now();
        cpu_limit(CALL_CPU);
        let r = one(prop, seed, &items, &mut rec);
        cpu_limit(0);
        if slow && t0.elapsed().as_millis() > 500 {
            eprintln!("slow run {i}: {:?}", t0.elapsed());
        }
        ops += rec.ops;
        items_run += items.len() as u64;
        for (k, v) in &rec.stats {
            *stats.entry(k.clone()).or_default() += v;
            *runs_with.entry(k.clone()).or_default() += 1;
        }
        states.extend(&rec.states);
        writeln!(log, "run {i} {:x} {:x} {}", rec.digest, rec.shape, u8::from(rec.nontrivial || rec.ops > 0)).unwrap();
        if let Err(v) = r {
            fail = Some((i, v));
            let cur = std::fs::read_to_string(&stop).ok().and_then(|s| s.trim().parse::<u64>().ok());
            if cur.is_none_or(|c| c > i) {
                let _ = std::fs::write(&stop, format!("{i}\n"));
            }
            break;
        }
        i += n;
    }
    sf.set_len(0).unwrap();
    sf.flush().unwrap();
    writeln!(log, "ops {ops}").unwrap();
    writeln!(log, "items {items_run}").unwrap();
    for (k, v) in stats {
        writeln!(log, "stat {v} {} {k}", runs_with[&k]).unwrap();
    }
    for s in states {
        writeln!(log, "state {s:x}").unwrap();
    }
    if let Some((i, v)) = fail {
        writeln!(log, "fail {i} {} {}", v.class.replace(' ', "_"), v.msg.replace('\n', " ")).unwrap();
    }
    writeln!(log, "end").unwrap();
    log.flush().unwrap();
    0
}

/// What became of a process that did not report.
fn death(c: &std::process::ExitStatus) -> Viol {
    use std::os::unix::process::ExitStatusExt;
    let (class, msg) = match c.signal() {
        Some(6) => ("abort", "the process aborted (an allocation failed, or a panic while panicking)"),
        Some(11 | 7) => ("crash", "the process died of a memory fault (stack overflow included)"),
        Some(26) => (BROKEN, "the run used up its CPU time outside of calls"),
        Some(27) => ("hang", "a call used up its CPU time without returning"),
        Some(9) => ("killed", "the process was killed"),
        _ => (BROKEN, "the process ended unexpectedly"),
    };
    let class = if class == "killed" { BROKEN } else { class };
    Viol { class: class.into(), msg: msg.into() }
}

// -------------------------------------------------------------- replay files

#[derive(Clone, Default)]
struct Replay {
    prop: u8,
    seed: u64,
    items: Vec<Item>,
    class: String,
    msg: String,
    trace: Vec<String>,
}

impl Replay {
    fn write(&self, p: &Path) -> std::io::Result<()> {
        let mut s = format!("property C{:02}\nseed {:#x}\nclass {}\nmessage {}\n", self.prop, self.seed, self.class, self.msg.replace('\n', " "));
        for i in &self.items {
            s += &format!("item {} {:#x} {}\n", i.kind, i.seed, item_name(i.kind));
        }
        for t in &self.trace {
            s += &format!("| {t}\n");
        }
        std::fs::write(p, s)
    }
    fn read(p: &Path) -> Option<Replay> {
        let s = std::fs::read_to_string(p).ok()?;
        let mut o = Replay::default();
        for l in s.lines() {
            if let Some(t) = l.strip_prefix("| ") {
                o.trace.push(t.to_string());
                continue;
            }
            let (k, v) = l.split_once(' ')?;
            match k {
                "property" => o.prop = prop_no(v)?,
                "seed" => o.seed = num(v),
                "class" => o.class = v.into(),
                "message" => o.msg = v.into(),
                "item" => {
                    let mut w = v.split(' ');
                    o.items.push(Item { kind: w.next()?.parse().ok()?, seed: num(w.next()?) });
                }
                _ => return None,
            }
        }
        Some(o)
    }
}

/// `sim exec FILE OUT`: run a replay file, write outcome and trace to OUT.
fn exec(a: &Args) -> i32 {
    hook();
    let Some(rp) = Replay::read(Path::new(&a.pos[1])) else { return 2 };
    let mut rec = Rec::default();
    rec.trace = Some(vec![]);
    if let Some(o) = a.pos.get(2) {
        rec.stream = std::fs::File::create(o).ok();
    }
    cpu_limit(if a.opt.contains_key("brief") { CALL_CPU / 4 } else { CALL_CPU });
    let r = match scenario::by_seed(rp.prop, rp.seed) {
        Some(f) if rp.items.is_empty() => scenario_one(f, &mut rec),
        _ => one(rp.prop, rp.seed, &rp.items, &mut rec),
    };
    cpu_limit(0);
    if let Some(f) = &mut rec.stream {
        let s = match r {
            Ok(()) => "= ok\n".to_string(),
            Err(v) => format!("= {} {}\n", v.class, v.msg.replace('\n', " ")),
        };
        let _ = f.write_all(s.as_bytes());
    }
    0
}

fn scenario_one(f: fn(&mut Rec) -> R, rec: &mut Rec) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(rec))) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.lock().unwrap().take().unwrap_or_default();
            if loc.starts_with("src/") {
                viol(BROKEN, format!("{loc}: {msg}"))
            } else {
                viol("panic", format!("the library panicked at {loc}: {msg}"))
            }
        }
    }
}

/// Run in a fresh process. Outcome (None: no violation) and trace.
fn run_file(rp: &Replay, dir: &Path, name: &str) -> (Option<Viol>, Vec<String>) {
    run_file_opt(rp, dir, name, false)
}

fn run_file_opt(rp: &Replay, dir: &Path, name: &str, brief: bool) -> (Option<Viol>, Vec<String>) {
    let f = dir.join(format!("{name}.in"));
    let o = dir.join(format!("{name}.out"));
    let _ = std::fs::remove_file(&o);
    rp.write(&f).unwrap();
    let st = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(&f)
        .arg(&o)
        .args(if brief { &["--brief", "1"][..] } else { &[] })
        .env("TMPDIR", dir)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap();
    let s = String::from_utf8_lossy(&std::fs::read(&o).unwrap_or_default()).into_owned();
    let mut trace: Vec<String> = s.lines().map(str::to_string).collect();
    if trace.last().is_some_and(|l| l.starts_with("= ")) {
        let l = trace.pop().unwrap();
        if l == "= ok" {
            return (None, trace);
        }
        let (c, m) = l[2..].split_once(' ').unwrap_or((&l[2..], ""));
        return (Some(Viol { class: c.into(), msg: m.into() }), trace);
    }
    (Some(death(&st)), trace)
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("ext4sim-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn replay(a: &Args) -> i32 {
    let Some(rp) = Replay::read(Path::new(&a.pos[1])) else {
        eprintln!("not a replay file");
        return 2;
    };
    let d = scratch();
    let (v, t) = run_file(&rp, &d, "r");
    let _ = std::fs::remove_dir_all(&d);
    for l in &t {
        println!("| {l}");
    }
    let same = t == rp.trace;
    match v {
        Some(v) => {
            println!("class {}\nmessage {}", v.class, v.msg);
            let ok = v.class == rp.class && same;
            println!("{}", if ok { "reproduced exactly" } else { "FAILS DIFFERENTLY from the recording" });
            if ok {
                println!("VIOLATION property=C{:02} replay={}", rp.prop, a.pos[1]);
                1
            } else {
                3
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn trace(a: &Args) -> i32 {
    let prop = prop_no(&a.pos[1]).unwrap();
    let i = num(&a.pos[2]);
    let seed = run_seed(a.num("seed", 1), prop, i);
    let mut rp = Replay { prop, seed, items: plan(prop, seed), ..Default::default() };
    let d = scratch();
    let (v, t) = run_file(&rp, &d, "r");
    let _ = std::fs::remove_dir_all(&d);
    for l in &t {
        println!("| {l}");
    }
    if let Some(o) = a.get("write") {
        rp.trace = t;
        if let Some(v) = &v {
            rp.class = v.class.clone();
            rp.msg = v.msg.clone();
        }
        rp.write(Path::new(o)).unwrap();
    }
    match v {
        Some(v) => println!("= {} {}", v.class, v.msg),
        None => println!("= ok"),
    }
    0
}

// ------------------------------------------------------------------ minimise

/// Drop items while the same class of violation stays.
fn minimise(rp: &mut Replay, dir: &Path) -> (u64, usize) {
    let t0 = Instant::now();
    let before = rp.items.len();
    let mut tries = 0;
    let budget = |tries: u64| tries < 600 && t0.elapsed() < Duration::from_secs(75);
    let fails = |c: &[Vec<Item>], class: &str, seed: u64, prop: u8| -> Vec<bool> {
        std::thread::scope(|s| {
            let hs: Vec<_> = c
                .iter()
                .enumerate()
                .map(|(k, items)| {
                    let t = Replay { prop, seed, items: items.clone(), ..Default::default() };
                    let dir = dir.to_path_buf();
                    s.spawn(move || run_file_opt(&t, &dir, &format!("m{k}"), true).0.is_some_and(|v| v.class == class))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    let class = rp.class.clone();
    // Nothing after the failing item matters: find the shortest prefix.
    let (mut lo, mut hi) = (0, rp.items.len());
    while lo + 1 < hi && budget(tries) {
        let mid = (lo + hi) / 2;
        tries += 1;
        if fails(&[rp.items[..mid].to_vec()], &class, rp.seed, rp.prop)[0] {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    rp.items.truncate(hi);
    let mut chunk = (rp.items.len() / 2).max(1);
    'outer: loop {
        let mut at = 0;
        let mut any = false;
        while at < rp.items.len() {
            if !budget(tries) {
                break 'outer;
            }
            // A few candidates at once, the first that fails is taken.
            let mut cands = vec![];
            let mut pos = at;
            while cands.len() < 8 && pos < rp.items.len() {
                let mut v = rp.items.clone();
                v.drain(pos..(pos + chunk).min(v.len()));
                cands.push(v);
                pos += chunk;
            }
            tries += cands.len() as u64;
            let f = fails(&cands, &class, rp.seed, rp.prop);
            if let Some(k) = f.iter().position(|x| *x) {
                rp.items = cands.swap_remove(k);
                at += k * chunk;
                any = true;
            } else {
                at = pos;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        if !any || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
    (tries, before)
}

// --------------------------------------------------------------------- check

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Batch {
    runs: u64,
    ops: u64,
    items: u64,
    stats: BTreeMap<String, (u64, u64)>,
    states: BTreeSet<u64>,
    shapes: BTreeSet<u64>,
    digests: BTreeMap<u64, u64>,
    fail: Option<(u64, Viol)>,
    lost: Vec<u64>,
}

fn run_batch(prop: u8, base: u64, runs: u64, n: u64, dir: &Path, wall: u64) -> Batch {
    let _ = std::fs::remove_file(dir.join("stop"));
    let mut kids: Vec<(u64, Child)> = (0..n)
        .map(|w| {
            let c = Command::new(std::env::current_exe().unwrap())
                .arg("worker")
                .args(["--prop", &prop.to_string(), "--seed", &base.to_string(), "--from", &w.to_string()])
                .args(["--step", &n.to_string(), "--runs", &runs.to_string(), "--wall", &wall.to_string()])
                .arg("--dir")
                .arg(dir)
                .env("TMPDIR", dir)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            (w, c)
        })
        .collect();
    let mut b = Batch {
        runs: 0,
        ops: 0,
        items: 0,
        stats: BTreeMap::new(),
        states: BTreeSet::new(),
        shapes: BTreeSet::new(),
        digests: BTreeMap::new(),
        fail: None,
        lost: vec![],
    };
    let mut fails: Vec<(u64, Viol)> = vec![];
    for (w, c) in &mut kids {
        let st = c.wait().unwrap();
        let log = std::fs::read(dir.join(format!("log-{w}"))).unwrap_or_default();
        let log = String::from_utf8_lossy(&log);
        let done = log.lines().last() == Some("end");
        for l in log.lines() {
            let v: Vec<&str> = l.splitn(4, ' ').collect();
            let hex = |s: &str| u64::from_str_radix(s, 16).unwrap_or(0);
            match v[0] {
                "run" if v.len() == 4 => {
                    let w: Vec<&str> = l.split(' ').collect();
                    if w.len() < 5 {
                        continue;
                    }
                    b.runs += 1;
                    b.digests.insert(num(w[1]), hex(w[2]));
                    if w[4] == "1" {
                        b.shapes.insert(hex(w[3]));
                    }
                }
                "ops" => b.ops += num(v[1]),
                "items" => b.items += num(v[1]),
                "stat" if v.len() == 4 => {
                    let e = b.stats.entry(v[3].to_string()).or_default();
                    e.0 += num(v[1]);
                    e.1 += num(v[2]);
                }
                "state" => {
                    b.states.insert(hex(v[1]));
                }
                "fail" if v.len() == 4 => fails.push((num(v[1]), Viol { class: v[2].into(), msg: v[3].into() })),
                _ => {}
            }
        }
        if !done {
            let i = std::fs::read_to_string(dir.join(format!("status-{w}"))).unwrap_or_default();
            if let Ok(i) = i.trim().parse::<u64>() {
                fails.push((i, death(&st)));
                b.runs += 1;
                b.lost.push(i);
                // Tell the others.
                let cur = std::fs::read_to_string(dir.join("stop")).ok().and_then(|s| s.trim().parse::<u64>().ok());
                if cur.is_none_or(|c| c > i) {
                    let _ = std::fs::write(dir.join("stop"), format!("{i}\n"));
                }
            } else {
                fails.push((u64::MAX, Viol { class: BROKEN.into(), msg: "a worker did not start".into() }));
            }
        }
    }
    b.fail = fails.into_iter().min_by_key(|f| f.0);
    b
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let name = a.pos[1].clone();
    let prop = prop_no(&name).unwrap();
    let root = PathBuf::from(a.get("root").unwrap_or("/verif"));
    let tier = a.get("tier").map(str::to_string).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let base = a.get("seed").map(num).or_else(|| std::env::var("VERIF_SEED").ok().map(|s| num(s.trim()))).unwrap_or(1);
    let runs = a.num("runs", batch(prop, thorough));
    let n = a.num("workers", 8);
    let wall = a.num("wall", if thorough { 7200 } else { 300 });
    println!("{name}: seed {base}, tier {tier}, {runs} runs on {n} workers");
    let dir = scratch();
    let code = check_in(&name, prop, &root, &tier, base, runs, n, wall, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

#[allow(clippy::too_many_arguments)]
fn check_in(name: &str, prop: u8, root: &Path, tier: &str, base: u64, runs: u64, n: u64, wall: u64, dir: &Path, t0: Instant) -> i32 {
    let known: Vec<String> = std::fs::read_to_string(root.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with("KNOWN-FINDING: "))
        .map(str::to_string)
        .collect();
    // A finding is one history and the way in which it fails.
    let listed = |id: &str, class: &str| known.iter().find(|l| l.contains(&format!("property={name} [{id}/{class}]"))).cloned();
    let mut code = 0;
    let mut violations = 0;
    let mut fixed = vec![];
    let replays = root.join("replays");

    // The fixed histories of this property.
    for s in scenario::list(prop) {
        let mut rp = Replay { prop, seed: s.seed(), ..Default::default() };
        let (v, t) = run_file(&rp, dir, "s");
        match v {
            None => fixed.push(format!("{}: held", s.id)),
            Some(v) if v.class == BROKEN => {
                eprintln!("{name}: SIMULATOR ERROR in scenario {}: {}", s.id, v.msg);
                code = 2;
            }
            Some(v) => {
                if let Some(l) = listed(s.id, &v.class) {
                    println!("{l}");
                    fixed.push(format!("{}: known finding", s.id));
                } else {
                    violations += 1;
                    rp.class = v.class;
                    rp.msg = v.msg;
                    rp.trace = t;
                    let _ = std::fs::create_dir_all(&replays);
                    let p = replays.join(format!("{name}-{}.txt", s.id));
                    rp.write(&p).unwrap();
                    println!("{name}: scenario {}: {} {}", s.id, rp.class, rp.msg);
                    println!("VIOLATION property={name} replay={}", p.display());
                    if code == 0 {
                        code = 1;
                    }
                }
            }
        }
    }

    let tb = Instant::now();
    let b = run_batch(prop, base, runs, n, dir, wall);
    let batch_s = tb.elapsed().as_secs_f64();
    let mut min_info = String::new();
    if let Some((i, v)) = &b.fail {
        let seed = run_seed(base, prop, *i);
        if v.class == BROKEN {
            eprintln!("{name}: SIMULATOR ERROR in run {i} (seed {seed:#x}): {}", v.msg);
            code = 2;
        } else {
            let mut rp = Replay { prop, seed, items: plan(prop, seed), ..Default::default() };
            // In a fresh process first.
            let (v2, t) = run_file(&rp, dir, "v");
            match v2 {
                Some(v2) if v2.class == v.class => {
                    rp.class = v2.class;
                    let (tries, before) = minimise(&mut rp, dir);
                    let (v3, t) = run_file(&rp, dir, "v");
                    let v3 = v3.unwrap_or(Viol { class: rp.class.clone(), msg: v.msg.clone() });
                    rp.msg = v3.msg;
                    rp.trace = t;
                    min_info = format!("{before} items to {} in {tries} attempts", rp.items.len());
                }
                Some(v2) => {
                    rp.class = v2.class;
                    rp.msg = v2.msg;
                    rp.trace = t;
                }
                None => {
                    eprintln!("{name}: run {i} failed ({}: {}) in the batch and not alone", v.class, v.msg);
                    code = 2;
                }
            }
            if !rp.class.is_empty() {
                violations += 1;
                let _ = std::fs::create_dir_all(&replays);
                let p = replays.join(format!("{name}-{base}-{i}.txt"));
                rp.write(&p).unwrap();
                println!("{name}: run {i}, seed {seed:#x}: {}: {}", rp.class, rp.msg);
                println!("minimised from {min_info}; the run:");
                for l in rp.trace.iter().rev().take(25).rev() {
                    println!("  {}", l.chars().take(400).collect::<String>());
                }
                println!("VIOLATION property={name} replay={}", p.display());
                if code == 0 {
                    code = 1;
                }
            }
        }
    }

    // The same runs again, in other company: the digests must be the same.
    let mut again = 0;
    if code == 0 {
        let k = (runs / 12).clamp(1, 400).min(b.runs);
        let c = run_batch(prop, base, k, 3, dir, wall);
        for (i, d) in &c.digests {
            if let Some(x) = b.digests.get(i) {
                again += 1;
                if x != d {
                    eprintln!("{name}: SIMULATOR ERROR: run {i} differs when repeated");
                    code = 2;
                    break;
                }
            }
        }
    }

    // Samples: two runs written out.
    let mut samples = vec![];
    for i in [0, runs / 2] {
        if i >= runs {
            continue;
        }
        let seed = run_seed(base, prop, i);
        let rp = Replay { prop, seed, items: plan(prop, seed), ..Default::default() };
        let (v, t) = run_file(&rp, dir, "e");
        let lines: Vec<String> = t.iter().take(60).map(|l| esc(&l.chars().take(200).collect::<String>())).collect();
        samples.push(format!(
            "{{\"run\":{i},\"seed\":\"{seed:#x}\",\"items\":{},\"outcome\":{},\"trace_lines\":{},\"trace_start\":[{}]}}",
            rp.items.len(),
            esc(&v.map_or("held".to_string(), |v| v.class)),
            t.len(),
            lines.join(",")
        ));
    }
    let ev = evidence(name, prop, tier, base, &b, batch_s, again, &samples, &fixed, violations, t0.elapsed().as_secs_f64());
    let _ = std::fs::create_dir_all(root.join("evidence"));
    std::fs::write(root.join("evidence").join(format!("{name}.json")), ev).unwrap();
    println!(
        "{name}: {} runs, {} calls judged, {} distinct run shapes, {} states, {again} repeated, {:.1} s: {}",
        b.runs,
        b.ops,
        b.shapes.len(),
        b.states.len(),
        t0.elapsed().as_secs_f64(),
        match code {
            0 => "held",
            1 => "VIOLATED",
            _ => "no answer",
        }
    );
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    name: &str, prop: u8, tier: &str, base: u64, b: &Batch, batch_s: f64, again: u64, samples: &[String], fixed: &[String],
    violations: u64, wall: f64,
) -> String {
    let group = |p: &str, strip: bool| -> String {
        let v: Vec<String> = b
            .stats
            .iter()
            .filter(|(k, _)| k.starts_with(p))
            .map(|(k, (n, r))| format!("{}:{{\"times\":{n},\"runs\":{r}}}", esc(if strip { &k[p.len()..] } else { k })))
            .collect();
        format!("{{{}}}", v.join(","))
    };
    let other: Vec<String> = b
        .stats
        .iter()
        .filter(|(k, _)| !["fault.", "journal.", "layout.", "corrupted.", "damaged.", "refuse."].iter().any(|p| k.starts_with(p)))
        .map(|(k, (n, r))| format!("{}:{{\"times\":{n},\"runs\":{r}}}", esc(k)))
        .collect();
    let reads = b.stats.get("device_reads").map_or(0, |x| x.0);
    let fx: Vec<String> = fixed.iter().map(|s| esc(s)).collect();
    format!(
        concat!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
            "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            "  \"calls_judged\": {},\n  \"schedule_items\": {},\n  \"distinct_states\": {},\n  \"state_measure\": {},\n",
            "  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"simulated_time\": {},\n  \"device_reads_simulated\": {},\n",
            "  \"runs_repeated_in_other_processes_with_equal_digests\": {},\n",
            "  \"faults_injected\": {},\n  \"stored_data_corruptions\": {},\n  \"checksum_damage\": {},\n  \"unsupported_formats\": {},\n",
            "  \"journal_writer\": {},\n  \"layouts_reached\": {},\n  \"probes\": {{{}}},\n  \"fixed_histories\": [{}],\n",
            "  \"real_components\": {},\n  \"simulated_components\": {},\n",
            "  \"samples\": [{}]\n }},\n \"assumptions\": {},\n \"violations\": {},\n \"wall_s\": {:.1}\n}}\n"
        ),
        esc(name),
        esc(tier),
        base,
        b.runs,
        b.shapes.len(),
        esc("one evaluation = one simulated run: a seeded filesystem history on simulated storage, then a seeded schedule of client calls, faults, crashes or damage; non-trivial = at least one library call was judged; distinct = by the hash of the run's sequence of schedule items and abstract states"),
        b.ops,
        b.items,
        b.states.len(),
        esc(state_measure(prop)),
        b.runs as f64 / batch_s.max(0.001) * 3600.0,
        b.runs as f64 / batch_s.max(0.001) * 3600.0,
        esc("not applicable: the library reads no clock; device reads are the unit of progress"),
        reads,
        again,
        group("fault.", true),
        group("corrupted.", true),
        group("damaged.", true),
        group("refuse.", true),
        group("journal.", true),
        group("layout.", true),
        other.join(","),
        fx.join(","),
        "[\"ext4-view: the whole crate, built from /repo's working tree with the std feature, debug assertions and overflow checks\"]",
        "[\"block device and its faults (stub behind Ext4Read)\", \"mkfs, the writing kernel and its JBD2 journal (model written for this check, cross-checked against e2fsck)\", \"client programs\", \"memory limit (allocator)\"]",
        samples.join(",\n   "),
        "[\"the simulated writer's on-disk format is that of Linux ext4 (cross-checked with e2fsprogs while it was developed)\", \"sampling: a clean batch is evidence, not proof\"]",
        violations,
        wall
    )
}

fn state_measure(prop: u8) -> &'static str {
    match prop {
        1 => "geometry, number of transactions to replay, wrapped log, revocations",
        11 => "geometry, kind of damage by kind of file damaged",
        13 => "geometry, planted feature",
        _ => "geometry and the call outcomes abstracted by kind",
    }
}
