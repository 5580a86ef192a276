//! Simulated clients of the library: any number of handles, clones, open
//! files, directory iterators and entries used in any order. Each call's
//! outcome is judged against the reference model at the moment it happens.

use crate::alloc;
use crate::disk::*;
use crate::fsw::Fs;
use crate::hash::fnv;
use crate::model::*;
use crate::rec::*;
use crate::rng::{mix, mix2, Rng};
use ext4_view::{DirEntry, DirEntryName, Ext4, Ext4Error, File, FileType, Metadata, ReadDir};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Seek, SeekFrom};
use std::rc::Rc;

pub const O_LOAD: u16 = 100;
pub const O_CLONE: u16 = 101;
pub const O_DROP: u16 = 102;
pub const O_IDENT: u16 = 103;
pub const O_META: u16 = 104;
pub const O_LMETA: u16 = 105;
pub const O_CANON: u16 = 106;
pub const O_EXISTS: u16 = 107;
pub const O_READLINK: u16 = 108;
pub const O_READ: u16 = 109;
pub const O_READSTR: u16 = 110;
pub const O_OPEN: u16 = 111;
pub const O_CLOSE: u16 = 112;
pub const O_FREAD: u16 = 113;
pub const O_FSTD: u16 = 114;
pub const O_FSEEK: u16 = 115;
pub const O_FSEEKSTD: u16 = 116;
pub const O_FINFO: u16 = 117;
pub const O_FTOEND: u16 = 118;
pub const O_READDIR: u16 = 119;
pub const O_DIRNEXT: u16 = 120;
pub const O_DIRALL: u16 = 121;
pub const O_ENTRY: u16 = 122;
pub const O_WALK: u16 = 123;
pub const O_NAMES: u16 = 124;
pub const O_LOADVEC: u16 = 125;
pub const O_LOADFILE: u16 = 126;
pub const O_TRUNCATED: u16 = 127;
pub const O_VERIFY: u16 = 128;
pub const O_SAME: u16 = 129;
pub const O_FSPARSE: u16 = 130;
pub const NO: usize = 31;
pub const ONAMES: [&str; NO] = [
    "load", "clone", "drop-handle", "label-uuid", "metadata", "symlink_metadata", "canonicalize", "exists",
    "read_link", "read", "read_to_string", "open", "close", "read_bytes", "io-read", "seek_to", "io-seek",
    "file-position-metadata", "read-to-end", "read_dir", "dir-next", "list-dir", "dir-entry", "path-walk",
    "dir-lookups", "load-from-vec", "load-from-path", "truncated-device", "verify-everything", "all-ops-on-path",
    "probe-file-spots",
];

pub fn opw(list: &[(u16, u32)]) -> Vec<u32> {
    let mut w = vec![0; NO];
    for (k, v) in list {
        w[(*k - 100) as usize] = *v;
    }
    w
}

/// Largest content the clients read in one piece.
const WHOLE: u64 = 4 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Correct result, or the very device error injected during the call.
    Exact,
    /// Correct result, or a corruption error if the damage may be involved;
    /// a corruption error required where it must be.
    Damaged,
    /// Any outcome that is not a crash.
    Any,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dmg {
    Inode(u32),
    /// A directory block, and the names stored in it (leaf) or the index
    /// position (None: index node).
    DirBlk { ino: u32, fb: u32, index: bool },
    ExtNode { ino: u32, block: u64, lo: u64, hi: u64 },
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Dep {
    pub must: bool,
    pub may: bool,
}
impl Dep {
    fn or(self, o: Dep) -> Dep {
        Dep { must: self.must || o.must, may: self.may || o.may || self.must || o.must }
    }
    fn weak(self) -> Dep {
        Dep { must: false, may: self.may || self.must }
    }
}

pub trait Show: PartialEq {
    fn show(&self) -> String;
    fn code(&self) -> u64;
}
impl Show for Vec<u8> {
    fn show(&self) -> String {
        format!("{} bytes #{:016x} \"{}\"", self.len(), fnv(self), show(&self[..self.len().min(40)]))
    }
    fn code(&self) -> u64 {
        fnv(self)
    }
}
impl Show for MetaV {
    fn show(&self) -> String {
        format!("{self:?}")
    }
    fn code(&self) -> u64 {
        fnv(format!("{self:?}").as_bytes())
    }
}
impl Show for bool {
    fn show(&self) -> String {
        self.to_string()
    }
    fn code(&self) -> u64 {
        u64::from(*self)
    }
}
impl Show for u64 {
    fn show(&self) -> String {
        self.to_string()
    }
    fn code(&self) -> u64 {
        *self
    }
}
impl Show for () {
    fn show(&self) -> String {
        "ok".into()
    }
    fn code(&self) -> u64 {
        1
    }
}

pub fn ec(e: &Ext4Error) -> Ec {
    match e {
        Ext4Error::NotAbsolute => Ec::NotAbsolute,
        Ext4Error::NotASymlink => Ec::NotASymlink,
        Ext4Error::NotFound => Ec::NotFound,
        Ext4Error::IsADirectory => Ec::IsADirectory,
        Ext4Error::NotADirectory => Ec::NotADirectory,
        Ext4Error::IsASpecialFile => Ec::IsASpecialFile,
        Ext4Error::FileTooLarge => Ec::FileTooLarge,
        Ext4Error::NotUtf8 => Ec::NotUtf8,
        Ext4Error::MalformedPath => Ec::MalformedPath,
        Ext4Error::PathTooLong => Ec::PathTooLong,
        Ext4Error::TooManySymlinks => Ec::TooManySymlinks,
        Ext4Error::Encrypted => Ec::Encrypted,
        Ext4Error::Io(_) => Ec::Io,
        Ext4Error::Incompatible(_) => Ec::Incompatible,
        Ext4Error::Corrupt(_) => Ec::Corrupt,
        _ => Ec::InvalidInput,
    }
}

/// An error as the client sees it: class, fault token, text.
pub struct Bad {
    pub ec: Ec,
    pub token: Option<u64>,
    pub text: String,
}
impl From<Ext4Error> for Bad {
    fn from(e: Ext4Error) -> Bad {
        let token = e.as_io().and_then(token_of);
        Bad { ec: ec(&e), token, text: format!("{e}") }
    }
}
impl From<std::io::Error> for Bad {
    fn from(e: std::io::Error) -> Bad {
        use std::io::ErrorKind as K;
        let text = format!("{e}");
        if let Some(i) = e.get_ref() {
            if let Some(x) = i.downcast_ref::<Ext4Error>() {
                return Bad { ec: ec(x), token: x.as_io().and_then(token_of), text };
            }
            return Bad { ec: Ec::Io, token: token_of(i), text };
        }
        let c = match e.kind() {
            K::NotFound => Ec::NotFound,
            K::PermissionDenied => Ec::Encrypted,
            K::InvalidInput => Ec::InvalidInput,
            K::InvalidData => Ec::NotUtf8,
            _ => Ec::Io,
        };
        Bad { ec: c, token: None, text }
    }
}

pub fn ftv(t: FileType) -> u8 {
    let all = [
        (t.is_regular_file(), FT_REG),
        (t.is_dir(), FT_DIR),
        (t.is_char_dev(), FT_CHR),
        (t.is_block_dev(), FT_BLK),
        (t.is_fifo(), FT_FIFO),
        (t.is_socket(), FT_SOCK),
        (t.is_symlink(), FT_LNK),
    ];
    let mut v = 0;
    for (b, n) in all {
        if b {
            v = if v == 0 { n } else { 99 };
        }
    }
    v
}

pub fn metav(m: &Metadata) -> MetaV {
    let ft = ftv(m.file_type());
    // All views of the type have to agree with each other.
    let agree = m.is_dir() == (ft == FT_DIR) && m.is_symlink() == (ft == FT_LNK);
    MetaV {
        ft: if agree { ft } else { 98 },
        perm: m.mode(),
        uid: m.uid(),
        gid: m.gid(),
        len: m.len(),
    }
}

pub struct FileSlot {
    f: File,
    pub ino: u32,
    pos: u64,
    id: u64,
}
pub struct DirSlot {
    rd: ReadDir,
    base: Vec<u8>,
    ino: u32,
    left: BTreeMap<Vec<u8>, (u32, u8)>,
    seen: BTreeSet<Vec<u8>>,
    done: bool,
    /// Ended through an error: entries may be missing.
    cut: bool,
    id: u64,
}
pub struct EntSlot {
    e: DirEntry,
    path: Vec<u8>,
    name: Vec<u8>,
    ino: u32,
    ft: u8,
}
pub struct Handle {
    fs: Ext4,
    sim: bool,
}

pub struct Client {
    /// The state the filesystem is in, with its layout.
    pub st: Rc<Fs>,
    pub model: Rc<Model>,
    pub disk: Rc<RefCell<Disk>>,
    pub mode: Mode,
    pub damage: Option<Dmg>,
    /// Damage that appeared while the filesystem was in use.
    pub damage_late: bool,
    /// Device reads are failing or may fail (an expected load can fail).
    pub fss: Vec<Handle>,
    pub files: Vec<FileSlot>,
    pub dirs: Vec<DirSlot>,
    pub ents: Vec<EntSlot>,
    pub paths: Vec<(u32, Vec<u8>)>,
    links: Vec<(u32, Vec<u8>)>,
    nid: u64,
    pub cap_load: usize,
    pub cap_op: usize,
    pub max_reads: u64,
    tmp: Option<std::path::PathBuf>,
    /// In this operation any I/O error is acceptable (truncated device).
    io_any: bool,
    /// Files the clients favour (few: everyone meets on the same blocks).
    pub focus: Option<u64>,
    /// Paths of special interest (of what is damaged).
    pub hot: Vec<u32>,
    /// Judge the requests themselves, not only their results.
    pub watch: bool,
    /// Loading has to fail, with one of these.
    pub refuse: Vec<Ec>,
    /// How often a load that had to be refused was.
    pub refused: u64,
    pub errors_injected: u64,
    /// List slow calls (to look into them; no check does).
    slow: bool,
    began: std::time::Instant,
}

impl Drop for Client {
    fn drop(&mut self) {
        if let Some(p) = &self.tmp {
            let _ = std::fs::remove_file(p);
        }
    }
}

fn join(base: &[u8], name: &[u8]) -> Vec<u8> {
    let mut p = base.to_vec();
    if p.last() != Some(&b'/') {
        p.push(b'/');
    }
    p.extend_from_slice(name);
    p
}

impl Client {
    /// Nothing of the filesystem is held.
    pub fn idle(&self) -> bool {
        self.fss.is_empty() && self.files.is_empty() && self.dirs.is_empty() && self.ents.is_empty()
    }

    pub fn new(st: Rc<Fs>, img: Image, mode: Mode) -> Client {
        let model = Rc::new(st.model.clone());
        let paths = model.paths();
        let links: Vec<(u32, Vec<u8>)> =
            paths.iter().filter(|(i, _)| matches!(model.node(*i).kind, Kind::Link(_))).cloned().collect();
        let disk = Disk::new(img);
        disk.borrow_mut().fs_size = st.g.blocks * u64::from(st.g.bs);
        Client {
            st,
            model,
            disk,
            mode,
            damage: None,
            damage_late: false,
            fss: vec![],
            files: vec![],
            dirs: vec![],
            ents: vec![],
            paths,
            links,
            nid: 0,
            cap_load: usize::MAX,
            cap_op: usize::MAX,
            max_reads: u64::MAX,
            slow: std::env::var_os("SIM_SLOW").is_some(),
            began: std::time::Instant::now(),
            tmp: None,
            io_any: false,
            focus: None,
            hot: vec![],
            watch: false,
            refuse: vec![],
            refused: 0,
            errors_injected: 0,
        }
    }

    // -------------------------------------------------------------- judging

    fn dep_inode(&self, ino: u32) -> Dep {
        match &self.damage {
            Some(Dmg::Inode(i)) if *i == ino => Dep { must: true, may: true },
            _ => Dep::default(),
        }
    }
    /// What a lookup of `name` in `dir` depends on.
    fn dep_lookup(&self, dir: u32, name: &[u8], found: bool) -> Dep {
        let dots = name == b"." || name == b"..";
        let htree = self.st.lay.get(&dir).is_some_and(|l| l.ht.is_some());
        match &self.damage {
            Some(Dmg::DirBlk { ino, fb, index }) if *ino == dir => {
                let must = if dots {
                    false
                } else if htree {
                    let (nodes, leaf) = self.st.ht_path(dir, name);
                    if *index { nodes.contains(fb) } else { *fb == leaf && found }
                } else if found {
                    self.st.entry_block(dir, name) == Some(*fb)
                } else {
                    true
                };
                Dep { must, may: true }
            }
            Some(Dmg::ExtNode { ino, lo, hi, .. }) if *ino == dir => {
                let at = |fb: u32| u64::from(fb) >= *lo && u64::from(fb) < *hi;
                let must = if dots {
                    false
                } else if htree {
                    at(0) || self.st.ht_path(dir, name).0.iter().any(|f| at(*f))
                } else if found {
                    self.st.entry_block(dir, name).is_some_and(at)
                } else {
                    true
                };
                Dep { must, may: true }
            }
            _ => Dep::default(),
        }
    }
    fn dep_listing(&self, dir: u32) -> Dep {
        match &self.damage {
            Some(Dmg::DirBlk { ino, index, .. }) if *ino == dir => Dep { must: !*index, may: true },
            Some(Dmg::ExtNode { ino, .. }) if *ino == dir => Dep { must: true, may: true },
            _ => Dep::default(),
        }
    }
    fn dep_content(&self, ino: u32, off: u64, len: u64) -> Dep {
        match &self.damage {
            Some(Dmg::ExtNode { ino: i, lo, hi, .. }) if *i == ino => {
                let bs = u64::from(self.model.bs);
                let size = self.model.node(ino).size;
                let end = off.saturating_add(len).min(size);
                let must = off < end && off / bs < *hi && (end - 1) / bs >= *lo;
                Dep { must, may: true }
            }
            _ => Dep::default(),
        }
    }
    fn dep_res(&self, r: &Res) -> Dep {
        if self.damage.is_none() {
            return Dep::default();
        }
        let mut d = self.dep_inode(ROOT);
        if matches!(r.result, Err(Ec::NotAbsolute | Ec::MalformedPath | Ec::PathTooLong)) {
            // May be found out before anything is read.
            d = d.weak();
        }
        for (dir, name, child) in &r.seen {
            d = d.or(self.dep_lookup(*dir, name, child.is_some()));
            if let Some(c) = child {
                let x = self.dep_inode(*c);
                d = d.or(if name == b".." || name == b"." { x.weak() } else { x });
                // A long link target is file content.
                d = d.or(self.dep_content(*c, 0, u64::MAX).weak());
            }
        }
        d
    }

    fn begin(&mut self) {
        if self.slow {
            self.began = std::time::Instant::now();
        }
        let mut d = self.disk.borrow_mut();
        d.begin_op();
        d.op_budget = self.max_reads;
        drop(d);
        if self.mode == Mode::Any {
            let l = alloc::mark();
            alloc::set_cap(l.saturating_add(self.cap_op));
        }
        alloc::set_in_lib(true);
    }
    fn end(&mut self, what: &str) -> R {
        alloc::set_in_lib(false);
        if self.slow {
            let t = self.began.elapsed().as_millis();
            if t > 300 {
                eprintln!("  {t} ms, {} reads: {what}", self.disk.borrow().op_reads);
            }
        }
        if self.mode == Mode::Any {
            alloc::set_cap(usize::MAX);
        }
        let d = self.disk.borrow();
        if let Some(s) = d.stray.filter(|_| self.watch) {
            return viol(
                "stray-read",
                format!("{what}: device read of {} bytes at {} leaves the filesystem (size {})", s.len, s.start, d.fs_size),
            );
        }
        Ok(())
    }

    /// Judge one outcome. `Ok(true)`: correct success or expected error.
    /// `Ok(false)`: acceptable failure.
    fn judge<T: Show>(
        &mut self,
        rec: &mut Rec,
        what: &dyn Fn() -> String,
        got: Result<T, Bad>,
        want: Result<T, Ec>,
        also: &[Ec],
        dep: Dep,
    ) -> R<bool> {
        rec.ops += 1;
        let fired = self.disk.borrow().fired.clone();
        self.errors_injected += fired.len() as u64;
        let code = match &got {
            Ok(v) => mix2(1, v.code()),
            Err(b) => mix2(2, b.ec as u64),
        };
        rec.ev(code, || {
            let r = match &got {
                Ok(v) => v.show(),
                Err(b) => format!("error {:?} ({})", b.ec, b.text),
            };
            let f = if fired.is_empty() { String::new() } else { format!(" [faults fired: {fired:?}]") };
            format!("{} -> {r}{f}", what())
        });
        let w = what();
        self.end(&w)?;
        if self.mode == Mode::Any {
            return Ok(got.is_ok());
        }
        let dep = if self.damage_late { dep.weak() } else { dep };
        match got {
            Ok(v) => {
                if self.mode == Mode::Damaged && dep.must {
                    return viol("damage-believed", format!("{w} succeeded ({}) although it depends on damaged {:?}", v.show(), self.damage));
                }
                match want {
                    Ok(x) => {
                        if v == x {
                            Ok(true)
                        } else {
                            viol("wrong-result", format!("{w} returned {} instead of {}", v.show(), x.show()))
                        }
                    }
                    Err(e) => viol("wrong-result", format!("{w} returned {} instead of error {e:?}", v.show())),
                }
            }
            Err(b) => {
                if b.ec == Ec::Io {
                    if self.io_any {
                        return Ok(false);
                    }
                    if let Some(t) = b.token {
                        if fired.contains(&t) {
                            rec.stat("op_failed_with_injected_error");
                            return Ok(false);
                        }
                    }
                    return viol("foreign-io-error", format!("{w} reports an I/O error ({}) the device did not return in this call", b.text));
                }
                if self.mode == Mode::Damaged && dep.may && b.ec == Ec::Corrupt {
                    rec.stat("damage_reported");
                    return Ok(false);
                }
                if self.mode == Mode::Damaged && dep.must && !also.contains(&b.ec) {
                    return viol("damage-misreported", format!("{w} failed with {:?} ({}) instead of a corruption error; damaged {:?}", b.ec, b.text, self.damage));
                }
                match want {
                    Err(e) if e == b.ec => Ok(true),
                    _ if also.contains(&b.ec) => Ok(true),
                    Err(e) => viol("wrong-error", format!("{w} failed with {:?} ({}) instead of {e:?}", b.ec, b.text)),
                    Ok(x) => viol("wrong-error", format!("{w} failed with {:?} ({}) instead of returning {}", b.ec, b.text, x.show())),
                }
            }
        }
    }

    // ---------------------------------------------------------------- paths

    fn pick_node<'a>(&'a self, r: &mut Rng, f: &dyn Fn(&Node) -> bool) -> Option<&'a (u32, Vec<u8>)> {
        let mut r2 = r.fork(1);
        if !self.hot.is_empty() && r.chance(1, 2) {
            let h = *r.pick(&self.hot);
            let mut c: Vec<&(u32, Vec<u8>)> =
                self.paths.iter().filter(|(i, p)| *i == h && f(self.model.node(*i)) && p.len() <= 4000).collect();
            if r.chance(1, 2) {
                // What is below it.
                let top: Vec<Vec<u8>> = self.paths.iter().filter(|(i, _)| *i == h).map(|(_, p)| join(p, b"")).collect();
                let below: Vec<&(u32, Vec<u8>)> = self
                    .paths
                    .iter()
                    .filter(|(i, p)| {
                        top.iter().any(|t| p.starts_with(t) && p.len() > t.len()) && f(self.model.node(*i)) && p.len() <= 4000
                    })
                    .collect();
                if !below.is_empty() {
                    c = below;
                }
            }
            if !c.is_empty() {
                return Some(*r2.pick(&c));
            }
        }
        if let Some(s) = self.focus {
            if r.chance(1, 2) {
                r2 = Rng::new(mix2(s, r.below(3)));
            }
        }
        let c: Vec<&(u32, Vec<u8>)> =
            self.paths.iter().filter(|(i, p)| f(self.model.node(*i)) && p.len() <= 4000).collect();
        if c.is_empty() {
            return None;
        }
        Some(*r2.pick(&c))
    }

    /// A path meant to reach some node satisfying `f`, written in one of the
    /// many ways a path can be written.
    fn gen_path(&self, r: &mut Rng, f: &dyn Fn(&Node) -> bool) -> Vec<u8> {
        match r.below(12) {
            0 => return self.random_walk(r),
            1 => return self.broken_path(r),
            _ => {}
        }
        let base = match self.pick_node(r, f) {
            Some((_, p)) => p.clone(),
            None => match self.pick_node(r, &|_| true) {
                Some((_, p)) => p.clone(),
                None => b"/".to_vec(),
            },
        };
        let style = r.below(6);
        if style <= 1 {
            return base;
        }
        self.decorate(base, r)
    }

    fn decorate(&self, base: Vec<u8>, r: &mut Rng) -> Vec<u8> {
        let comps: Vec<Vec<u8>> = base.split(|c| *c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
        let mut out: Vec<u8> = Vec::new();
        // Enter through a link whose target covers a prefix.
        let mut start = 0;
        if !self.links.is_empty() && r.chance(1, 2) {
            for _ in 0..6 {
                let (_, lp) = r.pick(&self.links);
                if let Ok((_, canon)) = self.model.resolve(lp, true).result {
                    let cc: Vec<&[u8]> = canon.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
                    if cc.len() <= comps.len() && cc.iter().zip(&comps).all(|(a, b)| *a == b.as_slice()) {
                        out = lp.clone();
                        start = cc.len();
                        break;
                    }
                }
            }
        }
        let k = comps.len();
        for (i, c) in comps.into_iter().enumerate().skip(start) {
            out.push(b'/');
            while r.chance(1, 6) {
                match r.below(3) {
                    0 => out.push(b'/'),
                    1 => out.extend_from_slice(b"./"),
                    _ => {
                        // Step into a subdirectory and back.
                        let here: Vec<u8> = if out.len() > 1 { out[..out.len() - 1].to_vec() } else { b"/".to_vec() };
                        if let Ok((d, _)) = self.model.resolve(&here, true).result {
                            if let Some(dm) = self.model.node(d).dir() {
                                let subs: Vec<&Vec<u8>> = dm
                                    .entries
                                    .iter()
                                    .filter(|(_, c)| self.model.node(**c).is_dir())
                                    .map(|(n, _)| n)
                                    .collect();
                                if !subs.is_empty() && !dm.encrypted {
                                    out.extend_from_slice(r.pick(&subs));
                                    out.extend_from_slice(b"/../");
                                }
                            }
                        }
                    }
                }
            }
            out.extend_from_slice(&c);
            if i + 1 == k {
                while r.chance(1, 5) {
                    out.extend_from_slice(*r.pick(&[&b"/"[..], b"/.", b"//", b"/./"]));
                }
            }
        }
        if out.is_empty() {
            out = r.pick(&[&b"/"[..], b"//", b"/.", b"/..", b"/../..", b"/./"]).to_vec();
        }
        out
    }

    fn random_walk(&self, r: &mut Rng) -> Vec<u8> {
        let mut out: Vec<u8> = Vec::new();
        let n = match r.below(8) {
            0 => r.range(20, 60),
            _ => r.range(1, 9),
        };
        let mut cur = ROOT;
        for _ in 0..n {
            out.push(b'/');
            let d = self.model.node(cur).dir();
            let c = r.below(10);
            if c == 0 {
                out.push(b'.');
                continue;
            }
            if c == 1 || d.is_none_or(|d| d.entries.is_empty()) {
                out.extend_from_slice(b"..");
            } else {
                let es = &d.unwrap().entries;
                let k = r.idx(es.len());
                let name = es.keys().nth(k).unwrap();
                // Prefer to go on in directories and through links.
                out.extend_from_slice(name);
            }
            match self.model.resolve(&out, true).result {
                Ok((i, _)) => cur = i,
                Err(_) => {
                    if r.chance(2, 3) {
                        break;
                    }
                }
            }
        }
        out
    }

    fn broken_path(&self, r: &mut Rng) -> Vec<u8> {
        let mut p = match self.pick_node(r, &|_| true) {
            Some((_, p)) => p.clone(),
            None => b"/".to_vec(),
        };
        match r.below(12) {
            0 => {
                p.remove(0);
            }
            1 => p = vec![],
            2 => p.push(0),
            3 => {
                p.push(b'/');
                p.extend(std::iter::repeat_n(b'x', 256));
            }
            4 => p.extend_from_slice(b"/nonexistent"),
            5 => p.push(b'x'),
            6 => {
                p.pop();
                if p.is_empty() {
                    p.push(b'/');
                }
            }
            7 => {
                let n = p.len();
                p[n - 1] ^= 1 << r.below(7);
            }
            8 => {
                // Around and beyond the longest path.
                let t = *r.pick(&[4094usize, 4095, 4096, 4097, 5000, 70000]);
                let unit: &[u8] = *r.pick(&[&b"/."[..], b"/", b"/..", b"/./"]);
                while p.len() + unit.len() <= t {
                    p.extend_from_slice(unit);
                }
                while p.len() < t {
                    p.push(b'/');
                }
            }
            9 => p.extend_from_slice(b"/../nope"),
            10 => {
                let i = r.idx(p.len() + 1);
                p.insert(i, r.next() as u8);
            }
            _ => p.extend_from_slice(b"/.."),
        }
        p
    }

    // ----------------------------------------------------------------- load

    fn note_load(&mut self, fs: Ext4, sim: bool, r: &mut Rng) {
        if self.fss.len() >= 4 {
            let i = r.idx(self.fss.len());
            self.fss.remove(i);
        }
        self.fss.push(Handle { fs, sim });
    }

    fn want_load(&self) -> Result<(), Ec> {
        match self.refuse.first() {
            Some(e) => Err(*e),
            None => Ok(()),
        }
    }

    pub fn load(&mut self, rec: &mut Rec, r: &mut Rng) -> R<bool> {
        let reader = SimReader(self.disk.clone());
        let cap = std::mem::replace(&mut self.cap_op, self.cap_load);
        self.begin();
        self.disk.borrow_mut().keep_log = self.watch;
        let res = Ext4::load(Box::new(reader));
        self.disk.borrow_mut().keep_log = false;
        self.cap_op = cap;
        let mut keep = None;
        let got = res.map(|f| keep = Some(f)).map_err(Bad::from);
        let also = self.refuse.clone();
        let want = self.want_load();
        let ok = self.judge(rec, &|| "load".into(), got, want, &also, Dep::default())?;
        if self.watch {
            self.check_load_reads(rec)?;
        }
        if !self.refuse.is_empty() {
            self.refused += 1;
        }
        if let Some(f) = keep {
            self.note_load(f, true, r);
            rec.stat("filesystem_loaded");
        }
        Ok(ok && self.refuse.is_empty())
    }

    /// Loading needs the superblock and the descriptors, nothing else.
    fn check_load_reads(&mut self, rec: &mut Rec) -> R {
        if self.st.g.journal && self.st.recover {
            return Ok(());
        }
        let bs = u64::from(self.model.bs);
        let g = &self.st.g;
        let (lo, hi) = (g.gdt_start() * bs, (g.gdt_start() + g.gdt_blocks()) * bs);
        let d = self.disk.borrow();
        for q in &d.log {
            let end = q.start + q.len;
            let sb = q.start >= 1024 && end <= 2048;
            let bgd = q.start >= lo && end <= hi;
            if !sb && !bgd {
                return viol(
                    "needless-read",
                    format!("load reads {} bytes at {}, which is neither superblock nor descriptors ({lo}..{hi})", q.len, q.start),
                );
            }
        }
        rec.stat("load_requests_checked");
        Ok(())
    }

    fn some_fs(&mut self, rec: &mut Rec, r: &mut Rng) -> R<Option<(Ext4, usize)>> {
        if self.fss.is_empty() {
            self.load(rec, r)?;
        }
        if self.fss.is_empty() {
            return Ok(None);
        }
        let i = r.idx(self.fss.len());
        Ok(Some((self.fss[i].fs.clone(), i)))
    }

    // ------------------------------------------------------------ operations

    pub fn op(&mut self, kind: u16, seed: u64, rec: &mut Rec) -> R {
        let mut rr = Rng::new(seed);
        let r = &mut rr;
        self.io_any = false;
        match kind {
            O_LOAD => {
                self.load(rec, r)?;
            }
            O_LOADVEC | O_LOADFILE | O_TRUNCATED => self.load_other(kind, rec, r)?,
            O_CLONE => {
                if !self.fss.is_empty() {
                    let i = r.idx(self.fss.len());
                    let h = Handle { fs: self.fss[i].fs.clone(), sim: self.fss[i].sim };
                    if self.fss.len() < 6 {
                        self.fss.push(h);
                    }
                    rec.ev(3, || format!("clone of handle {i}"));
                }
            }
            O_DROP => {
                if !self.fss.is_empty() {
                    let i = r.idx(self.fss.len());
                    self.fss.remove(i);
                    rec.ev(4, || format!("drop of handle {i}"));
                }
            }
            O_IDENT => self.op_ident(rec, r)?,
            O_META | O_LMETA | O_CANON | O_EXISTS | O_READLINK | O_READ | O_READSTR | O_OPEN | O_READDIR => {
                let p = self.path_for(kind, r);
                self.path_op(kind, &p, rec, r)?;
            }
            O_SAME => {
                let p = self.gen_path(r, &|_| true);
                for k in [O_META, O_LMETA, O_CANON, O_EXISTS, O_READLINK, O_READ, O_READSTR, O_OPEN, O_DIRALL] {
                    if k == O_DIRALL {
                        self.list(&p, rec, r)?;
                    } else {
                        self.path_op(k, &p, rec, r)?;
                    }
                }
            }
            O_WALK => {
                let p = if r.chance(1, 3) { self.broken_path(r) } else { self.random_walk(r) };
                let k = *r.pick(&[O_META, O_LMETA, O_CANON, O_CANON, O_EXISTS]);
                self.path_op(k, &p, rec, r)?;
            }
            O_DIRALL => {
                let p = self.gen_path(r, &|n| n.is_dir());
                self.list(&p, rec, r)?;
            }
            O_NAMES => self.op_names(rec, r)?,
            O_CLOSE => {
                if !self.files.is_empty() && r.chance(1, 2) {
                    let i = r.idx(self.files.len());
                    self.files.remove(i);
                } else if !self.dirs.is_empty() && r.chance(1, 2) {
                    let i = r.idx(self.dirs.len());
                    self.dirs.remove(i);
                } else if !self.ents.is_empty() {
                    let i = r.idx(self.ents.len());
                    self.ents.remove(i);
                }
                rec.ev(5, || "close".into());
            }
            O_FREAD | O_FSTD | O_FSEEK | O_FSEEKSTD | O_FINFO | O_FTOEND | O_FSPARSE => {
                if self.files.is_empty() {
                    let p = self.path_for(O_OPEN, r);
                    self.path_op(O_OPEN, &p, rec, r)?;
                }
                if !self.files.is_empty() {
                    let i = if r.chance(1, 3) { self.files.len() - 1 } else { r.idx(self.files.len()) };
                    self.file_op(kind, i, rec, r)?;
                }
            }
            O_DIRNEXT => {
                if self.dirs.is_empty() {
                    let p = self.gen_path(r, &|n| n.is_dir());
                    self.path_op(O_READDIR, &p, rec, r)?;
                }
                if !self.dirs.is_empty() {
                    let i = r.idx(self.dirs.len());
                    let n = match r.below(4) {
                        0 => 1,
                        1 => r.range(1, 6),
                        2 => r.range(1, 60),
                        _ => 100_000,
                    };
                    for _ in 0..n {
                        if !self.dir_next(i, rec, r)? {
                            break;
                        }
                    }
                }
            }
            O_ENTRY => {
                if !self.ents.is_empty() {
                    let i = r.idx(self.ents.len());
                    self.entry_op(i, rec)?;
                }
            }
            O_VERIFY => self.verify_all(rec, r)?,
            _ => panic!("unknown client operation {kind}"),
        }
        Ok(())
    }

    fn load_other(&mut self, kind: u16, rec: &mut Rec, r: &mut Rng) -> R {
        let size = self.disk.borrow().img.size();
        if size > 24 << 20 {
            return Ok(());
        }
        let v = self.disk.borrow().img.to_vec();
        match kind {
            O_LOADVEC => {
                self.begin();
                let res = Ext4::load(Box::new(v));
                let mut keep = None;
                let got = res.map(|f| keep = Some(f)).map_err(Bad::from);
                let (want, also) = (self.want_load(), self.refuse.clone());
                self.judge(rec, &|| "load from a byte vector".into(), got, want, &also, Dep::default())?;
                if let Some(f) = keep {
                    self.note_load(f, false, r);
                }
            }
            O_LOADFILE => {
                let p = match &self.tmp {
                    Some(p) => p.clone(),
                    None => {
                        let p = std::env::temp_dir().join(format!("ext4sim-{}-{:x}.img", std::process::id(), mix(self as *const _ as u64)));
                        std::fs::write(&p, &v).expect("temporary image");
                        self.tmp = Some(p.clone());
                        p
                    }
                };
                self.begin();
                let res = Ext4::load_from_path(&p);
                let mut keep = None;
                let got = res.map(|f| keep = Some(f)).map_err(Bad::from);
                let (want, also) = (self.want_load(), self.refuse.clone());
                self.judge(rec, &|| "load_from_path".into(), got, want, &also, Dep::default())?;
                if let Some(f) = keep {
                    self.note_load(f, false, r);
                }
            }
            _ => {
                // A device that ends early: every call either works out or
                // reports the device's error.
                let mut v = v;
                let cut = match r.below(4) {
                    0 => r.below(4096.min(size)),
                    1 => r.below(size),
                    2 => size - 1 - r.below(size.min(8 * u64::from(self.model.bs))),
                    _ => r.below(size / 512) * 512,
                };
                v.truncate(cut as usize);
                let file = r.chance(1, 3);
                self.begin();
                let res = if file {
                    let p = std::env::temp_dir().join(format!("ext4sim-{}-cut.img", std::process::id()));
                    std::fs::write(&p, &v).expect("temporary image");
                    let x = Ext4::load_from_path(&p);
                    let _ = std::fs::remove_file(&p);
                    x
                } else {
                    Ext4::load(Box::new(v))
                };
                let mut keep = None;
                let got = res.map(|f| keep = Some(f)).map_err(Bad::from);
                self.io_any = true;
                self.judge(rec, &|| format!("load from a device cut off at byte {cut}"), got, Ok(()), &[], Dep::default())?;
                rec.stat("device_truncated");
                if let Some(f) = keep {
                    let save = std::mem::replace(&mut self.fss, vec![Handle { fs: f, sim: false }]);
                    let (fs, ds, es) = (std::mem::take(&mut self.files), std::mem::take(&mut self.dirs), std::mem::take(&mut self.ents));
                    let n = r.range(3, 12);
                    let mut out = Ok(());
                    for _ in 0..n {
                        let k = *r.pick(&[O_META, O_READ, O_OPEN, O_FREAD, O_FTOEND, O_DIRALL, O_READLINK, O_EXISTS, O_CANON, O_READDIR, O_DIRNEXT]);
                        let s = r.next();
                        let mut q = Rng::new(s);
                        // Keep the permission across the inner operations.
                        out = self.op_any(k, &mut q, rec);
                        if out.is_err() {
                            break;
                        }
                    }
                    self.fss = save;
                    self.files = fs;
                    self.dirs = ds;
                    self.ents = es;
                    self.io_any = false;
                    out?;
                }
                self.io_any = false;
            }
        }
        Ok(())
    }

    /// Run an operation without clearing `io_any`.
    fn op_any(&mut self, kind: u16, r: &mut Rng, rec: &mut Rec) -> R {
        match kind {
            O_FREAD | O_FTOEND => {
                if self.files.is_empty() {
                    return Ok(());
                }
                let i = r.idx(self.files.len());
                self.file_op(kind, i, rec, r)
            }
            O_DIRALL => {
                let p = self.gen_path(r, &|n| n.is_dir());
                self.list(&p, rec, r)
            }
            O_DIRNEXT => {
                if self.dirs.is_empty() {
                    return Ok(());
                }
                let i = r.idx(self.dirs.len());
                for _ in 0..50 {
                    if !self.dir_next(i, rec, r)? {
                        break;
                    }
                }
                Ok(())
            }
            _ => {
                let p = self.path_for(kind, r);
                self.path_op(kind, &p, rec, r)
            }
        }
    }

    fn op_ident(&mut self, rec: &mut Rec, r: &mut Rng) -> R {
        let Some((fs, i)) = self.some_fs(rec, r)? else { return Ok(()) };
        self.begin();
        let mut v = fs.label().as_bytes().to_vec();
        v.extend_from_slice(fs.uuid().as_bytes());
        let mut want = self.model.label.to_vec();
        // The label ends at its first NUL byte.
        want.extend_from_slice(&self.model.uuid);
        let raw = v.len() == 32;
        if !raw {
            // Label without its padding.
            let n = self.model.label.iter().position(|b| *b == 0).unwrap_or(16);
            want = self.model.label[..n].to_vec();
            want.extend_from_slice(&self.model.uuid);
        }
        let n = self.model.label.iter().position(|b| *b == 0).unwrap_or(16);
        let text = fs.label().to_str().map(|s| s.as_bytes().to_vec());
        let wtext = std::str::from_utf8(&self.model.label[..n]).map(|s| s.as_bytes().to_vec());
        let same = match (&text, &wtext) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if self.mode != Mode::Any && !same {
            return viol("wrong-result", format!("label as text: {text:?} instead of {wtext:?}"));
        }
        if self.mode != Mode::Any {
            let u = &self.model.uuid;
            let hex: String = u.iter().map(|b| format!("{b:02x}")).collect();
            let wu = [&hex[..8], &hex[8..12], &hex[12..16], &hex[16..20], &hex[20..]].join("-");
            let (u1, u2) = (fs.uuid().to_string(), format!("{:?}", fs.uuid()));
            if u1 != wu || u2 != wu {
                return viol("wrong-result", format!("UUID prints as {u1} and {u2} instead of {wu}"));
            }
            let (l, wl) = (fs.label().display().to_string(), String::from_utf8_lossy(&self.model.label[..n]).into_owned());
            if l != wl {
                return viol("wrong-result", format!("label prints as {l:?} instead of {wl:?}"));
            }
        } else {
            let _ = format!("{:?} {} {:?} {}", fs.label(), fs.label().display(), fs.uuid(), fs.uuid());
        }
        self.silent("label/uuid")?;
        self.judge(rec, &|| format!("label and uuid of handle {i}"), Ok(v), Ok(want), &[], Dep::default())?;
        Ok(())
    }

    /// The call just made must not have touched the device.
    fn silent(&mut self, what: &str) -> R {
        let n = self.disk.borrow().op_reads;
        if n > 0 && self.watch {
            return viol("needless-read", format!("{what} issued {n} device reads"));
        }
        Ok(())
    }

    fn path_for(&self, kind: u16, r: &mut Rng) -> Vec<u8> {
        match kind {
            O_READ | O_READSTR | O_OPEN => self.gen_path(r, &|n| matches!(n.kind, Kind::Reg(_))),
            O_READLINK => self.gen_path(r, &|n| matches!(n.kind, Kind::Link(_))),
            O_READDIR => self.gen_path(r, &|n| n.is_dir()),
            _ => self.gen_path(r, &|_| true),
        }
    }

    pub fn path_op(&mut self, kind: u16, p: &[u8], rec: &mut Rec, r: &mut Rng) -> R {
        let Some((fs, hi)) = self.some_fs(rec, r)? else { return Ok(()) };
        let follow = !matches!(kind, O_LMETA | O_READLINK);
        let model = self.model.clone();
        let bad = malformed(p);
        let res = if bad {
            Res { result: Err(Ec::MalformedPath), also: vec![], links: 0, comps: 0, seen: vec![] }
        } else {
            model.resolve(p, follow)
        };
        if self.mode != Mode::Any {
            rec.state(mix2(kind.into(), mix2(res.links.into(), match &res.result {
                Ok((i, _)) => 100 + u64::from(model.node(*i).ft()),
                Err(e) => *e as u64,
            })));
            if res.links > 0 {
                rec.stat("path_through_link");
            }
            if res.links > 40 {
                rec.stat("path_over_link_limit");
            }
            if res.comps > 200 {
                rec.stat("path_over_200_components");
            }
            if let Err(e) = &res.result {
                rec.stat(&format!("expected_error_{e:?}"));
            } else {
                rec.nontrivial = true;
            }
        }
        let mut dep = if bad { Dep::default() } else { self.dep_res(&res) };
        let also = res.also.clone();
        let nm = ONAMES[(kind - 100) as usize];
        let ps = p.to_vec();
        let what = move || format!("{nm}({}) on handle {hi}", show(&ps));
        let ino_of = |w: &Result<(u32, Vec<u8>), Ec>| w.as_ref().map(|x| x.0).map_err(|e| *e);
        // Different spellings of the argument type.
        let sp = r.below(5);
        let utf = std::str::from_utf8(p).ok();
        macro_rules! call {
            ($m:ident) => {{
                self.begin();
                match (sp, utf) {
                    (0, Some(s)) => fs.$m(s),
                    (1, _) => {
                        use std::os::unix::ffi::OsStrExt;
                        let o = std::path::Path::new(std::ffi::OsStr::from_bytes(p));
                        fs.$m(o)
                    }
                    (2, _) => match ext4_view::PathBuf::try_from(p) {
                        Ok(b) => fs.$m(&b),
                        Err(_) => fs.$m(p),
                    },
                    _ => fs.$m(p),
                }
            }};
        }
        match kind {
            O_META | O_LMETA => {
                let got = if kind == O_META { call!(metadata) } else { call!(symlink_metadata) };
                let got = got.map(|m| metav(&m)).map_err(Bad::from);
                let want = ino_of(&res.result).map(|i| model.node(i).meta());
                self.judge(rec, &what, got, want, &also, dep)?;
            }
            O_CANON => {
                let got = call!(canonicalize).map(|p| p.as_ref().to_vec()).map_err(Bad::from);
                let want = res.result.clone().map(|x| x.1);
                self.judge(rec, &what, got, want, &also, dep)?;
            }
            O_EXISTS => {
                let got = call!(exists).map_err(Bad::from);
                let want = match &res.result {
                    Ok(_) => Ok(true),
                    Err(Ec::NotFound) => Ok(false),
                    Err(e) => Err(*e),
                };
                self.judge(rec, &what, got, want, &also, dep)?;
            }
            O_READLINK => {
                let got = call!(read_link).map(|p| p.as_ref().to_vec()).map_err(Bad::from);
                let mut also = also;
                let want = match ino_of(&res.result) {
                    Ok(i) => match &model.node(i).kind {
                        Kind::Link(_) if model.node(i).enc => Err(Ec::Encrypted),
                        Kind::Link(t) => {
                            if malformed(t) {
                                also.push(Ec::Corrupt);
                                also.push(Ec::MalformedPath);
                            }
                            dep = dep.or(self.dep_content(i, 0, u64::MAX));
                            Ok(t.clone())
                        }
                        _ => Err(Ec::NotASymlink),
                    },
                    Err(e) => Err(e),
                };
                self.judge(rec, &what, got, want, &also, dep)?;
            }
            O_READ | O_READSTR => {
                let node = ino_of(&res.result).map(|i| (i, model.node(i).clone()));
                let want: Result<Vec<u8>, Ec> = match &node {
                    Ok((i, n)) => match &n.kind {
                        Kind::Dir(_) => Err(Ec::IsADirectory),
                        Kind::Reg(_) if n.enc && n.size <= WHOLE => {
                            rec.stat("encrypted_file_read");
                            Err(Ec::Encrypted)
                        }
                        Kind::Reg(_) => {
                            if n.size > WHOLE {
                                // Too big to read whole here: use a handle.
                                return self.path_op(O_OPEN, p, rec, r);
                            }
                            dep = dep.or(self.dep_content(*i, 0, n.size));
                            Ok(model.bytes(*i, 0, n.size as usize))
                        }
                        _ => Err(Ec::IsASpecialFile),
                    },
                    Err(e) => Err(*e),
                };
                if kind == O_READ {
                    let got = call!(read).map_err(Bad::from);
                    self.judge(rec, &what, got, want, &also, dep)?;
                } else {
                    let got = call!(read_to_string).map(|s| s.into_bytes()).map_err(Bad::from);
                    let want = want.and_then(|v| if std::str::from_utf8(&v).is_ok() { Ok(v) } else { Err(Ec::NotUtf8) });
                    if matches!(want, Err(Ec::NotUtf8)) {
                        rec.stat("text_not_utf8");
                    } else if want.is_ok() {
                        rec.stat("text_read");
                    }
                    self.judge(rec, &what, got, want, &also, dep)?;
                }
            }
            O_OPEN => {
                let res2 = call!(open);
                let want = match ino_of(&res.result) {
                    Ok(i) => match &model.node(i).kind {
                        Kind::Dir(_) => Err(Ec::IsADirectory),
                        Kind::Reg(_) if model.node(i).enc => Err(Ec::Encrypted),
                        Kind::Reg(_) => Ok(()),
                        _ => Err(Ec::IsASpecialFile),
                    },
                    Err(e) => Err(e),
                };
                let mut keep = None;
                let got = res2.map(|f| keep = Some(f)).map_err(Bad::from);
                self.judge(rec, &what, got, want, &also, dep)?;
                if let Some(f) = keep {
                    if self.files.len() >= 5 {
                        let k = r.idx(self.files.len());
                        self.files.remove(k);
                    }
                    self.nid += 1;
                    let ino = ino_of(&res.result).unwrap_or(0);
                    self.files.push(FileSlot { f, ino, pos: 0, id: self.nid });
                    let k = self.files.len() - 1;
                    self.file_op(O_FINFO, k, rec, r)?;
                }
            }
            O_READDIR => {
                let res2 = call!(read_dir);
                let mut ino = 0;
                let want = match ino_of(&res.result) {
                    Ok(i) => match model.node(i).dir() {
                        Some(d) if d.encrypted => Err(Ec::Encrypted),
                        Some(_) => {
                            ino = i;
                            Ok(())
                        }
                        None => Err(Ec::NotADirectory),
                    },
                    Err(e) => Err(e),
                };
                let mut keep = None;
                let got = res2.map(|f| keep = Some(f)).map_err(Bad::from);
                self.judge(rec, &what, got, want, &also, dep)?;
                if let Some(rd) = keep {
                    if self.dirs.len() >= 4 {
                        let k = r.idx(self.dirs.len());
                        self.dirs.remove(k);
                    }
                    self.nid += 1;
                    let left = if self.mode == Mode::Any || ino == 0 { BTreeMap::new() } else { model.listing(ino) };
                    self.dirs.push(DirSlot {
                        rd,
                        base: p.to_vec(),
                        ino,
                        left,
                        seen: BTreeSet::new(),
                        done: false,
                        cut: false,
                        id: self.nid,
                    });
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    /// Open a directory by path and list it to the end.
    pub fn list(&mut self, p: &[u8], rec: &mut Rec, r: &mut Rng) -> R {
        let before = self.nid;
        self.path_op(O_READDIR, p, rec, r)?;
        if self.nid == before || self.dirs.is_empty() {
            return Ok(());
        }
        let i = self.dirs.len() - 1;
        let mut n = 0u64;
        while self.dir_next(i, rec, r)? {
            n += 1;
            if self.mode == Mode::Any && n > 200_000 {
                let lim = self.disk.borrow().dev_size / 8 + 10_000;
                if n > lim {
                    return viol("hang", format!("directory iteration does not end ({n} entries from a device of {} bytes)", self.disk.borrow().dev_size));
                }
            }
        }
        if self.dirs.len() > 3 {
            self.dirs.remove(i);
        }
        Ok(())
    }

    /// One step of a directory iterator; false when it has ended.
    fn dir_next(&mut self, i: usize, rec: &mut Rec, r: &mut Rng) -> R<bool> {
        self.begin();
        let item = self.dirs[i].rd.next();
        let id = self.dirs[i].id;
        let dir = self.dirs[i].ino;
        let model = self.model.clone();
        match item {
            None => {
                let w = format!("next on iterator {id}");
                self.end(&w)?;
                rec.ev(6, || format!("{w} -> end"));
                let dep = self.dep_listing(dir);
                let s = &mut self.dirs[i];
                if self.mode != Mode::Any && !s.done && !s.cut && !s.left.is_empty() {
                    let missing: Vec<String> = s.left.keys().take(3).map(|n| show(n)).collect();
                    return viol("entries-missing", format!("iterator {id} over {} (inode {dir}) ended without {} of its entries, e.g. {missing:?}", show(&s.base), s.left.len()));
                }
                if self.mode == Mode::Damaged && dep.must && !self.damage_late && !s.cut && !s.done {
                    return viol("damage-believed", format!("iterator {id} over inode {dir} ended without error although it depends on damaged {:?}", self.damage));
                }
                let fired = self.disk.borrow().fired.len();
                if fired > 0 && !self.dirs[i].done && self.mode != Mode::Any {
                    return viol("wrong-result", format!("iterator {id} reports the end although a device read failed"));
                }
                self.dirs[i].done = true;
                Ok(false)
            }
            Some(Err(e)) => {
                let done = self.dirs[i].done || self.dirs[i].cut;
                let dep = self.dep_listing(dir);
                let w = move || format!("next on iterator {id}");
                if done && self.mode != Mode::Any {
                    return viol("wrong-result", format!("iterator {id} yields an error after its end: {e}"));
                }
                // No error is expected of a healthy directory.
                self.judge::<()>(rec, &w, Err(Bad::from(e)), Ok(()), &[], dep)?;
                self.dirs[i].cut = true;
                rec.stat("iterator_reported_error");
                // It has to end cleanly now, whatever the device does.
                let again = self.dirs[i].rd.next();
                if again.is_some() && self.mode != Mode::Any {
                    return viol("wrong-result", format!("iterator {id} goes on after reporting an error"));
                }
                Ok(false)
            }
            Some(Ok(e)) => {
                let w = format!("next on iterator {id}");
                self.end(&w)?;
                let name = e.file_name().as_ref().to_vec();
                let path = e.path().as_ref().to_vec();
                rec.ev(mix2(7, fnv(&name)), || format!("{w} -> entry \"{}\"", show(&name)));
                rec.ops += 1;
                if self.mode == Mode::Any {
                    if r.chance(1, 8) {
                        self.begin();
                        let _ = e.file_type().is_ok();
                        let _ = e.metadata().is_ok();
                        let _ = format!("{:?} {:?} {} {:?}", e, e.file_name(), e.path().display(), e.file_name().as_str());
                        self.end("entry metadata")?;
                    }
                    return Ok(true);
                }
                let s = &mut self.dirs[i];
                if s.done || s.cut {
                    return viol("wrong-result", format!("iterator {id} yields an entry after its end"));
                }
                if !s.seen.insert(name.clone()) {
                    return viol("entry-twice", format!("iterator {id} over {} yields \"{}\" twice", show(&s.base), show(&name)));
                }
                let Some((ino, ft)) = s.left.remove(&name) else {
                    return viol("entry-extra", format!("iterator {id} over {} (inode {dir}) yields \"{}\", which is not in the directory", show(&s.base), show(&name)));
                };
                let want = join(&s.base, &name);
                if path != want {
                    return viol("wrong-result", format!("entry path is \"{}\" instead of \"{}\"", show(&path), show(&want)));
                }
                let _ = &model;
                let slot = EntSlot { e, path, name, ino, ft };
                if r.chance(1, 6) || self.ents.is_empty() {
                    if self.ents.len() >= 6 {
                        let k = r.idx(self.ents.len());
                        self.ents[k] = slot;
                        self.entry_op(k, rec)?;
                    } else {
                        self.ents.push(slot);
                        let k = self.ents.len() - 1;
                        self.entry_op(k, rec)?;
                    }
                } else {
                    // The type is part of the entry.
                    self.check_type(&slot, rec)?;
                }
                Ok(true)
            }
        }
    }

    fn check_type(&mut self, s: &EntSlot, rec: &mut Rec) -> R {
        self.begin();
        let got = s.e.file_type().map(|t| u64::from(ftv(t))).map_err(Bad::from);
        let n = show(&s.name);
        let dep = self.dep_inode(s.ino).weak();
        self.judge(rec, &|| format!("file type of entry \"{n}\""), got, Ok(u64::from(s.ft)), &[], dep)?;
        Ok(())
    }

    fn entry_op(&mut self, i: usize, rec: &mut Rec) -> R {
        let s = self.ents.remove(i);
        let out = self.entry_op2(&s, rec);
        self.ents.insert(i, s);
        out
    }
    fn entry_op2(&mut self, s: &EntSlot, rec: &mut Rec) -> R {
        self.begin();
        if s.e.file_name().as_ref() != s.name.as_slice() || s.e.path().as_ref() != s.path.as_slice() {
            return viol("wrong-result", format!("entry \"{}\" changed its name or path", show(&s.name)));
        }
        let (f, p) = (s.e.file_name(), s.e.path());
        let other = DirEntryName::try_from(b"\x01 another".as_slice()).unwrap();
        let is_other = s.name == b"\x01 another";
        if f != s.name.as_slice() || (f == other) != is_other || p != s.path.as_slice() || p.as_path() != s.path.as_slice() {
            return viol("wrong-result", format!("name or path of entry \"{}\" compare wrongly", show(&s.name)));
        }
        if f.display().to_string() != String::from_utf8_lossy(&s.name)
            || p.display().to_string() != String::from_utf8_lossy(&s.path)
            || f.as_str().ok() != std::str::from_utf8(&s.name).ok()
            || p.to_str().ok() != std::str::from_utf8(&s.path).ok()
        {
            return viol("wrong-result", format!("name or path of entry \"{}\" have the wrong text", show(&s.name)));
        }
        self.check_type(s, rec)?;
        self.begin();
        let got = s.e.metadata().map(|m| metav(&m)).map_err(Bad::from);
        let n = show(&s.path);
        let dep = self.dep_inode(s.ino);
        let want = self.model.node(s.ino).meta();
        self.judge(rec, &|| format!("metadata of entry \"{n}\""), got, Ok(want), &[], dep)?;
        Ok(())
    }

    // ----------------------------------------------------------------- files

    fn spot(&self, ino: u32, r: &mut Rng) -> u64 {
        let size = if self.model.nodes.contains_key(&ino) { self.model.node(ino).size } else { 1 << 20 };
        let bs = u64::from(self.model.bs);
        match r.below(10) {
            0 => 0,
            1 => size,
            2 => size.saturating_sub(1 + r.below(3 * bs)),
            3 => size.saturating_add(r.below(3 * bs)),
            4 => size.saturating_add(*r.pick(&[1, bs, 1 << 20, 1 << 32, 1 << 40, 1 << 62])),
            5 => {
                // Where the content changes: edges of mapped pieces.
                if let Some(Node { kind: Kind::Reg(c), .. }) = self.model.nodes.get(&ino).map(|n| &**n) {
                    if !c.is_empty() {
                        let k = r.idx(c.len());
                        let fb = u64::from(*c.keys().nth(k).unwrap());
                        return (fb * bs).saturating_add(r.below(2 * bs)).saturating_sub(bs.min(r.below(bs)));
                    }
                }
                r.below(size.max(1))
            }
            6 => r.below(size / bs + 2) * bs,
            7 => (r.below(size / bs + 2) * bs).saturating_sub(1),
            _ => r.below(size.max(1)),
        }
    }

    fn file_op(&mut self, kind: u16, i: usize, rec: &mut Rec, r: &mut Rng) -> R {
        let (ino, pos, id) = (self.files[i].ino, self.files[i].pos, self.files[i].id);
        let model = self.model.clone();
        let any = self.mode == Mode::Any;
        let size = if any { self.files[i].f.metadata().len() } else { model.node(ino).size };
        let bs = u64::from(model.bs);
        match kind {
            O_FINFO => {
                self.begin();
                let m = metav(self.files[i].f.metadata());
                let p = self.files[i].f.position();
                self.silent("position and metadata of an open file")?;
                if any {
                    return self.end("file info");
                }
                self.judge(rec, &|| format!("metadata of file {id} (inode {ino})"), Ok(m), Ok(model.node(ino).meta()), &[], Dep::default())?;
                self.judge(rec, &|| format!("position of file {id}"), Ok(p), Ok(pos), &[], Dep::default())?;
            }
            O_FREAD | O_FSTD => {
                let n = match r.below(9) {
                    0 => 0,
                    1 => 1,
                    2 => bs,
                    3 => bs - 1,
                    4 => bs + 1,
                    5 => r.range(1, 64),
                    6 => 3 * bs + r.below(bs),
                    7 => bs - pos % bs,
                    _ => r.range(1, 2 * bs),
                } as usize;
                self.read_some(i, n, kind == O_FSTD, rec)?;
            }
            O_FTOEND => {
                if size.saturating_sub(pos) > WHOLE {
                    return Ok(());
                }
                let step = *r.pick(&[bs, bs / 2 + 1, 2 * bs, 300, 64 * 1024]) as usize;
                let step = step.max((size.saturating_sub(pos) / 400) as usize).max(1);
                let mut guard = 0u64;
                while self.read_some(i, step, r.chance(1, 4), rec)? > 0 {
                    guard += 1;
                    if guard > 200_000 {
                        break;
                    }
                }
            }
            O_FSPARSE => {
                for _ in 0..r.range(2, 6) {
                    let p = self.spot(ino, r);
                    self.seek(i, p, false, rec, r)?;
                    let n = *r.pick(&[1, 17, bs, 2 * bs + 5]) as usize;
                    self.read_some(i, n, false, rec)?;
                }
            }
            O_FSEEK => {
                let p = match r.below(6) {
                    0 => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, u64::MAX / bs * bs, 1 << 44]),
                    _ => self.spot(ino, r),
                };
                self.seek(i, p, false, rec, r)?;
                if r.chance(1, 2) {
                    let n = r.range(1, 2 * bs) as usize;
                    self.read_some(i, n, false, rec)?;
                }
            }
            O_FSEEKSTD => {
                let p = self.spot(ino, r);
                self.seek(i, p, true, rec, r)?;
                if r.chance(1, 2) {
                    let n = r.range(1, 2 * bs) as usize;
                    self.read_some(i, n, true, rec)?;
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    /// Read up to `n` bytes; returns how many came.
    fn read_some(&mut self, i: usize, n: usize, std_io: bool, rec: &mut Rec) -> R<usize> {
        let (ino, pos, id) = (self.files[i].ino, self.files[i].pos, self.files[i].id);
        let mut buf = vec![0xa5u8; n];
        self.begin();
        let got: Result<usize, Bad> = if std_io {
            self.files[i].f.read(&mut buf).map_err(Bad::from)
        } else {
            self.files[i].f.read_bytes(&mut buf).map_err(Bad::from)
        };
        let now = self.files[i].f.position();
        let any = self.mode == Mode::Any;
        let w = move || format!("read of {n} bytes at {pos} of file {id} (inode {ino})");
        if any {
            self.end(&w())?;
            rec.ops += 1;
            return match got {
                Ok(k) => {
                    rec.ev(mix2(8, k as u64), || format!("{} -> {k} bytes", w()));
                    if k > n {
                        return viol("wrong-result", format!("{} returned {k} bytes", w()));
                    }
                    self.files[i].pos = now;
                    Ok(k)
                }
                Err(b) => {
                    rec.ev(mix2(9, b.ec as u64), || format!("{} -> error {}", w(), b.text));
                    self.files[i].pos = now;
                    Ok(0)
                }
            };
        }
        let size = self.model.node(ino).size;
        let avail = size.saturating_sub(pos);
        let most = (n as u64).min(avail) as usize;
        let dep_must = self.dep_content(ino, pos, 1).must;
        let mut dep = self.dep_content(ino, pos, most as u64);
        dep.must = dep_must && most > 0;
        match got {
            Ok(k) => {
                if k > most || (k == 0 && most > 0) {
                    return viol("wrong-result", format!("{} returned {k} bytes, with {avail} left", w()));
                }
                if now != pos + k as u64 {
                    return viol("wrong-position", format!("{} returned {k} bytes but the position is now {now}", w()));
                }
                buf.truncate(k);
                let want = self.model.bytes(ino, pos, k);
                self.judge(rec, &w, Ok(buf), Ok(want), &[], dep)?;
                self.files[i].pos = now;
                rec.add("file_bytes_compared", k as u64);
                Ok(k)
            }
            Err(b) => {
                if now != pos {
                    return viol("wrong-position", format!("{} failed ({}) and moved the position to {now}", w(), b.text));
                }
                self.judge::<Vec<u8>>(rec, &w, Err(b), Ok(vec![]), &[], dep)?;
                rec.stat("file_read_failed");
                Ok(0)
            }
        }
    }

    fn seek(&mut self, i: usize, p: u64, std_io: bool, rec: &mut Rec, r: &mut Rng) -> R {
        let (ino, pos, id) = (self.files[i].ino, self.files[i].pos, self.files[i].id);
        let any = self.mode == Mode::Any;
        let size = if any { self.files[i].f.metadata().len() } else { self.model.node(ino).size };
        // A block map ends before that.
        let wild = any && size >> 34 != 0 && r.chance(1, 8);
        let p = if wild { (1 << 24 | r.below(1 << 24)) * u64::from(self.model.bs) } else { p };
        let far = if wild { 1 << 25 } else { 1 << 20 };
        if any && p.min(size) / u64::from(self.model.bs).max(1) > far {
            return Ok(());
        }
        let dep = self.dep_content(ino, 0, u64::MAX).weak();
        self.begin();
        let mut also = vec![];
        let (w, got, want): (String, Result<u64, Bad>, Result<u64, Ec>) = if std_io {
            let (sf, want) = match r.below(8) {
                0 => (SeekFrom::Start(p), Ok(p)),
                1..=3 => {
                    // Relative to the end, wherever that leads.
                    let off = match r.below(6) {
                        0 => i64::MIN,
                        1 => i64::MAX,
                        2 => (-(size.min(i64::MAX as u64) as i64)).saturating_sub(r.below(3) as i64),
                        _ => (i128::from(p) - i128::from(size)).clamp(i64::MIN.into(), i64::MAX.into()) as i64,
                    };
                    let t = i128::from(size) + i128::from(off);
                    if size > i64::MAX as u64 || t > i128::from(i64::MAX) {
                        also.push(Ec::InvalidInput);
                    }
                    (SeekFrom::End(off), if t < 0 || t > i128::from(u64::MAX) { Err(Ec::InvalidInput) } else { Ok(t as u64) })
                }
                _ => {
                    let off = match r.below(6) {
                        0 => i64::MIN,
                        1 => i64::MAX,
                        2 => (-(pos.min(i64::MAX as u64) as i64)).saturating_sub(r.below(3) as i64),
                        3 => r.below(5) as i64 - 2,
                        _ => (i128::from(p) - i128::from(pos)).clamp(i64::MIN.into(), i64::MAX.into()) as i64,
                    };
                    let t = i128::from(pos) + i128::from(off);
                    if pos > i64::MAX as u64 || t > i128::from(i64::MAX) {
                        also.push(Ec::InvalidInput);
                    }
                    (SeekFrom::Current(off), if t < 0 || t > i128::from(u64::MAX) { Err(Ec::InvalidInput) } else { Ok(t as u64) })
                }
            };
            let got = self.files[i].f.seek(sf).map_err(Bad::from);
            (format!("seek({sf:?}) at {pos} of file {id} (inode {ino}, size {size})"), got, want)
        } else {
            let got = self.files[i].f.seek_to(p).map(|_| p).map_err(Bad::from);
            (format!("seek_to({p}) at {pos} of file {id} (inode {ino}, size {size})"), got, Ok(p))
        };
        let now = self.files[i].f.position();
        let failed = got.is_err();
        let invalid = matches!(&got, Err(b) if b.ec == Ec::InvalidInput);
        let w2 = w.clone();
        let target = want.clone();
        self.judge(rec, &move || w.clone(), got, want, &also, dep)?;
        if any {
            self.files[i].pos = now;
            return Ok(());
        }
        if failed {
            rec.stat("seek_failed");
            if invalid && now != pos {
                return viol("wrong-position", format!("{w2} was refused but moved the position to {now}"));
            }
            if now != pos && Ok(now) != target {
                return viol("wrong-position", format!("{w2} failed and left the position at {now}"));
            }
        } else if Ok(now) != target {
            return viol("wrong-position", format!("{w2} left the position at {now}"));
        }
        self.files[i].pos = now;
        if now > size {
            rec.stat("seek_beyond_end");
        }
        Ok(())
    }

    // ------------------------------------------------------- whole directories

    /// Look up every entry of one directory by name, and many names that are
    /// not in it.
    fn op_names(&mut self, rec: &mut Rec, r: &mut Rng) -> R {
        let Some((ino, p)) = self.pick_node(r, &|n| n.dir().is_some()).cloned() else { return Ok(()) };
        let model = self.model.clone();
        let d = model.dir(ino);
        let mut names: Vec<Vec<u8>> = d.entries.keys().cloned().collect();
        for i in (1..names.len()).rev() {
            names.swap(i, r.idx(i + 1));
        }
        let most = r.range(1, 60) as usize;
        names.truncate(most);
        let k = names.len();
        for i in 0..k.min(20) {
            let mut n = names[i].clone();
            match r.below(5) {
                0 => n.push(b'0'),
                1 => {
                    n.pop();
                }
                2 => {
                    let l = n.len();
                    n[l - 1] ^= 1;
                }
                3 => n[0] ^= 0x20,
                _ => n = crate::gen::name(r),
            }
            n.retain(|c| *c != 0 && *c != b'/');
            n.truncate(255);
            if n.is_empty() {
                n = b"q".to_vec();
            }
            names.push(n);
        }
        names.push(b"no such name".to_vec());
        let qs = vec![b'q'; 224];
        if d.entries.range(qs.clone()..).next().is_some_and(|(n, _)| n.starts_with(&qs)) {
            // Some of these are there and some are not.
            names.extend(crate::hash::same_hash(1 + r.below(2) as u8, r.chance(1, 2)));
            rec.stat("names_of_one_hash_looked_up");
        }
        for n in names {
            let q = join(&p, &n);
            if q.len() > 4090 {
                break;
            }
            self.path_op(O_LMETA, &q, rec, r)?;
        }
        if model.node(ino).dir().is_some() && self.st.lay.get(&ino).is_some_and(|l| l.ht.is_some()) {
            rec.stat("lookups_in_hashed_directory");
        }
        Ok(())
    }

    /// Walk the whole tree through the API and compare all of it.
    pub fn verify_all(&mut self, rec: &mut Rec, r: &mut Rng) -> R {
        let model = self.model.clone();
        self.op_ident(rec, r)?;
        let mut done: BTreeSet<u32> = BTreeSet::new();
        let paths = self.paths.clone();
        let stride = (paths.len() / 400).max(1);
        let off = r.idx(stride);
        for (k, (ino, p)) in paths.iter().enumerate() {
            if p.len() > 4000 {
                continue;
            }
            let n = model.node(*ino);
            if n.is_dir() {
                self.list(p, rec, r)?;
            }
            if stride > 1 && k % stride != off && !n.is_dir() {
                continue;
            }
            self.path_op(O_LMETA, p, rec, r)?;
            if !done.insert(*ino) {
                continue;
            }
            match &n.kind {
                Kind::Reg(_) if n.size <= WHOLE => self.path_op(O_READ, p, rec, r)?,
                Kind::Reg(_) => {
                    let before = self.nid;
                    self.path_op(O_OPEN, p, rec, r)?;
                    if self.nid > before && !self.files.is_empty() {
                        let i = self.files.len() - 1;
                        self.file_op(O_FSPARSE, i, rec, r)?;
                    }
                }
                Kind::Link(_) => self.path_op(O_READLINK, p, rec, r)?,
                _ => {}
            }
        }
        rec.stat("full_view_verified");
        Ok(())
    }
}
