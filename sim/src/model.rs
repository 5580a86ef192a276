//! The reference model: what the filesystem means. No blocks, no journal, no
//! cache; paths resolve by the Linux rules over a tree of nodes.

use crate::disk::fill_pat;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DirM {
    /// Without "." and "..".
    pub entries: BTreeMap<Vec<u8>, u32>,
    pub parent: u32,
    pub encrypted: bool,
    /// An htree whose hash version the library documents as unsupported.
    pub badhash: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Reg(BTreeMap<u32, u64>),
    Dir(DirM),
    Link(Vec<u8>),
    Fifo,
    Chr(u32),
    Blk(u32),
    Sock,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node {
    pub perm: u16,
    pub uid: u32,
    pub gid: u32,
    pub size: u64,
    pub nlink: u32,
    pub gen: u32,
    /// An encrypted file or link (directories have their own flag).
    pub enc: bool,
    pub kind: Kind,
}

pub const ROOT: u32 = 2;

#[derive(Clone, Debug)]
pub struct Model {
    pub bs: u32,
    pub label: [u8; 16],
    pub uuid: [u8; 16],
    pub nodes: BTreeMap<u32, Rc<Node>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ec {
    NotAbsolute,
    NotASymlink,
    NotFound,
    IsADirectory,
    NotADirectory,
    IsASpecialFile,
    FileTooLarge,
    NotUtf8,
    MalformedPath,
    PathTooLong,
    TooManySymlinks,
    Encrypted,
    Io,
    Incompatible,
    Corrupt,
    InvalidInput,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MetaV {
    pub ft: u8,
    pub perm: u16,
    pub uid: u32,
    pub gid: u32,
    pub len: u64,
}

pub const FT_REG: u8 = 1;
pub const FT_DIR: u8 = 2;
pub const FT_CHR: u8 = 3;
pub const FT_BLK: u8 = 4;
pub const FT_FIFO: u8 = 5;
pub const FT_SOCK: u8 = 6;
pub const FT_LNK: u8 = 7;

impl Node {
    pub fn ft(&self) -> u8 {
        match self.kind {
            Kind::Reg(_) => FT_REG,
            Kind::Dir(_) => FT_DIR,
            Kind::Chr(_) => FT_CHR,
            Kind::Blk(_) => FT_BLK,
            Kind::Fifo => FT_FIFO,
            Kind::Sock => FT_SOCK,
            Kind::Link(_) => FT_LNK,
        }
    }
    pub fn mode(&self) -> u16 {
        let t = match self.ft() {
            FT_REG => 0x8000,
            FT_DIR => 0x4000,
            FT_CHR => 0x2000,
            FT_BLK => 0x6000,
            FT_FIFO => 0x1000,
            FT_SOCK => 0xc000,
            _ => 0xa000,
        };
        t | self.perm
    }
    pub fn meta(&self) -> MetaV {
        MetaV { ft: self.ft(), perm: self.perm, uid: self.uid, gid: self.gid, len: self.size }
    }
    pub fn is_dir(&self) -> bool {
        matches!(self.kind, Kind::Dir(_))
    }
    pub fn dir(&self) -> Option<&DirM> {
        if let Kind::Dir(d) = &self.kind {
            Some(d)
        } else {
            None
        }
    }
}

/// Outcome of a resolution: the result under the Linux rules plus the errors
/// that are acceptable instead, because the rule is the library's own
/// documented restriction (4096-byte limit on the path being worked on,
/// lookups in encrypted directories, unusual link targets).
pub struct Res {
    pub result: Result<(u32, Vec<u8>), Ec>,
    pub also: Vec<Ec>,
    pub links: u32,
    pub comps: u32,
    /// Lookups made on the way: directory, name, inode found.
    pub seen: Vec<(u32, Vec<u8>, Option<u32>)>,
}

fn split(p: &[u8]) -> (Vec<Vec<u8>>, bool) {
    let comps: Vec<Vec<u8>> =
        p.split(|c| *c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
    let trailing = p.len() > 1 && p.last() == Some(&b'/') && !comps.is_empty();
    (comps, trailing)
}

pub fn malformed(p: &[u8]) -> bool {
    p.contains(&0) || p.split(|c| *c == b'/').any(|c| c.len() > 255)
}

enum Step {
    Name(Vec<u8>),
    /// What precedes must be a directory (trailing separator).
    MustDir,
}

impl Model {
    pub fn node(&self, i: u32) -> &Node {
        &self.nodes[&i]
    }
    pub fn node_mut(&mut self, i: u32) -> &mut Node {
        Rc::make_mut(self.nodes.get_mut(&i).unwrap())
    }
    pub fn dir(&self, i: u32) -> &DirM {
        self.node(i).dir().unwrap()
    }
    pub fn dir_mut(&mut self, i: u32) -> &mut DirM {
        match &mut self.node_mut(i).kind {
            Kind::Dir(d) => d,
            _ => panic!("model: not a directory"),
        }
    }

    pub fn bytes(&self, ino: u32, off: u64, len: usize) -> Vec<u8> {
        let n = self.node(ino);
        let Kind::Reg(map) = &n.kind else { panic!("model: not a file") };
        let bs = u64::from(self.bs);
        let end = n.size.min(off.saturating_add(len as u64));
        let mut out = vec![0u8; end.saturating_sub(off) as usize];
        if out.is_empty() {
            return out;
        }
        let (b0, b1) = (off / bs, (end - 1) / bs);
        for (b, t) in map.range(b0 as u32..=b1.min(u64::from(u32::MAX)) as u32) {
            let bstart = u64::from(*b) * bs;
            let s = bstart.max(off);
            let e = (bstart + bs).min(end);
            fill_pat(*t, (s - bstart) as usize, &mut out[(s - off) as usize..(e - off) as usize]);
        }
        out
    }

    /// Linux path resolution.
    pub fn resolve(&self, path: &[u8], follow_last: bool) -> Res {
        let mut r = Res { result: Err(Ec::NotAbsolute), also: Vec::new(), links: 0, comps: 0, seen: Vec::new() };
        if path.first() != Some(&b'/') {
            return r;
        }
        if path.len() > 4096 {
            r.result = Err(Ec::PathTooLong);
            return r;
        }
        let (comps, trailing) = split(path);
        let mut todo: Vec<Step> = Vec::new();
        if trailing {
            todo.push(Step::MustDir);
        }
        todo.extend(comps.into_iter().rev().map(Step::Name));
        let mut stack: Vec<(Vec<u8>, u32)> = Vec::new();
        r.result = self.walk(&mut stack, &mut todo, follow_last, trailing, &mut r.also, &mut r.links, &mut r.comps, &mut r.seen);
        r
    }

    #[allow(clippy::too_many_arguments)]
    fn walk(
        &self,
        stack: &mut Vec<(Vec<u8>, u32)>,
        todo: &mut Vec<Step>,
        follow_last: bool,
        trailing: bool,
        also: &mut Vec<Ec>,
        links: &mut u32,
        ncomps: &mut u32,
        seen: &mut Vec<(u32, Vec<u8>, Option<u32>)>,
    ) -> Result<(u32, Vec<u8>), Ec> {
        let cur = |stack: &Vec<(Vec<u8>, u32)>| stack.last().map_or(ROOT, |x| x.1);
        while let Some(step) = todo.pop() {
            let c = cur(stack);
            let name = match step {
                Step::MustDir => {
                    if !self.node(c).is_dir() {
                        return Err(Ec::NotADirectory);
                    }
                    continue;
                }
                Step::Name(n) => n,
            };
            *ncomps += 1;
            let Some(d) = self.node(c).dir() else { return Err(Ec::NotADirectory) };
            if d.encrypted {
                if name == b"." || name == b".." {
                    // Linux needs no key for these; the library may refuse.
                    also.push(Ec::Encrypted);
                } else {
                    return Err(Ec::Encrypted);
                }
            }
            if name == b"." {
                seen.push((c, name, Some(c)));
                continue;
            }
            if name == b".." {
                stack.pop();
                seen.push((c, name, Some(cur(stack))));
                continue;
            }
            seen.push((c, name.clone(), d.entries.get(&name).copied()));
            if d.badhash {
                return Err(Ec::Incompatible);
            }
            let Some(&child) = d.entries.get(&name) else { return Err(Ec::NotFound) };
            if let Kind::Link(target) = &self.node(child).kind {
                let last = todo.is_empty() || (todo.len() == 1 && matches!(todo[0], Step::MustDir));
                if last && !follow_last {
                    // The library's tests fix lstat("link/") as NotADirectory.
                    if trailing {
                        return Err(Ec::NotADirectory);
                    }
                    stack.push((name, child));
                    continue;
                }
                *links += 1;
                if *links > 40 {
                    return Err(Ec::TooManySymlinks);
                }
                if self.node(child).enc {
                    return Err(Ec::Encrypted);
                }
                if malformed(target) {
                    also.push(Ec::Corrupt);
                    also.push(Ec::MalformedPath);
                    return Err(Ec::PathTooLong);
                }
                let rest: usize = todo
                    .iter()
                    .map(|s| match s {
                        Step::Name(n) => n.len() + 1,
                        Step::MustDir => 1,
                    })
                    .sum();
                let done: usize = stack.iter().map(|x| x.0.len() + 1).sum();
                if rest + done + target.len() + 2 > 4090 {
                    also.push(Ec::PathTooLong);
                }
                let (comps, tr) = split(target);
                if target[0] == b'/' {
                    stack.clear();
                }
                if tr && (todo.is_empty() || !matches!(todo.last(), Some(Step::MustDir))) {
                    todo.push(Step::MustDir);
                }
                todo.extend(comps.into_iter().rev().map(Step::Name));
                continue;
            }
            stack.push((name, child));
        }
        let ino = cur(stack);
        let mut canon = Vec::new();
        for (n, _) in stack.iter() {
            canon.push(b'/');
            canon.extend_from_slice(n);
        }
        if canon.is_empty() {
            canon.push(b'/');
        }
        Ok((ino, canon))
    }

    /// Canonical path of every node reachable (first found, breadth first).
    pub fn paths(&self) -> Vec<(u32, Vec<u8>)> {
        let mut out = vec![(ROOT, b"/".to_vec())];
        let mut i = 0;
        while i < out.len() {
            let (ino, p) = out[i].clone();
            if let Some(d) = self.node(ino).dir() {
                for (n, c) in &d.entries {
                    let mut q = p.clone();
                    if q.len() > 1 {
                        q.push(b'/');
                    }
                    q.extend_from_slice(n);
                    out.push((*c, q));
                }
            }
            i += 1;
        }
        out
    }

    pub fn parent_of(&self, ino: u32) -> u32 {
        self.dir(ino).parent
    }

    /// Entries a listing must show: name, inode, recorded type.
    pub fn listing(&self, ino: u32) -> BTreeMap<Vec<u8>, (u32, u8)> {
        let d = self.dir(ino);
        let mut m: BTreeMap<Vec<u8>, (u32, u8)> =
            d.entries.iter().map(|(n, c)| (n.clone(), (*c, self.node(*c).ft()))).collect();
        m.insert(b".".to_vec(), (ino, FT_DIR));
        m.insert(b"..".to_vec(), (d.parent, FT_DIR));
        m
    }
}
