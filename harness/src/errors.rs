//! C18: what is reported about a refused block is true of that block
use crate::ctx::*;
use crate::dirs::rand_cid;
use crate::util::*;
use libipld::Cid;
use std::convert::TryFrom;
use std::fmt::{Debug, Display};
use unixfs_v1::dir::{MultipleMatchingLinks, ShardError};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::file::{FileError, FileReadFailed};
use unixfs_v1::walk::{ContinuedWalk, Error, Walker};
use unixfs_v1::{resolve, InvalidCidInLink, LookupError, MaybeResolved, ResolveError, UnexpectedNodeType};

/// what a block is made of
#[derive(Clone, Debug)]
enum Pay {
    /// no dag-pb node at all
    Garbage(Vec<u8>),
    /// a dag-pb node with no data, or with an empty one
    Nothing(Option<Vec<u8>>),
    /// with data which is no unixfs message
    Noise(Vec<u8>),
    Unix(RUnix),
}
#[derive(Clone, Debug)]
struct B {
    links: Vec<RLink>,
    pay: Pay,
}
impl B {
    fn encode(&self) -> Vec<u8> {
        let d = match &self.pay {
            Pay::Garbage(b) => return b.clone(),
            Pay::Nothing(d) => d.clone(),
            Pay::Noise(d) => Some(d.clone()),
            Pay::Unix(u) => Some(u.encode()),
        };
        RNode { links: self.links.clone(), data: d }.encode()
    }
    fn unix(&self) -> Option<&RUnix> {
        match &self.pay {
            Pay::Unix(u) => Some(u),
            _ => None,
        }
    }
    fn ty(&self) -> Option<u64> {
        self.unix().map(|u| u.ty)
    }
}
fn target(l: &RLink) -> Option<Cid> {
    l.hash.as_ref().and_then(|h| Cid::try_from(&h[..]).ok())
}
fn name(l: &RLink) -> &str {
    l.name.as_deref().unwrap_or("")
}
fn must(c: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}

// ------------------------------------------------------------ what may be said
fn kind_true(t: &UnexpectedNodeType, ty: Option<u64>) -> Result<(), String> {
    let ty = ty.ok_or_else(|| format!("kind {:?} of a block which is no unixfs node", t))?;
    must(t.is_directory() == (ty == DIR || ty == HAMT) && t.is_file() == (ty == FILE), || format!("kind {:?} for kind {}", t, ty))?;
    let n = ["Raw", "Directory", "File", "Metadata", "Symlink", "HAMTShard"][ty as usize];
    must(format!("{:?}", t).contains(n), || format!("kind {:?} for {}", t, n))
}
fn target_true(e: &InvalidCidInLink, links: &[RLink]) -> Result<(), String> {
    let l = links.get(e.nth).ok_or_else(|| format!("link {} of {}", e.nth, links.len()))?;
    must(e.hash[..] == l.hash.clone().unwrap_or_default()[..], || format!("bytes {:?} of link {:?}", e.hash, l))?;
    must(e.name[..] == *name(l), || format!("name {:?} of link {:?}", e.name, l))?;
    must(target(l).is_none(), || format!("target of {:?} is fine", l))
}
fn two_true(m: &MultipleMatchingLinks, links: &[RLink], matches: &dyn Fn(&RLink) -> bool) -> Result<Cid, String> {
    let (first, j) = match m {
        MultipleMatchingLinks::Two { first, second } => {
            must(second.0 < links.len() && target(&links[second.0]) == Some(second.1), || format!("second {:?}", second))?;
            (*first, second.0)
        }
        MultipleMatchingLinks::OneValid { first, second } => {
            target_true(second, links)?;
            (*first, second.nth)
        }
    };
    must(first.0 < j && target(&links[first.0]) == Some(first.1), || format!("first {:?}", first))?;
    must(matches(&links[first.0]) && matches(&links[j]), || format!("links {} and {} do not both match", first.0, j))?;
    Ok(first.1)
}
fn shard_true(e: &ShardError, u: &RUnix) -> Result<(), String> {
    let ok = match e {
        ShardError::UnsupportedProperties { hash_type, fanout } => *hash_type == u.hash_type && *fanout == u.fanout && (u.hash_type != Some(34) || u.fanout != Some(256)),
        ShardError::UnexpectedProperties { filesize, blocksizes } => *filesize == u.filesize && *blocksizes == u.blocksizes && (u.filesize.is_some() || !u.blocksizes.is_empty()),
    };
    must(ok, || format!("{:?} of {:?}", e, u))
}
fn dir_true(e: &(impl Display + Debug), u: &RUnix) -> Result<(), String> {
    let empty = u.data.as_ref().map(|d| d.is_empty()).unwrap_or(true);
    must(u.filesize.is_some() || !u.blocksizes.is_empty() || u.hash_type.is_some() || u.fanout.is_some() || !empty, || format!("{:?}, but the directory is plain", e))?;
    let text = e.to_string();
    let hex: String = u.data.clone().unwrap_or_default().iter().map(|b| format!("{:02x}", b)).collect();
    let mut rest = &text[..];
    for part in &[format!("{:?}", u.filesize), u.blocksizes.len().to_string(), format!("{:?}", u.hash_type), format!("{:?}", u.fanout), hex] {
        match rest.find(&part[..]) {
            Some(i) => rest = &rest[i + part.len()..],
            None => return Err(format!("{} for {:?}", text, u)),
        }
    }
    Ok(())
}
/// the end of the previous part of a file, and where the next one should be
#[derive(Clone, Debug)]
enum Prev {
    Leaf(u128),
    Tree(u128, u128),
}
#[derive(Clone, Debug)]
struct Visit {
    prev: Prev,
    /// what is to come, the next one last
    stack: Vec<(u128, u128)>,
    /// the part of the file which is visited
    part: Option<(u128, u128)>,
}
fn own_size(b: &B, u: &RUnix) -> u128 {
    let _ = b;
    u.filesize.unwrap_or_else(|| u.data.as_ref().map(|d| d.len()).unwrap_or(0) as u64) as u128
}
fn enter(b: &B, off: u128, mut stack: Vec<(u128, u128)>, part: Option<(u128, u128)>) -> Visit {
    let u = b.unix().expect("accepted");
    let end = off + own_size(b, u);
    let mut v = vec![];
    let mut o = off;
    for s in u.blocksizes.iter() {
        let e = o + *s as u128;
        if part.map(|(a, z)| o.max(a) <= e.min(z)).unwrap_or(true) {
            v.push((o, e));
        }
        o = e;
    }
    v.reverse();
    stack.extend(v);
    Visit { prev: if b.links.is_empty() { Prev::Leaf(end) } else { Prev::Tree(off, end) }, stack, part }
}
fn file_true(e: &FileError, b: &B, at: Option<&Visit>) -> Result<(), String> {
    let off = at.map(|v| v.stack.last().expect("something is pending").0).unwrap_or(0);
    let inside = |f: &dyn Fn(&RUnix) -> bool| b.unix().map(f).unwrap_or(false);
    let too_big = |u: &RUnix| off + own_size(b, u) > u64::MAX as u128 || off + u.blocksizes.iter().map(|s| *s as u128).sum::<u128>() > u64::MAX as u128;
    let ok = match e {
        FileError::LinksAndBlocksizesMismatch => inside(&|u| u.blocksizes.len() != b.links.len()),
        FileError::NoLinksNoContent => inside(&|u| b.links.is_empty() && u.data.as_ref().map(|d| d.is_empty()).unwrap_or(true) && u.filesize.unwrap_or(0) > 0),
        FileError::NonRootDefinesMetadata(m) => {
            at.is_some() && inside(&|u| (u.mode.is_some() || u.mtime.is_some()) && m.mode() == u.mode && m.mtime() == u.mtime.map(|(s, n)| (s, n.unwrap_or(0))))
        }
        FileError::IntermediateNodeWithoutFileSize => inside(&|u| !b.links.is_empty() && u.filesize.is_none()),
        FileError::UnexpectedRawOrFileProperties { hash_type, fanout } => {
            inside(&|u| *hash_type == u.hash_type && *fanout == u.fanout && (u.hash_type.is_some() || u.fanout.is_some()))
        }
        FileError::TreeExpandsOnLinks => {
            inside(&too_big)
                || match at {
                    Some(Visit { prev: Prev::Tree(o, c), stack, .. }) => stack.last().unwrap().0 <= *o && stack.last().unwrap().1 > *c,
                    _ => false,
                }
        }
        FileError::TreeOverlapsBetweenLinks => match at {
            Some(Visit { prev: Prev::Tree(_, c), stack, .. }) => stack.last().unwrap().0 < *c && stack.last().unwrap().1 > *c,
            _ => false,
        },
        FileError::EarlierLink => match at {
            Some(Visit { prev: Prev::Tree(o, _), stack, .. }) => stack.last().unwrap().0 < *o,
            _ => false,
        },
        FileError::TreeJumpsBetweenLinks => match at {
            Some(Visit { prev: Prev::Leaf(end), stack, .. }) => stack.last().unwrap().0 != *end,
            _ => false,
        },
    };
    must(ok, || format!("file error {:?} after {:?}", e, at))
}
fn visit_true(e: &FileReadFailed, b: &B, at: Option<&Visit>) -> Result<(), String> {
    match e {
        FileReadFailed::File(e) => file_true(e, b, at),
        FileReadFailed::UnexpectedType(t) => {
            kind_true(t, b.ty())?;
            must(b.ty() != Some(FILE) && b.ty() != Some(RAW), || format!("kind {:?} is fine", t))
        }
        FileReadFailed::Read(None) => must(matches!(b.pay, Pay::Nothing(_)), || format!("{:?}", e)),
        FileReadFailed::Read(Some(_)) => must(matches!(b.pay, Pay::Garbage(_) | Pay::Noise(_)), || format!("{:?}", e)),
        FileReadFailed::InvalidCid(x) => {
            must(matches!(b.pay, Pay::Unix(_)), || format!("{:?}", e))?;
            target_true(x, &b.links)
        }
    }
}
fn lookup_true(e: LookupError, b: &B, needle: &str, first: bool) -> Result<(), String> {
    let shard = b.ty() == Some(HAMT);
    let entry = |l: &RLink| if shard { name(l).len() > 2 && name(l).as_bytes()[2..] == *needle.as_bytes() } else { name(l) == needle };
    let s = format!("{:?}", e);
    if !shard && !first {
        must(matches!(e, LookupError::UnexpectedBucketType(_) | LookupError::Read(_)), || format!("{:?} of no bucket", e))?;
    }
    match e {
        LookupError::Multiple(m) => {
            let c = two_true(&m, &b.links, &entry)?;
            must(m.into_inner() == c, || format!("not the first of {}", s))
        }
        LookupError::UnexpectedBucketType(t) => {
            must(!first && !shard, || format!("bucket type {:?}", t))?;
            kind_true(&t, b.ty())
        }
        LookupError::InvalidCid(x) => {
            target_true(&x, &b.links)?;
            let l = &b.links[x.nth];
            must(entry(l) || (shard && name(l).len() == 2), || format!("link {} does not matter", x.nth))
        }
        LookupError::Shard(x) => match b.unix() {
            Some(u) if shard => shard_true(&x, u),
            _ => Err(format!("{:?} of no shard", x)),
        },
        LookupError::Read(None) => must(!first && matches!(b.pay, Pay::Nothing(_)), || "read error without a cause".into()),
        LookupError::Read(Some(e)) => must(!first && matches!(b.pay, Pay::Garbage(_) | Pay::Noise(_)), || format!("{:?}", e)),
    }
}
fn resolve_true(e: ResolveError, b: &B, needle: &str) -> Result<(), String> {
    match e {
        ResolveError::UnexpectedType(t) => {
            kind_true(&t, b.ty())?;
            must(b.ty() != Some(DIR) && b.ty() != Some(HAMT), || format!("kind {:?} is fine", t))
        }
        ResolveError::UnexpectedDirProperties(p) => match b.unix() {
            Some(u) if u.ty == DIR => dir_true(&p, u),
            _ => Err(format!("{:?} of no directory", p)),
        },
        ResolveError::Read(e) => must(matches!(b.pay, Pay::Garbage(_)), || format!("{:?}", e)),
        ResolveError::Lookup(e) => lookup_true(e, b, needle, true),
    }
}
fn segment(s: &str) -> bool {
    !s.is_empty() && s != "." && !s.contains('/')
}
fn walk_true(e: &Error, b: &B, at: Option<&Visit>, top_unnamed: bool) -> Result<(), String> {
    let s = || format!("{:?}", e);
    let plain = |ty| at.is_none() && b.ty() == Some(ty);
    match e {
        Error::UnsupportedType(t) => {
            must(plain(METADATA), s)?;
            kind_true(t, b.ty())
        }
        Error::UnexpectedType(t) => {
            kind_true(t, b.ty())?;
            must(if at.is_some() { b.ty() != Some(FILE) && b.ty() != Some(RAW) } else { top_unnamed && b.ty() != Some(HAMT) }, s)
        }
        Error::DagPbParsingFailed(_) => must(matches!(b.pay, Pay::Garbage(_)) || (at.is_some() && matches!(b.pay, Pay::Noise(_))), s),
        Error::UnixFsParsingFailed(_) => must(at.is_none() && matches!(b.pay, Pay::Noise(_)), s),
        Error::EmptyDagPbNode => must(matches!(b.pay, Pay::Nothing(_)), s),
        Error::InvalidCid(x) => {
            must(b.unix().is_some(), s)?;
            target_true(x, &b.links)
        }
        Error::InvalidLinkName(n) => {
            must(*n < b.links.len(), s)?;
            let l = name(&b.links[*n]);
            must((plain(DIR) && !segment(l)) || (plain(HAMT) && l.len() != 2 && !l.get(2..).map(segment).unwrap_or(false)), s)
        }
        Error::File(x) => {
            must(at.is_some() || plain(FILE) || plain(RAW), s)?;
            file_true(x, b, at)
        }
        Error::UnsupportedDirectory(p) => {
            must(plain(DIR), s)?;
            dir_true(p, b.unix().unwrap())
        }
        Error::UnsupportedHAMTShard(x) => {
            must(plain(HAMT), s)?;
            shard_true(x, b.unix().unwrap())
        }
    }
}

/// what a walk goes into
fn entered(b: &B) -> Result<(), String> {
    let u = b.unix().ok_or("no unixfs node")?;
    let empty = u.data.as_ref().map(|d| d.is_empty()).unwrap_or(true);
    let sized = u.filesize.is_some() || !u.blocksizes.is_empty();
    for (i, l) in b.links.iter().enumerate() {
        let n = name(l);
        let named = if u.ty == HAMT { n.len() == 2 || n.get(2..).map(segment).unwrap_or(false) } else { segment(n) };
        must(u.ty == SYMLINK || (target(l).is_some() && named), || format!("link {} cannot be followed", i))?;
    }
    match u.ty {
        DIR => must(!sized && u.hash_type.is_none() && u.fanout.is_none() && empty, || "directory with properties".into()),
        HAMT => must(!sized && u.hash_type == Some(34) && u.fanout == Some(256), || "shard with properties".into()),
        SYMLINK => Ok(()),
        _ => Err("no directory and no symlink".into()),
    }
}

// ------------------------------------------------------------ blocks, some of them bad
fn rand_link(r: &mut Rng, ty: u64, bad: bool) -> RLink {
    let base = r.pick(&["a", "b", "ab", "é", "..", "b b"]).to_string();
    let pre = format!("{:02X}", r.below(3));
    let n = match ty {
        HAMT => match r.below(3) {
            0 => pre,
            _ => format!("{}{}", pre, base),
        },
        FILE | RAW => String::new(),
        _ => base,
    };
    let mut l = RLink { hash: Some(rand_cid(r).to_bytes()), name: Some(n), tsize: if r.chance(4, 5) { Some(r.below(100)) } else { None } };
    if bad {
        match r.below(7) {
            0 => l.hash = None,
            1 => l.hash = Some(vec![]),
            2 | 3 => l.hash = Some(r.bytes(3)),
            4 => l.name = None,
            5 => l.name = Some(r.pick(&["", ".", "a/b", "/", "0", "00.", "00/", "00a/b", "aéz"]).to_string()),
            _ => {
                l.hash = Some(vec![0x12, 0x20]);
                l.name = None
            }
        }
    }
    l
}
/// `at`: the block comes next in a visit, and could be what is asked for
fn rand_block(r: &mut Rng, ty: u64, at: Option<&Visit>) -> B {
    let faults = *r.pick(&[0, 0, 1, 1, 1, 2]);
    let n = if r.chance(1, 3000) { r.range(100, 700) } else { r.below(5) };
    let mut links: Vec<RLink> = vec![];
    let unlucky = if n > 0 && r.chance(faults, 4) { r.below(n) } else { n };
    for i in 0..n {
        let bad = i == unlucky || (faults == 2 && r.chance(1, 4));
        let l = rand_link(r, ty, bad);
        links.push(l);
    }
    if faults == 0 && ty == DIR {
        // no two alike
        let mut seen = vec![];
        links.retain(|l| {
            let new = !seen.contains(&l.name);
            seen.push(l.name.clone());
            new
        });
    }
    let mut u = RUnix { ty, ..Default::default() };
    match ty {
        FILE | RAW => {
            let room = at.and_then(|v| v.stack.last().map(|(s, e)| (e - s) as u64));
            if links.is_empty() {
                let n = room.filter(|_| r.chance(5, 6)).unwrap_or_else(|| r.below(6)).min(9);
                u.data = Some(r.bytes(n as usize));
                u.filesize = if r.chance(1, 2) { Some(n) } else { None };
            } else {
                for _ in 0..links.len() {
                    u.blocksizes.push(r.below(4));
                }
                let sum = u.blocksizes.iter().sum();
                u.filesize = Some(room.filter(|_| r.chance(1, 2)).unwrap_or(sum));
            }
        }
        HAMT => {
            u.hash_type = Some(34);
            u.fanout = Some(256);
            u.data = Some(r.bytes(2));
        }
        SYMLINK => u.data = Some(b"there".to_vec()),
        _ => {}
    }
    if ty != FILE && ty != RAW && r.chance(1, 3) || at.is_none() && r.chance(1, 4) {
        u.mode = Some(r.below(512) as u32);
        u.mtime = Some((r.below(9) as i64 - 4, if r.chance(1, 2) { Some(r.below(9) as u32) } else { None }));
    }
    for _ in 0..faults {
        match r.below(16) {
            0 => u.filesize = *r.pick(&[None, Some(0), Some(3), Some(u64::MAX)]),
            1 => u.blocksizes.push(*r.pick(&[0, 1, 7, u64::MAX])),
            2 => {
                u.blocksizes.pop();
            }
            3 => u.hash_type = *r.pick(&[None, Some(0), Some(34), Some(35)]),
            4 => u.fanout = *r.pick(&[None, Some(0), Some(256), Some(255)]),
            5 => u.data = r.pick(&[None, Some(vec![]), Some(vec![0xab, 0x01])]).clone(),
            6 => u.mode = Some(r.below(512) as u32),
            7 => u.mtime = Some((r.below(9) as i64 - 4, None)),
            8 => {
                if let Some(x) = u.blocksizes.last_mut() {
                    *x = *r.pick(&[0, 2, u64::MAX - 1]);
                }
            }
            9 => {
                // the same name again
                if !links.is_empty() {
                    let mut l = r.pick(&links).clone();
                    if r.chance(2, 3) {
                        l.hash = if r.chance(1, 2) { Some(rand_cid(r).to_bytes()) } else { Some(r.bytes(2)) };
                    }
                    links.push(l);
                }
            }
            _ => {}
        }
    }
    if r.chance(1, 14) {
        let pay = match r.below(5) {
            0 => Pay::Garbage(vec![0xff]),
            1 => Pay::Garbage(vec![0x0a, 0x05, 0x01]),
            2 => Pay::Nothing(None),
            3 => Pay::Nothing(Some(vec![])),
            _ => Pay::Noise(vec![0x0a]),
        };
        return B { links, pay };
    }
    B { links, pay: Pay::Unix(u) }
}
fn rand_kind(r: &mut Rng, usual: &[u64]) -> u64 {
    if r.chance(1, 5) {
        r.below(6)
    } else {
        *r.pick(usual)
    }
}
fn rand_needle(r: &mut Rng, b: &B) -> String {
    if b.links.is_empty() || r.chance(1, 6) {
        return r.pick(&["a", "ab", "", "b"]).to_string();
    }
    let n = name(r.pick(&b.links)).to_string();
    if b.ty() == Some(HAMT) && r.chance(9, 10) {
        n.get(2..).unwrap_or("").to_string()
    } else {
        n
    }
}

// ------------------------------------------------------------ the operations: [seed, index]
pub fn c18_visit(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(6151) ^ p[1]);
    let ty = rand_kind(&mut r, &[FILE, FILE, RAW]);
    let mut b = rand_block(&mut r, ty, None);
    let mut blocks = vec![b.clone()];
    let mut block = b.encode();
    let mut fp = hash_bytes(&block);
    let part = if r.chance(1, 3) {
        let a = r.below(6);
        Some((a, a + r.below(5)))
    } else {
        None
    };
    let idle = IdleFileVisit::default();
    let idle = match part {
        Some((a, z)) => idle.with_target_range(a..z),
        None => idle,
    };
    let part = part.map(|(a, z)| (a as u128, z as u128));
    let mut step = match idle.start(&block) {
        Ok((_, _, _, s)) => s,
        Err(e) => return visit_true(&e, &b, None).map(|_| fp).map_err(|m| format!("{}: visit of {:?} refused: {:?}", m, b, e)),
    };
    let mut at = enter(&b, 0, vec![], part);
    for _ in 0..6 {
        let v = match step {
            None => return Ok(0),
            Some(v) => v,
        };
        let ty = rand_kind(&mut r, &[FILE, FILE, RAW]);
        b = rand_block(&mut r, ty, Some(&at));
        blocks.push(b.clone());
        block = b.encode();
        fp ^= hash_bytes(&block);
        match v.continue_walk(&block, &mut None) {
            Ok((_, s)) => {
                step = s;
                let (o, _) = at.stack.pop().unwrap();
                at = enter(&b, o, at.stack, part);
            }
            Err(e) => return visit_true(&e, &b, Some(&at)).map(|_| fp).map_err(|m| format!("{}: {:?} refused after {:?}: {:?}", m, b, blocks, e)),
        }
    }
    Ok(0)
}
pub fn c18_resolve(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(9176263) ^ p[1]);
    let ty = rand_kind(&mut r, &[DIR, DIR, HAMT]);
    let b = rand_block(&mut r, ty, None);
    let needle = rand_needle(&mut r, &b);
    let block = b.encode();
    match resolve(&block, &needle, &mut None) {
        Ok(_) => Ok(0),
        Err(e) => {
            let s = format!("{:?}", e);
            resolve_true(e, &b, &needle).map(|_| hash_bytes(&block) ^ hash_str(&needle)).map_err(|m| format!("{}: resolving {:?} in {:?} gave {}", m, needle, b, s))
        }
    }
}
pub fn c18_lookup(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(50021) ^ p[1]);
    let good = RUnix { ty: HAMT, hash_type: Some(34), fanout: Some(256), ..Default::default() };
    let first = B { links: vec![RLink::to(&cid_of(b"x"), "00", 1), RLink::to(&cid_of(b"y"), "01", 1)], pay: Pay::Unix(good) };
    let ty = rand_kind(&mut r, &[HAMT]);
    let b = rand_block(&mut r, ty, None);
    let needle = rand_needle(&mut r, &b);
    let l = match resolve(&first.encode(), &needle, &mut None) {
        Ok(MaybeResolved::NeedToLoadMore(l)) => l,
        x => return Err(format!("lookup of {:?} does not start: {:?}", needle, x)),
    };
    let block = b.encode();
    match l.continue_walk(&block, &mut None) {
        Ok(_) => Ok(0),
        Err(e) => {
            let s = format!("{:?}", e);
            let e = match e.into_resolve_error() {
                ResolveError::Lookup(e) if format!("{:?}", e) == s => e,
                x => return Err(format!("{} turned to {:?}", s, x)),
            };
            lookup_true(e, &b, &needle, false).map(|_| hash_bytes(&block) ^ hash_str(&needle)).map_err(|m| format!("{}: continuing with {:?} for {:?} gave {}", m, b, needle, s))
        }
    }
}
pub fn c18_walk(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(2750159) ^ p[1]);
    let mut w = Walker::new(cid_of(b"root"), r.pick(&["", "root"]).to_string());
    let mut at: Option<Visit> = None;
    // names of what is to come, the next one last; the root may well be without a name
    let mut names: Vec<String> = vec![];
    let mut blocks: Vec<B> = vec![];
    let mut fp = 0;
    for n in 0..8 {
        let unnamed = n > 0 && at.is_none() && names.last().map(|s| s.is_empty()).unwrap_or(false);
        let ty = if at.is_some() {
            rand_kind(&mut r, &[FILE, FILE, RAW])
        } else if unnamed && r.chance(2, 3) {
            HAMT
        } else {
            rand_kind(&mut r, &[DIR, HAMT, FILE, DIR, HAMT, SYMLINK])
        };
        let mut b = rand_block(&mut r, ty, at.as_ref());
        if let Pay::Nothing(Some(_)) = b.pay {
            b.pay = Pay::Nothing(None);
        }
        let block = b.encode();
        fp ^= hash_bytes(&block).rotate_left(n);
        match w.next(&block, &mut None) {
            Err(e) => {
                return walk_true(&e, &b, at.as_ref(), unnamed).map(|_| fp).map_err(|m| format!("{}: {:?} refused after {:?}: {:?}", m, b, blocks, e));
            }
            Ok(ContinuedWalk::File(s, ..)) => {
                let v = match at.take() {
                    None => {
                        names.pop();
                        enter(&b, 0, vec![], None)
                    }
                    Some(mut v) => {
                        let (o, _) = v.stack.pop().unwrap();
                        enter(&b, o, v.stack, None)
                    }
                };
                at = if s.is_last() { None } else { Some(v) };
            }
            Ok(_) => {
                names.pop();
                entered(&b).map_err(|m| format!("{}: {:?} accepted after {:?}", m, b, blocks))?;
                if b.ty() == Some(DIR) {
                    names.extend(b.links.iter().rev().map(|l| name(l).to_string()));
                } else if b.ty() == Some(HAMT) {
                    names.extend(b.links.iter().rev().map(|l| name(l)[2..].to_string()));
                }
            }
        }
        blocks.push(b);
        if !w.should_continue() {
            return Ok(0);
        }
    }
    Ok(0)
}
pub fn run_c18(c: &mut Ctx) {
    c.random("c18_visit", c18_visit, 150_000, 3_000_000);
    c.random("c18_resolve", c18_resolve, 150_000, 3_000_000);
    c.random("c18_lookup", c18_lookup, 120_000, 2_000_000);
    c.random("c18_walk", c18_walk, 150_000, 3_000_000);
}
