//! C13 (walk), C14 (metadata), C17 (caches)
use crate::ctx::*;
use crate::dirs::*;
use crate::util::*;
use libipld::Cid;
use std::collections::VecDeque;
use std::path::PathBuf;
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{resolve, MaybeResolved, Metadata};

/// a tree of anything; ids are into `Store`
#[derive(Clone, Debug)]
pub enum T {
    File(FT, Meta),
    Dir(Vec<(String, T)>, Meta),
    Sym(Vec<u8>, Meta),
    Hamt(Vec<H>, Meta),
}
#[derive(Clone, Debug)]
pub enum H {
    Entry(String, T),
    Sub(Vec<H>),
}
#[derive(Debug, PartialEq, Clone)]
pub enum Kind {
    Root,
    Dir,
    Bucket,
    Sym(Vec<u8>),
    File { bytes: Vec<u8>, first: bool, last: bool, size: u64 },
}
pub type Vis = (Option<u32>, Option<(i64, u32)>);
#[derive(Debug, PartialEq, Clone)]
pub struct Ev {
    pub kind: Kind,
    pub cid: Cid,
    pub path: PathBuf,
    pub meta: Option<Vis>,
    /// block to feed for it, links of that block
    pub load: Cid,
    pub links: Vec<Cid>,
}
fn names(r: &mut Rng, n: u64) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while (v.len() as u64) < n {
        let x = match r.below(8) {
            0 => r.pick(&["é", "a b", "..", "00", "F0", "aa", "😀", "...", "\0", "a."]).to_string(),
            1 if r.chance(1, 6) => "long".repeat(r.range(30, 70) as usize),
            1 => "n".repeat(r.range(1, 5) as usize),
            _ => ((b'a' + r.below(8) as u8) as char).to_string(),
        };
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}
pub fn rand_tree(r: &mut Rng, depth: u64) -> T {
    let m = if r.chance(1, 2) { Meta::random(r) } else { Meta::default() };
    let k = if depth == 0 { *r.pick(&[0u64, 0, 1, 3]) } else { *r.pick(&[0u64, 1, 2, 2, 2, 3, 3]) };
    match k {
        0 => {
            let d = r.below(3);
            T::File(FT::random(r, d, 4, true), m)
        }
        1 => {
            let n = r.below(5) as usize;
            T::Sym(r.bytes(n), m)
        }
        2 => {
            let n = if depth == 0 { 0 } else { r.below(5) };
            let mut v: Vec<(String, T)> = vec![];
            for n in names(r, n) {
                let t = if !v.is_empty() && r.chance(1, 6) { r.pick(&v).1.clone() } else { rand_tree(r, depth - 1) };
                v.push((n, t));
            }
            T::Dir(v, m)
        }
        _ => T::Hamt(rand_hamt(r, depth, 2), m),
    }
}
fn rand_hamt(r: &mut Rng, depth: u64, sub: u64) -> Vec<H> {
    let n = r.below(5);
    names(r, n)
        .into_iter()
        .map(|n| {
            if sub > 0 && r.chance(1, 3) {
                H::Sub(rand_hamt(r, depth, sub - 1))
            } else {
                H::Entry(n, if depth == 0 { T::Sym(vec![b'x'], Meta::default()) } else { rand_tree(r, depth - 1) })
            }
        })
        .collect()
}
impl T {
    pub fn store(&self, s: &mut Store) -> Cid {
        match self {
            T::File(f, m) => f.store(s, *m).0,
            T::Sym(t, m) => s.put(flat(
                vec![],
                &RUnix { ty: SYMLINK, data: Some(t.clone()), mode: m.mode, mtime: m.mtime, ..Default::default() },
            )),
            T::Dir(e, m) => {
                // sizes of links are not to be believed
                let l = e.iter().enumerate().map(|(i, (n, t))| RLink { tsize: [Some(1), None, Some(0), Some(u64::MAX)][(i + n.len()) % 4], ..RLink::to(&t.store(s), n, 1) }).collect();
                let u = RUnix { ty: DIR, mode: m.mode, mtime: m.mtime, ..Default::default() };
                s.put(flat(l, &u))
            }
            T::Hamt(h, m) => store_hamt(h, *m, s),
        }
    }
    /// the events of a walk over this, in order
    fn events(&self, s: &mut Store, path: PathBuf, root: bool, out: &mut Vec<Ev>) {
        let cid = self.store(s);
        match self {
            T::Sym(t, m) => out.push(Ev { kind: Kind::Sym(t.clone()), cid, path, meta: Some(m.visible()), load: cid, links: vec![] }),
            T::Dir(e, m) => {
                let links = e.iter().map(|(_, t)| t.store(s)).collect();
                out.push(Ev { kind: if root { Kind::Root } else { Kind::Dir }, cid, path: path.clone(), meta: Some(m.visible()), load: cid, links });
                for (n, t) in e {
                    t.events(s, path.join(n), false, out);
                }
            }
            T::Hamt(h, m) => hamt_events(h, s, path, Some(m.visible()), *m, out),
            T::File(f, m) => {
                let at = out.len();
                file_events(f, s, *m, cid, &path, m.visible(), f.len(), out);
                if let Kind::File { first, .. } = &mut out[at].kind {
                    *first = true;
                }
                if let Kind::File { last, .. } = &mut out.last_mut().unwrap().kind {
                    *last = true;
                }
            }
        }
    }
}
fn store_hamt(h: &[H], m: Meta, s: &mut Store) -> Cid {
    let l = hamt_links(h, s);
    s.put(flat(l, &RUnix { ty: HAMT, data: Some(vec![1]), hash_type: Some(34), fanout: Some(256), mode: m.mode, mtime: m.mtime, ..Default::default() }))
}
fn hamt_links(h: &[H], s: &mut Store) -> Vec<RLink> {
    h.iter()
        .enumerate()
        .map(|(i, h)| match h {
            H::Entry(n, t) => RLink::to(&t.store(s), &format!("{:02X}{}", i, n), 1),
            H::Sub(b) => RLink::to(&store_hamt(b, Meta::default(), s), &format!("{:02X}", i), 1),
        })
        .collect()
}
fn hamt_events(h: &[H], s: &mut Store, path: PathBuf, meta: Option<Vis>, m: Meta, out: &mut Vec<Ev>) {
    use std::convert::TryFrom;
    let cid = store_hamt(h, m, s);
    let links = hamt_links(h, s).iter().map(|l| Cid::try_from(&l.hash.as_ref().unwrap()[..]).unwrap()).collect();
    let kind = if meta.is_some() { Kind::Root } else { Kind::Bucket };
    out.push(Ev { kind, cid, path: path.clone(), meta, load: cid, links });
    for h in h {
        match h {
            H::Entry(n, t) => t.events(s, path.join(n), false, out),
            H::Sub(b) => hamt_events(b, s, path.clone(), None, Meta::default(), out),
        }
    }
}
fn file_events(f: &FT, s: &mut Store, m: Meta, cid: Cid, path: &PathBuf, meta: Vis, size: u64, out: &mut Vec<Ev>) {
    let load = f.store(s, m).0;
    let (bytes, links) = match f {
        FT::Leaf { bytes, .. } => (bytes.clone(), vec![]),
        FT::Node(c) => (vec![], c.iter().map(|c| c.store(s, Meta::default()).0).collect()),
    };
    out.push(Ev { kind: Kind::File { bytes, first: false, last: false, size }, cid, path: path.clone(), meta: Some(meta), load, links });
    if let FT::Node(c) = f {
        for c in c {
            file_events(c, s, Meta::default(), cid, path, meta, size, out);
        }
    }
}
/// a HAMT entry after which a walk would find "nested root": any nested Hamt is a root bucket
fn to_ev(x: &ContinuedWalk<'_>) -> (Kind, Cid, PathBuf, Option<Vis>) {
    let v = |m: &Metadata| Some(seen(m));
    match x {
        ContinuedWalk::Bucket(c, p) => (Kind::Bucket, **c, p.to_path_buf(), None),
        ContinuedWalk::Directory(c, p, m) => (Kind::Dir, **c, p.to_path_buf(), v(m)),
        ContinuedWalk::RootDirectory(c, p, m) => (Kind::Root, **c, p.to_path_buf(), v(m)),
        ContinuedWalk::Symlink(t, c, p, m) => (Kind::Sym(t.to_vec()), **c, p.to_path_buf(), v(m)),
        ContinuedWalk::File(s, c, p, m, sz) => {
            assert_eq!(s.as_bytes(), s.as_ref());
            (Kind::File { bytes: s.as_bytes().to_vec(), first: s.is_first(), last: s.is_last(), size: *sz }, **c, p.to_path_buf(), v(m))
        }
    }
}
pub fn check_walk(t: &T, root_name: &str) -> Result<u64, String> {
    let mut s = Store::default();
    let cid = t.store(&mut s);
    let mut evs = vec![];
    let mut p = PathBuf::new();
    p.push(root_name);
    t.events(&mut s, p, true, &mut evs);
    let mut w = Walker::new(cid, root_name.to_string());
    let mut cache = None;
    let mut pending = vec![cid];
    let mut fp = 7u64;
    for (i, e) in evs.iter().enumerate() {
        let at = |m: String| format!("{} at step {} of {} walking {:?}", m, i, evs.len(), t);
        if !w.should_continue() {
            return Err(at("walk ends early".into()));
        }
        {
            let (f, rest) = w.pending_links();
            let now: Vec<Cid> = std::iter::once(*f).chain(rest.copied()).collect();
            if now != pending {
                return Err(at(format!("pending links are {:?} instead of {:?}", now, pending)));
            }
        }
        let got = w.next(s.get(&e.load)?, &mut cache).map_err(|x| at(format!("error {:?}", x)))?;
        let (kind, cid, path, meta) = to_ev(&got);
        // Path equality ignores some differences, strings do not
        if kind != e.kind || cid != e.cid || path.as_os_str() != e.path.as_os_str() || meta != e.meta {
            return Err(at(format!("got {:?} {} {:?} {:?} instead of {:?}", kind, cid, path, meta, e)));
        }
        fp = fp.wrapping_mul(31) ^ hash_bytes(s.get(&e.load)?);
        pending.remove(0);
        pending = e.links.iter().copied().chain(pending).collect();
    }
    if w.should_continue() {
        return Err(format!("walk goes on after its end walking {:?}", t));
    }
    Ok(fp)
}
/// a wide or deep one
fn big_tree(r: &mut Rng, shape: u64, n: u64) -> T {
    let m = Meta::default();
    match shape % 4 {
        0 => T::Dir((0..n).map(|i| (format!("{}{}", r.below(9), i), rand_tree(r, 0))).collect(), m),
        1 => {
            let mut t = T::Sym(b"end".to_vec(), m);
            for i in 0..n / 8 {
                let z = T::Sym(vec![], m);
                t = match r.below(3) {
                    0 => T::Hamt(vec![H::Sub(vec![H::Entry(format!("s{}", i), t)]), H::Entry("z".into(), z)], m),
                    1 => T::Dir(vec![("a".into(), t), ("z".into(), z)], m),
                    _ => T::Dir(vec![("d".into(), t)], m),
                };
            }
            t
        }
        2 => T::Hamt((0..n.min(256)).map(|i| if r.chance(1, 3) { H::Sub(rand_hamt(r, 1, 1)) } else { H::Entry(format!("e{}", i), rand_tree(r, 0)) }).collect(), m),
        _ => {
            let leaf = |i: u64| FT::Leaf { bytes: vec![i as u8; 1 + i as usize % 3], raw: i % 2 == 0, filesize: true, v0: false };
            T::Dir(vec![("f".into(), T::File(FT::Node((0..n / 10).map(|i| FT::Node((0..10).map(|k| leaf(10 * i + k)).collect())).collect()), m)), ("g".into(), T::Sym(vec![], m))], m)
        }
    }
}
/// [seed, index]
pub fn c13_walk(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(27644437) ^ p[1]);
    let d = r.below(5);
    let t = match size(p) {
        Some(n) => big_tree(&mut r, p[1], n),
        None => rand_tree(&mut r, d),
    };
    let name = *r.pick(&["", "", "root", "x", "é", ".."]);
    check_walk(&t, name)
}
/// every shape of two-level directory or shard out of a small set of entries: [kind, a, b, c, name]
pub fn c13_small(p: &[u64]) -> Result<u64, String> {
    let leaf = |n: usize, raw: bool| FT::Leaf { bytes: vec![b'x'; n], raw, filesize: true, v0: false };
    let m = Meta { mode: Some(0o644), mtime: Some((-1, Some(5))) };
    let item = |k: u64, i: usize| -> Option<H> {
        let n = ["a", "b", "c"][i].to_string();
        Some(match k {
            0 => return None,
            1 => H::Entry(n, T::File(leaf(0, false), m)),
            2 => H::Entry(n, T::File(leaf(3, true), Meta::default())),
            3 => H::Entry(n, T::File(FT::Node(vec![leaf(1, true), leaf(2, false)]), m)),
            4 => H::Entry(n, T::Dir(vec![], m)),
            5 => H::Entry(n, T::Dir(vec![("z".into(), T::Sym(b"t".to_vec(), m))], m)),
            6 => H::Entry(n, T::Sym(vec![], Meta::default())),
            7 => H::Entry(n, T::Hamt(vec![], m)),
            8 => H::Entry(n, T::Hamt(vec![H::Sub(vec![H::Entry("q".into(), T::Dir(vec![], Meta::default()))]), H::Entry("w".into(), T::Sym(vec![1], m))], m)),
            9 => H::Sub(vec![]),
            10 => H::Sub(vec![H::Entry("s".into(), T::Dir(vec![], m))]),
            11 => H::Sub(vec![H::Entry("s".into(), T::Dir(vec![("z".into(), T::File(leaf(2, false), m))], m)), H::Sub(vec![])]),
            _ => H::Entry(n, T::Dir(vec![("z".into(), T::Dir(vec![("y".into(), T::Dir(vec![], m))], m))], m)),
        })
    };
    let items: Vec<H> = (0..3).filter_map(|i| item(p[1 + i], i)).collect();
    let t = if p[0] == 0 {
        T::Dir(items.into_iter().filter_map(|h| match h { H::Entry(n, t) => Some((n, t)), _ => None }).collect(), m)
    } else {
        T::Hamt(items, m)
    };
    check_walk(&t, ["", "r"][p[4] as usize])
}
pub fn run_c13(c: &mut Ctx) {
    for k in 0..2 {
        for a in 0..13 {
            for b in 0..13 {
                for d in 0..13 {
                    if !c.thorough && (a + b + d) % 3 != 0 && d != 0 {
                        continue;
                    }
                    for n in 0..2 {
                        c.case("c13_small", c13_small, &[k, a, b, d, n]);
                    }
                }
            }
        }
    }
    for shape in 0..8 {
        for n in [140, 300, if c.thorough { 1300 } else { 600 }] {
            c.case("c13_walk", c13_walk, &[c.seed, shape, n]);
        }
    }
    c.random("c13_walk", c13_walk, 12_000, 250_000);
}

// ---------------------------------------------------------------- C14 metadata
fn visit_meta(s: &Store, root: &Cid, want: Vis) -> Result<(), String> {
    let (_, _, m, mut step) = IdleFileVisit::default().start(s.get(root)?).map_err(|e| format!("{:?}", e))?;
    if seen(&m) != want {
        return Err(format!("visit reports {:?}, the root has {:?}", m, want));
    }
    while let Some(v) = step {
        if seen(v.as_ref()) != want {
            return Err(format!("ongoing visit reports {:?}, the root has {:?}", v.as_ref(), want));
        }
        let c = *v.pending_links().0;
        step = v.continue_walk(s.get(&c)?, &mut None).map_err(|e| format!("{:?}", e))?.1;
    }
    Ok(())
}
/// [seed, index]
pub fn c14_kinds(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(14747) ^ p[1]);
    let m = Meta::random(&mut r);
    let t = match r.below(4) {
        0 => {
            let d = r.below(4);
            T::File(FT::random(&mut r, d, 3, true), m)
        }
        1 => T::Dir(vec![("a".into(), rand_tree(&mut r, 1))], m),
        2 => T::Hamt(rand_hamt(&mut r, 1, 1), m),
        _ => T::Sym(vec![1, 2], m),
    };
    if let T::File(f, m) = &t {
        let mut s = Store::default();
        let c = f.store(&mut s, *m).0;
        visit_meta(&s, &c, m.visible()).map_err(|e| format!("{} for {:?}", e, t))?;
    }
    // as the root, and nested
    let fp = check_walk(&t, "").and_then(|a| check_walk(&T::Dir(vec![("n".into(), t.clone()), ("z".into(), T::Sym(vec![], Meta::default()))], Meta::default()), "x").map(|b| a ^ b))?;
    // conversions
    let b = flat(vec![], &RUnix { ty: DIR, mode: m.mode, mtime: m.mtime, ..Default::default() });
    let flat = unixfs_v1::FlatUnixFs::try_parse(&b).map_err(|e| format!("{:?}", e))?;
    if seen(&Metadata::from(&flat.data)) != m.visible() {
        return Err(format!("{:?} is converted to {:?}", m, Metadata::from(&flat.data)));
    }
    Ok(fp)
}
/// metadata set on directories in the builder is what reading back tells: [seed, index]
pub fn c14_builder(p: &[u64]) -> Result<u64, String> {
    use std::collections::BTreeMap;
    use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
    let mut r = Rng::new(p[0].wrapping_mul(31337) ^ p[1]);
    let wrap = r.chance(1, 2);
    let mut o = TreeOptions::default();
    if wrap {
        o.wrap_with_directory();
    }
    let mut b = BufferingTreeBuilder::new(o);
    let mut want: BTreeMap<String, Meta> = BTreeMap::new();
    let mut file_no = 0;
    let mut log = vec![];
    for _ in 0..r.range(1, 8) {
        let n = r.range(1, 3);
        let path: String = std::iter::once("r".to_string()).chain((0..n - 1).map(|_| r.pick(&["a", "b"]).to_string())).collect::<Vec<_>>().join("/");
        if r.chance(1, 3) {
            file_no += 1;
            let f = format!("{}/f{}", path, file_no);
            log.push(format!("put {}", f));
            b.put_link(&f, cid_of(b"x"), 1).map_err(|e| format!("{:?} in {:?}", e, log))?;
        } else {
            let m = Meta::random(&mut r);
            log.push(format!("set_metadata {} {:?}", path, m));
            b.set_metadata(&path, real_meta(&m)).map_err(|e| format!("{} in {:?}", e, log))?;
            want.insert(path, m);
        }
    }
    let mut fp = 1;
    for n in b.build() {
        let n = n.map_err(|e| format!("{:?}", e))?;
        let mut w = Walker::new(n.cid, String::new());
        match w.next(&n.block, &mut None).map_err(|e| format!("{:?}", e))? {
            ContinuedWalk::RootDirectory(_, _, m) => {
                let expect = want.remove(&n.path).unwrap_or_default();
                if seen(m) != expect.visible() {
                    return Err(format!("directory {:?} reads as {:?}, {:?} was set: {:?}", n.path, m, expect, log));
                }
            }
            x => return Err(format!("built directory walks as {:?}", x)),
        }
        fp ^= hash_bytes(&n.block);
    }
    if !want.is_empty() {
        return Err(format!("directories were not built: {:?}", want));
    }
    Ok(fp)
}
pub fn run_c14(c: &mut Ctx) {
    c.random("c14_kinds", c14_kinds, 20_000, 200_000);
    c.random("c14_builder", c14_builder, 20_000, 100_000);
}

// ---------------------------------------------------------------- C17 caches
/// one operation: a trace of everything observable
fn op_visit(blocks: &Store, root: &Cid, range: Option<(u64, u64)>, stop_after: u64, cache: &mut Option<unixfs_v1::file::visit::Cache>) -> Vec<String> {
    let mut t = vec![];
    let mut v = IdleFileVisit::default();
    if let Some((a, b)) = range {
        v = v.with_target_range(a..b);
    }
    let mut step = match v.start(blocks.get(root).unwrap()) {
        Ok((b, sz, m, s)) => {
            t.push(format!("{:?} {} {:?}", b, sz, m));
            s
        }
        Err(e) => return vec![format!("{:?}", e)],
    };
    let mut n = 0;
    while let Some(s) = step {
        let (f, rest) = s.pending_links();
        t.push(format!("{} {:?} {}", f, rest.collect::<Vec<_>>(), s.file_size()));
        if n == stop_after {
            break;
        }
        n += 1;
        let f = *f;
        step = match s.continue_walk(blocks.get(&f).unwrap(), cache) {
            Ok((b, s)) => {
                t.push(format!("{:?}", b));
                s
            }
            Err(e) => {
                t.push(format!("{:?}", e));
                None
            }
        };
    }
    t
}
fn op_walk(blocks: &Store, root: &Cid, stop_after: u64, cache: &mut Option<unixfs_v1::file::visit::Cache>) -> Vec<String> {
    let mut w = Walker::new(*root, String::new());
    let mut t = vec![];
    let mut n = 0;
    while w.should_continue() {
        let (f, rest) = w.pending_links();
        t.push(format!("{} {:?}", f, rest.collect::<Vec<_>>()));
        if n == stop_after {
            break;
        }
        n += 1;
        let f = *f;
        match w.next(blocks.get(&f).unwrap(), cache) {
            Ok(x) => t.push(format!("{:?}", to_ev(&x))),
            Err(e) => {
                t.push(format!("{:?}", e));
                break;
            }
        }
    }
    t
}
fn op_lookup(bs: &[Bucket], needle: &str, stop_after: u64, cache: &mut Option<unixfs_v1::dir::Cache>) -> Vec<String> {
    let root = &bs[bs.len() - 1];
    let mut t = vec![];
    let mut n = 0;
    let mut st = resolve(&root.block, needle, cache).map_err(|e| format!("{:?}", e));
    loop {
        match st {
            Err(e) => {
                t.push(e);
                return t;
            }
            Ok(MaybeResolved::NeedToLoadMore(l)) => {
                let (f, rest) = l.pending_links();
                t.push(format!("{} {:?}", f, rest.collect::<Vec<_>>()));
                if n == stop_after {
                    return t;
                }
                n += 1;
                let b = bs.iter().find(|b| b.cid == *f).unwrap().block.clone();
                st = l.continue_walk(&b, cache).map_err(|e| format!("{:?}", e));
            }
            Ok(x) => {
                t.push(format!("{:?}", x));
                return t;
            }
        }
    }
}
/// [seed, index]: a history of operations sharing one cache, against the same without any
pub fn c17_history(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(611953) ^ p[1]);
    let mut fc = None;
    let mut dc: Option<unixfs_v1::dir::Cache> = None;
    let mut fp = 3u64;
    for i in 0..r.range(2, 8) {
        let stop = if r.chance(1, 3) { r.below(4) } else { u64::MAX };
        let (a, b, what) = match r.below(4) {
            0 | 1 => {
                let d = r.range(1, 3);
                let t = FT::random(&mut r, d, 3, true);
                let mut s = Store::default();
                let (root, _) = t.store(&mut s, Meta::default());
                if r.chance(1, 3) {
                    // break some block; it stays under its old identifier
                    let keys: Vec<Cid> = s.0.keys().copied().collect();
                    let mut keys = keys;
                    keys.sort();
                    let k = *r.pick(&keys);
                    let b = s.0.get_mut(&k).unwrap();
                    let n = b.len();
                    if r.chance(1, 2) {
                        *b = flat(vec![], &RUnix { ty: *r.pick(&[DIR, FILE]), filesize: Some(1), ..Default::default() });
                    } else {
                        b.truncate(n - 1);
                    }
                }
                if r.chance(1, 2) {
                    let x = r.below(t.len() + 2);
                    let range = if r.chance(1, 2) { Some((x, x + r.below(5))) } else { None };
                    (op_visit(&s, &root, range, stop, &mut fc), op_visit(&s, &root, range, stop, &mut None), "visit")
                } else {
                    (op_walk(&s, &root, stop, &mut fc), op_walk(&s, &root, stop, &mut None), "walk")
                }
            }
            2 => {
                let t = rand_tree(&mut r, 2);
                let mut s = Store::default();
                let root = t.store(&mut s);
                (op_walk(&s, &root, stop, &mut fc), op_walk(&s, &root, stop, &mut None), "walk")
            }
            _ => {
                let f = r.chance(1, 2);
                let bs = rand_buckets(&mut r, f, None);
                let all: Vec<&String> = bs.iter().flat_map(|b| b.entries.iter().map(|e| &e.0)).collect();
                let needle = if r.chance(1, 2) && !all.is_empty() { r.pick(&all).to_string() } else { "none".into() };
                if r.chance(1, 6) {
                    // a cache made by the user out of anything
                    dc = Some(unixfs_v1::dir::Cache::from(VecDeque::from(vec![cid_of(b"left over"), cid_of(b"2")])));
                }
                (op_lookup(&bs, &needle, stop, &mut dc), op_lookup(&bs, &needle, stop, &mut None), "lookup")
            }
        };
        if a != b {
            let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return Err(format!("{} number {} with a reused cache: {:?} instead of {:?}", what, i, a.get(k), b.get(k)));
        }
        fp = fp.wrapping_mul(33) ^ hash_str(&a.concat());
    }
    Ok(fp)
}
pub fn run_c17(c: &mut Ctx) {
    c.random("c17_history", c17_history, 12_000, 250_000);
}
