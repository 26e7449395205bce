//! C04 (builder part), C08, C09, C10, C11, C12, C15
use crate::ctx::*;
use crate::util::*;
use libipld::multihash::Multihash;
use libipld::Cid;
use quick_protobuf::{BytesReader, MessageRead, MessageWrite, Writer};
use std::borrow::Cow;
use std::collections::BTreeMap;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, OwnedTreeNode, TreeBuildingFailed, TreeConstructionFailed, TreeOptions};
use unixfs_v1::{resolve, FlatUnixFs, LookupError, MaybeResolved, Metadata, PBLink, PBNode, ResolveError, UnixFs, UnixFsType};

// ---------------------------------------------------------------- C08 encoding
/// identifiers of all sorts which a directory may link to
pub fn rand_cid(r: &mut Rng) -> Cid {
    // several links to the same target are as good as any
    if r.chance(1, 5) {
        return *r.pick(&[cid_of(b"shared"), cid_v0_of(b"shared"), cid_of(b"shared too")]);
    }
    let d = r.bytes(32);
    match r.below(6) {
        0 => Cid::new_v0(Multihash::wrap(0x12, &d).unwrap()).unwrap(),
        1 => {
            let n = *r.pick(&[0usize, 1, 4, 20, 31, 33, 64]);
            let d = r.bytes(n);
            Cid::new_v1(*r.pick(&[0x70, 0x55, 0x71, 127, 128, 0x0129, 1 << 40]), Multihash::wrap(*r.pick(&[0, 0x12, 0x13, 0xb220]), &d).unwrap())
        }
        2 => Cid::new_v1(0x55, Multihash::wrap(0x12, &d).unwrap()),
        _ => Cid::new_v1(0x70, Multihash::wrap(0x12, &d).unwrap()),
    }
}
fn mk_unix(u: &RUnix) -> UnixFs<'_> {
    let mut o = UnixFs {
        Type: UnixFsType::from(u.ty as i32),
        Data: u.data.as_ref().map(|d| Cow::Borrowed(&d[..])),
        filesize: u.filesize,
        blocksizes: u.blocksizes.clone(),
        hashType: u.hash_type,
        fanout: u.fanout,
        mode: u.mode,
        ..Default::default()
    };
    if let Some((s, n)) = u.mtime {
        // the only way to get at the type is by reading it
        let b = RUnix { ty: 2, mtime: Some((0, None)), ..Default::default() }.encode();
        let x = read::<UnixFs<'_>>(&b).unwrap();
        let mut t = x.mtime.unwrap();
        t.Seconds = s;
        t.FractionalNanoseconds = n;
        o.mtime = Some(t);
    }
    o
}
fn read<'a, M: MessageRead<'a>>(b: &'a [u8]) -> Result<M, String> {
    let mut r = BytesReader::from_bytes(b);
    M::from_reader(&mut r, b).map_err(|e| format!("own output does not decode: {:?}", e))
}
fn write<M: MessageWrite>(m: &M) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    m.write_message(&mut Writer::new(&mut v)).map_err(|e| format!("encoding fails: {:?}", e))?;
    if m.get_size() != v.len() {
        return Err(format!("announced size {} but {} bytes were written", m.get_size(), v.len()));
    }
    Ok(v)
}
fn mk_link(l: &RLink) -> PBLink<'_> {
    PBLink {
        Hash: l.hash.as_ref().map(|h| Cow::Borrowed(&h[..])),
        Name: l.name.as_ref().map(|h| Cow::Borrowed(&h[..])),
        Tsize: l.tsize,
    }
}
fn len_edge(r: &mut Rng) -> usize {
    *r.pick(&[0usize, 0, 1, 2, 3, 10, 100, 120, 125, 126, 127, 128, 129, 200, 1000, 16370, 16380, 16383, 16384, 16390])
}
fn rand_runix(r: &mut Rng, big: bool) -> RUnix {
    let m = Meta::random(r);
    let n = if big { len_edge(r) } else { r.below(8) as usize };
    let k = if big { r.below(40) } else { r.below(4) };
    RUnix {
        ty: r.below(6),
        data: if r.chance(1, 3) { None } else { Some(r.bytes(n)) },
        filesize: if r.chance(1, 2) { Some(r.edge_u64()) } else { None },
        blocksizes: (0..k).map(|_| r.edge_u64()).collect(),
        hash_type: if r.chance(1, 2) { Some(r.edge_u64()) } else { None },
        fanout: if r.chance(1, 2) { Some(r.edge_u64()) } else { None },
        mode: m.mode,
        mtime: m.mtime,
    }
}
fn rand_rlink(r: &mut Rng, big: bool) -> RLink {
    let n = if big { len_edge(r) } else { r.below(8) as usize };
    let h = if big { len_edge(r) } else { 34 };
    RLink {
        hash: if r.chance(1, 5) { None } else { Some(r.bytes(h)) },
        name: if r.chance(1, 5) { None } else { Some((0..n).map(|_| *r.pick(&['a', 'b', '/', '0', 'é', '漢'])).collect()) },
        tsize: if r.chance(1, 4) { None } else { Some(r.edge_u64()) },
    }
}
/// UnixFs, PBLink, PBNode, FlatUnixFs: [seed, index]
pub fn c08_general(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(3571) ^ p[1]);
    let big = r.chance(1, 4);
    let u = rand_runix(&mut r, big);
    let w = mk_unix(&u);
    let b = write(&w)?;
    diff("unixfs node", &b, &u.encode())?;
    if read::<UnixFs<'_>>(&b)? != w {
        return Err("unixfs node changes when decoded again".into());
    }
    let k = size(p).unwrap_or_else(|| r.below(4));
    let links: Vec<RLink> = (0..k).map(|_| rand_rlink(&mut r, big)).collect();
    for l in &links {
        let w = mk_link(l);
        let b = write(&w)?;
        diff("link", &b, &l.encode())?;
        if read::<PBLink<'_>>(&b)? != w {
            return Err("link changes when decoded again".into());
        }
    }
    let data = if r.chance(1, 4) { None } else { Some(u.encode()) };
    let n = RNode { links: links.clone(), data };
    let w = PBNode { Links: n.links.iter().map(mk_link).collect(), Data: n.data.as_ref().map(|d| Cow::Borrowed(&d[..])) };
    let b = write(&w)?;
    diff("dag-pb node", &b, &n.encode())?;
    if read::<PBNode<'_>>(&b)? != w {
        return Err("dag-pb node changes when decoded again".into());
    }
    let f = FlatUnixFs { links: links.iter().map(mk_link).collect(), data: mk_unix(&u) };
    let b = write(&f)?;
    diff("flat node", &b, &flat(links.clone(), &u))?;
    let back = FlatUnixFs::try_parse(&b).map_err(|e| format!("own flat output does not decode: {:?}", e))?;
    if back.links != f.links || back.data != f.data {
        return Err("flat node changes when decoded again".into());
    }
    Ok(hash_bytes(&b))
}
/// a wrapped directory with the given kind of entries, compared byte for byte: [seed, index]
pub fn c08_directory(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(65537) ^ p[1]);
    let mut o = TreeOptions::default();
    o.wrap_with_directory();
    o.block_size_limit(None);
    let mut b = BufferingTreeBuilder::new(o);
    let mut m = BTreeMap::new();
    // entries of the root, or of a directory with metadata below it
    let nested = r.chance(1, 2);
    let meta = if nested { Meta::random(&mut r) } else { Meta::default() };
    if nested {
        b.set_metadata("d", real_meta(&meta)).map_err(|e| format!("{:?}", e))?;
    }
    for _ in 0..r.below(6) {
        let mut n = len_edge(&mut r);
        if n == 0 {
            n = 4;
        }
        let name: String = (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'é', ' '])).collect();
        let c = rand_cid(&mut r);
        let sz = r.edge_u64() >> 8;
        let path = if nested { format!("d/{}", name) } else { name.clone() };
        if b.put_link(&path, c, sz).is_ok() {
            m.insert(name, (c, sz));
        }
    }
    let nodes: Vec<OwnedTreeNode> = b.build().collect::<Result<_, _>>().map_err(|e| format!("{:?}", e))?;
    if nodes.len() != 1 + nested as usize {
        return Err(format!("{} nodes for a single directory", nodes.len()));
    }
    let mut u = RUnix { ty: DIR, ..Default::default() };
    // whether absent nanoseconds are written as zero is not for this property to say
    u.mode = meta.mode;
    u.mtime = unflat(&nodes[0].block)?.1.mtime;
    if u.mtime.map(|(s, n)| (s, n.unwrap_or(0))) != meta.visible().1 {
        return Err(format!("{:?} is written as {:?}", meta, u.mtime));
    }
    let want = flat(m.iter().map(|(n, (c, s))| RLink::to(c, n, *s)).collect(), &u);
    diff("directory block", &nodes[0].block, &want)?;
    if nested {
        let root = flat(vec![RLink::to(&cid_of(&want), "d", nodes[0].total_size)], &RUnix { ty: DIR, ..Default::default() });
        diff("root directory block", &nodes[1].block, &root)?;
    }
    Ok(hash_bytes(&want))
}
pub fn run_c08(c: &mut Ctx) {
    for (i, n) in [130, 300, 1_100, 4_200, 20_000].iter().enumerate() {
        c.case("c08_general", c08_general, &[c.seed, i as u64, *n]);
    }
    c.random("c08_general", c08_general, 60_000, 400_000);
    c.random("c08_directory", c08_directory, 20_000, 120_000);
    c.random("c15_symlink", c15_symlink, 2_000, 20_000);
}

// ---------------------------------------------------------------- builder model
#[derive(Clone, Debug)]
pub enum MN {
    Leaf(Cid, u64),
    Dir(BTreeMap<String, MN>, Meta),
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Rej {
    Rooted,
    Repeat,
    EndsInSlash,
    TooMany,
    Duplicate,
    LeafAsDir,
}
fn rej(e: &TreeBuildingFailed) -> (Rej, Option<&str>) {
    use TreeBuildingFailed::*;
    match e {
        RootedPath(s) => (Rej::Rooted, Some(s)),
        RepeatSlashesInPath(s) => (Rej::Repeat, Some(s)),
        PathEndsInSlash(s) => (Rej::EndsInSlash, Some(s)),
        TooManyRootLevelEntries => (Rej::TooMany, None),
        DuplicatePath(s) => (Rej::Duplicate, Some(s)),
        LeafAsDirectory(s) => (Rej::LeafAsDir, Some(s)),
    }
}
pub enum Op {
    Link(String, Cid, u64),
    Meta(String, Meta),
}
/// what the put must do; Err holds every classification which describes the mistake
fn model_put(root: &mut BTreeMap<String, MN>, wrap: bool, op: &Op) -> Result<(), Vec<Rej>> {
    let path = match op {
        Op::Link(p, ..) | Op::Meta(p, ..) => p,
    };
    let segs: Vec<&str> = path.split('/').collect();
    let mut why = vec![];
    if segs.len() > 1 {
        if segs[0].is_empty() {
            why.push(Rej::Rooted);
        }
        if segs[segs.len() - 1].is_empty() {
            why.push(Rej::EndsInSlash);
        }
        if path.contains("//") {
            why.push(Rej::Repeat);
        }
        if !why.is_empty() {
            return Err(why);
        }
    }
    if !wrap && !root.is_empty() && !root.contains_key(segs[0]) {
        return Err(vec![Rej::TooMany]);
    }
    let mut cur = &*root;
    for (i, s) in segs.iter().enumerate() {
        let last = i == segs.len() - 1;
        match cur.get(*s) {
            None => break,
            Some(MN::Leaf(..)) if !last || matches!(op, Op::Meta(..)) => {
                return Err(if i == 0 && last && !wrap { vec![Rej::LeafAsDir, Rej::TooMany] } else { vec![Rej::LeafAsDir] })
            }
            Some(_) if last && matches!(op, Op::Link(..)) => {
                // with a single allowed root entry a second one of the same name is both
                return Err(if i == 0 && !wrap { vec![Rej::Duplicate, Rej::TooMany] } else { vec![Rej::Duplicate] });
            }
            Some(MN::Leaf(..)) => unreachable!(),
            Some(MN::Dir(d, _)) => cur = d,
        }
    }
    let mut cur = root;
    for s in &segs[..segs.len() - 1] {
        match cur.entry(s.to_string()).or_insert_with(|| MN::Dir(BTreeMap::new(), Meta::default())) {
            MN::Dir(d, _) => cur = d,
            _ => unreachable!(),
        }
    }
    let name = segs[segs.len() - 1].to_string();
    match op {
        Op::Link(_, c, s) => {
            cur.insert(name, MN::Leaf(*c, *s));
        }
        Op::Meta(_, m) => match cur.entry(name).or_insert_with(|| MN::Dir(BTreeMap::new(), Meta::default())) {
            MN::Dir(_, x) => *x = *m,
            _ => unreachable!(),
        },
    }
    Ok(())
}
pub fn real_meta(m: &Meta) -> Metadata {
    let b = flat(vec![], &RUnix { ty: DIR, mode: m.mode, mtime: m.mtime, ..Default::default() });
    Metadata::from(&FlatUnixFs::try_parse(&b).unwrap().data)
}
fn real_put(b: &mut BufferingTreeBuilder, op: &Op) -> Result<(), TreeBuildingFailed> {
    match op {
        Op::Link(p, c, s) => b.put_link(p, *c, *s),
        Op::Meta(p, m) => b.set_metadata(p, real_meta(m)),
    }
}
fn rand_path(r: &mut Rng) -> String {
    let n = *r.pick(&[1u64, 1, 1, 2, 2, 3, 3, 4, 6]);
    let k = r.range(1, 4);
    let mut s = (0..n)
        .map(|_| if r.chance(1, 60) { String::new() } else if r.chance(1, 15) { r.pick(&[".", "..", "é", "aa", "aaa", "A", "a b", "a-", "a.b", "ab", "b c", "\0", "a\0", "~"]).to_string() } else { ((b'a' + r.below(k) as u8) as char).to_string() })
        .collect::<Vec<_>>()
        .join("/");
    if r.chance(1, 40) {
        s.insert(0, '/');
    }
    if r.chance(1, 40) {
        s.push('/');
    }
    s
}
pub fn rand_op(r: &mut Rng, meta: u64) -> Op {
    let p = rand_path(r);
    if r.below(10) < meta {
        Op::Meta(p, Meta::random(r))
    } else {
        let c = rand_cid(r);
        Op::Link(p, c, r.edge_u64() >> 16)
    }
}
fn describe(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Link(p, ..) => format!("put {:?}", p),
            Op::Meta(p, m) => format!("set_metadata {:?} {:?}", p, m),
        })
        .collect::<Vec<_>>()
        .join(", ")
}
/// Puts `ops` to both; returns the model and the real builder
fn put_all(ops: &[Op], wrap: bool, limit: Option<u64>) -> Result<(BTreeMap<String, MN>, BufferingTreeBuilder), String> {
    let mut o = TreeOptions::default();
    if wrap {
        o.wrap_with_directory();
    }
    o.block_size_limit(limit);
    let mut b = BufferingTreeBuilder::new(o);
    let mut m = BTreeMap::new();
    for (i, op) in ops.iter().enumerate() {
        let want = model_put(&mut m, wrap, op);
        let got = real_put(&mut b, op);
        let path = match op {
            Op::Link(p, ..) | Op::Meta(p, ..) => p,
        };
        match (&want, &got) {
            (Ok(()), Ok(())) => {}
            (Err(ws), Err(e)) => {
                let (k, s) = rej(e);
                if !ws.contains(&k) || s.map(|s| s != path).unwrap_or(false) {
                    return Err(format!("after [{}] {} fails with {:?} instead of {:?}", describe(&ops[..i]), describe(&ops[i..=i]), e, ws));
                }
            }
            _ => return Err(format!("after [{}] {} gives {:?} instead of {:?}", describe(&ops[..i]), describe(&ops[i..=i]), got, want)),
        }
    }
    Ok((m, b))
}
/// a case out of the ordinary is a third parameter bigger
pub fn size(p: &[u64]) -> Option<u64> {
    p.get(2).copied()
}
/// many entries, many directories, deep ones: in any order
fn big_ops(r: &mut Rng, shape: u64, n: u64, meta: u64) -> Vec<Op> {
    let mut paths: Vec<String> = (0..n)
        .map(|i| match shape % 4 {
            0 => format!("{}{}", r.below(7), i),
            1 => format!("d{}/{}", i, r.below(9)),
            2 => "x/".repeat((i % 300) as usize) + &format!("f{}", i),
            _ => format!("{}/{}/{}", r.below(40), r.below(20), i),
        })
        .collect();
    for i in (1..paths.len()).rev() {
        paths.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut ops: Vec<Op> = vec![];
    for p in paths {
        if r.below(20) < meta {
            if let Some(i) = p.rfind('/') {
                ops.push(Op::Meta(p[..i].to_string(), Meta::random(r)));
            }
        }
        ops.push(Op::Link(p, rand_cid(r), r.below(1 << 40)));
    }
    ops
}
fn rand_ops(p: &[u64], meta: u64) -> (Vec<Op>, bool, Rng) {
    let mut r = Rng::new(p[0].wrapping_mul(99991) ^ p[1]);
    if let Some(n) = size(p) {
        return (big_ops(&mut r, p[1], n, meta), true, r);
    }
    let wrap = r.chance(2, 3);
    let n = *r.pick(&[0u64, 1, 2, 3, 4, 6, 9, 14, 30]);
    let mut ops: Vec<Op> = (0..n).map(|_| rand_op(&mut r, meta)).collect();
    if !wrap && r.chance(3, 4) {
        for o in &mut ops {
            match o {
                Op::Link(p, ..) | Op::Meta(p, ..) => p.insert_str(0, "r/"),
            }
        }
    }
    (ops, wrap, r)
}
fn collect(b: BufferingTreeBuilder, borrowed: bool) -> Result<Vec<OwnedTreeNode>, TreeConstructionFailed> {
    let mut it = b.build();
    let mut v = vec![];
    if borrowed {
        while let Some(x) = it.next_borrowed() {
            v.push(x?.into_owned());
        }
    } else {
        for x in &mut it {
            v.push(x?);
        }
    }
    assert!(it.next().is_none(), "yields something after its end");
    Ok(v)
}
fn dirs_of<'a>(m: &'a BTreeMap<String, MN>, path: &str, out: &mut Vec<(String, &'a BTreeMap<String, MN>, Meta)>) {
    for (n, x) in m {
        if let MN::Dir(d, meta) = x {
            let p = if path.is_empty() { n.clone() } else { format!("{}/{}", path, n) };
            dirs_of(d, &p, out);
            out.push((p, d, *meta));
        }
    }
}
/// C09: what is in the emitted tree
pub fn c09_tree(p: &[u64]) -> Result<u64, String> {
    let (ops, wrap, mut r) = rand_ops(p, if p[1] % 2 == 0 { 0 } else { 2 });
    let (m, b) = put_all(&ops, wrap, None)?;
    let nodes = collect(b, r.chance(1, 2)).map_err(|e| format!("{:?}", e))?;
    check_tree(&m, wrap, &nodes, false).map_err(|e| format!("{} after [{}] wrap={}", e, describe(&ops), wrap))?;
    Ok(hash_bytes(describe(&ops).as_bytes()))
}
fn check_tree(m: &BTreeMap<String, MN>, wrap: bool, nodes: &[OwnedTreeNode], metas: bool) -> Result<(), String> {
    let mut want = vec![];
    dirs_of(m, "", &mut want);
    if wrap {
        want.push((String::new(), m, Meta::default()));
    }
    if nodes.len() != want.len() {
        return Err(format!("{} directories were emitted, there are {}: {:?}", nodes.len(), want.len(), nodes.iter().map(|n| &n.path).collect::<Vec<_>>()));
    }
    // emitted path -> index, in emission order
    let mut done: Vec<(&str, usize)> = vec![];
    for (i, n) in nodes.iter().enumerate() {
        let root = wrap && i == nodes.len() - 1;
        let cands: Vec<_> = want.iter().enumerate().filter(|(wi, w)| w.0 == n.path && (wrap && *wi == want.len() - 1) == root).collect();
        if cands.len() != 1 {
            return Err(format!("directory {:?} was emitted but is not expected at this point", n.path));
        }
        let (_, (path, d, meta)) = cands[0];
        if done.iter().any(|(q, _)| q == path) && !root {
            return Err(format!("directory {:?} was emitted twice", path));
        }
        let (links, u) = unflat(&n.block)?;
        if links.len() != d.len() {
            return Err(format!("directory {:?} has {} links instead of {}", path, links.len(), d.len()));
        }
        let mut clean = u.clone();
        clean.mode = None;
        clean.mtime = None;
        if clean != (RUnix { ty: DIR, ..Default::default() }) {
            return Err(format!("directory {:?} has a payload of {:?}", path, u));
        }
        if metas && (Meta { mode: u.mode, mtime: u.mtime }).visible() != meta.visible() {
            return Err(format!("directory {:?} has {:?} {:?}, {:?} was set", path, u.mode, u.mtime, meta));
        }
        for (l, (name, x)) in links.iter().zip(d.iter()) {
            if l.name.as_deref() != Some(name) {
                return Err(format!("directory {:?} has link {:?} where {:?} is expected", path, l.name, name));
            }
            let (c, sz) = match x {
                MN::Leaf(c, s) => (*c, *s),
                MN::Dir(..) => {
                    let cp = if path.is_empty() { name.clone() } else { format!("{}/{}", path, name) };
                    let k = done.iter().find(|(q, _)| **q == cp).ok_or_else(|| format!("directory {:?} was emitted before its child {:?}", path, cp))?.1;
                    (nodes[k].cid, nodes[k].total_size)
                }
            };
            if l.hash.as_deref() != Some(&c.to_bytes()[..]) || l.tsize != Some(sz) {
                return Err(format!("directory {:?} entry {:?} links to {:?} of size {:?} instead of {} of size {}", path, name, l.hash.as_deref().map(hex), l.tsize, c, sz));
            }
        }
        if !root {
            done.push((&n.path, i));
        }
    }
    Ok(())
}
/// all sequences of puts from a small pool of paths: [first put, second, third, wrap]
pub fn c09_small(p: &[u64]) -> Result<u64, String> {
    const POOL: &[&str] = &["", "a", "b", "a/a", "a/b", "a/b/c", "b/a", "/a", "a/", "a//b", "/"];
    let n = POOL.len() as u64;
    let mut ops = vec![];
    for k in 0..3 {
        let x = p[k];
        if x < 2 * n {
            let path = POOL[(x % n) as usize].to_string();
            let c = cid_of(&[k as u8]);
            ops.push(if x < n { Op::Link(path, c, k as u64 + 1) } else { Op::Meta(path, Meta { mode: Some(k as u32), mtime: None }) });
        }
    }
    let wrap = p[3] == 1;
    let (m, b) = put_all(&ops, wrap, None)?;
    let nodes = collect(b, p[3] == 0).map_err(|e| format!("{:?}", e))?;
    check_tree(&m, wrap, &nodes, false).map_err(|e| format!("{} after [{}] wrap={}", e, describe(&ops), wrap))?;
    Ok(hash_bytes(format!("{}{}", describe(&ops), wrap).as_bytes()))
}
pub fn run_c09(c: &mut Ctx) {
    let n = 22;
    for w in 0..2 {
        for a in 0..=n {
            for b in 0..=n {
                if c.thorough {
                    for d in 0..=n {
                        c.case("c09_small", c09_small, &[a, b, d, w]);
                    }
                } else {
                    c.case("c09_small", c09_small, &[a, b, n, w]);
                    c.case("c09_small", c09_small, &[a, b, (a * 7 + b * 3) % n, w]);
                }
            }
        }
    }
    big(c, "c09_tree", c09_tree);
    c.case("c09_tree", c09_tree, &[c.seed, 0, 70_000]);
    c.random("c09_tree", c09_tree, 80_000, 300_000);
}
pub fn big(c: &mut Ctx, name: &'static str, f: CaseFn) {
    for shape in 0..8 {
        for n in [70, 300, if c.thorough { 4000 } else { 1200 }] {
            c.case(name, f, &[c.seed, shape, n]);
        }
    }
}
/// C04 for the builder
pub fn c04_dir(p: &[u64]) -> Result<u64, String> {
    let (ops, wrap, mut r) = rand_ops(p, 1);
    let (m, b) = put_all(&ops, wrap, None)?;
    let nodes = collect(b, r.chance(1, 2)).map_err(|e| format!("{:?}", e))?;
    for n in &nodes {
        crate::files::check_cid(&n.cid, &n.block).map_err(|e| format!("directory {:?}: {}", n.path, e))?;
    }
    let mut want = vec![];
    dirs_of(&m, "", &mut want);
    let store: BTreeMap<&str, &OwnedTreeNode> = nodes.iter().filter(|n| !n.path.is_empty()).map(|n| (&n.path[..], n)).collect();
    for n in &nodes {
        let (links, _) = unflat(&n.block)?;
        for l in links {
            let name = l.name.unwrap_or_default();
            let cp = if n.path.is_empty() { name } else { format!("{}/{}", n.path, name) };
            if let Some(k) = store.get(&cp[..]) {
                if l.hash != Some(cid_of(&k.block).to_bytes()) {
                    return Err(format!("link to {:?} does not have the identifier of the emitted block", cp));
                }
            }
        }
    }
    Ok(hash_bytes(describe(&ops).as_bytes()))
}
/// C10: sizes, limits
pub fn c10_sizes(p: &[u64]) -> Result<u64, String> {
    let (ops, wrap, mut r) = rand_ops(p, if p[1] % 3 == 0 { 2 } else { 0 });
    let (m, b) = put_all(&ops, wrap, None)?;
    let what = |e: String| format!("{} after [{}] wrap={}", e, describe(&ops), wrap);
    let nodes = collect(b, r.chance(1, 2)).map_err(|e| what(format!("without a limit: {:?}", e)))?;
    let mut by_cid: BTreeMap<Vec<u8>, Vec<&OwnedTreeNode>> = BTreeMap::new();
    for k in &nodes {
        by_cid.entry(k.cid.to_bytes()).or_default().push(k);
    }
    // sizes from the blocks alone
    for n in &nodes {
        let (links, _) = unflat(&n.block).map_err(what)?;
        let sum: u64 = links.iter().map(|l| l.tsize.unwrap_or(0)).sum();
        if n.total_size != sum + n.block.len() as u64 {
            return Err(what(format!("directory {:?} reports {} bytes, its block of {} and its entries of {} are {}", n.path, n.total_size, n.block.len(), sum, sum + n.block.len() as u64)));
        }
        for l in &links {
            for k in by_cid.get(l.hash.as_ref().unwrap_or(&vec![])).into_iter().flatten() {
                if Some(k.total_size) != l.tsize {
                    return Err(what(format!("link {:?} records {:?}, the directory has {}", l.name, l.tsize, k.total_size)));
                }
            }
        }
    }
    // limits around each of the block lengths
    let mut lens: Vec<u64> = nodes.iter().map(|n| n.block.len() as u64).collect();
    lens.sort();
    lens.dedup();
    let mut limits = vec![0u64, u64::MAX];
    let few = size(p).is_some();
    for l in lens.iter().enumerate().filter(|(i, _)| !few || *i == 0 || i + 1 == lens.len()).map(|(_, l)| l) {
        limits.extend([l - 1, *l, l + 1]);
    }
    for limit in limits {
        let (_, b) = put_all(&ops, wrap, Some(limit))?;
        let mut it = b.build();
        for n in &nodes {
            let x = it.next();
            if n.block.len() as u64 <= limit {
                match x {
                    Some(Ok(y)) if y.block == n.block && y.path == n.path && y.cid == n.cid && y.total_size == n.total_size => {}
                    Some(Ok(y)) => return Err(what(format!("limit {} changes what is emitted for {:?}: {:?}", limit, n.path, y.path))),
                    Some(Err(e)) => return Err(what(format!("limit {} refuses a directory of {} bytes: {:?}", limit, n.block.len(), e))),
                    None => return Err(what(format!("limit {} ends before {:?}", limit, n.path))),
                }
            } else {
                match x {
                    Some(Err(TreeConstructionFailed::TooLargeBlock(s))) if s == n.block.len() as u64 => {}
                    Some(Err(e)) => return Err(what(format!("limit {}: {:?} for a directory of {} bytes", limit, e, n.block.len()))),
                    Some(Ok(y)) => return Err(what(format!("limit {}: emitted {:?} of {} bytes", limit, y.path, y.block.len()))),
                    None => return Err(what(format!("limit {}: silently ends at {:?} of {} bytes", limit, n.path, n.block.len()))),
                }
                for _ in 0..nodes.len() + 2 {
                    let again = no_panic(|| it.next()).map_err(|e| what(format!("limit {}: continuing after the refusal of {:?}: {}", limit, n.path, e)))?;
                    if let Some(Ok(y)) = again {
                        return Err(what(format!("limit {}: emitted {:?} after {:?} was refused", limit, y.path, n.path)));
                    }
                }
                break;
            }
        }
        if lens.iter().all(|l| *l <= limit) && it.next().is_some() {
            return Err(what("emits something after its end".into()));
        }
    }
    let _ = m;
    Ok(hash_bytes(describe(&ops).as_bytes()))
}
/// the default limit is 512 KiB: [entries, pad]
pub fn c10_default_limit(p: &[u64]) -> Result<u64, String> {
    let mut o = TreeOptions::default();
    o.wrap_with_directory();
    let mut b = BufferingTreeBuilder::new(o);
    let mut m = BTreeMap::new();
    for i in 0..p[0] {
        let name = format!("{:0200}", i);
        let c = cid_of(&i.to_be_bytes());
        b.put_link(&name, c, 1).map_err(|e| format!("{:?}", e))?;
        m.insert(name, c);
    }
    let name = "x".repeat(p[1] as usize);
    b.put_link(&name, cid_of(b"x"), 1).map_err(|e| format!("{:?}", e))?;
    m.insert(name, cid_of(b"x"));
    let len = flat(m.iter().map(|(n, c)| RLink::to(c, n, 1)).collect(), &RUnix { ty: DIR, ..Default::default() }).len() as u64;
    match b.build().next() {
        Some(Ok(n)) if len <= 512 * 1024 && n.block.len() as u64 == len => Ok(len),
        Some(Err(TreeConstructionFailed::TooLargeBlock(s))) if s == len && len > 512 * 1024 => Ok(len),
        x => Err(format!("a directory of {} bytes with default options gives {:?}", len, x.map(|x| x.map(|n| n.block.len())))),
    }
}
pub fn run_c10(c: &mut Ctx) {
    big(c, "c10_sizes", c10_sizes);
    c.random("c10_sizes", c10_sizes, 12_000, 80_000);
    // 247 bytes per entry of 200 characters, make the last one land on both sides of the limit
    for pad in 1..=if c.thorough { 300 } else { 260 } {
        if c.thorough || pad % 16 == 1 || (100..140).contains(&pad) {
            c.case("c10_default_limit", c10_default_limit, &[2122, pad]);
        }
    }
}

// ---------------------------------------------------------------- C11 resolve
pub fn rand_entry_name(r: &mut Rng) -> String {
    r.pick(&["a", "b", "ab", "abc", "A", "0Aa", "F0", "", "é", "e\u{301}", "a/b", ".", "..", "aa", "aé", " a", "a ", "a\0", "\0a", "00a", "/a", "a/", "%61"]).to_string()
}
/// something close to a name which is there
fn near(r: &mut Rng, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    match r.below(9) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => format!("{}a", s),
        3 => format!("a{}", s),
        4 => format!("{}\0", s),
        5 => cs[..cs.len().saturating_sub(1)].iter().collect(),
        6 => cs[cs.len().min(1)..].iter().collect(),
        7 => cs[cs.len().min(2)..].iter().collect(),
        _ => format!("00{}", s),
    }
}
fn is_valid_cid(h: &Option<Vec<u8>>) -> Option<Cid> {
    use std::convert::TryFrom;
    h.as_ref().and_then(|h| Cid::try_from(&h[..]).ok())
}
fn rand_target(r: &mut Rng) -> Option<Vec<u8>> {
    match r.below(16) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![0x12, 0x20, 1]),
        3 => Some(r.bytes(3)),
        _ => Some(rand_cid(r).to_bytes()),
    }
}
/// [seed, index]
pub fn c11_resolve(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(7477) ^ p[1]);
    let n = size(p).unwrap_or_else(|| r.below(7));
    let mut links: Vec<RLink> = vec![];
    for i in 0..n {
        if size(p).is_some() {
            let hash = if r.chance(1, 50) { rand_target(&mut r) } else { Some(rand_cid(&mut r).to_bytes()) };
            links.push(RLink { hash, name: Some(format!("{}{}", i % 7, r.below(2 * n))), tsize: Some(r.below(1000)) });
            continue;
        }
        if !links.is_empty() && r.chance(1, 12) {
            // the very same link again, perhaps of a different size
            let mut l = r.pick(&links).clone();
            if r.chance(1, 2) {
                l.tsize = None;
            }
            links.push(l);
            continue;
        }
        let mut name = rand_entry_name(&mut r);
        if r.chance(1, 10) {
            name = name.repeat(r.range(40, 90) as usize);
        }
        if r.chance(4, 5) && links.iter().any(|l: &RLink| l.name.as_deref() == Some(&name)) {
            continue;
        }
        let hash = rand_target(&mut r);
        links.push(RLink { hash, name: if r.chance(1, 20) { None } else { Some(name) }, tsize: Some(r.below(1000)) });
    }
    let mut needle = if r.chance(2, 3) && !links.is_empty() { r.pick(&links).name.clone().unwrap_or_default() } else { rand_entry_name(&mut r) };
    if r.chance(1, 6) {
        needle = near(&mut r, &needle);
    }
    // payload
    let kind = r.below(10);
    let mut supported = true;
    let mut plain = true; // plain: links are looked at
    let block = match kind {
        0 => RNode { links: links.clone(), data: None }.encode(),
        1 => {
            // bytes which are not a unixfs node
            let d = r.pick(&[&b"hello"[..], &[0xff][..], &[0x08][..]]).to_vec();
            RNode { links: links.clone(), data: Some(d) }.encode()
        }
        2 => {
            plain = false;
            let u = RUnix { ty: *r.pick(&[FILE, RAW, SYMLINK, METADATA]), ..Default::default() };
            flat(links.clone(), &u)
        }
        _ => {
            let mut u = RUnix { ty: DIR, ..Default::default() };
            let m = Meta::random(&mut r);
            u.mode = m.mode;
            u.mtime = m.mtime;
            if r.chance(1, 4) {
                u.data = Some(vec![]);
            }
            if r.chance(1, 3) {
                supported = false;
                match r.below(5) {
                    0 => u.filesize = Some(r.below(2)),
                    1 => u.blocksizes = vec![r.below(3)],
                    2 => u.hash_type = Some(34),
                    3 => u.fanout = Some(256),
                    _ => u.data = Some(vec![0]),
                }
            }
            flat(links.clone(), &u)
        }
    };
    let matches: Vec<usize> = (0..links.len()).filter(|i| links[*i].name.as_deref().unwrap_or("") == needle).collect();
    let got = resolve(&block, &needle, &mut None);
    let what = || format!("resolving {:?} in {} gives {:?}", needle, hex(&block), got);
    let ok = if !plain {
        matches!(&got, Err(ResolveError::UnexpectedType(_)))
    } else if !supported {
        matches!(&got, Err(ResolveError::UnexpectedDirProperties(_)))
    } else if matches.is_empty() {
        matches!(&got, Ok(MaybeResolved::NotFound))
    } else if matches.len() > 1 {
        got.is_err()
    } else {
        match is_valid_cid(&links[matches[0]].hash) {
            Some(c) => matches!(&got, Ok(MaybeResolved::Found(x)) if *x == c),
            None => matches!(&got, Err(ResolveError::Lookup(LookupError::InvalidCid(_)))),
        }
    };
    if !ok {
        return Err(what());
    }
    Ok(hash_bytes(&block) ^ hash_str(&needle))
}
pub fn run_c11(c: &mut Ctx) {
    c.case("c11_resolve", c11_resolve, &[c.seed, 1, 70_000]);
    for n in [70, 130, 300, 1_100, 4_200] {
        for i in 0..12 {
            c.case("c11_resolve", c11_resolve, &[c.seed, i, n]);
        }
    }
    c.random("c11_resolve", c11_resolve, 300_000, 800_000);
}

// ---------------------------------------------------------------- C12 sharded lookup
pub struct Bucket {
    pub block: Vec<u8>,
    pub cid: Cid,
    pub ok: bool,
    /// (name without prefix, target)
    pub entries: Vec<(String, Option<Cid>)>,
    /// None: invalid
    pub subs: Vec<Option<usize>>,
}
/// builds buckets children first; the root is the last
pub fn rand_buckets(r: &mut Rng, faults: bool, wide: Option<u64>) -> Vec<Bucket> {
    fn rec(r: &mut Rng, depth: u64, faults: bool, next: &mut u64, out: &mut Vec<Bucket>, root: bool, wide: Option<u64>) -> usize {
        let n = match wide {
            Some(n) if root => n,
            Some(_) if r.chance(1, 40) => 256,
            _ => r.below(5),
        };
        let mut links = vec![];
        let mut entries = vec![];
        let mut subs = vec![];
        for _ in 0..n {
            let pre = if r.chance(1, 10) { format!("{:02x}", r.below(256)) } else { format!("{:02X}", r.below(256)) };
            if !out.is_empty() && r.chance(1, 14) {
                // a bucket which is linked from elsewhere as well
                let k = r.below(out.len() as u64) as usize;
                links.push(RLink::to(&out[k].cid, &pre, 1));
                subs.push(Some(k));
            } else if depth > 0 && r.chance(1, 2) {
                let k = rec(r, depth - 1, faults, next, out, false, wide);
                if faults && r.chance(1, 40) {
                    links.push(RLink { hash: Some(vec![1, 2, 3]), name: Some(pre), tsize: None });
                    subs.push(None);
                } else {
                    links.push(RLink::to(&out[k].cid, &pre, 1));
                    subs.push(Some(k));
                }
            } else if r.chance(1, 12) {
                // too short to be anything
                links.push(RLink { hash: rand_target(r), name: r.pick(&[None, Some(""), Some("a")]).map(|s| s.to_string()), tsize: None });
            } else {
                *next += 1;
                let base = r.pick(&["e", "", "é", "00", "x/", "E"]).to_string();
                let mut name = format!("{}{}", base, *next);
                if r.chance(1, 20) {
                    name = name.repeat(70);
                }
                let (h, t) = if faults && r.chance(1, 12) { (Some(vec![9]), None) } else {
                    let c = rand_cid(r);
                    (Some(c.to_bytes()), Some(c))
                };
                let mut times = 1;
                if faults && r.chance(1, 15) {
                    times = 2;
                }
                for _ in 0..times {
                    links.push(RLink { hash: h.clone(), name: Some(format!("{}{}", pre, name)), tsize: Some(1) });
                    entries.push((name.clone(), t));
                }
            }
        }
        // names whose two-byte prefix is no prefix of characters: they can never match
        if r.chance(1, 10) {
            links.push(RLink { hash: Some(cid_of(b"odd").to_bytes()), name: Some("aéz".into()), tsize: None });
        }
        let mut u = RUnix { ty: HAMT, hash_type: Some(34), fanout: Some(256), ..Default::default() };
        if r.chance(1, 2) {
            u.data = Some(r.bytes(3));
        }
        if root {
            let m = Meta::random(r);
            u.mode = m.mode;
            u.mtime = m.mtime;
        }
        let mut ok = true;
        if faults && r.chance(1, 12) {
            ok = false;
            match r.below(7) {
                0 => u.fanout = None,
                1 => u.fanout = Some(*r.pick(&[255, 0, 128, 257, 512])),
                2 => u.hash_type = None,
                3 => u.hash_type = Some(*r.pick(&[0, 33, 35, 18])),
                4 => u.filesize = Some(r.below(2)),
                5 => u.blocksizes = vec![r.below(3)],
                _ if !root => u.ty = *r.pick(&[DIR, FILE, RAW, SYMLINK, METADATA]),
                _ => u.filesize = Some(7),
            }
        }
        let block = flat(links, &u);
        out.push(Bucket { cid: cid_of(&block), block, ok, entries, subs });
        out.len() - 1
    }
    let mut out = vec![];
    let d = if wide.is_some() { 2 } else { r.below(4) };
    rec(r, d, faults, &mut 0, &mut out, true, wide);
    out
}
#[derive(Debug, PartialEq)]
enum Look {
    Found(Cid),
    NotFound,
    Error,
}
/// [seed, index]
pub fn c12_lookup(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(50021) ^ p[1]);
    let faults = r.chance(1, 2);
    let bs = rand_buckets(&mut r, faults && size(p).is_none(), size(p));
    let all: Vec<&String> = bs.iter().flat_map(|b| b.entries.iter().map(|e| &e.0)).collect();
    let needle = if r.chance(3, 4) && !all.is_empty() { r.pick(&all).to_string() } else { r.pick(&["", "e", "z", "A0", "éz", "e1", "00"]).to_string() };
    let needle = if r.chance(1, 6) { near(&mut r, &needle) } else { needle };
    // model: breadth first
    let root = bs.len() - 1;
    let mut queue = std::collections::VecDeque::from(vec![root]);
    let mut loads = vec![];
    let mut want = Look::NotFound;
    'o: while let Some(i) = queue.pop_front() {
        loads.push(i);
        let b = &bs[i];
        if !b.ok {
            want = Look::Error;
            break;
        }
        let hits: Vec<_> = b.entries.iter().filter(|e| e.0 == needle && !needle.is_empty()).collect();
        if hits.len() > 1 || b.subs.iter().any(|s| s.is_none()) {
            want = Look::Error;
            break;
        }
        if let Some(h) = hits.first() {
            want = match h.1 {
                Some(c) => Look::Found(c),
                None => Look::Error,
            };
            break 'o;
        }
        queue.extend(b.subs.iter().map(|s| s.unwrap()));
    }
    let owned = r.chance(1, 3);
    let mut asked = vec![];
    let by_cid: std::collections::HashMap<Cid, usize> = bs.iter().enumerate().map(|(i, b)| (b.cid, i)).collect();
    let what = |m: String| format!("looking up {:?} in {} buckets with root {}: {}", needle, bs.len(), hex(&bs[root].block), m);
    let mut cache = None;
    let mut st = match resolve(&bs[root].block, &needle, &mut cache) {
        Ok(s) => Some(s),
        Err(_) => None,
    };
    let mut n = 1;
    let got = loop {
        match st {
            None => break Look::Error,
            Some(MaybeResolved::Found(c)) => break Look::Found(c),
            Some(MaybeResolved::NotFound) => break Look::NotFound,
            Some(MaybeResolved::NeedToLoadMore(mut l)) => {
                if owned {
                    l = l.with_owned_needle();
                }
                let c = *l.pending_links().0;
                asked.push(c);
                let b = by_cid.get(&c).map(|i| &bs[*i]).ok_or_else(|| what(format!("asks for unknown {}", c)))?;
                n += 1;
                if n > 100_000 {
                    return Err(what("does not end".into()));
                }
                st = l.continue_walk(&b.block, &mut cache).ok();
            }
        }
    };
    if got != want {
        return Err(what(format!("ends with {:?} instead of {:?} after loading {} of {} buckets", got, want, n, loads.len())));
    }
    // not found: everything reachable was loaded (as many times as it is linked)
    if want == Look::NotFound {
        let mut a: Vec<Cid> = asked.clone();
        let mut e: Vec<Cid> = loads[1..].iter().map(|i| bs[*i].cid).collect();
        a.sort();
        e.sort();
        if a != e {
            return Err(what(format!("not found after loading {} of {} buckets", a.len(), e.len())));
        }
    }
    Ok(hash_bytes(&bs[root].block) ^ hash_str(&needle))
}
pub fn run_c12(c: &mut Ctx) {
    for n in [40, 256, 600] {
        for i in 0..12 {
            c.case("c12_lookup", c12_lookup, &[c.seed, i, n]);
        }
    }
    c.random("c12_lookup", c12_lookup, 250_000, 600_000);
}

// ---------------------------------------------------------------- C15 symlinks
/// [seed, index]
pub fn c15_symlink(p: &[u64]) -> Result<u64, String> {
    use unixfs_v1::walk::{ContinuedWalk, Walker};
    let mut r = Rng::new(p[0].wrapping_mul(9001) ^ p[1]);
    let n = match size(p) {
        Some(n) => n as usize,
        None if r.chance(1, 2) => r.below(12) as usize,
        None => len_edge(&mut r),
    };
    let target: String = (0..n).map(|_| *r.pick(&['a', '/', '.', 'é', '\0', '漢', '\n', '😀', ' '])).collect();
    let k = *r.pick(&[0usize, 0, 1, 10, 127, 128, 200, 16_384]);
    let before = r.bytes(k);
    let mut buf = before.clone();
    if r.chance(1, 3) {
        buf.reserve(100_000);
    }
    unixfs_v1::symlink::serialize_symlink_block(&target, &mut buf);
    if !buf.starts_with(&before) {
        return Err("earlier content of the buffer changed".into());
    }
    let b = buf[before.len()..].to_vec();
    diff("symlink block", &b, &flat(vec![], &RUnix { ty: SYMLINK, data: Some(target.clone().into_bytes()), ..Default::default() }))?;
    let c = cid_of(&b);
    let mut w = Walker::new(c, String::new());
    match w.next(&b, &mut None).map_err(|e| format!("{:?}", e))? {
        ContinuedWalk::Symlink(t, id, path, meta) => {
            diff("symlink target", t, target.as_bytes())?;
            if *id != c || !path.as_os_str().is_empty() || meta.mode().is_some() || meta.mtime().is_some() {
                return Err(format!("symlink is reported as {} {:?} {:?}", id, path, meta));
            }
        }
        x => return Err(format!("symlink is walked as {:?}", x)),
    }
    if w.should_continue() {
        return Err("walk of a symlink continues".into());
    }
    Ok(hash_bytes(&b))
}
pub fn run_c15(c: &mut Ctx) {
    for n in [20_000, 70_000, 300_000, 1 << 20, if c.thorough { 100 << 20 } else { 3 << 20 }] {
        c.case("c15_symlink", c15_symlink, &[c.seed, 1, n]);
    }
    c.random("c15_symlink", c15_symlink, 40_000, 200_000);
}
