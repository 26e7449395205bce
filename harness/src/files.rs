//! C01 C02 C03 C04(files) C05 C06 : importing and reading files
use crate::ctx::*;
use crate::util::*;
use libipld::Cid;
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};

fn adder(chunk: u64, bf: u64) -> FileAdder {
    FileAdder::builder()
        .with_chunker(Chunker::Size(chunk as usize))
        .with_collector(BalancedCollector::with_branching_factor(bf as usize))
        .build()
}

pub struct Import {
    pub blocks: Vec<(Cid, Vec<u8>)>,
    pub pushes: Vec<(usize, usize, usize)>, // (offered, consumed, blocks)
}

/// Pushes `data` split as `split` says: each item is the size of the slice offered next (0 allowed).
/// When the list is exhausted everything left is offered at once.
pub fn import(data: &[u8], mut a: FileAdder, split: &mut dyn FnMut(usize) -> usize) -> Result<Import, String> {
    let mut at = 0;
    let mut blocks = vec![];
    let mut pushes = vec![];
    let mut empties = 0;
    loop {
        let want = split(data.len() - at).min(data.len() - at);
        if at == data.len() && (want == 0 && empties > 2) {
            break;
        }
        if want == 0 {
            empties += 1;
            if empties > 3 && at < data.len() {
                // always make progress
                empties = 0;
                continue;
            }
        }
        let slice = &data[at..at + want];
        let (it, used) = a.push(slice);
        let got: Vec<(Cid, Vec<u8>)> = it.collect();
        if used > slice.len() {
            return Err(format!("push consumed {} bytes of {}", used, slice.len()));
        }
        if used == 0 && !slice.is_empty() {
            return Err(format!("push consumed nothing of {} bytes", slice.len()));
        }
        pushes.push((slice.len(), used, got.len()));
        blocks.extend(got);
        at += used;
        if at == data.len() && want == 0 {
            break;
        }
        if at == data.len() && empties > 0 {
            break;
        }
    }
    blocks.extend(a.finish());
    Ok(Import { blocks, pushes })
}

/// plain loop: offers `amt` bytes at a time
pub fn import_simple(data: &[u8], mut a: FileAdder, amt: usize) -> Result<Import, String> {
    let mut at = 0;
    let mut blocks = vec![];
    let mut pushes = vec![];
    while at < data.len() {
        let end = (at + amt.max(1)).min(data.len());
        let (it, used) = a.push(&data[at..end]);
        let got: Vec<_> = it.collect();
        if used > end - at || used == 0 {
            return Err(format!("push consumed {} bytes of {}", used, end - at));
        }
        pushes.push((end - at, used, got.len()));
        blocks.extend(got);
        at += used;
    }
    blocks.extend(a.finish());
    Ok(Import { blocks, pushes })
}

/// Independent description of the tree: the sequence of blocks, children before parents.
pub struct RefTree {
    pub blocks: Vec<Vec<u8>>,
    pub root: Cid,
}
struct RefLink {
    cid: Cid,
    total: u64,
    size: u64,
}
pub fn ref_levels(data: &[u8], chunk: usize, bf: usize) -> RefTree {
    let mut blocks = vec![];
    let mut level: Vec<RefLink> = vec![];
    let chunks: Vec<&[u8]> = if data.is_empty() { vec![&data[..]] } else { data.chunks(chunk).collect() };
    for c in chunks {
        let b = flat(
            vec![],
            &RUnix { ty: FILE, data: if c.is_empty() { None } else { Some(c.to_vec()) }, filesize: Some(c.len() as u64), ..Default::default() },
        );
        let cid = cid_of(&b);
        level.push(RefLink { cid, total: b.len() as u64, size: c.len() as u64 });
        blocks.push(b);
    }
    while level.len() > 1 {
        let mut up = vec![];
        for g in level.chunks(bf) {
            let b = flat(
                g.iter().map(|l| RLink::to(&l.cid, "", l.total)).collect(),
                &RUnix { ty: FILE, filesize: Some(g.iter().map(|l| l.size).sum()), blocksizes: g.iter().map(|l| l.size).collect(), ..Default::default() },
            );
            let cid = cid_of(&b);
            up.push(RefLink { cid, total: b.len() as u64 + g.iter().map(|l| l.total).sum::<u64>(), size: g.iter().map(|l| l.size).sum() });
            blocks.push(b);
        }
        level = up;
    }
    RefTree { blocks, root: level[0].cid }
}

fn splitter(kind: u64, chunk: u64, seed: u64) -> Box<dyn FnMut(usize) -> usize> {
    let mut r = Rng::new(seed ^ 0x5711);
    let c = chunk as usize;
    match kind {
        0 => Box::new(|left| left),                    // all at once
        1 => Box::new(|left| left.min(1)),             // byte by byte
        2 => Box::new(move |left| left.min(c)),        // chunk aligned
        3 => Box::new(move |left| left.min(c + 1)),    // one too many
        4 => Box::new(move |left| left.min(c.saturating_sub(1).max(1))), // one short
        5 => Box::new(move |left| (r.below(2 * c as u64 + 2) as usize).min(left)), // random, with empty pushes
        6 => {
            let mut odd = false;
            Box::new(move |left| {
                odd = !odd;
                if odd { left.min(1) } else { left } // misaligns, then offers everything
            })
        }
        7 => {
            let mut odd = false;
            Box::new(move |left| {
                odd = !odd;
                if odd { 0 } else { left.min(c) } // empty pushes in between
            })
        }
        _ => {
            let mut n = 0u64;
            Box::new(move |left| {
                n += 1;
                (match n % 3 { 0 => c, 1 => r.range(1, 3) as usize, _ => 2 * c + 1 }).min(left)
            })
        }
    }
}
const SPLITS: u64 = 9;

fn dedup(blocks: &[(Cid, Vec<u8>)]) -> Store {
    let mut s = Store::default();
    for (c, b) in blocks {
        s.0.insert(*c, b.clone());
    }
    s
}
fn gen_content(kind: u64, len: usize, seed: u64) -> Vec<u8> {
    match kind {
        0 => content(len, seed),
        1 => vec![seed as u8; len],               // all leaves equal
        _ => (0..len).map(|i| (i % 3) as u8).collect(),
    }
}

// ---- C01: [len, chunk, bf, split, seed, content kind]
pub fn c01_roundtrip(p: &[u64]) -> Result<u64, String> {
    let (len, chunk, bf, split, seed, kind) = (p[0], p[1], p[2], p[3], p[4], p[5]);
    let data = gen_content(kind, len as usize, seed);
    let imp = import(&data, adder(chunk, bf), &mut *splitter(split, chunk, seed))?;
    check_read_back(&data, &imp)?;
    Ok(hash_bytes(format!("{} {} {} {:?}", len, chunk, bf, &imp.pushes[..imp.pushes.len().min(64)]).as_bytes()))
}
pub fn check_read_back(data: &[u8], imp: &Import) -> Result<(), String> {
    let s = dedup(&imp.blocks);
    let root = imp.blocks.last().ok_or("nothing was emitted")?.0;
    let r = read_file(&s, &root, None, &mut None)?;
    diff("content read back", &r.bytes, data)?;
    if r.size != data.len() as u64 {
        return Err(format!("file size reported as {}, content has {}", r.size, data.len()));
    }
    // every emitted block is part of the tree
    let asked: std::collections::HashSet<Cid> = r.asked.iter().cloned().collect();
    for (c, _) in &imp.blocks {
        if !asked.contains(c) {
            return Err(format!("emitted block {} is not part of the tree", c));
        }
    }
    // a walk sees the same
    let mut w = unixfs_v1::walk::Walker::new(root, String::new());
    let mut bytes = vec![];
    let mut n = 0;
    while w.should_continue() {
        let c = *w.pending_links().0;
        match w.next(s.get(&c)?, &mut None).map_err(|e| format!("walk: {:?}", e))? {
            unixfs_v1::walk::ContinuedWalk::File(seg, _, _, _, sz) => {
                bytes.extend_from_slice(seg.as_bytes());
                if sz != data.len() as u64 {
                    return Err(format!("walk reports size {} for {} bytes", sz, data.len()));
                }
            }
            x => return Err(format!("walk of a file gives {:?}", x)),
        }
        n += 1;
        if n > 10_000_000 {
            return Err("walk does not end".into());
        }
    }
    diff("content walked", &bytes, data)
}
// default configuration [len, amt, seed]
pub fn c01_default(p: &[u64]) -> Result<u64, String> {
    let data = content(p[0] as usize, p[2]);
    let imp = import_simple(&data, FileAdder::default(), p[1] as usize)?;
    check_read_back(&data, &imp)?;
    Ok(hash_bytes(format!("{:?}", p).as_bytes()))
}
pub fn c01_builder_default(p: &[u64]) -> Result<u64, String> {
    // default branching factor with a small chunker: [leaves, extra bytes, chunk, seed]
    let data = content((p[0] * p[2] + p[1]) as usize, p[3]);
    let a = FileAdder::builder().with_chunker(Chunker::Size(p[2] as usize)).build();
    let hint = a.size_hint();
    if hint as u64 != p[2] {
        return Err(format!("size hint {} for chunks of {}", hint, p[2]));
    }
    let imp = import_simple(&data, a, hint)?;
    check_read_back(&data, &imp)?;
    let want = ref_levels(&data, p[2] as usize, 174);
    if imp.blocks.last().unwrap().0 != want.root {
        return Err("root differs from the balanced tree with 174 links".into());
    }
    Ok(hash_bytes(format!("{:?}", p).as_bytes()))
}
fn rand_import_params(seed: u64, i: u64, cap: u64) -> [u64; 6] {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003) ^ i);
    let chunk = *r.pick(&[1, 1, 2, 3, 4, 5, 7, 8, 16, 31, 127, 128, 300]);
    let bf = *r.pick(&[2, 2, 2, 3, 3, 4, 5, 7, 10]);
    // aim at interesting leaf counts: around powers of the branching factor and their sums
    let mut leaves: u64 = match r.below(4) {
        0 => {
            let k = r.range(0, 6) as u32;
            (bf as u64).saturating_pow(k) + r.below(4)
        }
        1 => {
            let k = r.range(1, 5) as u32;
            (bf as u64).saturating_pow(k) * r.range(1, bf as u64) + r.below(3)
        }
        _ => r.below(60),
    };
    leaves = leaves.min(cap / chunk + 1).min(1500);
    let mut len = leaves * chunk;
    match r.below(3) {
        0 => {}
        1 => len = len.saturating_sub(r.below(chunk)),
        _ => len += r.below(chunk),
    }
    [len, chunk, bf as u64, r.below(SPLITS), r.next(), if r.chance(1, 6) { r.range(1, 2) } else { 0 }]
}
pub fn c01_random(p: &[u64]) -> Result<u64, String> {
    c01_roundtrip(&rand_import_params(p[0], p[1], 6000))
}

// ---- C02
pub fn c02_split(p: &[u64]) -> Result<u64, String> {
    let (len, chunk, bf, split, seed, kind) = (p[0], p[1], p[2], p[3], p[4], p[5]);
    let data = gen_content(kind, len as usize, seed);
    let imp = import(&data, adder(chunk, bf), &mut *splitter(split, chunk, seed))?;
    // the model: `fill` bytes are in the chunk being filled
    let mut fill = 0u64;
    let mut leaf_pushes = 0;
    for (i, (offered, used, blocks)) in imp.pushes.iter().enumerate() {
        let want = (*offered as u64).min(chunk - fill);
        if *used as u64 != want {
            return Err(format!("push {} of {} bytes with {} of {} buffered consumed {}", i, offered, fill, chunk, used));
        }
        fill += want;
        let full = fill == chunk;
        if full {
            fill = 0;
            leaf_pushes += 1;
        }
        if full != (*blocks > 0) {
            return Err(format!("push {} completes a chunk: {}, but yielded {} blocks", i, full, blocks));
        }
        if *blocks > 2 {
            return Err(format!("push {} yielded {} blocks", i, blocks));
        }
    }
    let _ = leaf_pushes;
    let want = ref_levels(&data, chunk as usize, bf as usize);
    same_blocks(&imp, &want)?;
    // and against pushing everything as far as possible
    let one = import_simple(&data, adder(chunk, bf), data.len())?;
    if one.blocks != imp.blocks {
        return Err("blocks depend on how the content was pushed".into());
    }
    Ok(hash_bytes(format!("{} {} {} {:?}", len, chunk, bf, &imp.pushes[..imp.pushes.len().min(64)]).as_bytes()))
}
/// same multiset of blocks, same root. The order is checked by C03 (children first).
fn same_blocks(imp: &Import, want: &RefTree) -> Result<(), String> {
    let mut a: Vec<&[u8]> = imp.blocks.iter().map(|x| &x.1[..]).collect();
    let mut b: Vec<&[u8]> = want.blocks.iter().map(|x| &x[..]).collect();
    a.sort();
    b.sort();
    if a != b {
        let extra = a.iter().find(|x| !b.contains(x));
        let missing = b.iter().find(|x| !a.contains(x));
        return Err(format!(
            "emitted {} blocks, expected {}; not expected: {:?}, missing: {:?}",
            a.len(), b.len(), extra.map(|x| hex(x)), missing.map(|x| hex(x))
        ));
    }
    if imp.blocks.last().map(|x| x.0) != Some(want.root) {
        return Err("the last block is not the root".into());
    }
    Ok(())
}
pub fn c02_random(p: &[u64]) -> Result<u64, String> {
    c02_split(&rand_import_params(p[0], p[1], 6000))
}
// every composition of a small content to pushes: [len, chunk, bf, mask, seed]
pub fn c02_mask(p: &[u64]) -> Result<u64, String> {
    let (len, chunk, bf, mask) = (p[0], p[1], p[2], p[3]);
    let data = content(len as usize, p[4]);
    let mut a = adder(chunk, bf);
    let mut blocks = vec![];
    let mut at = 0usize;
    let mut fill = 0;
    // cut points are the set bits of mask; a slice not fully consumed is offered again
    while at < data.len() {
        let mut end = at + 1;
        while end < data.len() && mask & (1 << (end - 1)) == 0 {
            end += 1;
        }
        let (it, used) = a.push(&data[at..end]);
        let n = it.map(|b| blocks.push(b)).count();
        let want = (end - at).min(chunk as usize - fill);
        if used != want {
            return Err(format!("push of {} bytes with {} buffered consumed {}, expected {}", end - at, fill, used, want));
        }
        fill += used;
        if (fill == chunk as usize) != (n > 0) {
            return Err("a leaf must be yielded exactly when the chunk becomes full".into());
        }
        if fill == chunk as usize {
            fill = 0
        }
        at += used;
    }
    blocks.extend(a.finish());
    same_blocks(&Import { blocks, pushes: vec![] }, &ref_levels(&data, chunk as usize, bf as usize))?;
    Ok(hash_bytes(format!("{:?}", p).as_bytes()))
}

// ---- C03
pub fn c03_layout(p: &[u64]) -> Result<u64, String> {
    let (len, chunk, bf, split, seed, kind) = (p[0], p[1], p[2], p[3], p[4], p[5]);
    let data = gen_content(kind, len as usize, seed);
    let imp = import(&data, adder(chunk, bf), &mut *splitter(split, chunk, seed))?;
    layout(&data, &imp, chunk, bf)?;
    same_blocks(&imp, &ref_levels(&data, chunk as usize, bf as usize))?;
    Ok(hash_bytes(format!("{} {} {}", len, chunk, bf).as_bytes()))
}
struct Seen {
    depth: usize,
    size: u64,
    total: u64,
}
fn layout(data: &[u8], imp: &Import, chunk: u64, bf: u64) -> Result<(), String> {
    use std::collections::HashMap;
    let mut seen: HashMap<Cid, Seen> = HashMap::new();
    for (i, (cid, b)) in imp.blocks.iter().enumerate() {
        let (links, u) = unflat(b).map_err(|e| format!("block {}: {}", i, e))?;
        if u.ty != FILE || u.mode.is_some() || u.mtime.is_some() || u.hash_type.is_some() || u.fanout.is_some() {
            return Err(format!("block {} has unexpected fields: {:?}", i, u));
        }
        let s = if links.is_empty() {
            let d = u.data.clone().unwrap_or_default();
            if u.filesize != Some(d.len() as u64) || !u.blocksizes.is_empty() {
                return Err(format!("leaf {} with {} bytes has size {:?} blocksizes {:?}", i, d.len(), u.filesize, u.blocksizes));
            }
            if d.len() as u64 > chunk {
                return Err(format!("leaf {} has {} bytes, chunk size is {}", i, d.len(), chunk));
            }
            Seen { depth: 0, size: d.len() as u64, total: b.len() as u64 }
        } else {
            if u.data.is_some() {
                return Err("link block with data".into());
            }
            if links.len() as u64 > bf {
                return Err(format!("block {} has {} links, branching factor is {}", i, links.len(), bf));
            }
            if links.len() != u.blocksizes.len() {
                return Err("links and blocksizes differ".into());
            }
            let mut size = 0;
            let mut total = b.len() as u64;
            let mut depth = None;
            for (l, bs) in links.iter().zip(&u.blocksizes) {
                let c = Cid::try_from(l.hash.clone().unwrap_or_default()).map_err(|e| e.to_string())?;
                let s = seen.get(&c).ok_or_else(|| format!("block {} is emitted before its child {}", i, c))?;
                if s.size != *bs {
                    return Err(format!("block {}: blocksize {} for a subtree of {} bytes", i, bs, s.size));
                }
                if l.tsize != Some(s.total) {
                    return Err(format!("block {}: total size {:?} for a subtree of {} bytes in blocks", i, l.tsize, s.total));
                }
                if l.name.as_deref() != Some("") {
                    return Err("file link with a name".into());
                }
                if *depth.get_or_insert(s.depth) != s.depth {
                    return Err(format!("block {} links to subtrees of different depth", i));
                }
                size += s.size;
                total += s.total;
            }
            if u.filesize != Some(size) {
                return Err(format!("block {}: file size {:?}, sum of block sizes {}", i, u.filesize, size));
            }
            Seen { depth: depth.unwrap() + 1, size, total }
        };
        seen.insert(*cid, s);
    }
    let root = imp.blocks.last().ok_or("nothing emitted")?.0;
    if seen[&root].size != data.len() as u64 {
        return Err("root does not cover the content".into());
    }
    // height is minimal
    let leaves = (data.len() as u64).div_ceil(chunk).max(1);
    let mut h = 0;
    let mut cap = 1u64;
    while cap < leaves {
        cap *= bf;
        h += 1;
    }
    if seen[&root].depth != h {
        return Err(format!("tree over {} leaves is {} high, expected {}", leaves, seen[&root].depth, h));
    }
    Ok(())
}
pub fn c03_random(p: &[u64]) -> Result<u64, String> {
    c03_layout(&rand_import_params(p[0], p[1], 4000))
}

// ---- C04 (files)
pub fn c04_file(p: &[u64]) -> Result<u64, String> {
    let (len, chunk, bf, split, seed, kind) = (p[0], p[1], p[2], p[3], p[4], p[5]);
    let data = gen_content(kind, len as usize, seed);
    let imp = import(&data, adder(chunk, bf), &mut *splitter(split, chunk, seed))?;
    let mut seen = std::collections::HashSet::new();
    for (i, (c, b)) in imp.blocks.iter().enumerate() {
        check_cid(c, b).map_err(|e| format!("file block {}: {}", i, e))?;
        for l in unflat(b)?.0 {
            let t = Cid::try_from(l.hash.unwrap_or_default()).map_err(|e| e.to_string())?;
            if !seen.contains(&t) {
                return Err(format!("file block {} links to {} which was not emitted", i, t));
            }
        }
        seen.insert(*c);
    }
    Ok(hash_bytes(format!("{} {} {} {}", len, chunk, bf, split).as_bytes()))
}
pub fn check_cid(c: &Cid, b: &[u8]) -> Result<(), String> {
    if *c != cid_of(b) {
        return Err(format!("identifier is {}, the bytes hash to {}", c, cid_of(b)));
    }
    if c.version() != libipld::cid::Version::V1 || c.codec() != 0x70 || c.hash().code() != 0x12 || c.hash().digest() != sha256(b) {
        return Err(format!("identifier {} is not CIDv1 dag-pb sha2-256", c));
    }
    Ok(())
}
pub fn c04_file_random(p: &[u64]) -> Result<u64, String> {
    c04_file(&rand_import_params(p[0], p[1], 4000))
}

fn grid(c: &mut Ctx, name: &str, f: CaseFn, maxlen: u64, chunks: &[u64], bfs: &[u64], splits: u64) {
    let seed = c.seed;
    for &chunk in chunks {
        for &bf in bfs {
            for len in 0..=maxlen {
                for split in 0..splits {
                    if c.stop() {
                        return;
                    }
                    c.case(name, f, &[len, chunk, bf, split, seed, 0]);
                }
            }
        }
    }
}

pub fn run_c01(c: &mut Ctx) {
    grid(c, "c01_roundtrip", c01_roundtrip, if c.thorough { 90 } else { 40 }, &[1, 2, 3, 4, 5, 8], &[2, 3, 4], SPLITS);
    let cs = 256 * 1024;
    for (len, amt) in [(0, 1), (cs - 1, cs), (cs, cs), (cs + 1, cs), (2 * cs, cs), (2 * cs + 1, 100_000), (5 * cs + 3, cs + 1)] {
        let seed = c.seed;
        c.case("c01_default", c01_default, &[len, amt, seed]);
    }
    for (leaves, extra, chunk) in [(173, 0, 2), (174, 0, 2), (174, 1, 2), (175, 1, 3), (348, 0, 2), (349, 0, 1), (174 * 174, 0, 1), (174 * 174, 1, 2), (174 * 175, 0, 1)] {
        let seed = c.seed;
        c.case("c01_builder_default", c01_builder_default, &[leaves, extra, chunk, seed]);
    }
    c.random("c01_random", c01_random, 8000, 100_000);
}
pub fn run_c02(c: &mut Ctx) {
    // all compositions of all short contents
    let seed = c.seed;
    for chunk in [1, 2, 3, 4, 5] {
        for bf in [2, 3] {
            for len in 0..=(if c.thorough { 13 } else { 10 }) {
                for mask in 0..(1u64 << (if len > 0 { len - 1 } else { 0 })) {
                    if c.stop() {
                        return;
                    }
                    c.case("c02_mask", c02_mask, &[len, chunk, bf, mask, seed]);
                }
            }
        }
    }
    grid(c, "c02_split", c02_split, if c.thorough { 60 } else { 34 }, &[1, 2, 3, 4, 6], &[2, 3, 4], SPLITS);
    c.random("c02_random", c02_random, 9000, 80_000);
}
pub fn run_c03(c: &mut Ctx) {
    grid(c, "c03_layout", c03_layout, if c.thorough { 300 } else { 140 }, &[1, 2, 3], &[2, 3, 4, 5], 1);
    let seed = c.seed;
    for leaves in [173u64, 174, 175, 348, 349, 174 * 174 - 1, 174 * 174, 174 * 174 + 1, 174 * 175] {
        c.case("c03_layout", c03_layout, &[leaves, 1, 174, 0, seed, 0]);
        c.case("c03_layout", c03_layout, &[leaves, 1, 174, 0, seed, 1]);
    }
    c.random("c03_random", c03_random, 8000, 80_000);
}
pub fn run_c04(c: &mut Ctx) {
    grid(c, "c04_file", c04_file, if c.thorough { 90 } else { 40 }, &[1, 2, 3, 5, 8], &[2, 3, 4], 4);
    c.random("c04_file_random", c04_file_random, 8000, 60_000);
}

// ---- C05 [tree seed, index, ..]
fn c05_tree(seed: u64, i: u64) -> FT {
    let mut r = Rng::new(seed.wrapping_mul(7919) ^ i);
    match i % 5 {
        0 => FT::Leaf { bytes: r.bytes((i / 5 % 9) as usize), raw: i % 2 == 0, filesize: r.chance(1, 2), v0: false },
        1 => {
            // balanced
            let n = 1 + i / 5 % 12;
            let ls: Vec<FT> = (0..n).map(|_| FT::Leaf { bytes: { let l = r.range(1, 3) as usize; r.bytes(l) }, raw: false, filesize: true, v0: false }).collect();
            if n > 4 {
                FT::Node(ls.chunks(3).map(|c| FT::Node(c.to_vec())).collect())
            } else {
                FT::Node(ls)
            }
        }
        _ => {
            let d = r.range(1, 4);
            FT::random(&mut r, d, 4, false)
        }
    }
}
/// all ranges of one tree: [seed, index]
pub fn c05_all_ranges(p: &[u64]) -> Result<u64, String> {
    let t = c05_tree(p[0], p[1]);
    let mut s = Store::default();
    let (root, _) = t.store(&mut s, Meta::default());
    let content = t.bytes();
    let mut ext = vec![];
    extents(&t, 0, &mut ext);
    let n = t.len();
    let lim = n.min(24);
    let mut starts: Vec<u64> = (0..=lim + 2).collect();
    starts.extend([n.saturating_sub(1), n, n + 1, n * 2 + 5, u64::MAX - 1, u64::MAX]);
    for &a in &starts {
        for &b in &starts {
            c05_check(&t, &content, &ext, &s, &root, Some(a..b))?;
        }
    }
    c05_check(&t, &content, &ext, &s, &root, None)?;
    Ok(hash_bytes(format!("{:?}", t).as_bytes()))
}
fn c05_check(t: &FT, content: &[u8], extents: &[(Cid, u64, u64)], s: &Store, root: &Cid, range: Option<std::ops::Range<u64>>) -> Result<(), String> {
    let n = content.len() as u64;
    let r = read_file(s, root, range.clone(), &mut None).map_err(|e| format!("range {:?} of {:?}: {}", range, t, e))?;
    let want: &[u8] = match &range {
        None => content,
        Some(x) if x.start >= x.end => &[],
        Some(x) => &content[x.start.min(n) as usize..x.end.min(n) as usize],
    };
    diff(&format!("range {:?} of {:?}", range, t), &r.bytes, want)?;
    if r.size != n {
        return Err(format!("range {:?}: size {} instead of {}", range, r.size, n));
    }
    // blocks asked for after the root must overlap or touch the range
    for c in &r.asked[1..] {
        let ok = match &range {
            None => true,
            Some(r) => extents.iter().any(|(k, at, len)| k == c && *at <= r.end && r.start <= at + len),
        };
        if !ok {
            return Err(format!("range {:?} of {:?}: asked for {} which is outside of the range", range, t, c));
        }
    }
    Ok(())
}
/// (identifier, offset, length) of every block
fn extents(t: &FT, at: u64, out: &mut Vec<(Cid, u64, u64)>) {
    out.push((t.store(&mut Store::default(), Meta::default()).0, at, t.len()));
    if let FT::Node(c) = t {
        let mut at = at;
        for c in c {
            extents(c, at, out);
            at += c.len();
        }
    }
}
/// imported file, random ranges: [seed, index]
pub fn c05_imported(p: &[u64]) -> Result<u64, String> {
    let q = rand_import_params(p[0] ^ 5, p[1], 600);
    let data = gen_content(q[5], q[0] as usize, q[4]);
    let imp = import_simple(&data, adder(q[1], q[2]), data.len())?;
    let s = dedup(&imp.blocks);
    let root = imp.blocks.last().ok_or("nothing emitted")?.0;
    let mut r = Rng::new(p[0] ^ p[1] << 20);
    let n = data.len() as u64;
    for _ in 0..12 {
        let a = if r.chance(1, 3) { (r.below(n / q[1] + 2)) * q[1] } else { r.below(n + 2) };
        let b = match r.below(4) {
            0 => a + r.below(3),
            1 => (r.below(n / q[1] + 2)) * q[1],
            2 => n + r.below(3),
            _ => a + r.below(n + 1),
        };
        let got = read_file(&s, &root, Some(a..b), &mut None).map_err(|e| format!("range {}..{} of an imported file {:?}: {}", a, b, q, e))?;
        let want = if a >= b { &[][..] } else { &data[a.min(n) as usize..b.min(n) as usize] };
        diff(&format!("range {}..{} of an imported file {:?}", a, b, q), &got.bytes, want)?;
    }
    Ok(hash_bytes(format!("{:?}", q).as_bytes()))
}
/// files of many terabytes of which only a few blocks in the middle exist: [seed, index]
pub fn c05_huge(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(22801763489) ^ p[1]);
    // (size, cid) of consecutive subtrees
    let mut s = Store::default();
    let gap = |r: &mut Rng| -> Vec<(u64, Cid)> {
        (0..r.below(4))
            .map(|i| {
                let n = *r.pick(&[1u64, 3, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 40, (1 << 53) + 1, 1 << 60, 1 << 61]);
                (n, cid_of(&[i as u8, 77]))
            })
            .collect()
    };
    let before = gap(&mut r);
    let after = gap(&mut r);
    let from: u64 = before.iter().map(|x| x.0).sum();
    let mut real = vec![];
    let mut mid = vec![];
    let node = |kids: &[(u64, Cid)], s: &mut Store| {
        let total: u64 = kids.iter().map(|k| k.0).sum();
        let links = kids.iter().map(|k| RLink::to(&k.1, "", k.0)).collect();
        let u = RUnix { ty: FILE, filesize: Some(total), blocksizes: kids.iter().map(|k| k.0).collect(), ..Default::default() };
        (total, s.put(flat(links, &u)))
    };
    for _ in 0..r.range(2, 6) {
        let t = if r.chance(1, 3) { FT::random(&mut r, 2, 4, false) } else { FT::random(&mut r, 0, 5, false) };
        let b = t.bytes();
        let (c, _) = t.store(&mut s, Meta::default());
        mid.push((b.len() as u64, c));
        real.extend(b);
    }
    // levels: some neighbours may share a parent
    let mut all: Vec<(u64, Cid)> = before.iter().chain(&mid).chain(&after).copied().collect();
    for _ in 0..r.below(4) {
        let i = r.below(all.len() as u64) as usize;
        let j = r.range(i as u64, all.len() as u64 - 1) as usize;
        let n = node(&all[i..=j], &mut s);
        all.splice(i..=j, [n]);
    }
    let (size, root) = node(&all, &mut s);
    let lo = if before.is_empty() { 0 } else { 1 };
    let hi = real.len() as u64 - if after.is_empty() { 0 } else { 1 };
    if lo > hi {
        return Ok(0);
    }
    for _ in 0..6 {
        let a = r.range(lo, hi);
        let b = r.range(a, hi);
        if a == b && b == hi && !after.is_empty() {
            continue;
        }
        let got = read_file(&s, &root, Some(from + a..from + b), &mut None).map_err(|e| format!("range {}..{} of {:?}: {}", from + a, from + b, all, e))?;
        diff(&format!("range {}..{} of a file of {} bytes", from + a, from + b, size), &got.bytes, &real[a as usize..b as usize])?;
        if got.size != size {
            return Err(format!("size {} instead of {}", got.size, size));
        }
    }
    Ok(hash_bytes(format!("{:?}{:?}", all, real).as_bytes()))
}
pub fn run_c05(c: &mut Ctx) {
    c.random("c05_huge", c05_huge, 4000, 60_000);
    c.random("c05_all_ranges", c05_all_ranges, 700, 25_000);
    c.random("c05_imported", c05_imported, 8000, 60_000);
}

// ---- C06: random trees with faults, against an independent acceptance rule
#[derive(Clone, Debug)]
struct Blk {
    u: RUnix,
    kids: Vec<usize>,
    garbage: Option<Vec<u8>>,
}
#[derive(Clone, Copy, Debug)]
enum Prev {
    Leaf(u128),
    Tree(u128, u128),
}
fn well_formed(b: &Blk, root: bool) -> bool {
    let u = &b.u;
    if b.garbage.is_some() {
        return false;
    }
    if u.ty != FILE && u.ty != RAW {
        return false;
    }
    if b.kids.len() != u.blocksizes.len() {
        return false;
    }
    let empty = u.data.as_ref().map(|d| d.is_empty()).unwrap_or(true);
    if b.kids.is_empty() && empty && u.filesize.unwrap_or(0) != 0 {
        return false;
    }
    if u.hash_type.is_some() || u.fanout.is_some() {
        return false;
    }
    if !b.kids.is_empty() && u.filesize.is_none() {
        return false;
    }
    if !root && (u.mode.is_some() || u.mtime.is_some()) {
        return false;
    }
    true
}
/// None: accepted to the end. Some(k): the k-th visited block is refused
fn ref_visit(blks: &[Blk], root: usize) -> (Vec<u8>, Option<usize>, Vec<usize>) {
    let mut out = vec![];
    let mut order = vec![root];
    if !well_formed(&blks[root], true) {
        return (out, Some(0), order);
    }
    let ending = |b: &Blk, off: u128| {
        if b.kids.is_empty() {
            let l = b.u.filesize.unwrap_or(b.u.data.as_ref().map(|d| d.len()).unwrap_or(0) as u64);
            Prev::Leaf(off + l as u128)
        } else {
            Prev::Tree(off, off + b.u.filesize.unwrap() as u128)
        }
    };
    let mut stack: Vec<(usize, u128, u128)> = vec![];
    let push = |b: &Blk, off: u128, stack: &mut Vec<(usize, u128, u128)>| {
        let mut v = vec![];
        let mut o = off;
        for (k, s) in b.kids.iter().zip(&b.u.blocksizes) {
            v.push((*k, o, o + *s as u128));
            o += *s as u128;
        }
        v.reverse();
        stack.extend(v);
    };
    let mut prev = ending(&blks[root], 0);
    if blks[root].kids.is_empty() {
        out.extend(blks[root].u.data.clone().unwrap_or_default());
    }
    push(&blks[root], 0, &mut stack);
    let mut n = 1;
    while let Some((k, s, e)) = stack.pop() {
        order.push(k);
        // a next block is good when it continues a leaf exactly, when it lies inside of the tree
        // just opened, or when it follows the tree
        let ok = match prev {
            Prev::Leaf(end) => s == end,
            Prev::Tree(o, c) => s >= o && (e <= c || (s >= c && s > o)),
        };
        if !ok || !well_formed(&blks[k], false) {
            return (out, Some(n), order);
        }
        if blks[k].kids.is_empty() {
            out.extend(blks[k].u.data.clone().unwrap_or_default());
        }
        prev = ending(&blks[k], s);
        push(&blks[k], s, &mut stack);
        n += 1;
    }
    (out, None, order)
}
fn build_blks(t: &FT, v: &mut Vec<Blk>) -> usize {
    let kids = match t {
        FT::Leaf { .. } => vec![],
        FT::Node(c) => c.iter().map(|c| build_blks(c, v)).collect(),
    };
    v.push(Blk { u: t.unixfs(), kids, garbage: None });
    v.len() - 1
}
/// [seed, index]
pub fn c06_faults(p: &[u64]) -> Result<u64, String> {
    use unixfs_v1::file::visit::IdleFileVisit;
    let mut r = Rng::new(p[0].wrapping_mul(104729) ^ p[1]);
    let d = r.range(0, 4);
    let t = FT::random(&mut r, d, 5, false);
    let mut blks = vec![];
    let root = build_blks(&t, &mut blks);
    let faults = *r.pick(&[0, 1, 1, 1, 1, 2, 3]);
    let mut names = vec![];
    for _ in 0..faults {
        let i = if r.chance(1, 3) { root } else { r.below(blks.len() as u64) as usize };
        let kind = r.below(22);
        names.push(kind);
        let nk = blks.len();
        let b = &mut blks[i];
        match kind {
            0 => b.u.ty = *r.pick(&[DIR, METADATA, SYMLINK, HAMT]),
            1 => b.u.blocksizes.push(r.below(4)),
            2 => {
                b.u.blocksizes.pop();
            }
            3 => b.u.filesize = None,
            4 => {
                b.u.data = None;
                b.u.filesize = Some(r.range(1, 5))
            }
            5 => b.u.hash_type = Some(r.below(40)),
            6 => b.u.fanout = Some(r.below(300)),
            7 => b.u.mode = Some(r.below(512) as u32),
            8 => b.u.mtime = Some((r.below(512) as i64, None)),
            9 | 10 => {
                if let Some(x) = b.u.blocksizes.first_mut() {
                    *x = x.wrapping_add(r.range(1, 3)).min(1 << 40);
                }
            }
            11 | 12 => {
                if let Some(x) = b.u.blocksizes.last_mut() {
                    *x = x.saturating_sub(r.range(1, 3));
                }
            }
            13 => {
                if let Some(x) = b.u.filesize.as_mut() {
                    *x = x.saturating_sub(r.range(1, 4));
                }
            }
            14 => {
                if let Some(x) = b.u.filesize.as_mut() {
                    *x += r.range(1, 4);
                }
            }
            15 => {
                if b.u.blocksizes.len() > 1 {
                    let n = b.u.blocksizes.len() as u64;
                    let (x, y) = (r.below(n) as usize, r.below(n) as usize);
                    b.u.blocksizes.swap(x, y);
                }
            }
            16 => {
                if b.kids.len() > 1 {
                    let n = b.kids.len() as u64;
                    let (x, y) = (r.below(n) as usize, r.below(n) as usize);
                    b.kids.swap(x, y);
                }
            }
            17 => {
                b.kids.pop();
                b.u.blocksizes.pop();
            }
            18 => {
                let k = r.below(nk as u64) as usize;
                if k < i {
                    b.kids.push(k);
                    b.u.blocksizes.push(r.below(4));
                }
            }
            19 => {
                let g = r.below(3);
                b.garbage = Some(match g {
                    0 => vec![],                          // empty dag-pb
                    1 => vec![0xff],                      // truncated varint
                    _ => vec![0x0a, 0x02, 0xff, 0xff],    // payload is not a message
                })
            }
            20 => {
                // data in a node with links
                if !b.kids.is_empty() {
                    b.u.data = Some(r.bytes(3));
                }
            }
            _ => b.u.filesize = Some(0),
        }
    }
    // encode bottom-up (children always have a smaller index)
    let mut enc: Vec<(Vec<u8>, Cid)> = vec![];
    for b in &blks {
        let links = b.kids.iter().map(|k| RLink::to(&enc[*k].1, "", enc[*k].0.len() as u64)).collect();
        let bytes = b.garbage.clone().unwrap_or_else(|| flat(links, &b.u));
        let c = cid_of(&bytes);
        enc.push((bytes, c));
    }
    // garbage blocks could share a cid: then the store is still right as bytes are equal
    let mut s = Store::default();
    for (b, c) in &enc {
        s.0.insert(*c, b.clone());
    }
    let (want, fault, order) = ref_visit(&blks, root);
    let what = |m: String| format!("{} (faults {:?}, blocks {:?}, visit order {:?}, expected refusal at {:?})", m, names, blks, order, fault);
    let fp = hash_bytes(format!("{:?}", blks).as_bytes());
    // real
    let mut n = 0;
    let mut bytes = vec![];
    let mut step = match IdleFileVisit::default().start(&enc[root].0) {
        Ok((b, size, _, st)) => {
            bytes.extend_from_slice(b);
            let w = blks[root].u.filesize.unwrap_or(bytes.len() as u64);
            if fault != Some(0) && size != w {
                return Err(what(format!("size {} instead of {}", size, w)));
            }
            st
        }
        Err(e) => {
            return if fault == Some(0) { Ok(fp) } else { Err(what(format!("root refused: {:?}", e))) };
        }
    };
    if fault == Some(0) {
        return Err(what("root should be refused but was accepted".into()));
    }
    loop {
        n += 1;
        let v = match step {
            None => break,
            Some(v) => v,
        };
        let c = *v.pending_links().0;
        if n >= order.len() || c != enc[order[n]].1 {
            return Err(what(format!("asked for {} as block {}", c, n)));
        }
        match v.continue_walk(s.get(&c)?, &mut None) {
            Ok((b, st)) => {
                if fault == Some(n) {
                    return Err(what(format!("block {} should be refused but was accepted", n)));
                }
                bytes.extend_from_slice(b);
                step = st;
            }
            Err(e) => {
                return if fault == Some(n) { Ok(fp) } else { Err(what(format!("block {} refused: {:?}", n, e))) };
            }
        }
    }
    if fault.is_some() || n != order.len() {
        return Err(what(format!("visit ended after {} blocks", n)));
    }
    diff(&what("content".into()), &bytes, &want)?;
    Ok(fp)
}
/// consistent trees of any shape, including ones with empty leaves at the end: [seed, index]
pub fn c06_accept(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(15485863) ^ p[1]);
    let d = r.range(1, 5);
    let t = FT::random(&mut r, d, 6, false);
    let mut s = Store::default();
    let m = Meta::random(&mut r);
    let (root, _) = t.store(&mut s, m);
    let got = read_file(&s, &root, None, &mut None).map_err(|e| format!("{}: {:?}", e, t))?;
    diff(&format!("{:?}", t), &got.bytes, &t.bytes())?;
    Ok(hash_bytes(format!("{:?}", t).as_bytes()))
}
pub fn run_c06(c: &mut Ctx) {
    c.random("c06_faults", c06_faults, 120_000, 3_000_000);
    c.random("c06_accept", c06_accept, 20_000, 300_000);
}
