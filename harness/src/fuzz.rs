//! C07 (no panics on untrusted blocks) and C16 (node data view)
use crate::ctx::*;
use crate::util::*;
use libipld::Cid;
use unixfs_v1::dagpb::{node_data, wrap_node_data};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{resolve, FlatUnixFs, MaybeResolved};

fn rand_name(r: &mut Rng) -> Option<String> {
    match r.below(14) {
        0 => None,
        1 => Some(String::new()),
        2 => Some("a".into()),
        3 => Some("F0".into()),
        4 => Some("00a".into()),
        5 => Some("/".into()),
        6 => Some("00a/b".into()),
        7 => Some(".".into()),
        8 => Some("..".into()),
        9 => Some("é".into()),
        10 => Some("aé".into()),
        11 => Some("aéb".into()),
        12 => Some("00.".into()),
        _ => Some(format!("{:02X}n{}", r.below(256), r.below(10))),
    }
}
fn rand_hash(r: &mut Rng, pool: &[Cid]) -> Option<Vec<u8>> {
    match r.below(12) {
        0 => None,
        1 => Some(vec![]),
        2 => {
            let n = r.below(40) as usize;
            Some(r.bytes(n))
        }
        3 => Some(vec![0x12, 0x20]),
        _ if !pool.is_empty() => Some(r.pick(pool).to_bytes()),
        _ => Some(cid_of(b"x").to_bytes()),
    }
}
fn small_or_edge(r: &mut Rng) -> u64 {
    if r.chance(2, 3) {
        r.below(6)
    } else {
        r.edge_u64()
    }
}
pub fn rand_unix(r: &mut Rng, ty: u64, nlinks: usize) -> RUnix {
    let plain = r.chance(1, 3);
    let mut u = RUnix { ty, ..Default::default() };
    match ty {
        FILE | RAW => {
            if nlinks == 0 || r.chance(1, 8) {
                let n = r.below(6) as usize;
                u.data = if r.chance(1, 6) { None } else { Some(r.bytes(n)) };
            }
            u.filesize = match r.below(6) {
                0 => None,
                1 => Some(small_or_edge(r)),
                _ => Some(if nlinks == 0 { u.data.as_ref().map(|d| d.len()).unwrap_or(0) as u64 } else { r.below(20) }),
            };
            let k = if r.chance(1, 12) { r.below(4) as usize } else { nlinks };
            u.blocksizes = (0..k).map(|_| small_or_edge(r)).collect();
        }
        HAMT => {
            u.fanout = Some(if r.chance(1, 20) { r.edge_u64() } else { 256 });
            u.hash_type = Some(if r.chance(1, 20) { r.edge_u64() } else { 34 });
            if r.chance(1, 3) {
                u.data = Some(r.bytes(4));
            }
        }
        SYMLINK => {
            let n = r.below(5) as usize;
            u.data = if r.chance(1, 4) { None } else { Some(r.bytes(n)) };
        }
        _ => {}
    }
    if !plain {
        if r.chance(1, 12) {
            u.hash_type = Some(r.edge_u64());
        }
        if r.chance(1, 12) {
            u.filesize = Some(r.edge_u64());
        }
        if r.chance(1, 10) {
            u.mode = Some(r.next() as u32);
        }
        if r.chance(1, 10) {
            u.mtime = Some((r.next() as i64, if r.chance(1, 2) { Some(r.next() as u32) } else { None }));
        }
        if r.chance(1, 30) {
            u.ty = r.edge_u64();
        }
    }
    u
}
/// A block built from arbitrary field values, sometimes with raw damage
pub fn rand_block(r: &mut Rng, pool: &[Cid], kind: Option<u64>) -> Vec<u8> {
    let ty = kind.unwrap_or_else(|| *r.pick(&[FILE, FILE, FILE, RAW, DIR, DIR, HAMT, HAMT, SYMLINK, METADATA]));
    let n = if r.chance(1, 3) { 0 } else { r.below(5) as usize };
    let links: Vec<RLink> = (0..n)
        .map(|_| {
            let name = match ty {
                FILE | RAW => Some(String::new()),
                HAMT if r.chance(1, 3) => Some(format!("{:02X}", r.below(256))),
                HAMT if r.chance(1, 2) => Some(format!("{:02X}e{}", r.below(256), r.below(5))),
                DIR if r.chance(1, 2) => Some(format!("e{}", r.below(5))),
                _ => rand_name(r),
            };
            RLink { hash: rand_hash(r, pool), name, tsize: if r.chance(1, 4) { None } else { Some(r.edge_u64()) } }
        })
        .collect();
    let u = rand_unix(r, ty, n);
    let mut payload = u.encode();
    if r.chance(1, 30) {
        damage(r, &mut payload);
    }
    let mut node = RNode { links, data: if r.chance(1, 40) { None } else { Some(payload) } }.encode();
    if r.chance(1, 20) {
        // data first, as other producers may order
        let n2 = RNode { links: vec![], data: Some(u.encode()) }.encode();
        node = [n2, node].concat();
    }
    if r.chance(1, 12) {
        damage(r, &mut node);
    }
    node
}
fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let n = b.len() as u64;
        match r.below(6) {
            0 if n > 0 => {
                let i = r.below(n) as usize;
                b[i] = r.next() as u8;
            }
            1 => {
                let i = r.below(n + 1) as usize;
                b.truncate(i);
            }
            2 => {
                let i = r.below(n + 1) as usize;
                b.insert(i, r.next() as u8);
            }
            3 if n > 0 => {
                let i = r.below(n) as usize;
                b[i] ^= 1 << r.below(8);
            }
            4 if n > 0 => {
                let i = r.below(n) as usize;
                b.remove(i);
            }
            _ => {
                let k = r.below(6) as usize;
                let x = r.bytes(k);
                b.extend(x);
            }
        }
    }
}

fn drive_visit(r: &mut Rng, blocks: &[Vec<u8>]) {
    let mut v = IdleFileVisit::default();
    if r.chance(1, 2) {
        let a = small_or_edge(r);
        let b = if r.chance(1, 4) { small_or_edge(r) } else { a.saturating_add(r.below(9)) };
        v = v.with_target_range(a..b);
    }
    let mut cache = None;
    if let Ok((_, _, _, mut step)) = v.start(&blocks[0]) {
        let mut n = 1;
        while let Some(s) = step {
            let (_, rest) = s.pending_links();
            let _ = rest.count();
            let _ = s.file_size();
            let _ = format!("{:?}", s);
            if n >= blocks.len() {
                break;
            }
            match s.continue_walk(&blocks[n], &mut cache) {
                Ok((_, st)) => step = st,
                Err(e) => {
                    let _ = format!("{} {:?}", e, e);
                    break;
                }
            }
            n += 1;
        }
    }
}
fn drive_resolve(r: &mut Rng, blocks: &[Vec<u8>]) {
    let needle = rand_name(r).unwrap_or_else(|| "e1".into());
    let mut cache = None;
    let mut n = 1;
    match resolve(&blocks[0], &needle, &mut cache) {
        Ok(MaybeResolved::NeedToLoadMore(mut l)) => {
            if r.chance(1, 3) {
                l = l.with_owned_needle();
            }
            loop {
                let _ = l.pending_links().1.count();
                let _ = format!("{:?}", l);
                if n >= blocks.len() {
                    break;
                }
                match l.continue_walk(&blocks[n], &mut cache) {
                    Ok(MaybeResolved::NeedToLoadMore(x)) => l = x,
                    Ok(x) => {
                        let _ = format!("{:?}", x);
                        break;
                    }
                    Err(e) => {
                        let _ = format!("{} {:?}", e, e);
                        let _ = e.into_resolve_error();
                        break;
                    }
                }
                n += 1;
            }
        }
        Ok(x) => {
            let _ = format!("{:?}", x);
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
        }
    }
}
fn drive_walk(r: &mut Rng, blocks: &[Vec<u8>]) {
    let mut w = Walker::new(cid_of(&blocks[0]), if r.chance(1, 2) { String::new() } else { "root".into() });
    let mut cache = None;
    let mut n = 0;
    while w.should_continue() && n < blocks.len() {
        let (_, rest) = w.pending_links();
        let _ = rest.count();
        match w.next(&blocks[n], &mut cache) {
            Ok(x) => {
                let _ = format!("{:?}", x);
                if let ContinuedWalk::File(s, ..) = &x {
                    let _ = (s.is_first(), s.is_last(), s.as_ref().len());
                }
            }
            Err(e) => {
                let _ = format!("{} {:?}", e, e);
                break;
            }
        }
        let _ = format!("{:?}", w);
        n += 1;
    }
}
fn drive_data(b: &[u8]) {
    let _ = node_data(b);
    if let Ok(x) = wrap_node_data(b) {
        let _ = x.node_data();
        let _ = format!("{:?}", x);
    }
    if let Err(e) = FlatUnixFs::try_parse(b) {
        let _ = format!("{} {:?}", e, e);
    }
}
fn drive_all(r: &mut Rng, blocks: &[Vec<u8>]) -> Result<u64, String> {
    let what = |m: String| {
        format!("{} with blocks [{}]", m, blocks.iter().map(|b| hex(b)).collect::<Vec<_>>().join(", "))
    };
    let (mut r1, mut r2, mut r3) = (r.clone(), r.clone(), r.clone());
    let mut found = vec![
        no_panic(|| drive_visit(&mut r1, blocks)).map_err(|m| format!("file visit: {}", m)),
        no_panic(|| drive_resolve(&mut r2, blocks)).map_err(|m| format!("resolve: {}", m)),
        no_panic(|| drive_walk(&mut r3, blocks)).map_err(|m| format!("walk: {}", m)),
    ];
    for b in blocks {
        found.push(no_panic(|| drive_data(b)).map_err(|m| format!("node data: {}", m)));
    }
    // a panic of the protobuf reader does not hide another one
    let errs: Vec<String> = found.into_iter().filter_map(|x| x.err()).collect();
    if let Some(m) = errs.iter().find(|m| !m.contains("quick-protobuf")).or(errs.first()) {
        return Err(what(m.clone()));
    }
    Ok(hash_bytes(&blocks.concat()))
}
/// arbitrary structured blocks: [seed, index]
pub fn c07_structured(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(6700417) ^ p[1]);
    let pool = [cid_of(b"1"), cid_of(b"2"), cid_v0_of(b"3")];
    let n = r.range(1, 7);
    let k = r.below(6);
    let blocks: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let kind = match k {
                0 => Some(if r.chance(1, 5) { RAW } else { FILE }),
                1 => Some(*r.pick(&[HAMT, HAMT, HAMT, DIR, FILE])),
                2 => Some(*r.pick(&[DIR, DIR, FILE, SYMLINK, HAMT])),
                _ => None,
            };
            rand_block(&mut r, &pool, kind)
        })
        .collect();
    drive_all(&mut r, &blocks)
}
/// valid trees visited with damaged blocks: [seed, index]
pub fn c07_damaged(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(2147483647) ^ p[1]);
    let mut s = Store::default();
    let d = r.range(1, 3);
    let t = FT::random(&mut r, d, 4, true);
    let (root, _) = t.store(&mut s, Meta::default());
    // blocks in visiting order
    let mut order = vec![];
    fn rec(t: &FT, o: &mut Vec<Vec<u8>>) {
        let mut st = Store::default();
        let (c, _) = t.store(&mut st, Meta::default());
        o.push(st.0[&c].clone());
        if let FT::Node(k) = t {
            for k in k {
                rec(k, o);
            }
        }
    }
    rec(&t, &mut order);
    let _ = root;
    let i = r.below(order.len() as u64) as usize;
    damage(&mut r, &mut order[i]);
    drive_all(&mut r, &order)
}
/// pure noise: [seed, index]
pub fn c07_noise(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(524287) ^ p[1]);
    let n = r.range(1, 3);
    let blocks: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let l = r.below(24) as usize;
            let mut b = r.bytes(l);
            for x in b.iter_mut() {
                if r.chance(1, 2) {
                    *x = *r.pick(&[0x0a, 0x12, 0x08, 0x18, 0x20, 2, 1, 0, 3, 4, 5, 0x28, 0x30]);
                }
            }
            b
        })
        .collect();
    drive_all(&mut r, &blocks)
}
/// all short byte strings over the interesting bytes: [length, index]
pub fn c07_short(p: &[u64]) -> Result<u64, String> {
    const A: [u8; 8] = [0x00, 0x01, 0x02, 0x0a, 0x12, 0x18, 0x08, 0x80];
    let mut x = p[1];
    let mut b = vec![];
    for _ in 0..p[0] {
        b.push(A[(x % 8) as usize]);
        x /= 8;
    }
    let mut r = Rng::new(p[1]);
    let blocks = vec![b.clone(), b];
    drive_all(&mut r, &blocks)
}
pub fn run_c07(c: &mut Ctx) {
    for len in 0..=(if c.thorough { 7 } else { 5 }) {
        for i in 0..8u64.pow(len as u32) {
            if c.stop() {
                return;
            }
            c.case("c07_short", c07_short, &[len, i]);
        }
    }
    c.random("c07_structured", c07_structured, 250_000, 6_000_000);
    c.random("c07_damaged", c07_damaged, 100_000, 2_000_000);
    c.random("c07_noise", c07_noise, 100_000, 2_000_000);
}

// ---- C16
enum Part {
    Data(Vec<u8>),
    Link(Vec<u8>),
    Unknown(u64, Vec<u8>),
    UnknownInt(u64),
}
pub fn c16_view(p: &[u64]) -> Result<u64, String> {
    let mut r = Rng::new(p[0].wrapping_mul(131071) ^ p[1]);
    let n = r.below(4);
    let mut parts = vec![];
    for _ in 0..n {
        let l = *r.pick(&[0, 0, 1, 2, 5, 127, 128, 200, 16_383, 16_384]) as usize;
        let l = p.get(2).map(|n| *n as usize).unwrap_or(l);
        parts.push(match r.below(5) {
            0 | 1 => Part::Data(r.bytes(l)),
            2 | 3 => {
                let h = cid_of(b"x");
                Part::Link(RLink::to(&h, "n", r.edge_u64()).encode())
            }
            _ if r.chance(1, 2) => Part::UnknownInt(r.edge_u64()),
            _ => Part::Unknown(26, r.bytes(l)),
        });
    }
    let mut b = vec![];
    let mut want: Option<Vec<u8>> = None;
    for x in &parts {
        match x {
            Part::Data(d) => {
                put_len(&mut b, 10, d);
                want = Some(d.clone());
            }
            Part::Link(l) => put_len(&mut b, 18, l),
            Part::Unknown(t, d) => put_len(&mut b, *t, d),
            Part::UnknownInt(v) => {
                put_varint(&mut b, 40);
                put_varint(&mut b, *v);
            }
        }
    }
    view(&b, &Ok(want))?;
    // cut anywhere: both views must agree
    let cut = r.below(b.len() as u64 + 1) as usize;
    let e = node_data(&b[..cut]).map(|x| x.map(|x| x.to_vec())).map_err(|_| ());
    view(&b[..cut], &e)?;
    Ok(hash_bytes(&b))
}
fn view(b: &[u8], want: &Result<Option<Vec<u8>>, ()>) -> Result<(), String> {
    let what = |m: &str| format!("{} for block {}", m, hex(b));
    let got = node_data(b);
    match (&got, want) {
        (Ok(g), Ok(w)) if g.map(|x| x.to_vec()) == *w => {}
        (Err(_), Err(_)) => {}
        (g, w) => return Err(what(&format!("node data is {:?}, expected {:?}", g, w))),
    }
    // as different owners, also as a slice in the middle of a bigger buffer
    let mut big = vec![7u8; 9];
    big.extend_from_slice(b);
    big.extend_from_slice(&[10, 1, 9]);
    let mid = &big[9..9 + b.len()];
    let a = wrap_node_data(b.to_vec());
    let c = wrap_node_data(mid);
    let d = wrap_node_data(b.to_vec().into_boxed_slice());
    let (a, c, d) = match (a, c, d, want) {
        (Ok(a), Ok(c), Ok(d), Ok(_)) => (a, c, d),
        (Err(_), Err(_), Err(_), Err(_)) => return Ok(()),
        _ => return Err(what("wrapping and viewing disagree on whether the block parses")),
    };
    let w = want.clone().unwrap().unwrap_or_default();
    if a.node_data() != w || c.node_data() != w || d.node_data() != w {
        return Err(what(&format!("wrapped data is {} / {} / {}, expected {}", hex(a.node_data()), hex(c.node_data()), hex(d.node_data()), hex(&w))));
    }
    if !w.is_empty() {
        // the same memory, not a copy found elsewhere
        let inner = a.get_ref().as_ptr() as usize;
        let at = a.node_data().as_ptr() as usize;
        if at < inner || at + w.len() > inner + b.len() {
            return Err(what("data is not part of the block"));
        }
        let real = got.as_ref().unwrap().unwrap().as_ptr() as usize - b.as_ptr() as usize;
        if at - inner != real {
            return Err(what(&format!("data found at {} instead of {}", at - inner, real)));
        }
    }
    if a != w || (!w.is_empty() && a == Vec::<u8>::new()) || a == [&w[..], &[1][..]].concat() {
        return Err(what("comparison with bytes does not compare the data field"));
    }
    let mut w2 = w.clone();
    if let Some(x) = w2.last_mut() {
        *x ^= 1;
        if a == w2 {
            return Err(what("equal to different bytes"));
        }
    }
    if a.get_ref() != b || a.into_inner() != b || *c.into_inner() != *b || &*d.into_inner() != b {
        return Err(what("unwrapping changes the block"));
    }
    Ok(())
}
/// every layout of up to three short fields: [index]
pub fn c16_small(p: &[u64]) -> Result<u64, String> {
    let mut x = p[0];
    let mut b = vec![];
    let mut want = None;
    for k in 0..3 {
        let c = x % 7;
        x /= 7;
        match c {
            0 => {}
            1..=3 => {
                let d: Vec<u8> = (0..c - 1).map(|i| (k * 10 + i) as u8).collect();
                put_len(&mut b, 10, &d);
                want = Some(d);
            }
            4 => put_len(&mut b, 18, &[]),
            5 => put_len(&mut b, 18, &RLink { hash: None, name: Some("n".into()), tsize: None }.encode()),
            _ => put_len(&mut b, 26, &[10, 1, 1]),
        }
    }
    view(&b, &Ok(want))?;
    Ok(hash_bytes(&b))
}
pub fn run_c16(c: &mut Ctx) {
    for i in 0..343 {
        c.case("c16_small", c16_small, &[i]);
    }
    for n in [70_000, 1 << 20, 3 << 20] {
        for i in 0..6 {
            c.case("c16_view", c16_view, &[c.seed, i, n]);
        }
    }
    c.random("c16_view", c16_view, 200_000, 2_000_000);
}
