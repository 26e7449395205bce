//! Executable counterparts of the contracts: independent encoder/decoder of the wire format,
//! SHA2-256, deterministic random numbers, block store, tree models.
use libipld::multihash::Multihash;
use libipld::Cid;
use std::collections::HashMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// numbers which sit at the edges of varint lengths and of the integer range
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => self.below(300),
            2 => {
                let k = self.range(1, 9) * 7;
                (1u64 << k).wrapping_sub(self.below(2))
            }
            3 => u64::MAX - self.below(3),
            4 => (1u64 << self.below(64)).wrapping_add(self.below(3)).wrapping_sub(1),
            _ => self.next(),
        }
    }
}

/// content in which every position is distinguishable in practice
pub fn content(len: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0xC0FFEE);
    r.bytes(len)
}

// ---------------------------------------------------------------- sha2-256 (FIPS 180-4)
const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
/// CIDv1, dag-pb, sha2-256 of the block: what every emitted block must be called
pub fn cid_of(block: &[u8]) -> Cid {
    Cid::new_v1(0x70, Multihash::wrap(0x12, &sha256(block)).unwrap())
}
pub fn cid_v0_of(block: &[u8]) -> Cid {
    Cid::new_v0(Multihash::wrap(0x12, &sha256(block)).unwrap()).unwrap()
}

// ---------------------------------------------------------------- wire format, encoder
pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn put_len(out: &mut Vec<u8>, tag: u64, b: &[u8]) {
    put_varint(out, tag);
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
pub const RAW: u64 = 0;
pub const DIR: u64 = 1;
pub const FILE: u64 = 2;
pub const METADATA: u64 = 3;
pub const SYMLINK: u64 = 4;
pub const HAMT: u64 = 5;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RUnix {
    pub ty: u64,
    pub data: Option<Vec<u8>>,
    pub filesize: Option<u64>,
    pub blocksizes: Vec<u64>,
    pub hash_type: Option<u64>,
    pub fanout: Option<u64>,
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct RLink {
    pub hash: Option<Vec<u8>>,
    pub name: Option<String>,
    pub tsize: Option<u64>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct RNode {
    pub links: Vec<RLink>,
    pub data: Option<Vec<u8>>,
}
impl RUnix {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        put_varint(&mut o, 8);
        put_varint(&mut o, self.ty);
        if let Some(d) = &self.data {
            put_len(&mut o, 18, d);
        }
        let mut f = |t: u64, v: Option<u64>| {
            if let Some(v) = v {
                put_varint(&mut o, t);
                put_varint(&mut o, v);
            }
        };
        f(24, self.filesize);
        for b in &self.blocksizes {
            f(32, Some(*b));
        }
        f(40, self.hash_type);
        f(48, self.fanout);
        f(56, self.mode.map(|m| m as u64));
        if let Some((s, n)) = self.mtime {
            let mut m = vec![];
            put_varint(&mut m, 8);
            put_varint(&mut m, s as u64);
            if let Some(n) = n {
                put_varint(&mut m, 21);
                m.extend_from_slice(&n.to_le_bytes());
            }
            put_len(&mut o, 66, &m);
        }
        o
    }
    /// strict decoder: accepts only what the encoder produces
    pub fn decode(b: &[u8]) -> Result<RUnix, String> {
        let mut p = 0;
        let mut o = RUnix::default();
        let mut seen_ty = false;
        while p < b.len() {
            let t = get_varint(b, &mut p)?;
            match t {
                8 => {
                    o.ty = get_varint(b, &mut p)?;
                    seen_ty = true
                }
                18 => o.data = Some(get_bytes(b, &mut p)?.to_vec()),
                24 => o.filesize = Some(get_varint(b, &mut p)?),
                32 => o.blocksizes.push(get_varint(b, &mut p)?),
                40 => o.hash_type = Some(get_varint(b, &mut p)?),
                48 => o.fanout = Some(get_varint(b, &mut p)?),
                56 => o.mode = Some(get_varint(b, &mut p)? as u32),
                66 => {
                    let m = get_bytes(b, &mut p)?;
                    let mut q = 0;
                    let mut s = None;
                    let mut n = None;
                    while q < m.len() {
                        match get_varint(m, &mut q)? {
                            8 => s = Some(get_varint(m, &mut q)? as i64),
                            21 => {
                                if q + 4 > m.len() {
                                    return Err("short fixed32".into());
                                }
                                n = Some(u32::from_le_bytes([m[q], m[q + 1], m[q + 2], m[q + 3]]));
                                q += 4;
                            }
                            x => return Err(format!("unexpected tag {} in time", x)),
                        }
                    }
                    o.mtime = Some((s.ok_or("no seconds")?, n));
                }
                x => return Err(format!("unexpected tag {} in unixfs", x)),
            }
        }
        if !seen_ty {
            return Err("no type".into());
        }
        Ok(o)
    }
}
impl RLink {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(h) = &self.hash {
            put_len(&mut o, 10, h);
        }
        if let Some(h) = &self.name {
            put_len(&mut o, 18, h.as_bytes());
        }
        if let Some(h) = &self.tsize {
            put_varint(&mut o, 24);
            put_varint(&mut o, *h);
        }
        o
    }
    pub fn to(cid: &Cid, name: &str, tsize: u64) -> RLink {
        RLink { hash: Some(cid.to_bytes()), name: Some(name.to_string()), tsize: Some(tsize) }
    }
}
impl RNode {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        for l in &self.links {
            put_len(&mut o, 18, &l.encode());
        }
        if let Some(d) = &self.data {
            put_len(&mut o, 10, d);
        }
        o
    }
    /// strict: links, then data
    pub fn decode(b: &[u8]) -> Result<RNode, String> {
        let mut p = 0;
        let mut o = RNode::default();
        while p < b.len() {
            match get_varint(b, &mut p)? {
                18 if o.data.is_none() => {
                    let m = get_bytes(b, &mut p)?;
                    let mut q = 0;
                    let mut l = RLink::default();
                    while q < m.len() {
                        match get_varint(m, &mut q)? {
                            10 => l.hash = Some(get_bytes(m, &mut q)?.to_vec()),
                            18 => {
                                l.name = Some(
                                    String::from_utf8(get_bytes(m, &mut q)?.to_vec())
                                        .map_err(|e| e.to_string())?,
                                )
                            }
                            24 => l.tsize = Some(get_varint(m, &mut q)?),
                            x => return Err(format!("unexpected tag {} in link", x)),
                        }
                    }
                    o.links.push(l);
                }
                10 if o.data.is_none() => o.data = Some(get_bytes(b, &mut p)?.to_vec()),
                x => return Err(format!("unexpected tag {} in node", x)),
            }
        }
        Ok(o)
    }
}
fn get_varint(b: &[u8], p: &mut usize) -> Result<u64, String> {
    let mut v = 0u64;
    let mut s = 0;
    loop {
        let x = *b.get(*p).ok_or("eof in varint")?;
        *p += 1;
        v |= ((x & 0x7f) as u64) << s;
        if x & 0x80 == 0 {
            return Ok(v);
        }
        s += 7;
        if s > 63 {
            return Err("varint too long".into());
        }
    }
}
fn get_bytes<'a>(b: &'a [u8], p: &mut usize) -> Result<&'a [u8], String> {
    let l = get_varint(b, p)? as usize;
    if l > b.len() - *p {
        return Err("eof in bytes".into());
    }
    let r = &b[*p..*p + l];
    *p += l;
    Ok(r)
}
/// a dag-pb block with the given links and unixfs payload
pub fn flat(links: Vec<RLink>, u: &RUnix) -> Vec<u8> {
    RNode { links, data: Some(u.encode()) }.encode()
}
/// (links, payload) of a block emitted by one of the builders
pub fn unflat(b: &[u8]) -> Result<(Vec<RLink>, RUnix), String> {
    let n = RNode::decode(b)?;
    let u = RUnix::decode(n.data.as_deref().ok_or("no data")?)?;
    let re = flat(n.links.clone(), &u);
    if re != b {
        return Err(format!("block is not canonically encoded: {}", hex(b)));
    }
    Ok((n.links, u))
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 256 {
        return format!("{}..({} bytes)", hex(&b[..64]), b.len());
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Default, Clone)]
pub struct Store(pub HashMap<Cid, Vec<u8>>);
impl Store {
    pub fn put(&mut self, b: Vec<u8>) -> Cid {
        let c = cid_of(&b);
        self.0.insert(c, b);
        c
    }
    pub fn put_v0(&mut self, b: Vec<u8>) -> Cid {
        let c = cid_v0_of(&b);
        self.0.insert(c, b);
        c
    }
    pub fn get(&self, c: &Cid) -> Result<&[u8], String> {
        self.0.get(c).map(|v| &v[..]).ok_or_else(|| format!("asked for a block which does not exist: {}", c))
    }
}

// ---------------------------------------------------------------- file tree model
#[derive(Clone, Debug)]
pub enum FT {
    Leaf { bytes: Vec<u8>, raw: bool, filesize: bool, v0: bool },
    Node(Vec<FT>),
}
impl FT {
    pub fn len(&self) -> u64 {
        match self {
            FT::Leaf { bytes, .. } => bytes.len() as u64,
            FT::Node(c) => c.iter().map(|c| c.len()).sum(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            FT::Leaf { bytes, .. } => bytes.clone(),
            FT::Node(c) => c.iter().flat_map(|c| c.bytes()).collect(),
        }
    }
    /// number of blocks visited when reading all of it
    pub fn blocks(&self) -> usize {
        match self {
            FT::Leaf { .. } => 1,
            FT::Node(c) => 1 + c.iter().map(|c| c.blocks()).sum::<usize>(),
        }
    }
    pub fn unixfs(&self) -> RUnix {
        match self {
            FT::Leaf { bytes, raw, filesize, .. } => RUnix {
                ty: if *raw { RAW } else { FILE },
                data: if bytes.is_empty() { None } else { Some(bytes.clone()) },
                filesize: if *filesize { Some(bytes.len() as u64) } else { None },
                ..Default::default()
            },
            FT::Node(c) => RUnix {
                ty: FILE,
                filesize: Some(self.len()),
                blocksizes: c.iter().map(|c| c.len()).collect(),
                ..Default::default()
            },
        }
    }
    /// returns cid and cumulative size
    pub fn store(&self, s: &mut Store, meta: Meta) -> (Cid, u64) {
        let mut u = self.unixfs();
        u.mode = meta.mode;
        u.mtime = meta.mtime;
        let mut v0 = false;
        let mut links = vec![];
        let mut total = 0;
        match self {
            FT::Leaf { v0: x, .. } => v0 = *x,
            FT::Node(c) => {
                for c in c {
                    let (cid, t) = c.store(s, Meta::default());
                    links.push(RLink::to(&cid, "", t));
                    total += t;
                }
            }
        }
        let b = flat(links, &u);
        total += b.len() as u64;
        (if v0 { s.put_v0(b) } else { s.put(b) }, total)
    }
    pub fn random(r: &mut Rng, depth: u64, maxleaf: u64, allow_empty: bool) -> FT {
        if depth == 0 || r.chance(1, 4) {
            let n = match r.below(64) {
                0..=7 if allow_empty => 0,
                8 => r.range(125, 131),
                9 if r.chance(1, 4) => r.range(16_380, 16_390),
                _ => r.range(1, maxleaf),
            };
            let raw = r.chance(1, 3);
            FT::Leaf { bytes: r.bytes(n as usize), raw, filesize: true, v0: r.chance(1, 3) }
        } else {
            // now and then a wide node, and subtrees which occur several times
            let k = if r.chance(1, 40) { r.range(5, 40) } else { r.range(1, 4) };
            let d = if k > 4 { 0 } else { depth - 1 };
            let mut v: Vec<FT> = vec![];
            for _ in 0..k {
                if !v.is_empty() && r.chance(1, 6) {
                    let c = r.pick(&v).clone();
                    v.push(c);
                } else {
                    v.push(FT::random(r, d, maxleaf, allow_empty));
                }
            }
            FT::Node(v)
        }
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Meta {
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}
impl Meta {
    pub fn random(r: &mut Rng) -> Meta {
        Meta {
            mode: if r.chance(1, 2) { Some(*r.pick(&[0, 0, 1, 0o644, 0o755, 0o777, 0o100644, 0o40755, 0o7777, 127, 128, 16383, 16384, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1])) } else { None },
            mtime: if r.chance(2, 3) {
                let s = match r.below(9) {
                    0 => -1,
                    1 => i64::MIN + r.below(2) as i64,
                    2 => i64::MAX - r.below(2) as i64,
                    3 => r.below(1 << 33) as i64,
                    4 | 5 => *r.pick(&[0, 0, 0, 1, 127, 128]),
                    6 => (1i64 << *r.pick(&[31, 32, 33, 53, 62])) - r.below(2) as i64,
                    7 => -(1i64 << *r.pick(&[31, 32, 33, 53, 62])) - r.below(2) as i64,
                    _ => -(r.below(1 << 40) as i64),
                };
                Some((s, *r.pick(&[None, None, Some(0), Some(1), Some(999_999_999), Some(1_000_000_000), Some(1 << 31), Some(u32::MAX)])))
            } else {
                None
            },
        }
    }
    pub fn visible(&self) -> (Option<u32>, Option<(i64, u32)>) {
        (self.mode, self.mtime.map(|(s, n)| (s, n.unwrap_or(0))))
    }
}
pub fn seen(m: &unixfs_v1::Metadata) -> (Option<u32>, Option<(i64, u32)>) {
    let t = m.mtime_as_filetime().map(|t| (t.unix_seconds(), t.nanoseconds()));
    // both ways to ask have to agree
    (m.mode(), if t == m.mtime() { t } else { Some((i64::MIN + 7, 77)) })
}

/// how one read of a file went
pub struct Read {
    pub bytes: Vec<u8>,
    pub asked: Vec<Cid>,
    pub size: u64,
    pub meta: (Option<u32>, Option<(i64, u32)>),
}
/// Reads a file with the visiting API; checks size and metadata at every step.
pub fn read_file(
    s: &Store,
    root: &Cid,
    range: Option<std::ops::Range<u64>>,
    cache: &mut Option<unixfs_v1::file::visit::Cache>,
) -> Result<Read, String> {
    use unixfs_v1::file::visit::IdleFileVisit;
    let mut v = IdleFileVisit::default();
    let ranged = range.clone();
    if let Some(r) = range {
        v = v.with_target_range(r);
    }
    let (b, size, meta, mut step) = v.start(s.get(root)?).map_err(|e| format!("read failed: {:?}", e))?;
    let mut bytes = b.to_vec();
    let meta = seen(&meta);
    let mut asked = vec![*root];
    while let Some(visit) = step {
        if visit.file_size() != size {
            return Err(format!("file size changes from {} to {} during the visit", size, visit.file_size()));
        }
        if seen(visit.as_ref()) != meta {
            return Err("metadata changes during the visit".into());
        }
        let (first, rest) = visit.pending_links();
        let first = *first;
        let rest: Vec<Cid> = rest.cloned().collect();
        // without a range everything announced has to be there, with one some may never be asked for
        if ranged.is_none() {
            for c in &rest {
                s.get(c)?;
            }
        }
        asked.push(first);
        if asked.len() > 2_000_000 {
            return Err("visit does not end".into());
        }
        let (b, next) = visit.continue_walk(s.get(&first)?, cache).map_err(|e| format!("read failed: {:?}", e))?;
        bytes.extend_from_slice(b);
        // what is pending later must start with what was announced, unless this block added links
        if let Some(n) = &next {
            let (f, r) = n.pending_links();
            let now: Vec<Cid> = std::iter::once(*f).chain(r.cloned()).collect();
            if !now.ends_with(&rest) {
                return Err("pending links announced earlier were dropped or reordered".into());
            }
        } else if !rest.is_empty() {
            return Err("visit ended with announced links unvisited".into());
        }
        step = next;
    }
    Ok(Read { bytes, asked, size, meta })
}

pub fn diff(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{}: got {} bytes, expected {} bytes, first difference at {}: got ..{} expected ..{}",
        what, got.len(), want.len(), i,
        hex(&got[i.min(got.len())..(i + 16).min(got.len())]),
        hex(&want[i.min(want.len())..(i + 16).min(want.len())]),
    ))
}
