@note The file importer: chunker, leaf and link blocks, the balanced collector.
@file src/pb.rs
@type DAG_PB wrap
@append
verus! {
/// the contents of a node, without the memory they live in
pub struct VLink { pub hash: Option<Seq<u8>>, pub name: Option<Seq<char>>, pub tsize: Option<u64> }
pub struct VFlat {
    pub ty: UnixFsType, pub data: Option<Seq<u8>>, pub filesize: Option<u64>, pub blocksizes: Seq<u64>,
    pub hash_type: Option<u64>, pub fanout: Option<u64>, pub mode: Option<u32>, pub mtime: Option<unixfs::UnixTime>,
    pub links: Seq<VLink>,
}
pub open spec fn sp_vlink(l: PBLink<'_>) -> VLink {
    VLink {
        hash: match l.Hash { None => None, Some(h) => Some(h@) },
        name: match l.Name { None => None, Some(n) => Some(n@) },
        tsize: l.Tsize,
    }
}
pub open spec fn sp_vlinks(l: Seq<PBLink<'_>>) -> Seq<VLink> { Seq::new(l.len(), |i: int| sp_vlink(l[i])) }
pub open spec fn sp_vflat(f: FlatUnixFs<'_>) -> VFlat {
    VFlat {
        ty: f.data.Type,
        data: match f.data.Data { None => None, Some(d) => Some(d@) },
        filesize: f.data.filesize,
        blocksizes: f.data.blocksizes@,
        hash_type: f.data.hashType,
        fanout: f.data.fanout,
        mode: f.data.mode,
        mtime: f.data.mtime,
        links: sp_vlinks(f.links@),
    }
}
/// the wire format of a node
#[verifier::opaque]
pub open spec fn sp_enc(v: VFlat) -> Seq<u8> { sp_enc_flat(v.links, sp_enc_msg(v)) }
pub open spec fn sp_enc_msg(v: VFlat) -> VData {
    VData {
        ty: v.ty, data: v.data, filesize: v.filesize, blocksizes: v.blocksizes,
        hash_type: v.hash_type, fanout: v.fanout, mode: v.mode, mtime: v.mtime,
    }
}
/// what was written is what is read back (quick_protobuf reads lengths of 32 bits)
pub broadcast proof fn ax_enc(v: VFlat)
    requires (#[trigger] sp_enc(v)).len() < 0x8000_0000,
    ensures sp_flat(sp_enc(v)) is Some && sp_vflat(sp_flat(sp_enc(v))->0) == v
{
    reveal(sp_enc);
    let d = sp_enc_msg(v);
    let m = sp_enc_data(d);
    assert(sp_enc(v) =~= sp_enc_node(v.links, Some(m)));
    lm_rd_node(v.links, Some(m));
    lm_data_len(d);
    lm_fld_len(10, m);
    lm_rd_unixfs(d);
    reveal(sp_fld_num);
    ax_node(sp_enc(v));
    ax_unixfs(m);
    let n = sp_node(sp_enc(v))->0;
    assert(sp_vnode(n).data == Some(m));
    assert(n.Data->0@ == m);
}
/// version 1 identifier with the SHA2-256 digest of the bytes
pub uninterp spec fn sp_cid_sha2_256(codec: u64, b: Seq<u8>) -> libipld::Cid;
pub open spec fn sp_block_cid(b: Seq<u8>) -> libipld::Cid { sp_cid_sha2_256(0x70, b) }
/// the byte form of an identifier
pub uninterp spec fn sp_cid_bytes(c: libipld::Cid) -> Seq<u8>;
pub broadcast axiom fn ax_cid_bytes(c: libipld::Cid)
    ensures crate::sp_cid(#[trigger] sp_cid_bytes(c)) == Some(c);
#[verifier::external_body]
pub fn v_cid_bytes(c: &libipld::Cid) -> (r: Vec<u8>)
    ensures r@ == sp_cid_bytes(*c)
{ c.to_bytes() }
#[verifier::external_body]
pub fn v_cow_owned(v: Vec<u8>) -> (r: Cow<'static, [u8]>)
    ensures r@ == v@
{ v.into() }
#[verifier::external_body]
pub fn v_cow_str(s: &'static str) -> (r: Cow<'static, str>)
    ensures r@ == s@
{ s.into() }
/// derive(Default)
#[verifier::external_body]
pub fn v_unixfs_default<'a>() -> (r: UnixFs<'a>)
    ensures r.Data is None, r.filesize is None, r.blocksizes@.len() == 0, r.hashType is None, r.fanout is None, r.mode is None, r.mtime is None
{ Default::default() }
/// quick_protobuf writes the message to the end of the buffer
#[verifier::external_body]
pub fn v_write_flat(f: &FlatUnixFs<'_>, out: &mut Vec<u8>)
    ensures final(out)@ == old(out)@ + sp_enc(sp_vflat(*f))
{
    use quick_protobuf::MessageWrite;
    let mut writer = Writer::new(out);
    f.write_message(&mut writer).expect("writing to a Vec cannot fail");
}
#[verifier::external_body]
pub fn v_flat_size(f: &FlatUnixFs<'_>) -> usize {
    use quick_protobuf::MessageWrite;
    f.get_size()
}
#[verifier::external_body]
pub fn v_cid_sha2_256(codec: u64, b: &[u8]) -> (r: libipld::Cid)
    ensures r == sp_cid_sha2_256(codec, b@)
{
    use libipld::multihash::{Code, MultihashDigest};
    libipld::Cid::new_v1(codec, Code::Sha2_256.digest(b))
}
}
@file src/file/adder.rs
@noiter
@type Link
@type Chunker
@type Collector
@type BalancedCollector
@type FileAdder
@append
verus! {
use crate::file::visit::{GT, gt_bytes, gt_cat};
use crate::pb::{VFlat, VLink, sp_vflat, sp_vlink, sp_enc, sp_block_cid, sp_cid_bytes};
}
@fn render_and_hash props=C01,C02,C03,C04
@ret r
@spec
    ensures
        r.1@ == sp_enc(sp_vflat(*flat)), // [C01 C02 C03 C04]
        r.0 == sp_block_cid(r.1@), // [C04]
@replace
flat . get_size ( )
@with
crate::pb::v_flat_size(flat)
@replace
let mut writer = Writer :: new ( & mut out ) ; flat . write_message ( & mut writer ) . expect ( $x ) ;
@with
crate::pb::v_write_flat(flat, &mut out);
@replace
let mh = Code :: Sha2_256 . digest ( & out ) ; let cid = Cid :: new_v1 ( DAG_PB , mh ) ;
@with
let cid = crate::pb::v_cid_sha2_256(DAG_PB, &out);
@fn Chunker::accept props=C01,C02,C07
@ret r
@spec
    requires buffered@.len() < old(self).max(),
    ensures
        *final(self) == *old(self),
        ({
            let n = crate::file::adder::sp_least(input@.len() as int, old(self).max() - buffered@.len());
            &&& r.0@ == input@.take(n) // [C01 C02]
            &&& r.1 == (buffered@.len() + n >= old(self).max()) // [C02]
        }),
@fn Chunker::size_hint props=C02
@ret r
@spec
    ensures r == self.max(), // [C02]
@append
verus! {
impl Chunker {
    pub open spec fn max(self) -> int { match self { Chunker::Size(n) => n as int } }
}
pub open spec fn sp_least(a: int, b: int) -> int { if a <= b { a } else { b } }
}
@fn BalancedCollector::partition_link props=C01,C03,C04
@spec
    requires
        *old(nested_size) + link.file_size <= u64::MAX,
        *old(nested_total_size) + link.total_size <= u64::MAX,
    ensures
        final(links)@.len() == old(links)@.len() + 1,
        forall|i: int| 0 <= i < old(links)@.len() ==> (#[trigger] final(links)@[i]) == old(links)@[i],
        sp_vlink(final(links)@.last()) == sp_link_view(*link), // [C01 C03 C04]
        final(blocksizes)@ == old(blocksizes)@.push(link.file_size), // [C01 C03]
        *final(nested_size) == *old(nested_size) + link.file_size, // [C01 C03]
        *final(nested_total_size) == *old(nested_total_size) + link.total_size, // [C03]
@replace
Some ( link . target . to_bytes ( ) . into ( ) )
@with
Some(crate::pb::v_cow_owned(crate::pb::v_cid_bytes(&link.target)))
@replace
Some ( "" . into ( ) )
@with
Some(crate::pb::v_cow_str(""))
@proof start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@append
verus! {
pub(crate) closed spec fn sp_link_view(l: Link) -> VLink {
    VLink { hash: Some(sp_cid_bytes(l.target)), name: Some(Seq::empty()), tsize: Some(l.total_size) }
}
}
@append
verus! {
/// the node which an importer writes for the root of the tree
pub open spec fn tr_view(t: GT) -> VFlat
    decreases t, 1int
{
    match t {
        GT::Leaf(b) => VFlat {
            ty: UnixFsType::File, data: if b.len() == 0 { None } else { Some(b) }, filesize: Some(b.len() as u64), blocksizes: Seq::empty(),
            hash_type: None, fanout: None, mode: None, mtime: None, links: Seq::empty(),
        },
        GT::Node(k) => VFlat {
            ty: UnixFsType::File, data: None, filesize: Some(gt_bytes(t).len() as u64), blocksizes: tr_sizes(k),
            hash_type: None, fanout: None, mode: None, mtime: None, links: tr_links(k, k.len() as int),
        },
    }
}
pub open spec fn tr_sizes(k: Seq<GT>) -> Seq<u64> { Seq::new(k.len(), |i: int| gt_bytes(k[i]).len() as u64) }
pub open spec fn tr_links(k: Seq<GT>, n: int) -> Seq<VLink>
    decreases k, n
{
    if n <= 0 || n > k.len() { Seq::empty() } else {
        tr_links(k, n - 1).push(VLink { hash: Some(sp_cid_bytes(tr_cid(k[n - 1]))), name: Some(Seq::empty()), tsize: Some(tr_total(k[n - 1]) as u64) })
    }
}
pub open spec fn tr_block(t: GT) -> Seq<u8>
    decreases t, 2int
{
    sp_enc(tr_view(t))
}
pub open spec fn tr_cid(t: GT) -> Cid
    decreases t, 3int
{
    sp_block_cid(tr_block(t))
}
/// length of all blocks of the tree, counted as often as they occur
pub open spec fn tr_total(t: GT) -> nat
    decreases t, 4int
{
    match t {
        GT::Leaf(b) => tr_block(t).len(),
        GT::Node(k) => tr_totals(k, k.len() as int) + tr_block(t).len(),
    }
}
pub open spec fn tr_totals(k: Seq<GT>, n: int) -> nat
    decreases k, n
{
    if n <= 0 || n > k.len() { 0 } else { tr_totals(k, n - 1) + tr_total(k[n - 1]) }
}
pub open spec fn tr_depth(t: GT) -> nat
    decreases t
{
    match t { GT::Leaf(_) => 0, GT::Node(k) => if k.len() == 0 { 1 } else { 1 + tr_depth(k[0]) } }
}
/// the sizes of the tree can be written down
pub open spec fn tr_fits(t: GT) -> bool { tr_total(t) <= u64::MAX && gt_bytes(t).len() <= u64::MAX }
pub open spec fn all_fit(ts: Seq<GT>) -> bool { forall|i: int| 0 <= i < ts.len() ==> tr_fits(#[trigger] ts[i]) }
pub(crate) closed spec fn sp_link(t: GT) -> Link {
    Link { depth: tr_depth(t) as usize, target: tr_cid(t), total_size: tr_total(t) as u64, file_size: gt_bytes(t).len() as u64 }
}
pub(crate) closed spec fn sp_links(ts: Seq<GT>) -> Seq<Link> { Seq::new(ts.len(), |i: int| sp_link(ts[i])) }
/// what is emitted for trees
pub open spec fn sp_blocks(ts: Seq<GT>) -> Seq<(Cid, Seq<u8>)> { Seq::new(ts.len(), |i: int| (tr_cid(ts[i]), tr_block(ts[i]))) }
pub open spec fn sp_out(v: Seq<(Cid, Vec<u8>)>) -> Seq<(Cid, Seq<u8>)> { Seq::new(v.len(), |i: int| (v[i].0, v[i].1@)) }
pub proof fn lm_totals_mono(k: Seq<GT>, a: int, b: int)
    requires 0 <= a <= b <= k.len(),
    ensures tr_totals(k, a) <= tr_totals(k, b)
    decreases b
{
    if a < b { lm_totals_mono(k, a, b - 1); }
}
pub proof fn lm_node_bytes(k: Seq<GT>)
    ensures gt_bytes(GT::Node(k)) == gt_cat(k, k.len() as int), tr_total(GT::Node(k)) == tr_totals(k, k.len() as int) + tr_block(GT::Node(k)).len()
{}
/// cut into groups of n, from the front: the groups with something behind them, and the rest
#[verifier::opaque]
pub open spec fn chunk<T>(ts: Seq<T>, n: int) -> (Seq<Seq<T>>, Seq<T>)
    decreases ts.len()
{
    if ts.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (a, b) = chunk(ts.drop_last(), n);
        if b.len() < n { (a, b.push(ts.last())) } else { (a.push(b), seq![ts.last()]) }
    }
}
pub open spec fn gs<T>(ts: Seq<T>, n: int) -> Seq<Seq<T>> {
    let (a, b) = chunk(ts, n);
    if b.len() == 0 { a } else { a.push(b) }
}
pub open spec fn cut_at<T>(ts: Seq<T>, s: int, n: int) -> bool {
    &&& 0 <= s <= ts.len()
    &&& s == 0 || s == ts.len() || chunk(ts.take(s), n).1.len() == n
}
pub proof fn lm_chunk<T>(ts: Seq<T>, n: int)
    requires n >= 1,
    ensures
        ts.len() > 0 ==> 1 <= chunk(ts, n).1.len() <= n,
        ts.len() == 0 ==> chunk(ts, n).1.len() == 0 && chunk(ts, n).0.len() == 0,
        chunk(ts, n).0.len() + chunk(ts, n).1.len() <= ts.len(),
        gs(ts, n).len() <= ts.len(),
        ts.len() > 0 ==> gs(ts, n).len() > 0,
        n >= 2 ==> 2 * chunk(ts, n).0.len() + chunk(ts, n).1.len() <= ts.len(),
        n >= 2 && ts.len() >= 2 ==> gs(ts, n).len() < ts.len(),
        ts.len() <= n ==> chunk(ts, n).0.len() == 0 && chunk(ts, n).1 =~= ts,
        forall|i: int| 0 <= i < chunk(ts, n).0.len() ==> (#[trigger] chunk(ts, n).0[i]).len() == n,
        forall|i: int| 0 <= i < gs(ts, n).len() ==> 1 <= (#[trigger] gs(ts, n)[i]).len() <= n,
    decreases ts.len()
{
    reveal(chunk); 
    if ts.len() > 0 {
        lm_chunk(ts.drop_last(), n);
        assert(ts.drop_last().push(ts.last()) =~= ts);
    }
}
/// a group behind a boundary
pub proof fn lm_chunk_next<T>(ts: Seq<T>, g: Seq<T>, n: int)
    requires n >= 1, 1 <= g.len() <= n, ts.len() == 0 || chunk(ts, n).1.len() == n,
    ensures chunk(ts + g, n) == (gs(ts, n), g), gs(ts + g, n) =~= gs(ts, n).push(g),
    decreases g.len()
{
    reveal(chunk); 
    lm_chunk(ts, n);
    assert((ts + g).drop_last() =~= ts + g.drop_last());
    assert((ts + g).last() == g.last());
    if g.len() == 1 {
        assert(ts + g.drop_last() =~= ts);
        assert(g =~= seq![g.last()]);
        if ts.len() == 0 { assert(Seq::<T>::empty().push(g.last()) =~= g); }
    } else {
        lm_chunk_next(ts, g.drop_last(), n);
        assert(g.drop_last().push(g.last()) =~= g);
    }
    assert(chunk(ts + g, n).0 =~= gs(ts, n));
    assert(chunk(ts + g, n).1 =~= g);
}
/// more of the group which is not full yet
pub proof fn lm_chunk_more<T>(ts: Seq<T>, g: Seq<T>, n: int)
    requires n >= 1, chunk(ts, n).1.len() + g.len() <= n,
    ensures chunk(ts + g, n) == (chunk(ts, n).0, chunk(ts, n).1 + g),
    decreases g.len()
{
    reveal(chunk); 
    if g.len() == 0 {
        assert(ts + g =~= ts);
        assert(chunk(ts, n).1 + g =~= chunk(ts, n).1);
    } else {
        assert((ts + g).drop_last() =~= ts + g.drop_last());
        lm_chunk_more(ts, g.drop_last(), n);
        assert((chunk(ts, n).1 + g.drop_last()).push(g.last()) =~= chunk(ts, n).1 + g);
    }
}
pub proof fn lm_cut_step<T>(ts: Seq<T>, s: int, n: int)
    requires n >= 1, cut_at(ts, s, n), s < ts.len(),
    ensures ({
        let e = if s + n <= ts.len() { s + n } else { ts.len() as int };
        &&& cut_at(ts, e, n)
        &&& gs(ts.take(e), n) =~= gs(ts.take(s), n).push(ts.subrange(s, e))
        &&& chunk(ts.take(e), n).0 == gs(ts.take(s), n)
        &&& chunk(ts.take(e), n).1 == ts.subrange(s, e)
        &&& gs(ts.take(s), n).len() <= s
    })
{
    let e = if s + n <= ts.len() { s + n } else { ts.len() as int };
    lm_chunk(ts.take(s), n);
    lm_chunk_next(ts.take(s), ts.subrange(s, e), n);
    assert(ts.take(s) + ts.subrange(s, e) =~= ts.take(e));
}
pub proof fn lm_cut_prefix<T>(ts: Seq<T>, s: int, n: int)
    requires n >= 1, cut_at(ts, s, n),
    ensures gs(ts.take(s), n).len() <= gs(ts, n).len(), gs(ts, n).take(gs(ts.take(s), n).len() as int) =~= gs(ts.take(s), n)
    decreases ts.len() - s
{
    if s == ts.len() {
        assert(ts.take(s) =~= ts);
    } else {
        lm_cut_step(ts, s, n);
        let e = if s + n <= ts.len() { s + n } else { ts.len() as int };
        lm_cut_prefix(ts, e, n);
        assert forall|i: int| 0 <= i < gs(ts.take(s), n).len() implies gs(ts, n)[i] == gs(ts.take(s), n)[i] by {
            assert(gs(ts.take(e), n)[i] == gs(ts.take(s), n)[i]);
            assert(gs(ts, n).take(gs(ts.take(e), n).len() as int)[i] == gs(ts, n)[i]);
        }
    }
}
// ---- links
pub(crate) closed spec fn ltotal(ls: Seq<Link>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { ltotal(ls, n - 1) + ls[n - 1].total_size }
}
pub(crate) closed spec fn lsize(ls: Seq<Link>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { lsize(ls, n - 1) + ls[n - 1].file_size }
}
pub(crate) closed spec fn lview(ls: Seq<Link>) -> VFlat {
    VFlat {
        ty: UnixFsType::File, data: None, filesize: Some(lsize(ls, ls.len() as int) as u64),
        blocksizes: Seq::new(ls.len(), |i: int| ls[i].file_size),
        hash_type: None, fanout: None, mode: None, mtime: None,
        links: Seq::new(ls.len(), |i: int| sp_link_view(ls[i])),
    }
}
pub(crate) closed spec fn lblock(ls: Seq<Link>) -> Seq<u8> { sp_enc(lview(ls)) }
pub(crate) closed spec fn lnode(ls: Seq<Link>, d: int) -> Link {
    Link {
        depth: d as usize,
        target: sp_block_cid(lblock(ls)),
        total_size: (ltotal(ls, ls.len() as int) + lblock(ls).len()) as u64,
        file_size: lsize(ls, ls.len() as int) as u64,
    }
}
pub(crate) closed spec fn lfits(ls: Seq<Link>) -> bool {
    ltotal(ls, ls.len() as int) + lblock(ls).len() <= u64::MAX && lsize(ls, ls.len() as int) <= u64::MAX
}
pub(crate) closed spec fn lall_fit(g: Seq<Seq<Link>>) -> bool { forall|i: int| 0 <= i < g.len() ==> lfits(#[trigger] g[i]) }
pub(crate) closed spec fn lblocks(g: Seq<Seq<Link>>) -> Seq<(Cid, Seq<u8>)> { Seq::new(g.len(), |i: int| (sp_block_cid(lblock(g[i])), lblock(g[i]))) }
pub(crate) closed spec fn lnodes(g: Seq<Seq<Link>>, d: int) -> Seq<Link> { Seq::new(g.len(), |i: int| lnode(g[i], d)) }
pub(crate) closed spec fn lup(ls: Seq<Link>, n: int, d: int) -> Seq<Link> { lnodes(gs(ls, n), d + 1) }
/// levels above until a single node is left: the groups in the order their nodes are made
#[verifier::opaque]
pub(crate) closed spec fn ltops(ls: Seq<Link>, n: int, d: int) -> Seq<Seq<Link>>
    decreases ls.len()
{
    if ls.len() <= 1 || gs(ls, n).len() >= ls.len() { Seq::empty() } else { gs(ls, n) + ltops(lup(ls, n, d), n, d + 1) }
}
#[verifier::opaque]
pub(crate) closed spec fn ltop(ls: Seq<Link>, n: int, d: int) -> Link
    decreases ls.len()
{
    if ls.len() <= 1 || gs(ls, n).len() >= ls.len() { ls.last() } else { ltop(lup(ls, n, d), n, d + 1) }
}
/// what finishing makes out of pending `a` of the level above and `b`
#[verifier::opaque]
pub(crate) closed spec fn lfin(a: Seq<Link>, b: Seq<Link>, n: int, d: int) -> Seq<Seq<Link>> {
    if a.len() + b.len() <= 1 { Seq::empty() } else { gs(b, n) + ltops(a + lup(b, n, d), n, d + 1) }
}
#[verifier::opaque]
pub(crate) closed spec fn lfin_root(a: Seq<Link>, b: Seq<Link>, n: int, d: int) -> Link {
    if a.len() + b.len() <= 1 { (a + b).last() } else { ltop(a + lup(b, n, d), n, d + 1) }
}
pub(crate) closed spec fn ldepth(ls: Seq<Link>, d: int) -> bool { forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).depth == d }
/// k links to nodes of leaves, followed by links to leaves
pub(crate) closed spec fn two(p: Seq<Link>, k: int) -> bool {
    0 <= k < p.len() && ldepth(p.take(k), 1) && ldepth(p.skip(k), 0)
}
proof fn lm_two(p: Seq<Link>, k: int, l: int)
    requires two(p, k), two(p, l),
    ensures k == l
{
    if k < l {
        assert(p.take(l)[k].depth == 1);
        assert(p.skip(k)[0].depth == 0);
    }
    if l < k {
        assert(p.take(k)[l].depth == 1);
        assert(p.skip(l)[0].depth == 0);
    }
}
proof fn lm_lsums(ls: Seq<Link>, a: int, b: int)
    requires 0 <= a <= b <= ls.len(),
    ensures 0 <= ltotal(ls, a) <= ltotal(ls, b), 0 <= lsize(ls, a) <= lsize(ls, b)
    decreases b
{
    if a < b { lm_lsums(ls, a, b - 1); }
    else if a > 0 { lm_lsums(ls, a - 1, a - 1); }
}
/// a finished level
proof fn lm_level(a: Seq<Link>, b: Seq<Link>, n: int, d: int)
    requires n >= 2, a.len() + b.len() >= 2, b.len() >= 1,
    ensures
        lfin(a, b, n, d) =~= gs(b, n) + lfin(Seq::empty(), a + lup(b, n, d), n, d + 1),
        lfin_root(a, b, n, d) == lfin_root(Seq::empty(), a + lup(b, n, d), n, d + 1),
{
    reveal(lfin); reveal(lfin_root); reveal(ltops); reveal(ltop); 
    let c = a + lup(b, n, d);
    lm_chunk(b, n);
    lm_chunk(c, n);
    assert(Seq::<Link>::empty() + lup(c, n, d + 1) =~= lup(c, n, d + 1));
    assert(Seq::<Link>::empty() + c =~= c);
}
/// trusted: a Vec has at most isize::MAX bytes
#[verifier::external_body]
fn v_links_bound(v: &Vec<Link>)
    ensures v@.len() <= 0x1000_0000_0000_0000
{}
#[verifier::external_body]
fn v_drain(v: &mut Vec<Link>, a: usize, b: usize)
    requires a <= b <= old(v)@.len(),
    ensures final(v)@ == old(v)@.take(a as int) + old(v)@.skip(b as int)
{ v.drain(a..b); }
#[verifier::external_body]
fn v_take<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@.len() == 0
{ core::mem::take(v) }
#[verifier::external_body]
fn v_capacity<T>(v: &Vec<T>) -> usize { v.capacity() }
impl BalancedCollector {
    pub closed spec fn bf(self) -> int { self.branching_factor as int }
}
impl Collector {
    pub open spec fn bf(self) -> int { match self { Collector::Balanced(b) => b.bf() } }
}
}
@fn BalancedCollector::flush_links props=C01,C02,C03,C04
@attrs #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@ret r
@spec
    requires
        old(self).bf() >= 2,
        old(self).bf() <= 0x1000_0000_0000_0000,
        exists|k: int| two(old(pending)@, k),
        forall|k: int| #[trigger] two(old(pending)@, k) ==> {
            let a = old(pending)@.take(k);
            let b = old(pending)@.skip(k);
            if finishing { lall_fit(lfin(a, b, old(self).bf(), 0)) } else { b.len() <= old(self).bf() + 1 && lall_fit(chunk(b, old(self).bf()).0) }
        },
    ensures
        final(self).bf() == old(self).bf(),
        forall|k: int| #[trigger] two(old(pending)@, k) ==> {
            let a = old(pending)@.take(k);
            let b = old(pending)@.skip(k);
            let n = old(self).bf();
            if finishing {
                &&& final(pending)@ =~= seq![lfin_root(a, b, n, 0)] // [C01 C03]
                &&& sp_out(r@) =~= lblocks(lfin(a, b, n, 0)) // [C01 C02 C03 C04]
            } else {
                &&& final(pending)@ =~= a + lnodes(chunk(b, n).0, 1) + chunk(b, n).1 // [C01 C02 C03]
                &&& sp_out(r@) =~= lblocks(chunk(b, n).0) // [C01 C02 C03 C04]
            }
        },
@proof start
let ghost p0 = pending@;
let ghost k0 = choose|k: int| two(p0, k);
let ghost a0 = p0.take(k0);
let ghost b0 = p0.skip(k0);
let ghost n = self.bf();
let ghost goal = if finishing { lfin(a0, b0, n, 0) } else { chunk(b0, n).0 };
let ghost root = lfin_root(a0, b0, n, 0);
let ghost mut la = a0;
let ghost mut lb = b0;
let ghost mut done: Seq<Seq<Link>> = Seq::empty();
let ghost n0 = p0.len() as int;
v_links_bound(pending);
proof {
    assert(a0 + b0 =~= p0);
    assert(sp_out(Seq::<(Cid, Vec<u8>)>::empty()) =~= lblocks(done));
    assert(done + goal =~= goal);
    lm_chunk(b0, n);
}
@proof before self . reused_links = reused_links ;
proof {
    assert forall|k: int| #[trigger] two(p0, k) implies k == k0 by { lm_two(p0, k, k0); }
}
@proof after let ( cid , vec ) = render_and_hash ( & inner ) ;
proof {
    assert(lview(g).links =~= sp_vflat(inner).links);
    assert(lview(g).blocksizes =~= sp_vflat(inner).blocksizes);
    assert(lview(g) == sp_vflat(inner));
    assert(vec@ == lblock(g));
}
@replace 2
core :: mem :: take ( & mut $x )
@with
v_take(&mut $x)
@replace
checked_sub ( reused_links . capacity ( ) )
@with
checked_sub(v_capacity(&reused_links))
@replace
checked_sub ( reused_blocksizes . capacity ( ) )
@with
checked_sub(v_capacity(&reused_blocksizes))
@replace
'outer : for level in 0 .. { $$body }
@with
let mut level: usize = 0;
'outer: loop
    invariant_except_break
        pending@ =~= la + lb,
        ldepth(la, level + 1),
        ldepth(lb, level as int),
        lb.len() >= 1,
        !finishing ==> level == 0 && la == a0 && lb == b0 && done.len() == 0,
        finishing ==> goal =~= done + lfin(la, lb, n, level as int) && root == lfin_root(la, lb, n, level as int),
        level + pending@.len() <= n0 + 1,
        pending@.len() <= n0,
        level > 0 ==> la.len() == 0,
        sp_out(ret@) =~= lblocks(done),
    invariant
        self.branching_factor as int == n,
        2 <= n <= 0x1000_0000_0000_0000,
        n0 <= 0x1000_0000_0000_0000,
        lall_fit(goal),
        !finishing ==> goal == chunk(b0, n).0 && b0.len() <= n + 1 && b0.len() >= 1,
    ensures
        finishing ==> pending@ =~= seq![root],
        !finishing ==> pending@ =~= a0 + lnodes(goal, 1) + chunk(b0, n).1,
        sp_out(ret@) =~= lblocks(goal),
    decreases pending@.len() + (if level == 0 { 1int } else { 0int })
{
    proof {
        lm_chunk(lb, n);
        if finishing && la.len() + lb.len() <= 1 {
            reveal(lfin); reveal(lfin_root);
            assert(la + lb =~= lb);
            assert(done + Seq::<Seq<Link>>::empty() =~= done);
        }
        if !finishing && lb.len() <= n {
            assert(goal =~= done);
            assert(a0 + lnodes(goal, 1) + chunk(b0, n).1 =~= a0 + b0);
        }
    }
    $body
    level += 1;
}
@replace
while let Some ( mut first_at ) = & pending [ starting_point .. ] . iter ( ) . position ( | Link { depth , .. } | $p ) { $$b }
@with
let ghost mut s: int = 0;
proof {
    assert(gs(lb.take(0), n) =~= Seq::empty()) by { lm_chunk(lb.take(0), n); }
    assert(done + Seq::<Seq<Link>>::empty() =~= done);
}
loop
    invariant_except_break
        pending@.len() == la.len() + lb.len(),
        cut_at(lb, s, n),
        s == 0 ==> starting_point == 0 && last_overwrite is None,
        s > 0 ==> starting_point == la.len() + s && last_overwrite == Some((la.len() + gs(lb.take(s), n).len() - 1) as usize),
        0 <= gs(lb.take(s), n).len() <= s,
        s > 0 ==> gs(lb.take(s), n).len() > 0,
        forall|i: int| la.len() + s <= i < pending@.len() ==> #[trigger] pending@[i] == lb[i - la.len()],
        pending@.take((la.len() + gs(lb.take(s), n).len()) as int) =~= la + lnodes(gs(lb.take(s), n), level + 1),
        sp_out(ret@) =~= lblocks(done + gs(lb.take(s), n)),
        !finishing ==> s == 0 || (s == n && lb.len() == n + 1),
    invariant
        self.branching_factor as int == n,
        2 <= n <= 0x1000_0000_0000_0000,
        n0 <= 0x1000_0000_0000_0000,
        lall_fit(goal),
        !finishing ==> goal == chunk(b0, n).0 && b0.len() <= n + 1 && b0.len() >= 1,
        lb.len() >= 1,
        la.len() + lb.len() <= n0,
        level <= n0,
        ldepth(la, level + 1),
        ldepth(lb, level as int),
        !finishing ==> level == 0 && la == a0 && lb == b0 && done.len() == 0,
        finishing ==> goal =~= done + lfin(la, lb, n, level as int) && la.len() + lb.len() >= 2,
        gs(lb, n).len() <= lb.len(),
    ensures
        s == lb.len(),
        pending@.len() == la.len() + lb.len(),
        s > 0 ==> last_overwrite == Some((la.len() + gs(lb, n).len() - 1) as usize),
        pending@.take((la.len() + gs(lb, n).len()) as int) =~= la + lnodes(gs(lb, n), level + 1),
        sp_out(ret@) =~= lblocks(done + gs(lb, n)),
        finishing,
    decreases lb.len() - s
{
    let mut v_i: usize = starting_point;
    let mut v_found: Option<usize> = None;
    while v_i < pending.len() && v_found.is_none()
        invariant
            starting_point <= v_i <= pending@.len(),
            forall|i: int| starting_point <= i < v_i && v_found is None ==> (#[trigger] pending@[i]).depth != level,
            v_found matches Some(f) ==> starting_point + f < pending@.len() && pending@[starting_point + f].depth == level && (forall|i: int| starting_point <= i < starting_point + f ==> (#[trigger] pending@[i]).depth != level),
        decreases pending@.len() - v_i, (if v_found is None { 1int } else { 0int })
    {
        let Link { depth, .. } = &pending[v_i];
        if $p { v_found = Some(v_i - starting_point); }
        v_i += 1;
    }
    match v_found {
        None => {
            proof {
                if s < lb.len() {
                    assert(pending@[la.len() + s] == lb[s]);
                    assert(lb[s].depth == level);
                }
                assert(lb.take(lb.len() as int) =~= lb);
                if !finishing { assert(false); }
            }
            break;
        }
        Some(v_f) => {
            let mut first_at = v_f;
            proof {
                if s < lb.len() {
                    assert(pending@[la.len() + s] == lb[s]);
                    assert(lb[s].depth == level);
                }
                if s == 0 {
                    assert forall|i: int| 0 <= i < la.len() implies (#[trigger] pending@[i]).depth == level + 1 by {
                        assert(pending@[i] == pending@.take((la.len() + gs(lb.take(s), n).len()) as int)[i]);
                        assert(la[i].depth == level + 1);
                    }
                }
                assert(first_at + starting_point == la.len() + s);
                if !finishing && lb.len() - s <= n {
                    assert(lb.take(lb.len() as int) =~= lb);
                    if s == 0 {
                        lm_chunk(b0, n);
                        assert(goal.len() == 0);
                        assert(goal =~= done + gs(lb.take(s), n));
                    } else {
                        lm_cut_step(lb, s, n);
                        lm_cut_prefix(lb, s, n);
                        assert(goal =~= done + gs(lb.take(s), n));
                    }
                }
                lm_cut_step(lb, s, n);
            }
            let ghost e = if s + n <= lb.len() { s + n } else { lb.len() as int };
            let ghost q0 = pending@;
            let ghost r0 = ret@;
            proof {
                if finishing || lb.len() - s > n {
                    lm_cut_prefix(lb, e, n);
                    let m = gs(lb.take(s), n).len() as int;
                    let g = lb.subrange(s, e);
                    assert(gs(lb.take(e), n)[m] == g);
                    assert(gs(lb, n).take(m + 1)[m] == gs(lb, n)[m]);
                    if finishing {
                        lm_level(la, lb, n, level as int);
                        assert(lfin(la, lb, n, level as int)[m] == g);
                        assert(goal[done.len() + m] == g);
                    } else {
                        assert(s == 0 && m == 0 && e == n);
                        lm_cut_step(lb, n, n);
                        assert(lb.take(lb.len() as int) =~= lb);
                        assert(chunk(lb, n).0 == gs(lb.take(n), n));
                        assert(goal[0] == g);
                    }
                    assert(lfits(g));
                }
            }
            $b
            proof {
                let m = gs(lb.take(s), n).len() as int;
                assert(ret@.drop_last() =~= r0);
                assert(ret@.last().1@ == lblock(g));
                assert(sp_out(ret@) =~= sp_out(r0).push((sp_block_cid(lblock(g)), lblock(g))));
                let m1 = (la.len() + m) as int;
                assert(index == m1);
                assert(pending@[index as int] == lnode(g, level + 1));
                assert(q0.take(m1) =~= la + lnodes(gs(lb.take(s), n), level + 1));
                assert(pending@.take(m1 + 1) =~= q0.take(m1).push(lnode(g, level + 1)));
                assert(done + gs(lb.take(e), n) =~= (done + gs(lb.take(s), n)).push(g));
                assert(gs(lb.take(e), n) == gs(lb.take(s), n).push(g));
                s = e;
            }
        }
    }
}
@replace any
pending [ first_at .. ] . len ( )
@with
(pending.len() - first_at)
@replace
pending . drain ( ( last_overwrite + 1 ) .. first_at ) ;
@with
v_drain(pending, last_overwrite + 1, first_at);
@replace
for ( index , link ) in pending [ first_at .. last ] . iter ( ) . enumerate ( ) { $$b }
@with
let ghost g = lb.subrange(s, s + (last - first_at));
for index in v_it: 0..(last - first_at)
    invariant
        lfits(g),
        g.len() == last - first_at,
        first_at <= last <= pending@.len(),
        first_at == la.len() + s,
        0 <= s, s + g.len() <= lb.len(),
        g == lb.subrange(s, s + (last - first_at)),
        ldepth(lb, level as int),
        forall|i: int| la.len() + s <= i < pending@.len() ==> #[trigger] pending@[i] == lb[i - la.len()],
        reused_links@.len() == index,
        forall|i: int| 0 <= i < index ==> sp_vlink(#[trigger] reused_links@[i]) == sp_link_view(g[i]),
        reused_blocksizes@ =~= Seq::new(index as nat, |i: int| g[i].file_size),
        nested_size == lsize(g, index as int),
        nested_total_size == ltotal(g, index as int),
{
    proof { lm_lsums(g, index + 1, g.len() as int); }
    let link = &pending[first_at + index];
    $b
    proof { assert(g[index as int] == lb[s + index]); }
}
@replace
.. Default :: default ( )
@with
..crate::pb::v_unixfs_default()
@replace any
last_overwrite . map ( | $i | $e ) . unwrap_or ( $d )
@with
(match last_overwrite { Some($i) => $e, None => $d })
@replace
pending [ index ] = $v ;
@with
pending.set(index, $v);
@replace
debug_assert_eq ! ( pending . iter ( ) . position ( $p ) , None , $$m ) ;
@with
proof {
    assert(forall|i: int| 0 <= i < pending@.len() ==> (#[trigger] pending@[i]).depth != level);
    lm_level(la, lb, n, level as int);
    let ghost nodes = lnodes(gs(lb, n), level + 1);
    assert(pending@ =~= la + nodes);
    done = done + gs(lb, n);
    lb = pending@;
    la = Seq::empty();
}
@append
verus! {
pub open spec fn leaves(chs: Seq<Seq<u8>>) -> Seq<GT> { Seq::new(chs.len(), |i: int| GT::Leaf(chs[i])) }
pub(crate) closed spec fn llinks(chs: Seq<Seq<u8>>) -> Seq<Link> { sp_links(leaves(chs)) }
pub(crate) closed spec fn k_of(p: Seq<Link>) -> int { if p.len() == 0 { 0 } else { choose|k: int| two(p, k) } }
pub(crate) closed spec fn a_of(p: Seq<Link>) -> Seq<Link> { p.take(k_of(p)) }
pub(crate) closed spec fn b_of(p: Seq<Link>) -> Seq<Link> { p.skip(k_of(p)) }
impl FileAdder {
    pub(crate) closed spec fn links(self) -> Seq<Link> { self.unflushed_links@ }
    pub closed spec fn buf(self) -> Seq<u8> { self.block_buffer@ }
    pub closed spec fn max(self) -> int { self.chunker.max() }
    pub closed spec fn bf(self) -> int { self.collector.bf() }
    /// states which can be reached
    pub closed spec fn wf(self) -> bool {
        &&& self.max() >= 1
        &&& 2 <= self.bf() <= 0x1000_0000_0000_0000
        &&& self.buf().len() < self.max()
        &&& self.links().len() > 0 ==> (exists|k: int| two(self.links(), k)) && b_of(self.links()).len() <= self.bf()
    }
    /// the sizes of the next node can be written down
    pub closed spec fn room(self) -> bool { b_of(self.links()).len() == self.bf() ==> lfits(b_of(self.links())) }
    pub(crate) closed spec fn last_links(self) -> Seq<Link> {
        if self.buf().len() > 0 || self.links().len() == 0 { self.links().push(sp_link(GT::Leaf(self.buf()))) } else { self.links() }
    }
    pub closed spec fn room_to_finish(self) -> bool {
        let p = self.last_links();
        lall_fit(lfin(a_of(p), b_of(p), self.bf(), 0))
    }
    /// a push which has taken `x`
    pub closed spec fn pushed(self, x: Seq<u8>, after: FileAdder, out: Seq<(Cid, Seq<u8>)>) -> bool {
        &&& after.max() == self.max()
        &&& after.bf() == self.bf()
        &&& if self.buf().len() + x.len() < self.max() {
                &&& after.links() == self.links()
                &&& after.buf() =~= self.buf() + x
                &&& out =~= Seq::empty()
            } else {
                let t = GT::Leaf(self.buf() + x);
                let b = b_of(self.links());
                &&& after.buf() =~= Seq::empty()
                &&& if b.len() < self.bf() {
                        &&& after.links() =~= self.links().push(sp_link(t))
                        &&& out =~= sp_blocks(seq![t])
                    } else {
                        &&& after.links() =~= a_of(self.links()).push(lnode(b, 1)).push(sp_link(t))
                        &&& out =~= sp_blocks(seq![t]) + lblocks(seq![b])
                    }
            }
    }
    pub closed spec fn finished(self, out: Seq<(Cid, Seq<u8>)>) -> bool {
        let p = self.last_links();
        out =~= (if self.buf().len() > 0 || self.links().len() == 0 { sp_blocks(seq![GT::Leaf(self.buf())]) } else { Seq::empty() })
            + lblocks(lfin(a_of(p), b_of(p), self.bf(), 0))
    }
}
proof fn lm_of(p: Seq<Link>, k: int)
    requires two(p, k),
    ensures k_of(p) == k, two(p, k_of(p)), a_of(p) + b_of(p) =~= p, b_of(p).len() >= 1, a_of(p) == p.take(k), b_of(p) == p.skip(k)
{
    lm_two(p, k, k_of(p));
}
/// one more leaf
proof fn lm_of_push(p: Seq<Link>, x: Link)
    requires p.len() == 0 || exists|k: int| two(p, k), x.depth == 0,
    ensures
        two(p.push(x), k_of(p)), k_of(p.push(x)) == k_of(p), a_of(p.push(x)) =~= a_of(p), b_of(p.push(x)) =~= b_of(p).push(x),
{
    let q = p.push(x);
    let k = k_of(p);
    if p.len() > 0 { lm_of(p, choose|k: int| two(p, k)); }
    assert(0 <= k <= p.len());
    assert(q.take(k) =~= p.take(k));
    assert(q.skip(k) =~= p.skip(k).push(x));
    assert forall|i: int| 0 <= i < q.skip(k).len() implies (#[trigger] q.skip(k)[i]).depth == 0 by {
        if i < p.skip(k).len() { assert(q.skip(k)[i] == p.skip(k)[i]); }
    }
    assert(two(q, k));
    lm_of(q, k);
}
/// a node for the leaves before the last one
proof fn lm_of_node(p: Seq<Link>, n: Link, x: Link)
    requires x.depth == 0, n.depth == 1, p.len() == 0 || exists|k: int| two(p, k),
    ensures two(a_of(p).push(n).push(x), k_of(p) + 1), k_of(a_of(p).push(n).push(x)) == k_of(p) + 1, b_of(a_of(p).push(n).push(x)) =~= seq![x], a_of(a_of(p).push(n).push(x)) =~= a_of(p).push(n),
{
    let q = a_of(p).push(n).push(x);
    if p.len() > 0 { lm_of(p, choose|k: int| two(p, k)); }
    let k = k_of(p) + 1;
    assert(q.take(k) =~= a_of(p).push(n));
    assert(q.skip(k) =~= seq![x]);
    assert forall|i: int| 0 <= i < q.take(k).len() implies (#[trigger] q.take(k)[i]).depth == 1 by {
        if i < k - 1 { assert(q.take(k)[i] == p.take(k - 1)[i]); }
    }
    lm_of(q, k);
}
}
@fn FileAdder::size_hint props=C02
@ret r
@spec
    ensures r == self.max(), // [C02]
@fn FileAdder::flush_buffered_leaf props=C01,C02,C03,C04
@ret r
@spec
    ensures
        r is None == (input@.len() == 0 && (!finishing || old(unflushed_links)@.len() > 0)), // [C01 C02]
        r is None ==> final(unflushed_links)@ == old(unflushed_links)@,
        r matches Some((cid, block)) ==> {
            &&& block@ == tr_block(GT::Leaf(input@)) // [C01 C02 C03]
            &&& cid == tr_cid(GT::Leaf(input@)) // [C04]
            &&& final(unflushed_links)@ =~= old(unflushed_links)@.push(sp_link(GT::Leaf(input@))) // [C01 C03]
        },
@replace
.. Default :: default ( )
@with
..crate::pb::v_unixfs_default()
@proof after let ( cid , vec ) = render_and_hash ( & inner ) ;
proof {
    let v = tr_view(GT::Leaf(input@));
    assert(sp_vflat(inner).links =~= v.links);
    assert(sp_vflat(inner).blocksizes =~= v.blocksizes);
    assert(sp_vflat(inner) == v);
}
@fn Collector::flush_links props=C01,C02,C03,C04
@ret r
@spec
    requires
        old(self).bf() >= 2,
        old(self).bf() <= 0x1000_0000_0000_0000,
        exists|k: int| two(old(pending)@, k),
        forall|k: int| #[trigger] two(old(pending)@, k) ==> {
            let a = old(pending)@.take(k);
            let b = old(pending)@.skip(k);
            if finishing { lall_fit(lfin(a, b, old(self).bf(), 0)) } else { b.len() <= old(self).bf() + 1 && lall_fit(chunk(b, old(self).bf()).0) }
        },
    ensures
        final(self).bf() == old(self).bf(),
        forall|k: int| #[trigger] two(old(pending)@, k) ==> {
            let a = old(pending)@.take(k);
            let b = old(pending)@.skip(k);
            let n = old(self).bf();
            if finishing {
                &&& final(pending)@ =~= seq![lfin_root(a, b, n, 0)] // [C01 C03]
                &&& sp_out(r@) =~= lblocks(lfin(a, b, n, 0)) // [C01 C02 C03 C04]
            } else {
                &&& final(pending)@ =~= a + lnodes(chunk(b, n).0, 1) + chunk(b, n).1 // [C01 C02 C03]
                &&& sp_out(r@) =~= lblocks(chunk(b, n).0) // [C01 C02 C03 C04]
            }
        },
@fn FileAdder::flush_buffered_links props=C01,C02,C03,C04
@ret r
@spec
    requires
        2 <= old(self).bf() <= 0x1000_0000_0000_0000,
        exists|k: int| two(old(self).links(), k),
        finishing ==> lall_fit(lfin(a_of(old(self).links()), b_of(old(self).links()), old(self).bf(), 0)),
        !finishing ==> b_of(old(self).links()).len() <= old(self).bf() + 1 && lall_fit(chunk(b_of(old(self).links()), old(self).bf()).0),
    ensures
        final(self).bf() == old(self).bf(),
        final(self).max() == old(self).max(),
        final(self).buf() == old(self).buf(),
        ({
            let a = a_of(old(self).links());
            let b = b_of(old(self).links());
            let n = old(self).bf();
            if finishing {
                &&& final(self).links() =~= seq![lfin_root(a, b, n, 0)] // [C01 C03]
                &&& sp_out(r@) =~= lblocks(lfin(a, b, n, 0)) // [C01 C02 C03 C04]
            } else {
                &&& final(self).links() =~= a + lnodes(chunk(b, n).0, 1) + chunk(b, n).1 // [C01 C02 C03]
                &&& sp_out(r@) =~= lblocks(chunk(b, n).0) // [C01 C02 C03 C04]
            }
        }),
@proof start
proof {
    let p = self.links();
    assert forall|k: int| #[trigger] two(p, k) implies k == k_of(p) by { lm_of(p, k); }
}
@fn FileAdder::push props=C01,C02,C03,C04,C07
@ret r
@spec
    requires old(self).wf(), old(self).room(),
    ensures
        r.1 == sp_least(input@.len() as int, old(self).max() - old(self).buf().len()), // [C02]
        old(self).pushed(input@.take(r.1 as int), *final(self), sp_out(crate::sp_rem(r.0))), // [C01 C02 C03 C04]
        crate::sp_usual(r.0), // [C01 C02 C03 C04]
        final(self).wf(),
@replace any
leaf . into_iter ( ) . chain ( links . into_iter ( ) )
@with
{ proof { lm_out(leaf, links@); } crate::v_chain(leaf, links) }
@replace
self . block_buffer . capacity ( )
@with
v_capacity(&self.block_buffer)
@proof start
let ghost v_0 = *self;
proof { lm_chunk(b_of(v_0.links()), v_0.bf()); }
@proof before let links = self . flush_buffered_links ( false ) ; ( {
proof {
    assert(v_0.buf() + accepted@ =~= accepted@);
    lm_push_step(v_0, GT::Leaf(v_0.buf() + accepted@), self.links());
}
@proof after self . block_buffer . extend_from_slice ( accepted ) ;
proof { assert(self.block_buffer@ =~= v_0.buf() + accepted@); }
@proof before let links = self . flush_buffered_links ( false ) ; ( leaf , links )
proof { lm_push_step(v_0, GT::Leaf(v_0.buf() + accepted@), self.links()); }
@append
verus! {
/// the links after one more leaf and the flush which follows
proof fn lm_out(leaf: Option<(Cid, Vec<u8>)>, links: Seq<(Cid, Vec<u8>)>)
    ensures
        sp_out((match leaf { None => Seq::empty(), Some(x) => seq![x] }) + links) =~= (match leaf { None => Seq::empty(), Some(x) => seq![(x.0, x.1@)] }) + sp_out(links),
        forall|t: GT| (#[trigger] sp_blocks(seq![t])) =~= seq![(tr_cid(t), tr_block(t))],
        lblocks(Seq::empty()) =~= Seq::empty(),
{}
proof fn lm_push_step(v: FileAdder, t: GT, p: Seq<Link>)
    requires v.wf(), v.room(), p == v.links().push(sp_link(t)), t is Leaf,
    ensures
        exists|k: int| two(p, k),
        b_of(p).len() <= v.bf() + 1,
        lall_fit(chunk(b_of(p), v.bf()).0),
        ({
            let b = b_of(v.links());
            let q = a_of(p) + lnodes(chunk(b_of(p), v.bf()).0, 1) + chunk(b_of(p), v.bf()).1;
            &&& b.len() < v.bf() ==> q =~= p && chunk(b_of(p), v.bf()).0.len() == 0
            &&& b.len() >= v.bf() ==> q =~= a_of(v.links()).push(lnode(b, 1)).push(sp_link(t)) && chunk(b_of(p), v.bf()).0 =~= seq![b]
            &&& exists|k: int| two(q, k)
            &&& b_of(q).len() <= v.bf()
        }),
{
    let l = v.links();
    let x = sp_link(t);
    let n = v.bf();
    let b = b_of(l);
    assert(x.depth == 0);
    lm_of_push(l, x);
    lm_of(p, k_of(l));
    lm_chunk(b, n);
    lm_chunk(b_of(p), n);
    if b.len() < n {
        assert(lnodes(chunk(b_of(p), n).0, 1) =~= Seq::empty());
    } else {
        lm_chunk_next(b, seq![x], n);
        assert(b + seq![x] =~= b_of(p));
        assert(gs(b, n) =~= seq![b]);
        lm_of_node(l, lnode(b, 1), x);
    }
}
}
@fn FileAdder::finish props=C01,C02,C03,C04,C07
@ret r
@spec
    requires self.wf(), self.room_to_finish(),
    ensures
        self.finished(sp_out(crate::sp_rem(r))), // [C01 C02 C03 C04]
        crate::sp_usual(r), // [C01 C02 C03 C04]
@replace
last_leaf . into_iter ( ) . chain ( root_links . into_iter ( ) )
@with
{ proof { lm_out(last_leaf, root_links@); } crate::v_chain(last_leaf, root_links) }
@proof before let root_links
proof {
    assert(v_self.links() =~= self.last_links());
    if self.links().len() > 0 { lm_of(self.links(), choose|k: int| two(self.links(), k)); }
    lm_of_push(self.links(), sp_link(GT::Leaf(self.buf())));
    if self.links().len() > 0 { assert(two(self.links(), k_of(self.links()))); }
}
@fn BalancedCollector::with_branching_factor props=C03
@ret r
@spec
    requires branching_factor > 0,
    ensures r.bf() == branching_factor, // [C03]
@fn FileAdderBuilder::with_chunker props=C02,C03
@ret r
@spec
    ensures r.chunker() == chunker, r.collector() == self.collector(), // [C02 C03]
@type FileAdderBuilder
@append
verus! {
impl FileAdderBuilder {
    pub closed spec fn chunker(self) -> Chunker { self.chunker }
    pub closed spec fn collector(self) -> Collector { self.collector }
}
#[verifier::external_body]
fn v_adder_default() -> (r: FileAdder)
    ensures r.links().len() == 0, r.buf().len() == 0
{ FileAdder::default() }
}
@fn FileAdderBuilder::build props=C01,C02,C03
@ret r
@spec
    ensures
        r.max() == self.chunker().max(), // [C02 C03]
        r.bf() == self.collector().bf(), // [C02 C03]
        r.starts(), // [C01 C02]
@replace
.. Default :: default ( )
@with
..v_adder_default()
@append
verus! {
impl FileAdder {
    pub closed spec fn starts(self) -> bool { self.links().len() == 0 && self.buf().len() == 0 }
}
}
