@note The encoder of directories, the rendering of a directory, and symlinks.
@file src/symlink.rs
@append
verus! {
use crate::pb::{VFlat, sp_enc, sp_vflat};
/// a symlink
pub open spec fn sp_symlink(target: Seq<u8>) -> VFlat {
    VFlat {
        ty: UnixFsType::Symlink, data: Some(target), filesize: None, blocksizes: Seq::empty(),
        hash_type: None, fanout: None, mode: None, mtime: None, links: Seq::empty(),
    }
}
/// reading a symlink's block gives the target
pub proof fn lm_symlink(target: Seq<u8>)
    requires sp_enc(sp_symlink(target)).len() < 0x8000_0000,
    ensures ({
        let b = sp_enc(sp_symlink(target));
        &&& crate::pb::sp_flat(b) is Some
        &&& crate::pb::sp_flat(b)->0.data.Type == UnixFsType::Symlink // [C15]
        &&& crate::pb::sp_flat(b)->0.data.Data is Some
        &&& crate::pb::sp_flat(b)->0.data.Data->0@ == target // [C15]
        &&& crate::pb::sp_flat(b)->0.links@.len() == 0 // [C15]
    })
{
    broadcast use crate::pb::ax_enc;
    let f = crate::pb::sp_flat(sp_enc(sp_symlink(target)))->0;
    assert(sp_vflat(f) == sp_symlink(target));
    assert(sp_vflat(f).links.len() == f.links@.len());
}
}
@fn serialize_symlink_block props=C08,C15
@spec
    ensures
        final(block_buffer)@ == old(block_buffer)@ + sp_enc(sp_symlink(crate::sp_bytes(target_path))), // [C08 C15]
@replace
.. Default :: default ( )
@with
..crate::pb::v_unixfs_default()
@replace
let mut writer = Writer :: new ( $b ) ; node . write_message ( & mut writer ) . expect ( $x ) ;
@with
proof { assert(sp_vflat(node) == sp_symlink(crate::sp_bytes(target_path))) by { assert(sp_vflat(node).links =~= Seq::empty()); assert(sp_vflat(node).blocksizes =~= Seq::empty()); } }
crate::pb::v_write_flat(&node, $b);
@file src/dir/builder.rs
@type NamedLeaf wrap
@type Leaf
@type TreeConstructionFailed
@append
verus! {
use crate::pb::{VLink, VData};
pub(crate) closed spec fn sp_leaf_link(l: NamedLeaf) -> VLink { VLink { hash: Some(crate::pb::sp_cid_bytes(l.1)), name: Some(l.0@), tsize: Some(l.2) } }
pub(crate) closed spec fn sp_leaf_links(l: Seq<Option<NamedLeaf>>) -> Seq<VLink> { Seq::new(l.len(), |i: int| sp_leaf_link(l[i]->0)) }
pub(crate) closed spec fn sp_all_some(l: Seq<Option<NamedLeaf>>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Some }
}
@file src/dir/builder/custom_pb.rs
@type CustomFlatUnixFs
@type NamedLeafAsPBLink
@type WriteableCid
@append
verus! {
use crate::pb::*;
use crate::dir::builder::*;
use crate::{sp_rem, sp_usual};
#[verifier::external_type_specification]
pub struct ExVersion(Version);
/// the parts of an identifier
pub uninterp spec fn sp_cid_version<const S: usize>(c: libipld::cid::CidGeneric<S>) -> Version;
pub uninterp spec fn sp_cid_codec<const S: usize>(c: libipld::cid::CidGeneric<S>) -> u64;
pub uninterp spec fn sp_cid_hash(c: Cid) -> Seq<u8>;
pub assume_specification<const S: usize>[ libipld::cid::CidGeneric::<S>::version ](c: &libipld::cid::CidGeneric<S>) -> (r: Version)
    ensures r == sp_cid_version(*c);
pub assume_specification<const S: usize>[ libipld::cid::CidGeneric::<S>::codec ](c: &libipld::cid::CidGeneric<S>) -> (r: u64)
    ensures r == sp_cid_codec(*c);
#[verifier::external_body]
pub fn v_hash_bytes(c: &Cid) -> (r: Vec<u8>)
    ensures r@ == sp_cid_hash(*c)
{ c.hash().to_bytes() }
/// version 0 is the hash alone
pub open spec fn sp_cid_form(c: Cid) -> Seq<u8> {
    match sp_cid_version(c) {
        Version::V0 => sp_cid_hash(c),
        Version::V1 => seq![1u8] + sp_varint(sp_cid_codec(c) as nat) + sp_cid_hash(c),
    }
}
pub broadcast axiom fn ax_cid_form(c: Cid)
    ensures #[trigger] sp_cid_bytes(c) == sp_cid_form(c);
pub assume_specification<W: WriterBackend>[ quick_protobuf::Writer::<W>::write_u8 ](w: &mut quick_protobuf::Writer<W>, v: u8) -> (r: quick_protobuf::Result<()>)
    ensures sp_wrote(*old(w), *final(w), seq![v], r);
}
@dup MessageWrite@WriteableCid::get_size as=v_get_size priv props=C08
@ret r
@spec
    requires sp_cid_bytes(*self.0).len() <= usize::MAX,
    ensures r == sp_cid_bytes(*self.0).len(), // [C08]
@proof start
broadcast use ax_cid_form;
@replace
self . 0 . hash ( ) . to_bytes ( )
@with
v_hash_bytes(self.0)
@dup MessageWrite@WriteableCid::write_message as=v_write_message priv props=C08
@ret r
@spec
    ensures sp_wrote(*old(w), *final(w), sp_cid_bytes(*self.0), r), // [C08]
@proof start
broadcast use ax_cid_form;
@replace
self . 0 . hash ( ) . to_bytes ( ) . iter ( ) . try_for_each ( | b | $b )
@with
{
    let bytes = v_hash_bytes(self.0);
    let ghost o1 = sp_out(*w);
    let ghost r1 = sp_room(*w);
    proof { assert(o1 + bytes@.take(0) =~= o1); }
    for b in it: bytes.iter()
        invariant
            bytes@ == sp_cid_hash(*self.0),
            sp_cid_bytes(*self.0).len() <= sp_room(*old(w)) ==> {
                &&& sp_out(*w) == o1 + bytes@.take(it.index() as int)
                &&& sp_room(*w) == r1 - it.index()
                &&& bytes@.len() <= r1
            },
    {
        let ghost o2 = sp_out(*w);
        let ghost i = it.index() as int;
        $b?;
        proof { assert(bytes@.take(i + 1) =~= bytes@.take(i) + seq![bytes@[i]]); lm_assoc(o1, bytes@.take(i), seq![bytes@[i]]); }
    }
    proof {
        assert(bytes@.take(bytes@.len() as int) =~= bytes@);
        if sp_cid_bytes(*self.0).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_cid_bytes(*self.0)); }
    }
    Ok(())
}
@dup MessageWrite@NamedLeafAsPBLink::get_size as=v_get_size priv props=C08
@ret r
@spec
    requires sp_enc_link(sp_leaf_link(*self.0)).len() <= usize::MAX,
    ensures r == sp_enc_link(sp_leaf_link(*self.0)).len(), // [C08]
@proof start
proof { reveal(sp_fld_bytes); reveal(sp_fld_num); }
@replace
WriteableCid ( & ( self . 0 ) . 1 ) . get_size ( )
@with
WriteableCid(&(self.0).1).v_get_size()
@replace
( self . 0 ) . 0 . len ( )
@with
crate::v_str_len((self.0).0.as_str())
@dup MessageWrite@NamedLeafAsPBLink::write_message as=v_write_message priv props=C08
@ret r
@spec
    requires sp_enc_link(sp_leaf_link(*self.0)).len() <= usize::MAX,
    ensures sp_wrote(*old(w), *final(w), sp_enc_link(sp_leaf_link(*self.0)), r), // [C08]
@proof start
proof { reveal(sp_fld_bytes); }
@replace
w . write_with_tag ( $t , | w | w . write_message ( $m ) ) ?
@with
{ crate::pb::v_tag_len(w, $t, ($m).v_get_size(), Ghost(sp_cid_bytes(self.0.1)))?; ($m).v_write_message(w)?; }
@replace any
w . write_with_tag ( $t , | w | w . write_string ( $m ) )
@with
crate::pb::v_tag_string(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_uint64 ( $m ) )
@with
crate::pb::v_tag_num(w, $t, $m)
@proof before Ok ( ( ) )
proof { if sp_enc_link(sp_leaf_link(*self.0)).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_enc_link(sp_leaf_link(*self.0))); } }
@fn CustomFlatUnixFs::mapped props=C08
@ret r
@spec
    requires sp_all_some(self.links@),
    ensures sp_rem(r) =~= Seq::new(self.links@.len(), |i: int| NamedLeafAsPBLink(&self.links@[i]->0)), sp_usual(r), // [C08]
@replace
self . links . iter ( ) . map ( | triple | $b )
@with
{
    let mut v: Vec<NamedLeafAsPBLink<'_>> = Vec::new();
    for triple in it: self.links.iter()
        invariant
            sp_all_some(self.links@),
            v@ =~= Seq::new(it.index() as nat, |i: int| NamedLeafAsPBLink(&self.links@[i]->0)),
    {
        v.push($b);
    }
    v.into_iter()
}
@replace
. map ( NamedLeafAsPBLink )
@with
.map(|x: &'a NamedLeaf| -> (r: NamedLeafAsPBLink<'a>) ensures r.0 == x { NamedLeafAsPBLink(x) })
@dup MessageWrite@CustomFlatUnixFs::get_size as=v_get_size super props=C08
@ret r
@spec
    requires sp_all_some(self.links@), sp_enc_flat(sp_leaf_links(self.links@), sp_vdata(self.data)).len() <= usize::MAX,
    ensures r == sp_enc_flat(sp_leaf_links(self.links@), sp_vdata(self.data)).len(), // [C08]
@proof start
proof { lm_links_step(sp_leaf_links(self.links@), 0); reveal(sp_fld_bytes); }
@replace
self . mapped ( ) . map ( | link | $b ) . sum :: < usize > ( )
@with
({
    let mut n: usize = 0;
    let all = crate::v_collect(self.mapped());
    for link in it: all.iter()
        invariant
            n == sp_enc_links(sp_leaf_links(self.links@).take(it.index() as int)).len(), sp_enc_links(sp_leaf_links(self.links@)).len() <= usize::MAX,
            all@ =~= Seq::new(self.links@.len(), |i: int| NamedLeafAsPBLink(&self.links@[i]->0)),
    {
        proof { lm_links_step(sp_leaf_links(self.links@), it.index() as int); }
        n += $b;
    }
    proof { lm_links_step(sp_leaf_links(self.links@), self.links@.len() as int); }
    n
})
@replace
link . get_size ( )
@with
link.v_get_size()
@replace
self . data . get_size ( )
@with
self.data.v_get_size()
@dup MessageWrite@CustomFlatUnixFs::write_message as=v_write_message super props=C08
@ret r
@spec
    requires sp_all_some(self.links@), sp_enc_flat(sp_leaf_links(self.links@), sp_vdata(self.data)).len() <= usize::MAX,
    ensures sp_wrote(*old(w), *final(w), sp_enc_flat(sp_leaf_links(self.links@), sp_vdata(self.data)), r), // [C08]
@proof start
proof { reveal(sp_fld_bytes); }
@replace
self . mapped ( ) . try_for_each ( | l | $b ) ?
@with
{
    let all = crate::v_collect(self.mapped());
    let ghost o1 = sp_out(*w);
    let ghost r1 = sp_room(*w);
    proof { lm_links_step(sp_leaf_links(self.links@), 0); assert(o1 + Seq::<u8>::empty() =~= o1); }
    for lr in it: all.iter()
        invariant
            sp_enc_flat(sp_leaf_links(self.links@), sp_vdata(self.data)).len() <= sp_room(*old(w)) ==> {
                &&& sp_out(*w) == o1 + sp_enc_links(sp_leaf_links(self.links@).take(it.index() as int))
                &&& sp_room(*w) == r1 - sp_enc_links(sp_leaf_links(self.links@).take(it.index() as int)).len()
                &&& sp_enc_links(sp_leaf_links(self.links@)).len() <= r1
            },
            o1 == sp_out(*old(w)), r1 == sp_room(*old(w)), sp_enc_links(sp_leaf_links(self.links@)).len() <= usize::MAX,
            all@ =~= Seq::new(self.links@.len(), |i: int| NamedLeafAsPBLink(&self.links@[i]->0)),
    {
        let l = NamedLeafAsPBLink(lr.0);
        let ghost x = sp_enc_link(sp_leaf_links(self.links@)[it.index() as int]);
        proof {
            lm_links_step(sp_leaf_links(self.links@), it.index() as int);
            lm_assoc(o1, sp_enc_links(sp_leaf_links(self.links@).take(it.index() as int)), sp_fld_bytes(18, x));
        }
        let ghost w1 = sp_out(*w);
        $b?;
        proof {
            if sp_enc_flat(sp_leaf_links(self.links@), sp_vdata(self.data)).len() <= sp_room(*old(w)) { lm_assoc(w1, sp_varint(18) + sp_varint(x.len()), x); }
        }
    }
    proof { lm_links_step(sp_leaf_links(self.links@), sp_leaf_links(self.links@).len() as int); }
}
@replace
w . write_with_tag ( $t , | w | w . write_message ( & l ) )
@with
{ crate::pb::v_tag_len(w, $t, (l).v_get_size(), Ghost(x))?; (l).v_write_message(w) }
@replace
w . write_with_tag ( $t , | w | w . write_message ( & self . data ) )
@with
{
    crate::pb::v_tag_len(w, $t, (self.data).v_get_size(), Ghost(sp_enc_data(sp_vdata(self.data))))?;
    (self.data).v_write_message(w)?;
    proof { if sp_enc_flat(sp_leaf_links(self.links@), sp_vdata(self.data)).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_enc_flat(sp_leaf_links(self.links@), sp_vdata(self.data))); } }
    Ok(())
}
@file src/lib.rs
@append
verus! {
impl Metadata {
    pub closed spec fn sp_mode(self) -> Option<u32> { self.mode }
    pub closed spec fn sp_mtime(self) -> Option<(i64, u32)> { self.mtime }
}
/// what a directory with the metadata stores
pub open spec fn sp_dir_data(m: Metadata) -> crate::pb::VData {
    crate::pb::VData {
        ty: UnixFsType::Directory,
        mode: m.sp_mode(),
        mtime: match m.sp_mtime() {
            None => None,
            Some((s, n)) => Some(crate::pb::unixfs::UnixTime { Seconds: s, FractionalNanoseconds: if n == 0 { None } else { Some(n) } }),
        },
        ..crate::pb::sp_no_data()
    }
}
/// and what is read from it
pub proof fn lm_dir_metadata(d: UnixFs<'_>, m: Metadata)
    requires crate::pb::sp_vdata(d) == sp_dir_data(m),
    ensures sp_metadata(d) == m // [C14]
{}
}
@fn Metadata::mode props=C14
@ret r
@spec
    ensures r == self.sp_mode(), // [C14]
@fn Metadata::mtime props=C14
@ret r
@spec
    ensures r == self.sp_mtime(), // [C14]
@file src/dir/builder.rs
@append
verus! {
pub(crate) closed spec fn sp_leaf_total(l: Option<NamedLeaf>) -> u64 { match l { Some(NamedLeaf(_, _, n)) => n, None => 0 } }
pub(crate) open spec fn sp_totals(l: Seq<Option<NamedLeaf>>) -> int
    decreases l.len()
{
    if l.len() == 0 { 0 } else { sp_totals(l.drop_last()) + sp_leaf_total(l.last()) }
}
impl Leaf {
    pub closed spec fn sp_link(self) -> Cid { self.link }
    pub closed spec fn sp_total(self) -> u64 { self.total_size }
}
}
@file src/dir/builder/iter.rs
@append
verus! {
use crate::pb::*;
use crate::dir::builder::*;
/// the block of a directory
pub(crate) open spec fn sp_dir_block(l: Seq<Option<NamedLeaf>>, m: Metadata) -> Seq<u8> {
    sp_enc_flat(sp_leaf_links(l), crate::sp_dir_data(m))
}
pub(crate) proof fn lm_totals(l: Seq<Option<NamedLeaf>>, i: int)
    requires 0 <= i <= l.len(),
    ensures
        i < l.len() ==> sp_totals(l.take(i + 1)) == sp_totals(l.take(i)) + sp_leaf_total(l[i]),
        0 <= sp_totals(l.take(i)) <= sp_totals(l),
        i < l.len() ==> sp_totals(l.take(i + 1)) <= sp_totals(l),
        sp_totals(l.take(0)) == 0,
        l.take(l.len() as int) == l,
    decreases l.len() - i
{
    assert(l.take(l.len() as int) =~= l);
    assert(l.take(0) =~= Seq::empty());
    if i < l.len() {
        assert(l.take(i + 1).drop_last() =~= l.take(i));
        lm_totals(l, i + 1);
    }
    lm_totals_nonneg(l.take(i));
}
pub(crate) proof fn lm_totals_nonneg(l: Seq<Option<NamedLeaf>>)
    ensures sp_totals(l) >= 0
    decreases l.len()
{
    if l.len() > 0 { lm_totals_nonneg(l.drop_last()); }
}
/// quick_protobuf writes the message to the start of the buffer, as its contract says
#[verifier::external_body]
pub(super) fn v_write_dir(node: &CustomFlatUnixFs<'_>, buffer: &mut Vec<u8>) -> (r: quick_protobuf::Result<()>)
    requires sp_all_some(node.links@),
    ensures
        ({
            let x = sp_enc_flat(sp_leaf_links(node.links@), sp_vdata(node.data));
            x.len() <= old(buffer)@.len() ==> r is Ok && final(buffer)@ == x + old(buffer)@.skip(x.len() as int)
        }),
{
    use quick_protobuf::{BytesWriter, MessageWrite, Writer};
    let mut writer = Writer::new(BytesWriter::new(&mut buffer[..]));
    node.write_message(&mut writer)
}
#[verifier::external_body]
pub fn v_capacity(v: &Vec<u8>) -> (r: usize)
    ensures r >= v@.len()
{ v.capacity() }
#[verifier::external_body]
pub fn v_extend_zeroes(buffer: &mut Vec<u8>, n: usize)
    ensures final(buffer)@.len() == old(buffer)@.len() + n
{ buffer.extend(core::iter::repeat(0).take(n)) }
}
@fn PostOrderIterator::render_directory props=C04,C08,C10,C14
@ret r
@spec
    requires
        sp_all_some(links@),
        sp_dir_block(links@, *metadata).len() + sp_totals(links@) <= u64::MAX,
    ensures
        match r {
            Ok(leaf) => {
                &&& final(buffer)@ == sp_dir_block(links@, *metadata) // [C04 C08 C10 C14]
                &&& leaf.sp_link() == sp_block_cid(final(buffer)@) // [C04]
                &&& leaf.sp_total() == final(buffer)@.len() + sp_totals(links@) // [C10]
                &&& (*block_size_limit matches Some(l) ==> final(buffer)@.len() <= l) // [C10]
            },
            Err(TreeConstructionFailed::TooLargeBlock(n)) => {
                &&& *block_size_limit matches Some(l) && l < n // [C10]
                &&& n == sp_dir_block(links@, *metadata).len() // [C10]
            },
            Err(_) => false, // [C10]
        },
@replace
metadata . mtime ( ) . map ( | ( $a , $b ) | $c )
@with
(match metadata.mtime() { None => None, Some(($a, $b)) => Some($c) })
@replace
.. Default :: default ( )
@with
..crate::pb::v_unixfs_default()
@replace
node . get_size ( )
@with
node.v_get_size()
@replace any
buffer . capacity ( )
@with
v_capacity(buffer)
@replace
buffer . extend ( core :: iter :: repeat ( 0 ) . take ( $n ) )
@with
v_extend_zeroes(buffer, $n)
@replace
let mut writer = Writer :: new ( BytesWriter :: new ( & mut buffer [ .. ] ) ) ; node . write_message ( & mut writer ) . map_err ( $f ) ?
@with
v_write_dir(&node, buffer).map_err(|e: quick_protobuf::Error| -> (p: TreeConstructionFailed) { TreeConstructionFailed::Protobuf(e) })?
@replace
let mh = Code :: Sha2_256 . digest ( buffer ) ; let cid = Cid :: new_v1 ( DAG_PB , mh ) ;
@with
let cid = crate::pb::v_cid_sha2_256(DAG_PB, buffer);
@replace
links . iter ( ) . map ( | opt | { opt . as_ref ( ) . map ( | NamedLeaf ( $a , $b , $c ) | $d ) . unwrap ( ) } ) . sum :: < u64 > ( )
@with
{
    let mut n: u64 = 0;
    for opt in it: links.iter()
        invariant
            n == sp_totals(links@.take(it.index() as int)), sp_totals(links@) <= u64::MAX, sp_all_some(links@),
    {
        proof { lm_totals(links@, it.index() as int); }
        match opt.as_ref() { None => { crate::v_assert(false); }, Some(NamedLeaf($a, $b, $c)) => { n += *$d; } }
    }
    proof { lm_totals(links@, links@.len() as int); }
    n
}
@proof start
proof { lm_totals(links@, 0); }
@proof before let size = node . v_get_size ( ) ;
proof { assert(sp_vdata(node.data) == crate::sp_dir_data(*metadata)) by { assert(sp_vdata(node.data).blocksizes =~= Seq::empty()); } }
@loop 0
invariant needed_zeroes as int + buffer@.len() >= size, needed_zeroes as int + buffer@.len() <= usize::MAX,
decreases needed_zeroes
@proof after buffer . truncate ( size ) ;
proof { assert(buffer@ =~= sp_dir_block(links@, *metadata)); }
