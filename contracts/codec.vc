@note The wire format: what the generated encoders write and announce, and what the generated decoders read.
@file src/pb.rs
@append
verus! {
// quick_protobuf is not under contract: what its writer, its reader and its size functions do is assumed
#[verifier::external_trait_specification]
pub trait ExWriterBackend {
    type ExternalTraitSpecificationFor: quick_protobuf::WriterBackend;
}
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct ExWriter<W: WriterBackend>(quick_protobuf::Writer<W>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBytesReader(quick_protobuf::BytesReader);
/// base 128, the lowest first
pub open spec fn sp_varint(v: nat) -> Seq<u8>
    decreases v
{
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + sp_varint(v / 128) }
}
/// the lowest byte first
pub open spec fn sp_le32(v: u32) -> Seq<u8> {
    seq![(v % 256) as u8, (v / 256 % 256) as u8, (v / 65536 % 256) as u8, (v / 16777216) as u8]
}
#[verifier::opaque]
pub open spec fn sp_fld_bytes(tag: nat, s: Seq<u8>) -> Seq<u8> { sp_varint(tag) + sp_varint(s.len()) + s }
#[verifier::opaque]
pub open spec fn sp_fld_le32(tag: nat, v: u32) -> Seq<u8> { sp_varint(tag) + sp_le32(v) }
#[verifier::opaque]
pub open spec fn sp_fld_num(tag: nat, v: u64) -> Seq<u8> { sp_varint(tag) + sp_varint(v as nat) }
pub open spec fn sp_enc_link(l: VLink) -> Seq<u8> {
    (match l.hash { None => Seq::empty(), Some(h) => sp_fld_bytes(10, h) })
        + (match l.name { None => Seq::empty(), Some(n) => sp_fld_bytes(18, vstd::utf8::encode_utf8(n)) })
        + (match l.tsize { None => Seq::empty(), Some(t) => sp_fld_num(24, t) })
}
pub open spec fn sp_enc_links(l: Seq<VLink>) -> Seq<u8>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { sp_enc_links(l.drop_last()) + sp_fld_bytes(18, sp_enc_link(l.last())) }
}
pub open spec fn sp_enc_sizes(l: Seq<u64>) -> Seq<u8>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { sp_enc_sizes(l.drop_last()) + sp_fld_num(32, l.last()) }
}
pub open spec fn sp_opt_bytes(tag: nat, s: Option<Seq<u8>>) -> Seq<u8> { match s { None => Seq::empty(), Some(s) => sp_fld_bytes(tag, s) } }
pub open spec fn sp_opt_num(tag: nat, s: Option<u64>) -> Seq<u8> { match s { None => Seq::empty(), Some(s) => sp_fld_num(tag, s) } }
pub open spec fn sp_type_num(t: UnixFsType) -> int {
    match t {
        UnixFsType::Raw => 0,
        UnixFsType::Directory => 1,
        UnixFsType::File => 2,
        UnixFsType::Metadata => 3,
        UnixFsType::Symlink => 4,
        UnixFsType::HAMTShard => 5,
    }
}
/// the unixfs message of the node
#[verifier::opaque]
pub open spec fn sp_enc_data(v: VData) -> Seq<u8> {
    sp_fld_num(8, sp_type_num(v.ty) as u64)
        + sp_opt_bytes(18, v.data)
        + sp_opt_num(24, v.filesize)
        + sp_enc_sizes(v.blocksizes)
        + sp_opt_num(40, v.hash_type)
        + sp_opt_num(48, v.fanout)
        + sp_opt_num(56, match v.mode { None => None, Some(m) => Some(m as u64) })
        + sp_opt_bytes(66, match v.mtime { None => None, Some(t) => Some(sp_enc_time(t)) })
}
pub open spec fn sp_push_bytes(o: Seq<u8>, tag: nat, s: Option<Seq<u8>>) -> Seq<u8> { match s { None => o, Some(s) => o + sp_fld_bytes(tag, s) } }
pub open spec fn sp_push_num(o: Seq<u8>, tag: nat, s: Option<u64>) -> Seq<u8> { match s { None => o, Some(s) => o + sp_fld_num(tag, s) } }
pub open spec fn sp_push_data(o: Seq<u8>, v: VData) -> Seq<u8> {
    let o = o + sp_fld_num(8, sp_type_num(v.ty) as u64);
    let o = sp_push_bytes(o, 18, v.data);
    let o = sp_push_num(o, 24, v.filesize);
    let o = o + sp_enc_sizes(v.blocksizes);
    let o = sp_push_num(o, 40, v.hash_type);
    let o = sp_push_num(o, 48, v.fanout);
    let o = sp_push_num(o, 56, match v.mode { None => None, Some(m) => Some(m as u64) });
    sp_push_bytes(o, 66, match v.mtime { None => None, Some(t) => Some(sp_enc_time(t)) })
}
pub proof fn lm_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures (a + b) + c == a + (b + c)
{
    assert((a + b) + c =~= a + (b + c));
}
pub proof fn lm_push_opt(a: Seq<u8>, b: Seq<u8>, tag: nat, s: Option<Seq<u8>>, n: Option<u64>)
    ensures
        sp_push_bytes(a + b, tag, s) == a + (b + sp_opt_bytes(tag, s)),
        sp_push_num(a + b, tag, n) == a + (b + sp_opt_num(tag, n)),
{
    assert(b + Seq::<u8>::empty() =~= b);
    match s { None => {}, Some(s) => { lm_assoc(a, b, sp_fld_bytes(tag, s)); } }
    match n { None => {}, Some(n) => { lm_assoc(a, b, sp_fld_num(tag, n)); } }
}
#[verifier::spinoff_prover]
pub proof fn lm_push_data(o: Seq<u8>, v: VData)
    ensures sp_push_data(o, v) == o + sp_enc_data(v)
{
    let a = sp_fld_num(8, sp_type_num(v.ty) as u64);
    let b = a + sp_opt_bytes(18, v.data);
    let c = b + sp_opt_num(24, v.filesize);
    let d = c + sp_enc_sizes(v.blocksizes);
    let e = d + sp_opt_num(40, v.hash_type);
    let f = e + sp_opt_num(48, v.fanout);
    let g = f + sp_opt_num(56, match v.mode { None => None, Some(m) => Some(m as u64) });
    lm_push_opt(o, a, 18, v.data, None);
    lm_push_opt(o, b, 24, None, v.filesize);
    lm_assoc(o, c, sp_enc_sizes(v.blocksizes));
    lm_push_opt(o, d, 40, None, v.hash_type);
    lm_push_opt(o, e, 48, None, v.fanout);
    lm_push_opt(o, f, 56, None, match v.mode { None => None, Some(m) => Some(m as u64) });
    reveal(sp_enc_data);
    lm_push_opt(o, g, 66, match v.mtime { None => None, Some(t) => Some(sp_enc_time(t)) }, None);
}
pub open spec fn sp_data_len(v: VData) -> nat {
    sp_fld_num(8, sp_type_num(v.ty) as u64).len()
        + sp_opt_bytes(18, v.data).len()
        + sp_opt_num(24, v.filesize).len()
        + sp_enc_sizes(v.blocksizes).len()
        + sp_opt_num(40, v.hash_type).len()
        + sp_opt_num(48, v.fanout).len()
        + sp_opt_num(56, match v.mode { None => None, Some(m) => Some(m as u64) }).len()
        + sp_opt_bytes(66, match v.mtime { None => None, Some(t) => Some(sp_enc_time(t)) }).len()
}
pub proof fn lm_data_len(v: VData)
    ensures sp_enc_data(v).len() == sp_data_len(v)
{ reveal(sp_enc_data); }
pub struct VData {
    pub ty: UnixFsType, pub data: Option<Seq<u8>>, pub filesize: Option<u64>, pub blocksizes: Seq<u64>,
    pub hash_type: Option<u64>, pub fanout: Option<u64>, pub mode: Option<u32>, pub mtime: Option<unixfs::UnixTime>,
}
pub open spec fn sp_vdata(d: unixfs::Data<'_>) -> VData {
    VData {
        ty: d.Type,
        data: match d.Data { None => None, Some(d) => Some(d@) },
        filesize: d.filesize,
        blocksizes: d.blocksizes@,
        hash_type: d.hashType,
        fanout: d.fanout,
        mode: d.mode,
        mtime: d.mtime,
    }
}
pub open spec fn sp_obytes(d: Option<Cow<'_, [u8]>>) -> Option<Seq<u8>> { match d { None => None, Some(d) => Some(d@) } }
pub open spec fn sp_enc_flat(l: Seq<VLink>, d: VData) -> Seq<u8> { sp_enc_links(l) + sp_fld_bytes(10, sp_enc_data(d)) }
pub open spec fn sp_enc_node(l: Seq<VLink>, d: Option<Seq<u8>>) -> Seq<u8> { sp_enc_links(l) + sp_opt_bytes(10, d) }
pub open spec fn sp_enc_time(t: unixfs::UnixTime) -> Seq<u8> {
    sp_fld_num(8, t.Seconds as u64)
        + (match t.FractionalNanoseconds { None => Seq::empty(), Some(n) => sp_fld_le32(21, n) })
}
/// what was written so far
pub uninterp spec fn sp_out<W: WriterBackend>(w: quick_protobuf::Writer<W>) -> Seq<u8>;
/// how much can still be written
pub uninterp spec fn sp_room<W: WriterBackend>(w: quick_protobuf::Writer<W>) -> nat;
pub open spec fn sp_wrote<W: WriterBackend>(a: quick_protobuf::Writer<W>, b: quick_protobuf::Writer<W>, s: Seq<u8>, r: ProtobufResult<()>) -> bool {
    s.len() <= sp_room(a) ==> r is Ok && sp_out(b) == sp_out(a) + s && sp_room(b) == sp_room(a) - s.len()
}
#[verifier::external_body]
pub fn v_write_tag<W: WriterBackend>(w: &mut quick_protobuf::Writer<W>, tag: u32) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_varint(tag as nat), r)
{ w.write_tag(tag) }
pub fn v_tag_bytes<W: WriterBackend>(w: &mut quick_protobuf::Writer<W>, tag: u32, s: &[u8]) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_fld_bytes(tag as nat, s@), r)
{
    proof { reveal(sp_fld_bytes); }
    v_write_tag(w, tag)?;
    w.write_bytes(s)?;
    proof { if sp_fld_bytes(tag as nat, s@).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_fld_bytes(tag as nat, s@)); } }
    Ok(())
}
/// tag and length
pub fn v_tag_len<W: WriterBackend>(w: &mut quick_protobuf::Writer<W>, tag: u32, n: usize, s: Ghost<Seq<u8>>) -> (r: ProtobufResult<()>)
    requires n == s@.len(),
    ensures sp_wrote(*old(w), *final(w), sp_varint(tag as nat) + sp_varint(n as nat), r), sp_fld_bytes(tag as nat, s@) == sp_varint(tag as nat) + sp_varint(n as nat) + s@,
{
    proof { reveal(sp_fld_bytes); }
    v_write_tag(w, tag)?;
    w.write_varint(n as u64)?;
    proof { if (sp_varint(tag as nat) + sp_varint(n as nat)).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + (sp_varint(tag as nat) + sp_varint(n as nat))); } }
    Ok(())
}
pub proof fn lm_links_step(l: Seq<VLink>, i: int)
    requires 0 <= i <= l.len(),
    ensures
        i < l.len() ==> sp_enc_links(l.take(i + 1)) == sp_enc_links(l.take(i)) + sp_fld_bytes(18, sp_enc_link(l[i])),
        sp_enc_links(l.take(i)).len() <= sp_enc_links(l).len(),
        i < l.len() ==> sp_enc_links(l.take(i + 1)).len() <= sp_enc_links(l).len(),
        i < l.len() ==> sp_varint(18).len() + sp_varint(sp_enc_link(l[i]).len()).len() + sp_enc_link(l[i]).len() == sp_fld_bytes(18, sp_enc_link(l[i])).len(),
        sp_enc_links(l.take(0)) == Seq::<u8>::empty(),
        l.take(l.len() as int) == l,
        i < l.len() ==> sp_fld_bytes(18, sp_enc_link(l[i])).len() <= sp_enc_links(l).len(),
    decreases l.len() - i
{
    reveal(sp_fld_bytes);
    assert(l.take(l.len() as int) =~= l);
    assert(l.take(0) =~= Seq::empty());
    if i < l.len() {
        assert(l.take(i + 1).drop_last() =~= l.take(i));
        lm_links_step(l, i + 1);
    }
}
pub proof fn lm_sizes_step(l: Seq<u64>, i: int)
    requires 0 <= i <= l.len(),
    ensures
        i < l.len() ==> sp_enc_sizes(l.take(i + 1)) == sp_enc_sizes(l.take(i)) + sp_fld_num(32, l[i]),
        sp_enc_sizes(l.take(i)).len() <= sp_enc_sizes(l).len(),
        i < l.len() ==> sp_enc_sizes(l.take(i + 1)).len() <= sp_enc_sizes(l).len(),
        sp_enc_sizes(l.take(0)) == Seq::<u8>::empty(),
        l.take(l.len() as int) == l,
    decreases l.len() - i
{
    assert(l.take(l.len() as int) =~= l);
    assert(l.take(0) =~= Seq::empty());
    if i < l.len() {
        assert(l.take(i + 1).drop_last() =~= l.take(i));
        lm_sizes_step(l, i + 1);
    }
}
pub fn v_tag_string<W: WriterBackend>(w: &mut quick_protobuf::Writer<W>, tag: u32, s: &str) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_fld_bytes(tag as nat, vstd::utf8::encode_utf8(s@)), r)
{
    let ghost b = vstd::utf8::encode_utf8(s@);
    proof { reveal(sp_fld_bytes); }
    v_write_tag(w, tag)?;
    w.write_string(s)?;
    proof { if sp_fld_bytes(tag as nat, b).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_fld_bytes(tag as nat, b)); } }
    Ok(())
}
pub fn v_tag_num<W: WriterBackend>(w: &mut quick_protobuf::Writer<W>, tag: u32, v: u64) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_fld_num(tag as nat, v), r)
{
    proof { reveal(sp_fld_num); }
    v_write_tag(w, tag)?;
    w.write_uint64(v)?;
    proof { if sp_fld_num(tag as nat, v).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_fld_num(tag as nat, v)); } }
    Ok(())
}
pub fn v_tag_u32<W: WriterBackend>(w: &mut quick_protobuf::Writer<W>, tag: u32, v: u32) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_fld_num(tag as nat, v as u64), r)
{
    proof { reveal(sp_fld_num); }
    v_write_tag(w, tag)?;
    w.write_uint32(v)?;
    proof { if sp_fld_num(tag as nat, v as u64).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_fld_num(tag as nat, v as u64)); } }
    Ok(())
}
pub fn v_tag_i64<W: WriterBackend>(w: &mut quick_protobuf::Writer<W>, tag: u32, v: i64) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_fld_num(tag as nat, v as u64), r)
{
    proof { reveal(sp_fld_num); }
    v_write_tag(w, tag)?;
    w.write_int64(v)?;
    proof { if sp_fld_num(tag as nat, v as u64).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_fld_num(tag as nat, v as u64)); } }
    Ok(())
}
pub fn v_tag_enum<W: WriterBackend>(w: &mut quick_protobuf::Writer<W>, tag: u32, v: i32) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_fld_num(tag as nat, v as u64), r)
{
    proof { reveal(sp_fld_num); }
    v_write_tag(w, tag)?;
    w.write_enum(v)?;
    proof { if sp_fld_num(tag as nat, v as u64).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_fld_num(tag as nat, v as u64)); } }
    Ok(())
}
pub fn v_tag_le32<W: WriterBackend>(w: &mut quick_protobuf::Writer<W>, tag: u32, v: u32) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_fld_le32(tag as nat, v), r)
{
    proof { reveal(sp_fld_le32); }
    v_write_tag(w, tag)?;
    w.write_fixed32(v)?;
    proof { if sp_fld_le32(tag as nat, v).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_fld_le32(tag as nat, v)); } }
    Ok(())
}
pub assume_specification<W: WriterBackend>[ quick_protobuf::Writer::<W>::write_bytes ](w: &mut quick_protobuf::Writer<W>, s: &[u8]) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_varint(s@.len()) + s@, r);
pub assume_specification<W: WriterBackend>[ quick_protobuf::Writer::<W>::write_string ](w: &mut quick_protobuf::Writer<W>, s: &str) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_varint(crate::sp_bytes(s).len()) + crate::sp_bytes(s), r);
pub assume_specification<W: WriterBackend>[ quick_protobuf::Writer::<W>::write_uint64 ](w: &mut quick_protobuf::Writer<W>, v: u64) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_varint(v as nat), r);
pub assume_specification<W: WriterBackend>[ quick_protobuf::Writer::<W>::write_uint32 ](w: &mut quick_protobuf::Writer<W>, v: u32) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_varint(v as nat), r);
pub assume_specification<W: WriterBackend>[ quick_protobuf::Writer::<W>::write_varint ](w: &mut quick_protobuf::Writer<W>, v: u64) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_varint(v as nat), r);
pub assume_specification<W: WriterBackend>[ quick_protobuf::Writer::<W>::write_int64 ](w: &mut quick_protobuf::Writer<W>, v: i64) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_varint((v as u64) as nat), r);
pub assume_specification<W: WriterBackend>[ quick_protobuf::Writer::<W>::write_enum ](w: &mut quick_protobuf::Writer<W>, v: i32) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_varint((v as u64) as nat), r);
pub assume_specification<W: WriterBackend>[ quick_protobuf::Writer::<W>::write_fixed32 ](w: &mut quick_protobuf::Writer<W>, v: u32) -> (r: ProtobufResult<()>)
    ensures sp_wrote(*old(w), *final(w), sp_le32(v), r);
pub assume_specification[ quick_protobuf::sizeofs::sizeof_varint ](v: u64) -> (r: usize)
    ensures r == sp_varint(v as nat).len(), 1 <= r <= 10;
pub assume_specification[ quick_protobuf::sizeofs::sizeof_len ](n: usize) -> (r: usize)
    requires sp_varint(n as nat).len() + n <= usize::MAX,
    ensures r == sp_varint(n as nat).len() + n;
}
@append
verus! {
/// the number of bytes
pub trait VLen { spec fn vlen(&self) -> nat; fn v_len(&self) -> (r: usize) ensures r == self.vlen(); }
impl<'a> VLen for Cow<'a, [u8]> {
    open spec fn vlen(&self) -> nat { self@.len() }
    fn v_len(&self) -> (r: usize) { broadcast use crate::ax_cow_ref_bytes; self.as_ref().len() }
}
impl<'a> VLen for Cow<'a, str> {
    open spec fn vlen(&self) -> nat { vstd::utf8::encode_utf8(self@).len() }
    fn v_len(&self) -> (r: usize) { broadcast use crate::ax_cow_ref_str; crate::v_str_len(self.as_ref()) }
}
}
@file src/pb/merkledag.rs
@append
verus! {
use crate::pb::*;
}
@dup MessageWrite@PBLink::get_size as=v_get_size props=C08
@ret r
@spec
    requires sp_enc_link(sp_vlink(*self)).len() <= usize::MAX,
    ensures r == sp_enc_link(sp_vlink(*self)).len(), // [C08]
@proof start
proof { reveal(sp_fld_bytes); reveal(sp_fld_num); }
@replace any
self . $f . as_ref ( ) . map_or ( 0 , | $m | $b )
@with
(match &self.$f { None => 0, Some($m) => $b })
@replace any
( m ) . len ( )
@with
m.v_len()
@replace any
( m ) . get_size ( )
@with
m.v_get_size()
@dup MessageWrite@PBLink::write_message as=v_write_message props=C08
@ret r
@spec
    ensures sp_wrote(*old(w), *final(w), sp_enc_link(sp_vlink(*self)), r), // [C08]
@replace any
w . write_with_tag ( $t , | w | w . write_bytes ( $m ) )
@with
crate::pb::v_tag_bytes(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_string ( $m ) )
@with
crate::pb::v_tag_string(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_uint64 ( $m ) )
@with
crate::pb::v_tag_num(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_uint32 ( $m ) )
@with
crate::pb::v_tag_u32(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_int64 ( $m ) )
@with
crate::pb::v_tag_i64(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_enum ( $m ) )
@with
crate::pb::v_tag_enum(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_fixed32 ( $m ) )
@with
crate::pb::v_tag_le32(w, $t, $m)
@replace any
& * * s
@with
s.as_ref()
@proof start
broadcast use {crate::ax_cow_ref_bytes, crate::ax_cow_ref_str};
@proof before Ok ( ( ) )
proof { if sp_enc_link(sp_vlink(*self)).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_enc_link(sp_vlink(*self))); } }
@dup MessageWrite@PBNode::get_size as=v_get_size props=C08
@ret r
@spec
    requires sp_enc_node(sp_vlinks(self.Links@), sp_obytes(self.Data)).len() <= usize::MAX,
    ensures r == sp_enc_node(sp_vlinks(self.Links@), sp_obytes(self.Data)).len(), // [C08]
@proof start
proof { lm_links_step(sp_vlinks(self.Links@), 0); reveal(sp_fld_bytes); }
@replace any
self . Links . iter ( ) . map ( | s | $b ) . sum :: < usize > ( )
@with
({
    let mut n: usize = 0;
    for s in it: self.Links.iter()
        invariant n == sp_enc_links(sp_vlinks(self.Links@).take(it.index() as int)).len(), sp_enc_links(sp_vlinks(self.Links@)).len() <= usize::MAX,
    {
        proof { lm_links_step(sp_vlinks(self.Links@), it.index() as int); }
        n += $b;
    }
    proof { lm_links_step(sp_vlinks(self.Links@), self.Links@.len() as int); }
    n
})
@replace any
self . $f . as_ref ( ) . map_or ( 0 , | $m | $b )
@with
(match &self.$f { None => 0, Some($m) => $b })
@replace any
( m ) . len ( )
@with
m.v_len()
@replace any
( $m ) . get_size ( )
@with
($m).v_get_size()
@dup MessageWrite@PBNode::write_message as=v_write_message props=C08
@ret r
@spec
    requires sp_enc_node(sp_vlinks(self.Links@), sp_obytes(self.Data)).len() <= usize::MAX,
    ensures sp_wrote(*old(w), *final(w), sp_enc_node(sp_vlinks(self.Links@), sp_obytes(self.Data)), r), // [C08]
@replace any
w . write_with_tag ( $t , | w | w . write_message ( $m ) ) ?
@with
{ crate::pb::v_tag_len(w, $t, ($m).v_get_size(), Ghost(sp_enc_link(sp_vlink(*$m))))?; ($m).v_write_message(w)?; }
@replace any
w . write_with_tag ( $t , | w | w . write_bytes ( $m ) )
@with
crate::pb::v_tag_bytes(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_string ( $m ) )
@with
crate::pb::v_tag_string(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_uint64 ( $m ) )
@with
crate::pb::v_tag_num(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_uint32 ( $m ) )
@with
crate::pb::v_tag_u32(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_int64 ( $m ) )
@with
crate::pb::v_tag_i64(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_enum ( $m ) )
@with
crate::pb::v_tag_enum(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_fixed32 ( $m ) )
@with
crate::pb::v_tag_le32(w, $t, $m)
@replace any
& * * s
@with
s.as_ref()
@proof start
broadcast use {crate::ax_cow_ref_bytes, crate::ax_cow_ref_str};
@loop 0 it
invariant
    sp_enc_node(sp_vlinks(self.Links@), sp_obytes(self.Data)).len() <= sp_room(*old(w)) ==> {
        &&& sp_out(*w) == o1 + sp_enc_links(sp_vlinks(self.Links@).take(it.index() as int))
        &&& sp_room(*w) == r1 - sp_enc_links(sp_vlinks(self.Links@).take(it.index() as int)).len()
        &&& sp_enc_links(sp_vlinks(self.Links@)).len() <= r1
    },
    o1 == sp_out(*old(w)), r1 == sp_room(*old(w)), sp_enc_links(sp_vlinks(self.Links@)).len() <= usize::MAX,
@proof loop 0 before
let ghost o1 = sp_out(*w);
let ghost r1 = sp_room(*w);
proof { lm_links_step(sp_vlinks(self.Links@), 0); assert(o1 + Seq::<u8>::empty() =~= o1); }
@proof loop 0 start
proof {
    lm_links_step(sp_vlinks(self.Links@), it.index() as int);
    lm_assoc(o1, sp_enc_links(sp_vlinks(self.Links@).take(it.index() as int)), sp_fld_bytes(18, sp_enc_link(sp_vlinks(self.Links@)[it.index() as int])));
}
let ghost w1 = sp_out(*w);
let ghost r2 = sp_room(*w);
@proof loop 0 end
proof {
    let x = sp_enc_link(sp_vlinks(self.Links@)[it.index() as int]);
    if sp_enc_node(sp_vlinks(self.Links@), sp_obytes(self.Data)).len() <= sp_room(*old(w)) {
        lm_assoc(w1, sp_varint(18) + sp_varint(x.len()), x);
    }
}
@proof loop 0 after
proof { lm_links_step(sp_vlinks(self.Links@), sp_vlinks(self.Links@).len() as int); }
@proof before Ok ( ( ) )
proof { if sp_enc_node(sp_vlinks(self.Links@), sp_obytes(self.Data)).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_enc_node(sp_vlinks(self.Links@), sp_obytes(self.Data))); } }
@file src/pb/unixfs.rs
@append
verus! {
use crate::pb::*;
}
@dup MessageWrite@UnixTime::get_size as=v_get_size props=C08
@ret r
@spec
    ensures r == sp_enc_time(*self).len(), // [C08]
@proof start
proof { reveal(sp_fld_num); reveal(sp_fld_le32); }
@replace any
self . $f . as_ref ( ) . map_or ( 0 , | $m | $b )
@with
(match &self.$f { None => 0, Some($m) => $b })
@replace any
( m ) . len ( )
@with
m.v_len()
@replace any
( m ) . get_size ( )
@with
m.v_get_size()
@dup MessageWrite@UnixTime::write_message as=v_write_message props=C08
@ret r
@spec
    ensures sp_wrote(*old(w), *final(w), sp_enc_time(*self), r), // [C08]
@replace any
w . write_with_tag ( $t , | w | w . write_bytes ( $m ) )
@with
crate::pb::v_tag_bytes(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_string ( $m ) )
@with
crate::pb::v_tag_string(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_uint64 ( $m ) )
@with
crate::pb::v_tag_num(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_uint32 ( $m ) )
@with
crate::pb::v_tag_u32(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_int64 ( $m ) )
@with
crate::pb::v_tag_i64(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_enum ( $m ) )
@with
crate::pb::v_tag_enum(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_fixed32 ( $m ) )
@with
crate::pb::v_tag_le32(w, $t, $m)
@replace any
& * * s
@with
s.as_ref()
@proof start
broadcast use {crate::ax_cow_ref_bytes, crate::ax_cow_ref_str};
@proof before Ok ( ( ) )
proof { if sp_enc_time(*self).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_enc_time(*self)); } }
@dup MessageWrite@Data::get_size as=v_get_size props=C08
@ret r
@spec
    requires sp_enc_data(sp_vdata(*self)).len() <= usize::MAX,
    ensures r == sp_enc_data(sp_vdata(*self)).len(), // [C08]
@proof start
proof { reveal(sp_fld_num); reveal(sp_fld_bytes); lm_data_len(sp_vdata(*self)); }
@replace any
self . blocksizes . iter ( ) . map ( | s | $b ) . sum :: < usize > ( )
@with
({
    let mut n: usize = 0;
    for s in it: self.blocksizes.iter()
        invariant n == sp_enc_sizes(self.blocksizes@.take(it.index() as int)).len(), sp_data_len(sp_vdata(*self)) <= usize::MAX,
    {
        proof { lm_sizes_step(self.blocksizes@, it.index() as int); reveal(sp_fld_num); }
        n += $b;
    }
    proof { assert(self.blocksizes@.take(self.blocksizes@.len() as int) =~= self.blocksizes@); }
    n
})
@replace any
self . $f . as_ref ( ) . map_or ( 0 , | $m | $b )
@with
(match &self.$f { None => 0, Some($m) => $b })
@replace any
( m ) . len ( )
@with
m.v_len()
@replace any
( m ) . get_size ( )
@with
m.v_get_size()
@dup MessageWrite@Data::write_message as=v_write_message props=C08
@ret r
@attrs #[verifier::rlimit(100)] #[verifier::spinoff_prover]
@spec
    ensures sp_wrote(*old(w), *final(w), sp_enc_data(sp_vdata(*self)), r), // [C08]
@replace any
w . write_with_tag ( $t , | w | w . write_bytes ( $m ) )
@with
crate::pb::v_tag_bytes(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_string ( $m ) )
@with
crate::pb::v_tag_string(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_uint64 ( $m ) )
@with
crate::pb::v_tag_num(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_uint32 ( $m ) )
@with
crate::pb::v_tag_u32(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_int64 ( $m ) )
@with
crate::pb::v_tag_i64(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_enum ( $m ) )
@with
crate::pb::v_tag_enum(w, $t, $m)
@replace any
w . write_with_tag ( $t , | w | w . write_fixed32 ( $m ) )
@with
crate::pb::v_tag_le32(w, $t, $m)
@replace any
& * * s
@with
s.as_ref()
@proof start
broadcast use {crate::ax_cow_ref_bytes, crate::ax_cow_ref_str};
proof { lm_data_len(sp_vdata(*self)); lm_push_data(sp_out(*w), sp_vdata(*self)); }
@replace any
w . write_with_tag ( $t , | w | w . write_message ( $m ) ) ?
@with
{ crate::pb::v_tag_len(w, $t, ($m).v_get_size(), Ghost(sp_enc_time(*$m)))?; ($m).v_write_message(w)?; }
@loop 0 it
invariant
    sp_enc_data(sp_vdata(*self)).len() <= sp_room(*old(w)) ==> {
        &&& sp_out(*w) == o1 + sp_enc_sizes(self.blocksizes@.take(it.index() as int))
        &&& sp_room(*w) == r1 - sp_enc_sizes(self.blocksizes@.take(it.index() as int)).len()
        &&& sp_enc_sizes(self.blocksizes@).len() <= r1
    },
@proof loop 0 before
let ghost o1 = sp_out(*w);
let ghost r1 = sp_room(*w);
proof { lm_sizes_step(self.blocksizes@, 0); assert(o1 + Seq::<u8>::empty() =~= o1); }
@proof loop 0 start
proof {
    lm_sizes_step(self.blocksizes@, it.index() as int);
    lm_assoc(o1, sp_enc_sizes(self.blocksizes@.take(it.index() as int)), sp_fld_num(32, self.blocksizes@[it.index() as int]));
}
@proof loop 0 after
proof { lm_sizes_step(self.blocksizes@, self.blocksizes@.len() as int); }
@proof before Ok ( ( ) )
proof { if sp_enc_data(sp_vdata(*self)).len() <= sp_room(*old(w)) { assert(sp_out(*w) == sp_push_data(sp_out(*old(w)), sp_vdata(*self))); } }
@file src/pb.rs
@dup MessageWrite@FlatUnixFs::get_size as=v_get_size props=C08
@ret r
@spec
    requires sp_enc_flat(sp_vlinks(self.links@), sp_vdata(self.data)).len() <= usize::MAX,
    ensures r == sp_enc_flat(sp_vlinks(self.links@), sp_vdata(self.data)).len(), // [C08]
@proof start
proof { lm_links_step(sp_vlinks(self.links@), 0); reveal(sp_fld_bytes); }
@replace any
self . links . iter ( ) . map ( | s | $b ) . sum :: < usize > ( )
@with
({
    let mut n: usize = 0;
    for s in it: self.links.iter()
        invariant n == sp_enc_links(sp_vlinks(self.links@).take(it.index() as int)).len(), sp_enc_links(sp_vlinks(self.links@)).len() <= usize::MAX,
    {
        proof { lm_links_step(sp_vlinks(self.links@), it.index() as int); }
        n += $b;
    }
    proof { lm_links_step(sp_vlinks(self.links@), self.links@.len() as int); }
    n
})
@replace any
s . get_size ( )
@with
s.v_get_size()
@replace any
self . data . get_size ( )
@with
self.data.v_get_size()
@dup MessageWrite@FlatUnixFs::write_message as=v_write_message props=C08
@ret r
@spec
    requires sp_enc_flat(sp_vlinks(self.links@), sp_vdata(self.data)).len() <= usize::MAX,
    ensures sp_wrote(*old(w), *final(w), sp_enc_flat(sp_vlinks(self.links@), sp_vdata(self.data)), r), // [C08]
@proof start
proof { reveal(sp_fld_bytes); }
@replace any
w . write_with_tag ( $t , | w | w . write_message ( link ) ) ?
@with
{ crate::pb::v_tag_len(w, $t, (link).v_get_size(), Ghost(sp_enc_link(sp_vlink(*link))))?; (link).v_write_message(w)?; }
@replace any
w . write_with_tag ( $t , | w | w . write_message ( & self . data ) ) ?
@with
{ crate::pb::v_tag_len(w, $t, (self.data).v_get_size(), Ghost(sp_enc_data(sp_vdata(self.data))))?; (self.data).v_write_message(w)?; }
@loop 0 it
invariant
    sp_enc_flat(sp_vlinks(self.links@), sp_vdata(self.data)).len() <= sp_room(*old(w)) ==> {
        &&& sp_out(*w) == o1 + sp_enc_links(sp_vlinks(self.links@).take(it.index() as int))
        &&& sp_room(*w) == r1 - sp_enc_links(sp_vlinks(self.links@).take(it.index() as int)).len()
        &&& sp_enc_links(sp_vlinks(self.links@)).len() <= r1
    },
    o1 == sp_out(*old(w)), r1 == sp_room(*old(w)), sp_enc_links(sp_vlinks(self.links@)).len() <= usize::MAX,
@proof loop 0 before
let ghost o1 = sp_out(*w);
let ghost r1 = sp_room(*w);
proof { lm_links_step(sp_vlinks(self.links@), 0); assert(o1 + Seq::<u8>::empty() =~= o1); }
@proof loop 0 start
proof {
    lm_links_step(sp_vlinks(self.links@), it.index() as int);
    lm_assoc(o1, sp_enc_links(sp_vlinks(self.links@).take(it.index() as int)), sp_fld_bytes(18, sp_enc_link(sp_vlinks(self.links@)[it.index() as int])));
}
let ghost w1 = sp_out(*w);
let ghost r2 = sp_room(*w);
@proof loop 0 end
proof {
    let x = sp_enc_link(sp_vlinks(self.links@)[it.index() as int]);
    if sp_enc_flat(sp_vlinks(self.links@), sp_vdata(self.data)).len() <= sp_room(*old(w)) {
        lm_assoc(w1, sp_varint(18) + sp_varint(x.len()), x);
    }
}
@proof loop 0 after
proof { lm_links_step(sp_vlinks(self.links@), sp_vlinks(self.links@).len() as int); }
@proof before Ok ( ( ) )
proof { if sp_enc_flat(sp_vlinks(self.links@), sp_vdata(self.data)).len() <= sp_room(*old(w)) { assert(sp_out(*w) =~= sp_out(*old(w)) + sp_enc_flat(sp_vlinks(self.links@), sp_vdata(self.data))); } }
