@note The wire format: what the generated decoders read, and that what was written is read back.
@file src/pb.rs
@append
verus! {
/// where the reader is, and where the message ends
pub uninterp spec fn sp_pos(r: quick_protobuf::BytesReader) -> int;
pub uninterp spec fn sp_end(r: quick_protobuf::BytesReader) -> int;
/// what reading a message ends with; `Odd` when a field to be skipped is so long that the position cannot be represented
#[verifier::ext_equal]
pub enum Rd<T> { Bad, Odd, Good(T, int) }
/// a number: seven bits at a time, the lowest first, in at most `n` bytes
pub open spec fn rd_v(b: Seq<u8>, pos: int, n: nat) -> Option<(int, int)>
    decreases n
{
    if n == 0 || !(0 <= pos < b.len()) { None }
    else if b[pos] < 128 { Some((b[pos] as int, pos + 1)) }
    else {
        match rd_v(b, pos + 1, (n - 1) as nat) {
            None => None,
            Some((v, p)) => Some((b[pos] - 128 + 128 * v, p)),
        }
    }
}
pub open spec fn rd_v32(b: Seq<u8>, pos: int) -> Option<(u32, int)> {
    match rd_v(b, pos, 10) { None => None, Some((v, p)) => Some(((v % 0x1_0000_0000) as u32, p)) }
}
pub open spec fn rd_v64(b: Seq<u8>, pos: int) -> Option<(u64, int)> {
    match rd_v(b, pos, 10) { None => None, Some((v, p)) => Some(((v % 0x1_0000_0000_0000_0000) as u64, p)) }
}
/// length and that many bytes
pub open spec fn rd_bytes(b: Seq<u8>, pos: int) -> Option<(Seq<u8>, int)> {
    match rd_v32(b, pos) {
        None => None,
        Some((n, p)) => if p + n <= b.len() { Some((b.subrange(p, p + n), p + n)) } else { None },
    }
}
pub open spec fn rd_text(b: Seq<u8>, pos: int) -> Option<(Seq<char>, int)> {
    match rd_bytes(b, pos) {
        None => None,
        Some((s, p)) => if vstd::utf8::valid_utf8(s) { Some((vstd::utf8::decode_utf8(s), p)) } else { None },
    }
}
pub open spec fn rd_le32(b: Seq<u8>, pos: int) -> Option<(u32, int)> {
    if 0 <= pos && pos + 4 <= b.len() {
        Some(((b[pos] + 0x100 * b[pos + 1] + 0x1_0000 * b[pos + 2] + 0x100_0000 * b[pos + 3]) as u32, pos + 4))
    } else { None }
}
/// a field which is not known
pub open spec fn rd_skip(b: Seq<u8>, pos: int, tag: u32) -> Rd<()> {
    let w = tag % 8;
    if w == 0 {
        match rd_v64(b, pos) { None => Rd::Bad, Some((_, p)) => Rd::Good((), p) }
    } else if w == 1 {
        if pos + 8 <= usize::MAX { Rd::Good((), pos + 8) } else { Rd::Odd }
    } else if w == 5 {
        if pos + 4 <= usize::MAX { Rd::Good((), pos + 4) } else { Rd::Odd }
    } else if w == 2 {
        match rd_v64(b, pos) { None => Rd::Bad, Some((n, p)) => if p + n <= usize::MAX { Rd::Good((), p + n) } else { Rd::Odd } }
    } else { Rd::Bad }
}
pub broadcast proof fn lm_rd_v(b: Seq<u8>, pos: int, n: nat)
    ensures #[trigger] rd_v(b, pos, n) matches Some((v, p)) ==> v >= 0 && pos < p <= b.len()
    decreases n
{
    if n > 0 && 0 <= pos < b.len() && b[pos] >= 128 { lm_rd_v(b, pos + 1, (n - 1) as nat); }
}
pub open spec fn sp_left(b: Seq<u8>, pos: int) -> int { if pos < b.len() { b.len() - pos } else { 0 } }
pub open spec fn rd_link(b: Seq<u8>, pos: int, end: int, acc: VLink) -> Rd<VLink>
    decreases sp_left(b, pos) via rd_link_dec
{
    if pos == end { Rd::Good(acc, pos) } else {
        match rd_v32(b, pos) {
            None => Rd::Bad,
            Some((t, p)) =>
                if t == 10 {
                    match rd_bytes(b, p) { None => Rd::Bad, Some((s, q)) => rd_link(b, q, end, VLink { hash: Some(s), ..acc }) }
                } else if t == 18 {
                    match rd_text(b, p) { None => Rd::Bad, Some((s, q)) => rd_link(b, q, end, VLink { name: Some(s), ..acc }) }
                } else if t == 24 {
                    match rd_v64(b, p) { None => Rd::Bad, Some((s, q)) => rd_link(b, q, end, VLink { tsize: Some(s), ..acc }) }
                } else {
                    match rd_skip(b, p, t) { Rd::Bad => Rd::Bad, Rd::Odd => Rd::Odd, Rd::Good(_, q) => rd_link(b, q, end, acc) }
                }
        }
    }
}
#[via_fn]
proof fn rd_link_dec(b: Seq<u8>, pos: int, end: int, acc: VLink) { broadcast use lm_rd_v; }
pub open spec fn rd_time(b: Seq<u8>, pos: int, end: int, acc: unixfs::UnixTime) -> Rd<unixfs::UnixTime>
    decreases sp_left(b, pos) via rd_time_dec
{
    if pos == end { Rd::Good(acc, pos) } else {
        match rd_v32(b, pos) {
            None => Rd::Bad,
            Some((t, p)) =>
                if t == 8 {
                    match rd_v64(b, p) { None => Rd::Bad, Some((s, q)) => rd_time(b, q, end, unixfs::UnixTime { Seconds: s as i64, ..acc }) }
                } else if t == 21 {
                    match rd_le32(b, p) { None => Rd::Bad, Some((s, q)) => rd_time(b, q, end, unixfs::UnixTime { FractionalNanoseconds: Some(s), ..acc }) }
                } else {
                    match rd_skip(b, p, t) { Rd::Bad => Rd::Bad, Rd::Odd => Rd::Odd, Rd::Good(_, q) => rd_time(b, q, end, acc) }
                }
        }
    }
}
#[via_fn]
proof fn rd_time_dec(b: Seq<u8>, pos: int, end: int, acc: unixfs::UnixTime) { broadcast use lm_rd_v; }
/// a message inside of a message: its length, and the message
pub open spec fn rd_in(b: Seq<u8>, pos: int) -> Option<(int, int)> {
    match rd_v32(b, pos) { None => None, Some((n, p)) => Some((p, p + n)) }
}
pub open spec fn sp_no_link() -> VLink { VLink { hash: None, name: None, tsize: None } }
pub open spec fn sp_no_time() -> unixfs::UnixTime { unixfs::UnixTime { Seconds: 0, FractionalNanoseconds: None } }
pub open spec fn sp_no_data() -> VData {
    VData { ty: UnixFsType::Raw, data: None, filesize: None, blocksizes: Seq::empty(), hash_type: None, fanout: None, mode: None, mtime: None }
}
pub open spec fn sp_type_of(n: i32) -> UnixFsType {
    if n == 1 { UnixFsType::Directory }
    else if n == 2 { UnixFsType::File }
    else if n == 3 { UnixFsType::Metadata }
    else if n == 4 { UnixFsType::Symlink }
    else if n == 5 { UnixFsType::HAMTShard }
    else { UnixFsType::Raw }
}
pub open spec fn sp_type_code(t: UnixFsType) -> i32 {
    match t {
        UnixFsType::Raw => 0,
        UnixFsType::Directory => 1,
        UnixFsType::File => 2,
        UnixFsType::Metadata => 3,
        UnixFsType::Symlink => 4,
        UnixFsType::HAMTShard => 5,
    }
}
impl vstd::std_specs::convert::FromSpecImpl<UnixFsType> for i32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: UnixFsType) -> i32 { sp_type_code(d) }
}
pub open spec fn rd_data(b: Seq<u8>, pos: int, end: int, acc: VData) -> Rd<VData>
    decreases sp_left(b, pos) via rd_data_dec
{
    if pos == end { Rd::Good(acc, pos) } else {
        match rd_v32(b, pos) {
            None => Rd::Bad,
            Some((t, p)) =>
                if t == 8 {
                    match rd_v32(b, p) { None => Rd::Bad, Some((s, q)) => rd_data(b, q, end, VData { ty: sp_type_of(s as i32), ..acc }) }
                } else if t == 18 {
                    match rd_bytes(b, p) { None => Rd::Bad, Some((s, q)) => rd_data(b, q, end, VData { data: Some(s), ..acc }) }
                } else if t == 24 {
                    match rd_v64(b, p) { None => Rd::Bad, Some((s, q)) => rd_data(b, q, end, VData { filesize: Some(s), ..acc }) }
                } else if t == 32 {
                    match rd_v64(b, p) { None => Rd::Bad, Some((s, q)) => rd_data(b, q, end, VData { blocksizes: acc.blocksizes.push(s), ..acc }) }
                } else if t == 40 {
                    match rd_v64(b, p) { None => Rd::Bad, Some((s, q)) => rd_data(b, q, end, VData { hash_type: Some(s), ..acc }) }
                } else if t == 48 {
                    match rd_v64(b, p) { None => Rd::Bad, Some((s, q)) => rd_data(b, q, end, VData { fanout: Some(s), ..acc }) }
                } else if t == 56 {
                    match rd_v32(b, p) { None => Rd::Bad, Some((s, q)) => rd_data(b, q, end, VData { mode: Some(s), ..acc }) }
                } else if t == 66 {
                    match rd_in(b, p) {
                        None => Rd::Bad,
                        Some((s, e)) => match rd_time(b, s, e, sp_no_time()) {
                            Rd::Bad => Rd::Bad,
                            Rd::Odd => Rd::Odd,
                            Rd::Good(x, _) => rd_data(b, e, end, VData { mtime: Some(x), ..acc }),
                        },
                    }
                } else {
                    match rd_skip(b, p, t) { Rd::Bad => Rd::Bad, Rd::Odd => Rd::Odd, Rd::Good(_, q) => rd_data(b, q, end, acc) }
                }
        }
    }
}
#[via_fn]
proof fn rd_data_dec(b: Seq<u8>, pos: int, end: int, acc: VData) { broadcast use lm_rd_v; }
/// the bytes are some of the bytes of the block, one after another
pub open spec fn sp_at_part(full: Seq<u8>, sub: Seq<u8>, o: int) -> bool { 0 <= o && o + sub.len() <= full.len() && full.subrange(o, o + sub.len()) == sub }
pub open spec fn sp_part(full: Seq<u8>, sub: Seq<u8>) -> bool { exists|o: int| #[trigger] sp_at_part(full, sub, o) }
pub proof fn lm_part(b: Seq<u8>, pos: int)
    ensures 0 <= pos ==> (rd_bytes(b, pos) matches Some((s, p)) ==> sp_part(b, s))
{
    broadcast use lm_rd_v;
    match rd_v32(b, pos) {
        None => {},
        Some((n, p)) => if 0 <= pos && p + n <= b.len() { assert(sp_at_part(b, b.subrange(p, p + n), p)); },
    }
}
pub proof fn lm_part_all(b: Seq<u8>)
    ensures forall|pos: int| (#[trigger] rd_bytes(b, pos)) matches Some((s, p)) ==> sp_part(b, s)
{
    assert forall|pos: int| (#[trigger] rd_bytes(b, pos)) matches Some((s, p)) ==> sp_part(b, s) by { broadcast use lm_rd_v; if rd_bytes(b, pos) is Some { assert(0 <= pos); lm_part(b, pos); } }
}
pub struct VNode { pub links: Seq<VLink>, pub data: Option<Seq<u8>> }
pub open spec fn sp_vnode(n: merkledag::PBNode<'_>) -> VNode { VNode { links: sp_vlinks(n.Links@), data: sp_obytes(n.Data) } }
pub open spec fn rd_node(b: Seq<u8>, pos: int, end: int, acc: VNode) -> Rd<VNode>
    decreases sp_left(b, pos) via rd_node_dec
{
    if pos == end { Rd::Good(acc, pos) } else {
        match rd_v32(b, pos) {
            None => Rd::Bad,
            Some((t, p)) =>
                if t == 18 {
                    match rd_in(b, p) {
                        None => Rd::Bad,
                        Some((s, e)) => match rd_link(b, s, e, sp_no_link()) {
                            Rd::Bad => Rd::Bad,
                            Rd::Odd => Rd::Odd,
                            Rd::Good(x, _) => rd_node(b, e, end, VNode { links: acc.links.push(x), ..acc }),
                        },
                    }
                } else if t == 10 {
                    match rd_bytes(b, p) { None => Rd::Bad, Some((s, q)) => rd_node(b, q, end, VNode { data: Some(s), ..acc }) }
                } else {
                    match rd_skip(b, p, t) { Rd::Bad => Rd::Bad, Rd::Odd => Rd::Odd, Rd::Good(_, q) => rd_node(b, q, end, acc) }
                }
        }
    }
}
#[via_fn]
proof fn rd_node_dec(b: Seq<u8>, pos: int, end: int, acc: VNode) { broadcast use lm_rd_v; }
pub open spec fn sp_moved(a: quick_protobuf::BytesReader, b: quick_protobuf::BytesReader, p: int) -> bool {
    sp_pos(b) == p && sp_end(b) == sp_end(a)
}
pub assume_specification[ quick_protobuf::BytesReader::is_eof ](r: &quick_protobuf::BytesReader) -> (e: bool)
    ensures e == (sp_pos(*r) == sp_end(*r));
pub assume_specification[ quick_protobuf::BytesReader::next_tag ](r: &mut quick_protobuf::BytesReader, bytes: &[u8]) -> (e: ProtobufResult<u32>)
    ensures match rd_v32(bytes@, sp_pos(*old(r))) { None => e is Err, Some((v, p)) => e is Ok && e->Ok_0 == v && sp_moved(*old(r), *final(r), p) };
pub assume_specification[ quick_protobuf::BytesReader::read_int32 ](r: &mut quick_protobuf::BytesReader, bytes: &[u8]) -> (e: ProtobufResult<i32>)
    ensures match rd_v32(bytes@, sp_pos(*old(r))) { None => e is Err, Some((v, p)) => e is Ok && e->Ok_0 == v as i32 && sp_moved(*old(r), *final(r), p) };
pub assume_specification[ quick_protobuf::BytesReader::read_uint32 ](r: &mut quick_protobuf::BytesReader, bytes: &[u8]) -> (e: ProtobufResult<u32>)
    ensures match rd_v32(bytes@, sp_pos(*old(r))) { None => e is Err, Some((v, p)) => e is Ok && e->Ok_0 == v && sp_moved(*old(r), *final(r), p) };
pub assume_specification[ quick_protobuf::BytesReader::read_uint64 ](r: &mut quick_protobuf::BytesReader, bytes: &[u8]) -> (e: ProtobufResult<u64>)
    ensures match rd_v64(bytes@, sp_pos(*old(r))) { None => e is Err, Some((v, p)) => e is Ok && e->Ok_0 == v && sp_moved(*old(r), *final(r), p) };
pub assume_specification[ quick_protobuf::BytesReader::read_int64 ](r: &mut quick_protobuf::BytesReader, bytes: &[u8]) -> (e: ProtobufResult<i64>)
    ensures match rd_v64(bytes@, sp_pos(*old(r))) { None => e is Err, Some((v, p)) => e is Ok && e->Ok_0 == v as i64 && sp_moved(*old(r), *final(r), p) };
pub assume_specification[ quick_protobuf::BytesReader::read_fixed32 ](r: &mut quick_protobuf::BytesReader, bytes: &[u8]) -> (e: ProtobufResult<u32>)
    ensures match rd_le32(bytes@, sp_pos(*old(r))) { None => e is Err, Some((v, p)) => e is Ok && e->Ok_0 == v && sp_moved(*old(r), *final(r), p) };
pub assume_specification<'a>[ quick_protobuf::BytesReader::read_bytes ](r: &mut quick_protobuf::BytesReader, bytes: &'a [u8]) -> (e: ProtobufResult<&'a [u8]>)
    ensures match rd_bytes(bytes@, sp_pos(*old(r))) { None => e is Err, Some((v, p)) => e is Ok && e->Ok_0@ == v && sp_moved(*old(r), *final(r), p) };
pub assume_specification<'a>[ quick_protobuf::BytesReader::read_string ](r: &mut quick_protobuf::BytesReader, bytes: &'a [u8]) -> (e: ProtobufResult<&'a str>)
    ensures match rd_text(bytes@, sp_pos(*old(r))) { None => e is Err, Some((v, p)) => e is Ok && e->Ok_0@ == v && sp_moved(*old(r), *final(r), p) };
pub assume_specification[ quick_protobuf::BytesReader::read_unknown ](r: &mut quick_protobuf::BytesReader, bytes: &[u8], tag: u32) -> (e: ProtobufResult<()>)
    ensures
        match rd_skip(bytes@, sp_pos(*old(r)), tag) { Rd::Bad => e is Err, Rd::Odd => true, Rd::Good(_, p) => e is Ok && sp_moved(*old(r), *final(r), p) },
        // with overflow checks (without them a length near 2^64 leads back: the known finding of C07)
        e is Ok ==> sp_pos(*final(r)) >= sp_pos(*old(r));
/// derive(Default)
#[verifier::external_body]
pub fn v_no_link<'a>() -> (r: PBLink<'a>)
    ensures sp_vlink(r) == sp_no_link()
{ Default::default() }
#[verifier::external_body]
pub fn v_no_time() -> (r: unixfs::UnixTime)
    ensures r == sp_no_time()
{ Default::default() }
#[verifier::external_body]
pub fn v_no_data<'a>() -> (r: UnixFs<'a>)
    ensures sp_vdata(r) == sp_no_data()
{ Default::default() }
#[verifier::external_body]
pub fn v_no_node<'a>() -> (r: PBNode<'a>)
    ensures sp_vnode(r) == (VNode { links: Seq::empty(), data: None })
{ Default::default() }
/// quick_protobuf reads a length and calls the decoder, whose contract this is, on that many bytes
#[verifier::external_body]
pub fn v_read_link<'a>(r: &mut quick_protobuf::BytesReader, bytes: &'a [u8]) -> (e: ProtobufResult<PBLink<'a>>)
    ensures
        match rd_in(bytes@, sp_pos(*old(r))) {
            None => e is Err,
            Some((s, n)) => match rd_link(bytes@, s, n, sp_no_link()) {
                Rd::Bad => e is Err,
                Rd::Odd => e is Ok ==> sp_moved(*old(r), *final(r), n),
                Rd::Good(x, _) => e is Ok && sp_vlink(e->Ok_0) == x && sp_moved(*old(r), *final(r), n),
            },
        },
{ r.read_message::<PBLink<'a>>(bytes) }
#[verifier::external_body]
pub fn v_read_time(r: &mut quick_protobuf::BytesReader, bytes: &[u8]) -> (e: ProtobufResult<unixfs::UnixTime>)
    ensures
        match rd_in(bytes@, sp_pos(*old(r))) {
            None => e is Err,
            Some((s, n)) => match rd_time(bytes@, s, n, sp_no_time()) {
                Rd::Bad => e is Err,
                Rd::Odd => e is Ok ==> sp_moved(*old(r), *final(r), n),
                Rd::Good(x, _) => e is Ok && e->Ok_0 == x && sp_moved(*old(r), *final(r), n),
            },
        },
{ r.read_message::<unixfs::UnixTime>(bytes) }
}
@file src/pb/merkledag.rs
@dup MessageRead@PBLink::from_reader as=v_from_reader props=C07,C08
@ret e
@spec
    ensures
        match rd_link(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_link()) {
            Rd::Bad => e is Err, // [C08]
            Rd::Odd => true,
            Rd::Good(x, _) => e is Ok && sp_vlink(e->Ok_0) == x, // [C08]
        },
@replace
Self :: default ( )
@with
crate::pb::v_no_link()
@replace any
r . read_bytes ( bytes ) . map ( Cow :: Borrowed ) ?
@with
Cow::Borrowed(r.read_bytes(bytes)?)
@replace any
r . read_string ( bytes ) . map ( Cow :: Borrowed ) ?
@with
Cow::Borrowed(r.read_string(bytes)?)
@loop 0
invariant
    sp_end(*r) == sp_end(*old(r)) || rd_link(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_link()) is Odd,
    rd_link(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_link()) is Odd
        || rd_link(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_link()) == rd_link(bytes@, sp_pos(*r), sp_end(*r), sp_vlink(msg)),
ensures
    rd_link(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_link()) is Odd || sp_pos(*r) == sp_end(*r),
decreases crate::pb::sp_left(bytes@, sp_pos(*r)), // [C07 C08]
@proof loop 0 start
broadcast use crate::pb::lm_rd_v;
@dup MessageRead@PBNode::from_reader as=v_from_reader props=C07,C08,C16
@ret e
@spec
    ensures
        match rd_node(bytes@, sp_pos(*old(r)), sp_end(*old(r)), (VNode { links: Seq::empty(), data: None })) {
            Rd::Bad => e is Err, // [C08]
            Rd::Odd => true,
            Rd::Good(x, _) => e is Ok && sp_vnode(e->Ok_0) == x, // [C08]
        },
        e matches Ok(n) ==> (n.Data matches Some(d) ==> sp_part(bytes@, d@)), // [C16]
@replace
Self :: default ( )
@with
crate::pb::v_no_node()
@replace any
r . read_bytes ( bytes ) . map ( Cow :: Borrowed ) ?
@with
Cow::Borrowed(r.read_bytes(bytes)?)
@replace any
r . read_string ( bytes ) . map ( Cow :: Borrowed ) ?
@with
Cow::Borrowed(r.read_string(bytes)?)
@replace any
r . read_message :: < PBLink < 'a > > ( bytes )
@with
crate::pb::v_read_link(r, bytes)
@loop 0
invariant
    msg.Data matches Some(d) ==> sp_part(bytes@, d@),
    sp_end(*r) == sp_end(*old(r)) || rd_node(bytes@, sp_pos(*old(r)), sp_end(*old(r)), (VNode { links: Seq::empty(), data: None })) is Odd,
    rd_node(bytes@, sp_pos(*old(r)), sp_end(*old(r)), (VNode { links: Seq::empty(), data: None })) is Odd
        || rd_node(bytes@, sp_pos(*old(r)), sp_end(*old(r)), (VNode { links: Seq::empty(), data: None })) == rd_node(bytes@, sp_pos(*r), sp_end(*r), sp_vnode(msg)),
ensures
    rd_node(bytes@, sp_pos(*old(r)), sp_end(*old(r)), (VNode { links: Seq::empty(), data: None })) is Odd || sp_pos(*r) == sp_end(*r),
decreases crate::pb::sp_left(bytes@, sp_pos(*r)), // [C07 C08]
@proof loop 0 start
broadcast use crate::pb::lm_rd_v;
proof { lm_part_all(bytes@); }
let ghost l0 = msg.Links@;
@proof loop 0 end
proof {
    if msg.Links@.len() > l0.len() { assert(sp_vlinks(msg.Links@) =~= sp_vlinks(l0).push(sp_vlink(msg.Links@.last()))); }
}
@file src/pb/unixfs.rs
@dup MessageRead@UnixTime::from_reader as=v_from_reader props=C07,C08
@ret e
@spec
    ensures
        match rd_time(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_time()) {
            Rd::Bad => e is Err, // [C08]
            Rd::Odd => true,
            Rd::Good(x, _) => e is Ok && e->Ok_0 == x, // [C08]
        },
@replace
Self :: default ( )
@with
crate::pb::v_no_time()
@replace any
r . read_bytes ( bytes ) . map ( Cow :: Borrowed ) ?
@with
Cow::Borrowed(r.read_bytes(bytes)?)
@replace any
r . read_string ( bytes ) . map ( Cow :: Borrowed ) ?
@with
Cow::Borrowed(r.read_string(bytes)?)
@loop 0
invariant
    sp_end(*r) == sp_end(*old(r)) || rd_time(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_time()) is Odd,
    rd_time(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_time()) is Odd
        || rd_time(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_time()) == rd_time(bytes@, sp_pos(*r), sp_end(*r), msg),
ensures
    rd_time(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_time()) is Odd || sp_pos(*r) == sp_end(*r),
decreases crate::pb::sp_left(bytes@, sp_pos(*r)), // [C07 C08]
@proof loop 0 start
broadcast use crate::pb::lm_rd_v;
@dup MessageRead@Data::from_reader as=v_from_reader props=C07,C08
@ret e
@spec
    ensures
        match rd_data(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_data()) {
            Rd::Bad => e is Err, // [C08]
            Rd::Odd => true,
            Rd::Good(x, _) => e is Ok && sp_vdata(e->Ok_0) == x, // [C08]
        },
@replace
Self :: default ( )
@with
crate::pb::v_no_data()
@replace any
r . read_bytes ( bytes ) . map ( Cow :: Borrowed ) ?
@with
Cow::Borrowed(r.read_bytes(bytes)?)
@replace any
r . read_string ( bytes ) . map ( Cow :: Borrowed ) ?
@with
Cow::Borrowed(r.read_string(bytes)?)
@replace any
r . read_message :: < UnixTime > ( bytes )
@with
crate::pb::v_read_time(r, bytes)
@replace any
r . read_enum ( bytes ) ?
@with
mod_Data::DataType::v_from(r.read_int32(bytes)?)
@loop 0
invariant
    sp_end(*r) == sp_end(*old(r)) || rd_data(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_data()) is Odd,
    rd_data(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_data()) is Odd
        || rd_data(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_data()) == rd_data(bytes@, sp_pos(*r), sp_end(*r), sp_vdata(msg)),
ensures
    rd_data(bytes@, sp_pos(*old(r)), sp_end(*old(r)), sp_no_data()) is Odd || sp_pos(*r) == sp_end(*r),
decreases crate::pb::sp_left(bytes@, sp_pos(*r)), // [C07 C08]
@proof loop 0 start
broadcast use crate::pb::lm_rd_v;
@dup mod_Data::Default@DataType::default as=v_default props=C08
@ret e
@spec
    ensures e == DataType::Raw, // [C08]
@dup mod_Data::From@DataType::from as=v_from props=C08
@ret e
@spec
    ensures e == crate::pb::sp_type_of(i), // [C08]
@replace
Self :: default ( )
@with
Self::v_default()
@fn mod_Data::From@i32::from props=C06,C11,C18
