@file src/pb/unixfs.rs
@type Data
@type UnixTime
@type mod_Data::DataType #[derive(vstd::prelude::Structural)]
@file src/pb/merkledag.rs
@type PBLink
@type PBNode
@file src/pb.rs
@type FlatUnixFs
@type RangeLinks
@type ParsingFailed
@append
verus! {
impl<'a> vstd::std_specs::convert::TryFromSpecImpl<&'a [u8]> for FlatUnixFs<'a> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: &'a [u8]) -> Result<Self, ParsingFailed<'a>> { arbitrary() }
}
/// the file ranges covered by links with the given block sizes
pub open spec fn sp_ranges<'a>(s: Seq<(PBLink<'a>, u64)>, base: u64) -> Seq<(PBLink<'a>, Range<u64>)> {
    Seq::new(s.len(), |i: int| (s[i].0, Range { start: (base + sp_psum(s, i)) as u64, end: (base + sp_psum(s, i + 1)) as u64 }))
}
pub open spec fn sp_psum<'a>(s: Seq<(PBLink<'a>, u64)>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_psum(s, n - 1) + s[n - 1].1 }
}
pub proof fn lm_psum_mono<'a>(s: Seq<(PBLink<'a>, u64)>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures 0 <= sp_psum(s, a) <= sp_psum(s, b)
    decreases b
{
    if a < b { lm_psum_mono(s, a, b - 1); }
    else if a > 0 { lm_psum_mono(s, a - 1, a - 1); }
}
pub proof fn lm_psum_shift<'a>(s: Seq<(PBLink<'a>, u64)>, n: int)
    requires 1 <= n <= s.len(),
    ensures sp_psum(s, n) == s[0].1 + sp_psum(s.drop_first(), n - 1)
    decreases n
{
    if n > 1 { lm_psum_shift(s, n - 1); }
    else { assert(sp_psum(s, 1) == sp_psum(s, 0) + s[0].1); }
}
pub proof fn lm_ranges_step<'a>(s: Seq<(PBLink<'a>, u64)>)
    ensures
        forall|i: int| 0 <= i <= s.len() ==> 0 <= #[trigger] sp_psum(s, i) <= sp_psum(s, s.len() as int),
        s.len() > 0 ==> sp_psum(s, 1) == s[0].1,
        s.len() > 0 ==> forall|i: int| 0 <= i <= s.len() - 1 ==> #[trigger] sp_psum(s.drop_first(), i) == sp_psum(s, i + 1) - s[0].1,
{
    assert forall|i: int| 0 <= i <= s.len() implies 0 <= #[trigger] sp_psum(s, i) <= sp_psum(s, s.len() as int) by {
        lm_psum_mono(s, i, s.len() as int);
    }
    if s.len() > 0 {
        assert(sp_psum(s, 1) == sp_psum(s, 0) + s[0].1);
        assert forall|i: int| 0 <= i <= s.len() - 1 implies #[trigger] sp_psum(s.drop_first(), i) == sp_psum(s, i + 1) - s[0].1 by {
            lm_psum_shift(s, i + 1);
        }
    }
}
impl<'a, I: Iterator<Item = (PBLink<'a>, u64)>> vstd::std_specs::iter::IteratorSpecImpl for RangeLinks<I> {
    closed spec fn obeys_prophetic_iter_laws(&self) -> bool { self.inner.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    closed spec fn remaining(&self) -> Seq<(PBLink<'a>, Range<u64>)> { sp_ranges(self.inner.remaining(), self.base) }
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { self.inner.will_return_none() }
    closed spec fn decrease(&self) -> Option<nat> { self.inner.decrease() }
    open spec fn peek(&self, index: int) -> Option<(PBLink<'a>, Range<u64>)> { None }
}
impl<'a, I: Iterator<Item = (PBLink<'a>, u64)>> RangeLinks<I> {
    #[verifier::prophetic]
    pub closed spec fn fits(self) -> bool {
        self.base + sp_psum(self.inner.remaining(), self.inner.remaining().len() as int) <= u64::MAX
    }
}
/// the dag-pb node and the unixfs message a byte string stands for (the protobuf reader is not under contract)
pub uninterp spec fn sp_node<'a>(b: Seq<u8>) -> Option<merkledag::PBNode<'a>>;
pub uninterp spec fn sp_unixfs<'a>(b: Seq<u8>) -> Option<unixfs::Data<'a>>;
pub open spec fn sp_borrowed(d: Option<Cow<'_, [u8]>>) -> bool { d is Some ==> d->0 is Borrowed }
pub open spec fn sp_flat<'a>(b: Seq<u8>) -> Option<FlatUnixFs<'a>> {
    match sp_node::<'a>(b) {
        None => None,
        Some(node) => match node.Data {
            None => None,
            Some(d) => if d@.len() == 0 { None } else {
                match sp_unixfs::<'a>(d@) {
                    None => None,
                    Some(data) => Some(FlatUnixFs { links: node.Links, data }),
                }
            },
        },
    }
}
/// sum of the first `n` sizes
pub open spec fn sp_sum(s: Seq<u64>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_sum(s, n - 1) + s[n - 1] }
}
pub broadcast proof fn lm_sum_mono(s: Seq<u64>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures #![trigger sp_sum(s, a), sp_sum(s, b)] 0 <= sp_sum(s, a) <= sp_sum(s, b)
    decreases b
{
    if a < b { lm_sum_mono(s, a, b - 1); }
    else if a > 0 { lm_sum_mono(s, a - 1, a - 1); lm_sum_nonneg(s, a); }
}
pub proof fn lm_sum_nonneg(s: Seq<u64>, a: int)
    requires 0 <= a <= s.len(),
    ensures 0 <= sp_sum(s, a)
    decreases a
{
    if a > 0 { lm_sum_nonneg(s, a - 1); }
}
}
@trusted TryFrom@PBNode::try_from
@ret r
@spec
    ensures
        r is Ok == sp_node(data@) is Some,
        r matches Ok(n) ==> sp_node(data@) == Some(n) && sp_borrowed(n.Data),
        r matches Ok(n) ==> (n.Data matches Some(d) ==> sp_part(data@, d@)),
@trusted TryFrom@Data#1::try_from
@ret r
@spec
    ensures
        r is Ok == sp_unixfs(data.unwrap_or(&[])@) is Some,
        r matches Ok(n) ==> sp_unixfs(data.unwrap_or(&[])@) == Some(n) && sp_borrowed(n.Data),
@fn TryFrom@FlatUnixFs::try_from
@ret r
@spec
    ensures
        r is Ok == sp_flat(data@) is Some,
        r matches Ok(n) ==> sp_flat(data@) == Some(n) && sp_borrowed(n.data.Data),
        r matches Err(e) ==> sp_failed(data@, e), // [C11 C12]
        r matches Err(e) ==> sp_failed_as(data@, e), // [C18]
@replace
map_err ( ParsingFailed :: InvalidDagPb )
@with
map_err(|e: quick_protobuf::Error| -> (p: ParsingFailed<'a>) ensures p is InvalidDagPb { ParsingFailed::InvalidDagPb(e) })
@fn RangeLinks::from_links_and_blocksizes props=C01,C05,C06,C07
@ret r
@spec
    ensures
        r.remaining() == sp_ranges(zipped.remaining(), match start_offset { Some(o) => o, None => 0u64 }), // [C01 C05 C06]
        r.obeys_prophetic_iter_laws() == zipped.obeys_prophetic_iter_laws(),
        r.decrease() == zipped.decrease(),
        (match start_offset { Some(o) => o, None => 0u64 }) + sp_psum(zipped.remaining(), zipped.remaining().len() as int) <= u64::MAX ==> r.fits(), // [C07]
@trusted Iterator@RangeLinks::next
@dup Iterator@RangeLinks::next as=v_next props=C01,C05,C06,C07
@ret r
@spec
    requires
        (*old(self)).obeys_prophetic_iter_laws(),
        (*old(self)).fits(),
    ensures
        // [C01 C05 C06 C07]
        (*final(self)).fits(),
        // the laws of an iterator, as `next` of the trait promises them
        (*final(self)).obeys_prophetic_iter_laws(),
        (*final(self)).will_return_none() == (*old(self)).will_return_none(),
        (*final(self)).decrease() is Some == (*old(self)).decrease() is Some,
        (*old(self)).remaining().len() > 0 ==> (*final(self)).remaining() =~= (*old(self)).remaining().drop_first() && r == Some((*old(self)).remaining()[0]), // [C01 C05 C06]
        (*old(self)).remaining().len() == 0 ==> r is None && (*final(self)).remaining() == (*old(self)).remaining() && (*old(self)).will_return_none(),
@replace
Option < Self :: Item >
@with
Option<(PBLink<'a>, Range<u64>)>
@replace
self . inner . next ( ) . map ( | ( $a , $b ) | { $$body } )
@with
match self.inner.next() { None => None, Some(($a, $b)) => Some({ $body }) }
@proof start
proof { lm_ranges_step(self.inner.remaining()); }
@file src/lib.rs
@type Metadata
@type UnexpectedNodeType
@type InvalidCidInLink
@append
verus! {
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCid<const S: usize>(libipld::cid::CidGeneric<S>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCidError(libipld::cid::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPbError(quick_protobuf::Error);
#[cfg(feature = "filetime")]
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFileTime(filetime::FileTime);
/// seconds since the epoch and nanoseconds
#[cfg(feature = "filetime")]
pub uninterp spec fn sp_filetime(t: filetime::FileTime) -> (i64, u32);
#[cfg(feature = "filetime")]
pub assume_specification[ filetime::FileTime::from_unix_time ](seconds: i64, nanos: u32) -> (r: filetime::FileTime)
    ensures sp_filetime(r) == (seconds, nanos);
}
@append
verus! {
pub closed spec fn sp_metadata(d: UnixFs<'_>) -> Metadata {
    Metadata {
        mode: d.mode,
        mtime: match d.mtime {
            None => None,
            Some(t) => Some((t.Seconds, match t.FractionalNanoseconds { Some(n) => n, None => 0u32 })),
        },
    }
}
/// derive(Clone) copies every field
#[verifier::external_body]
pub fn v_metadata_to_owned(m: &Metadata) -> (r: Metadata)
    ensures r == *m
{ m.to_owned() }
pub broadcast axiom fn ax_unixtime_clone(a: pb::unixfs::UnixTime, b: pb::unixfs::UnixTime)
    ensures #[trigger] vstd::pervasive::cloned(a, b) ==> a == b;
impl<'a, 'b> vstd::std_specs::convert::FromSpecImpl<&'a UnixFs<'b>> for Metadata {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: &'a UnixFs<'b>) -> Metadata { sp_metadata(*d) }
}
}
@append
verus! {
impl UnexpectedNodeType {
    /// the kind of node which was met
    pub closed spec fn sp_kind(self) -> UnixFsType { pb::sp_type_of(self.0) }
}
pub closed spec fn sp_unexpected(t: UnixFsType) -> UnexpectedNodeType { UnexpectedNodeType(pb::sp_type_code(t)) }
pub broadcast proof fn lm_unexpected(t: UnixFsType)
    ensures #[trigger] sp_unexpected(t).sp_kind() == t
{}
impl vstd::std_specs::convert::FromSpecImpl<UnixFsType> for UnexpectedNodeType {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: UnixFsType) -> UnexpectedNodeType { sp_unexpected(d) }
}
}
@fn From@UnexpectedNodeType::from props=C06,C11,C18
@fn UnexpectedNodeType::is_directory props=C06,C11,C18
@ret r
@spec
    ensures r == (self.sp_kind() == UnixFsType::Directory || self.sp_kind() == UnixFsType::HAMTShard), // [C18]
@replace any
UnixFsType :: from ( self . 0 )
@with
UnixFsType::v_from(self.0)
@fn UnexpectedNodeType::is_file props=C06,C11,C18
@ret r
@spec
    ensures r == (self.sp_kind() == UnixFsType::File), // [C18]
@replace any
UnixFsType :: from ( self . 0 )
@with
UnixFsType::v_from(self.0)
@fn From@Metadata::from props=C14
@proof start
broadcast use ax_unixtime_clone;
@closure 0
|$1: pb::unixfs::UnixTime| -> (r: (i64, u32)) ensures r == ($1.Seconds, match $1.FractionalNanoseconds { Some(n) => n, None => 0u32 })
@fn Metadata::mtime_as_filetime props=C14
@ret r
@spec
    ensures
        r is Some == self.sp_mtime() is Some, // [C14]
        r matches Some(t) ==> Some(sp_filetime(t)) == self.sp_mtime(), // [C14]
@replace any
. map ( | ( $a , $b ) | $c )
@with
.map(|v_p: (i64, u32)| -> (v_r: filetime::FileTime) ensures sp_filetime(v_r) == v_p { let ($a, $b) = v_p; $c })
@file src/file.rs
@type FileReadFailed
@type FileError
@append
verus! {
impl<'a> vstd::std_specs::convert::FromSpecImpl<ParsingFailed<'a>> for FileReadFailed {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: ParsingFailed<'a>) -> FileReadFailed {
        match d {
            ParsingFailed::InvalidDagPb(e) => FileReadFailed::Read(Some(e)),
            ParsingFailed::InvalidUnixFs(e, _) => FileReadFailed::Read(Some(e)),
            ParsingFailed::NoData(_) => FileReadFailed::Read(None),
        }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<FileError> for FileReadFailed {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: FileError) -> FileReadFailed { FileReadFailed::File(d) }
}
}
@fn From@FileReadFailed::from props=C06,C18
@fn From@FileReadFailed#1::from props=C06,C18
@dup UnwrapBorrowedExt@Option::unwrap_borrowed_or_empty free as=v_unwrap_borrowed_or_empty props=C01,C05,C07
@ret r
@spec
    requires v_self is Some ==> v_self->0 is Borrowed,
    ensures r@ == (match v_self { None => Seq::<u8>::empty(), Some(c) => c@ }),
@replace
fn unwrap_borrowed_or_empty ( self )
@with
pub(crate) fn unwrap_borrowed_or_empty<'a>(v_self: Option<Cow<'a, [u8]>>)
@replace
match self
@with
match v_self
@file src/file/reader.rs
@type FileReader
@type Ending
@type Traversal
@type FileContent wrap
@append
verus! {
use crate::pb::{sp_flat, sp_borrowed, sp_sum, lm_sum_mono, lm_sum_nonneg};
pub closed spec fn sp_unsuitable(e: Ending, offset: u64, next: Range<u64>) -> bool {
    match e {
        // a tree has to stay inside of the tree above, may not overlap, and not go backwards
        Ending::TreeCoverage(cover) =>
            (next.start <= offset && next.end > cover)
            || (next.start < cover && next.end > cover)
            || next.start < offset,
        // after content the next has to continue where the content ended
        Ending::Chunk(end) => next.start != end,
    }
}
/// content of a node
pub open spec fn sp_data(f: FlatUnixFs<'_>) -> Seq<u8> {
    match f.data.Data { None => Seq::empty(), Some(c) => c@ }
}
pub open spec fn sp_own_size(f: FlatUnixFs<'_>) -> int {
    match f.data.filesize { Some(s) => s as int, None => sp_data(f).len() as int }
}
/// the node can be a part of a file which starts at `offset`
pub open spec fn sp_node_ok(f: FlatUnixFs<'_>, offset: u64) -> bool {
    let n = f.links@.len();
    &&& (f.data.Type == UnixFsType::File || f.data.Type == UnixFsType::Raw)
    &&& n == f.data.blocksizes@.len()
    &&& (n == 0 && sp_data(f).len() == 0 ==> f.data.filesize is None || f.data.filesize == Some(0u64))
    &&& (n > 0 ==> f.data.filesize is Some)
    &&& f.data.hashType is None
    &&& f.data.fanout is None
    &&& offset + sp_own_size(f) <= u64::MAX
    &&& offset + sp_sum(f.data.blocksizes@, n as int) <= u64::MAX
}
/// what is wrong with the node as a part of a file at `offset`
pub open spec fn sp_file_fault(f: FlatUnixFs<'_>, offset: u64, e: FileError) -> bool {
    let n = f.links@.len();
    match e {
        FileError::LinksAndBlocksizesMismatch => n != f.data.blocksizes@.len(),
        FileError::NoLinksNoContent => n == 0 && sp_data(f).len() == 0 && f.data.filesize is Some && f.data.filesize != Some(0u64),
        FileError::IntermediateNodeWithoutFileSize => n > 0 && f.data.filesize is None,
        FileError::UnexpectedRawOrFileProperties { hash_type, fanout } => hash_type == f.data.hashType && fanout == f.data.fanout && (hash_type is Some || fanout is Some),
        FileError::TreeExpandsOnLinks => offset + sp_own_size(f) > u64::MAX || offset + sp_sum(f.data.blocksizes@, f.data.blocksizes@.len() as int) > u64::MAX,
        _ => false,
    }
}
pub open spec fn sp_node_fault(f: FlatUnixFs<'_>, offset: u64, e: FileReadFailed) -> bool {
    match e {
        FileReadFailed::UnexpectedType(t) => t.sp_kind() == f.data.Type && f.data.Type != UnixFsType::File && f.data.Type != UnixFsType::Raw,
        FileReadFailed::File(x) => sp_file_fault(f, offset, x),
        _ => false,
    }
}
/// the block is no unixfs node
pub open spec fn sp_unread(b: Seq<u8>, e: FileReadFailed) -> bool {
    e matches FileReadFailed::Read(x) && (x is None ==> crate::pb::sp_dataless(b))
}
pub open spec fn sp_block_fault(b: Seq<u8>, offset: u64, e: FileReadFailed) -> bool {
    match sp_flat(b) { None => sp_unread(b, e), Some(f) => sp_node_fault(f, offset, e) }
}
/// what is wrong with a block which is not the root
pub open spec fn sp_later_fault(b: Seq<u8>, offset: u64, e: FileReadFailed) -> bool {
    sp_block_fault(b, offset, e)
    || (sp_flat(b) matches Some(f) && e matches FileReadFailed::File(FileError::NonRootDefinesMetadata(m)) && m == crate::sp_metadata(f.data) && (f.data.mode is Some || f.data.mtime is Some))
}
/// what is wrong with the place of the next tree or block
pub closed spec fn sp_place_fault(e: Ending, offset: u64, next: Range<u64>, x: FileError) -> bool {
    match (x, e) {
        (FileError::TreeExpandsOnLinks, Ending::TreeCoverage(cover)) => next.start <= offset && next.end > cover,
        (FileError::TreeOverlapsBetweenLinks, Ending::TreeCoverage(cover)) => next.start < cover && next.end > cover,
        (FileError::EarlierLink, Ending::TreeCoverage(_)) => next.start < offset,
        (FileError::TreeJumpsBetweenLinks, Ending::Chunk(end)) => next.start != end,
        _ => false,
    }
}
pub closed spec fn sp_ending(f: FlatUnixFs<'_>, offset: u64) -> Ending {
    if f.links@.len() == 0 { Ending::Chunk((offset + sp_own_size(f)) as u64) } else { Ending::TreeCoverage((offset + sp_own_size(f)) as u64) }
}
/// the links of a node with their block sizes
pub open spec fn sp_zip<'a>(f: FlatUnixFs<'a>) -> Seq<(PBLink<'a>, u64)> {
    Seq::new(f.links@.len(), |i: int| (f.links@[i], f.data.blocksizes@[i]))
}
pub proof fn lm_zip_sum<'a>(f: FlatUnixFs<'a>, n: int)
    requires 0 <= n <= f.links@.len() == f.data.blocksizes@.len(),
    ensures crate::pb::sp_psum(sp_zip(f), n) == sp_sum(f.data.blocksizes@, n)
    decreases n
{
    if n > 0 { lm_zip_sum(f, n - 1); }
}
pub proof fn lm_same_sums<'a>(b: Seq<u64>)
    ensures forall|s: Seq<(PBLink<'a>, u64)>, n: int| 0 <= n <= s.len() && s.len() == b.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].1 == b[i]) ==> #[trigger] crate::pb::sp_psum(s, n) == sp_sum(b, n)
{
    assert forall|s: Seq<(PBLink<'a>, u64)>, n: int| 0 <= n <= s.len() && s.len() == b.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].1 == b[i]) implies #[trigger] crate::pb::sp_psum(s, n) == sp_sum(b, n) by {
        lm_same_sum(s, b, n);
    }
}
pub proof fn lm_same_sum<'a>(s: Seq<(PBLink<'a>, u64)>, b: Seq<u64>, n: int)
    requires 0 <= n <= s.len() == b.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].1 == b[i],
    ensures crate::pb::sp_psum(s, n) == sp_sum(b, n)
    decreases n
{
    if n > 0 { lm_same_sum(s, b, n - 1); }
}
impl Traversal {
    /// the state after the node `f` at `offset`
    pub closed spec fn after(self, f: FlatUnixFs<'_>, offset: u64, metadata: Metadata, file_size: u64) -> bool {
        &&& self.last_ending == sp_ending(f, offset)
        &&& self.last_offset == offset
        &&& self.metadata == metadata
        &&& self.file_size == file_size
    }
    pub closed spec fn sp_metadata(self) -> Metadata { self.metadata }
    pub closed spec fn sp_file_size(self) -> u64 { self.file_size }
    pub closed spec fn sp_misplaced(self, next: Range<u64>, x: FileError) -> bool { sp_place_fault(self.last_ending, self.last_offset, next, x) }
    pub closed spec fn sp_refuses(self, next: Range<u64>) -> bool { sp_unsuitable(self.last_ending, self.last_offset, next) }
}
pub broadcast proof fn lm_after(t: Traversal, f: FlatUnixFs<'_>, offset: u64, metadata: Metadata, file_size: u64)
    requires #[trigger] t.after(f, offset, metadata, file_size),
    ensures t.sp_metadata() == metadata, t.sp_file_size() == file_size,
{}
pub broadcast proof fn lm_reads<'a>(t: FileReader<'a>, f: FlatUnixFs<'a>, offset: u64, metadata: Metadata, file_size: u64)
    requires #[trigger] t.reads(f, offset, metadata, file_size),
    ensures t.sp_metadata() == metadata, t.wf(),
{}
impl<'a> FileReader<'a> {
    pub closed spec fn sp_metadata(self) -> Metadata { self.metadata }
    /// the reader stands for the node `f` at `offset`
    pub closed spec fn reads(self, f: FlatUnixFs<'a>, offset: u64, metadata: Metadata, file_size: u64) -> bool {
        &&& self.wf()
        &&& self.offset == offset
        &&& self.links == f.links
        &&& self.blocksizes == f.data.blocksizes
        &&& self.data@ == sp_data(f)
        &&& self.metadata == metadata
        &&& self.file_size == file_size
        &&& self.end == sp_ending(f, offset)
    }
    pub closed spec fn wf(self) -> bool {
        &&& self.links@.len() == self.blocksizes@.len()
        &&& self.offset + sp_sum(self.blocksizes@, self.blocksizes@.len() as int) <= u64::MAX
    }
}
}
@fn Ending::check_is_suitable_next props=C06,C18
@ret r
@spec
    ensures
        r is Err == sp_unsuitable(*self, offset, *next), // [C06]
        r matches Err(e) ==> sp_place_fault(*self, offset, *next, e), // [C18]
@fn FileReader::from_parts props=C01,C05,C06,C07,C18
@ret r
@spec
    requires inner.data.Data is Some ==> inner.data.Data->0 is Borrowed,
    ensures
        r is Ok == sp_node_ok(inner, offset), // [C06]
        r matches Err(e) ==> sp_node_fault(inner, offset, e), // [C18]
        r matches Ok(fr) ==> {
            &&& fr.reads(inner, offset, metadata, match file_size { Some(s) => s, None => sp_own_size(inner) as u64 })
        },
@replace
inner . data . blocksizes . iter ( ) . try_fold ( $init , | $acc , $x | $body )
@with
({
    let mut v_acc: Option<u64> = Some($init);
    for $x in v_it: inner.data.blocksizes.iter()
        invariant
            v_it.seq().len() == inner.data.blocksizes@.len(),
            forall|i: int| 0 <= i < inner.data.blocksizes@.len() ==> *(#[trigger] v_it.seq()[i]) == inner.data.blocksizes@[i],
            v_acc is Some == ($init + sp_sum(inner.data.blocksizes@, v_it.index()) <= u64::MAX),
            v_acc matches Some(v) ==> v == $init + sp_sum(inner.data.blocksizes@, v_it.index()),
    {
        broadcast use lm_sum_mono;
        v_acc = match v_acc { None => None, Some($acc) => $body };
    }
    v_acc
})
@replace
inner . data . Data . unwrap_borrowed_or_empty ( )
@with
crate::file::v_unwrap_borrowed_or_empty(inner.data.Data)
@closure 0
|$1: &alloc::borrow::Cow<'_, [u8]>| -> (r: bool) ensures r == ($1@.len() == 0)
@closure 1
|$1: u64| -> (r: Result<u64, FileError>) ensures r == (if offset + $1 <= u64::MAX { Ok::<u64, FileError>((offset + $1) as u64) } else { Err::<u64, FileError>(FileError::TreeExpandsOnLinks) })
@proof start
broadcast use {crate::ax_cow_ref_bytes, crate::lm_unexpected, crate::ax_question};
@fn FileReader::from_block props=C01,C05,C06,C07,C14,C18
@ret r
@spec
    ensures
        r is Ok == (sp_flat(data@) is Some && sp_node_ok(sp_flat(data@)->0, 0)), // [C06]
        r matches Err(e) ==> sp_block_fault(data@, 0, e), // [C18]
        r matches Ok(fr) ==> fr.wf() && fr.reads(sp_flat(data@)->0, 0, crate::sp_metadata(sp_flat(data@)->0.data), sp_own_size(sp_flat(data@)->0) as u64), // [C01 C05 C14]
@proof start
broadcast use crate::ax_question;
@fn FileReader::from_parsed props=C01,C05,C06,C07,C14,C18
@ret r
@spec
    requires sp_borrowed(inner.data.Data),
    ensures
        r is Ok == sp_node_ok(inner, 0), // [C06]
        r matches Err(e) ==> sp_node_fault(inner, 0, e), // [C18]
        r matches Ok(fr) ==> fr.wf() && fr.reads(inner, 0, crate::sp_metadata(inner.data), sp_own_size(inner) as u64), // [C01 C05 C14]
@fn FileReader::from_continued props=C01,C05,C06,C07,C14,C18
@ret r
@spec
    ensures
        r is Ok == (sp_flat(data@) is Some && sp_node_ok(sp_flat(data@)->0, offset) && sp_flat(data@)->0.data.mode is None && sp_flat(data@)->0.data.mtime is None), // [C06]
        r matches Ok(fr) ==> fr.reads(sp_flat(data@)->0, offset, traversal.metadata, traversal.file_size), // [C01 C05 C14]
        r matches Err(e) ==> sp_later_fault(data@, offset, e), // [C18]
@proof start
broadcast use crate::ax_question;
@fn FileReader::content props=C01,C05,C06,C07,C14,C18
@ret r
@spec
    requires self.wf(),
    ensures
        forall|f: FlatUnixFs<'a>, o: u64, m: Metadata, s: u64| #[trigger] self.reads(f, o, m, s) ==> {
            &&& r.1.after(f, o, m, s) // [C05 C06 C14]
            &&& r.0 is Bytes == (f.links@.len() == 0) // [C01 C05]
            &&& r.0 is Bytes ==> r.0->Bytes_0@ == sp_data(f) // [C01 C05]
            &&& r.0 is Links ==> r.0->Links_0.remaining() =~= crate::pb::sp_ranges(sp_zip(f), o) // [C01 C05 C06]
        },
        r.0 is Links ==> r.0->Links_0.obeys_prophetic_iter_laws() && r.0->Links_0.fits() && r.0->Links_0.decrease() is Some, // [C07]
        r.0 is Links ==> r.0->Links_0.remaining().len() <= usize::MAX, // [C18]
@replace
FileContent < 'a , impl Iterator < Item = ( PBLink < 'a > , Range < u64 > ) > >
@with
FileContent<'a, RangeLinks<core::iter::Zip<alloc::vec::IntoIter<PBLink<'a>>, alloc::vec::IntoIter<u64>>>>
@proof start
proof { lm_same_sums(self.blocksizes@); crate::lm_vec_len(self.links); }
@fn Traversal::continue_walk props=C01,C05,C06,C07,C14,C18
@ret r
@spec
    ensures
        r is Ok == (!self.sp_refuses(*tree_range) && sp_flat(next_block@) is Some && sp_node_ok(sp_flat(next_block@)->0, tree_range.start)
            && sp_flat(next_block@)->0.data.mode is None && sp_flat(next_block@)->0.data.mtime is None), // [C06]
        r matches Ok(fr) ==> fr.wf() && fr.reads(sp_flat(next_block@)->0, tree_range.start, self.sp_metadata(), self.sp_file_size()), // [C01 C05 C14]
        r matches Err(e) ==> (e matches FileReadFailed::File(x) && self.sp_misplaced(*tree_range, x)) || sp_later_fault(next_block@, tree_range.start, e), // [C18]
@proof start
broadcast use crate::ax_question;
@fn Traversal::file_size props=C01
@ret r
@spec
    ensures r == self.sp_file_size(), // [C01]
@fn AsRef@FileReader::as_ref props=C14
@ret r
@spec
    ensures *r == self.sp_metadata(), // [C14]
@fn AsRef@Traversal::as_ref props=C14
@ret r
@spec
    ensures *r == self.sp_metadata(), // [C14]
