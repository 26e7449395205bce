@note Resolving a path segment: plain directories, sharded directories, and the lookup over many buckets.
@file src/lib.rs
@append
verus! {
/// the bytes of a text
pub open spec fn sp_bytes(s: &str) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub broadcast axiom fn ax_cow_ref_str<'b, 'a>(c: &'b Cow<'a, str>)
    ensures (#[trigger] sp_cow_ref::<str>(c))@ == c@;
pub fn v_text_or_empty<'b>(c: &'b Option<Cow<'_, str>>) -> (r: &'b str)
    ensures r@ == sp_text(*c)
{
    broadcast use ax_cow_ref_str;
    proof { reveal_strlit(""); }
    match c { None => "", Some(x) => x.as_ref() }
}
pub open spec fn sp_text(c: Option<Cow<'_, str>>) -> Seq<char> {
    match c { None => Seq::<char>::empty(), Some(x) => x@ }
}
pub fn v_cow_str<'b>(c: &'b Cow<'_, str>) -> (r: &'b str)
    ensures r@ == c@
{
    broadcast use ax_cow_ref_str;
    c.as_ref()
}
#[verifier::external_body]
pub fn v_into_owned(c: Cow<'_, str>) -> (r: String)
    ensures r@ == c@
{ c.into_owned() }
/// `core::mem::take`
pub fn v_vec_take<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r == *old(v), final(v)@.len() == 0
{
    let mut r = Vec::new();
    core::mem::swap(v, &mut r);
    r
}
/// the number of bytes
pub fn v_str_len(s: &str) -> (r: usize)
    ensures r == sp_bytes(s).len()
{ s.as_bytes().len() }
/// `s.get(n..) == Some(t)`
#[verifier::external_body]
pub fn v_tail_is(s: &str, n: usize, t: &str) -> (r: bool)
    ensures r == (sp_bytes(s).len() >= n && sp_bytes(s).skip(n as int) == sp_bytes(t))
{ s.get(n..) == Some(t) }
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(#[trigger] s@[i], r@[i]);
#[verifier::external_body]
pub fn v_bytes_owned(s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@
{ s.to_vec() }
#[verifier::external_body]
pub fn v_text_owned(s: &str) -> (r: String)
    ensures r@ == s@
{ s.to_string() }
#[verifier::external_body]
pub fn v_no_bytes() -> (r: Cow<'static, [u8]>)
    ensures r@ == Seq::<u8>::empty()
{ Cow::Borrowed(&[][..]) }
impl InvalidCidInLink {
    /// the error is about `l`, the link with the index `n`
    pub closed spec fn about(self, n: int, l: PBLink<'_>) -> bool {
        &&& self.nth == n
        &&& self.hash@ =~= (match l.Hash { None => Seq::<u8>::empty(), Some(c) => c@ })
        &&& self.name@ =~= sp_text(l.Name)
    }
    pub closed spec fn sp_nth(self) -> int { self.nth as int }
}
/// the error is about one of the links, whose target is no identifier
pub open spec fn sp_bad_target(links: Seq<PBLink<'_>>, e: InvalidCidInLink) -> bool {
    &&& 0 <= e.sp_nth() < links.len()
    &&& e.about(e.sp_nth(), links[e.sp_nth()])
    &&& sp_cid(match links[e.sp_nth()].Hash { None => Seq::<u8>::empty(), Some(c) => c@ }) is None
}
pub broadcast proof fn lm_about(e: InvalidCidInLink, n: int, l: PBLink<'_>)
    ensures #[trigger] e.about(n, l) ==> e.sp_nth() == n
{}
pub fn v_cow_deref<'b>(c: &'b Option<Cow<'_, [u8]>>) -> (r: Option<&'b [u8]>)
    ensures r is Some == *c is Some, r matches Some(x) ==> x@ == (*c)->0@
{
    broadcast use ax_cow_ref_bytes;
    match c { None => None, Some(x) => Some(x.as_ref()) }
}
pub fn v_or_empty<'b>(c: Option<&'b [u8]>) -> (r: &'b [u8])
    ensures r@ == (match c { None => Seq::<u8>::empty(), Some(x) => x@ })
{
    match c { None => &[], Some(x) => x }
}
pub fn v_queue_is_empty<T>(q: &alloc::collections::VecDeque<T>) -> (r: bool)
    ensures r == (q@.len() == 0)
{ q.len() == 0 }
impl<'a> vstd::std_specs::convert::FromSpecImpl<(usize, PBLink<'a>, libipld::cid::Error)> for InvalidCidInLink {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(d: (usize, PBLink<'a>, libipld::cid::Error)) -> InvalidCidInLink { arbitrary() }
}
}
@fn From@InvalidCidInLink::from props=C18
@ret r
@spec
    ensures r.about(v_arg.0 as int, v_arg.1), // [C18]
@proof start
proof { reveal_strlit(""); }
@replace
fn from ( $p : $t ) -> $r {
@with
fn from(v_arg: $t) -> $r { let $p = v_arg;
@replace any
x . to_vec ( )
@with
crate::v_bytes_owned(x)
@replace any
x . to_string ( )
@with
crate::v_text_owned(x)
@replace any
Cow :: Borrowed ( & [ ] [ .. ] )
@with
crate::v_no_bytes()
@file src/pb.rs
@append
verus! {
/// the links of a block which has no unixfs message
pub open spec fn sp_plain_links<'a>(b: Seq<u8>) -> Option<Vec<PBLink<'a>>> {
    match sp_node::<'a>(b) {
        None => None,
        Some(node) => if sp_flat::<'a>(b) is Some { None } else { Some(node.Links) },
    }
}
/// what is reported for a block which is no unixfs node
pub open spec fn sp_failed<'a>(b: Seq<u8>, e: ParsingFailed<'a>) -> bool {
    match e {
        ParsingFailed::InvalidDagPb(_) => sp_node::<'a>(b) is None,
        ParsingFailed::NoData(node) | ParsingFailed::InvalidUnixFs(_, node) => sp_plain_links::<'a>(b) == Some(node.Links),
    }
}
/// a dag-pb node without anything inside
pub open spec fn sp_dataless(b: Seq<u8>) -> bool {
    sp_node(b) matches Some(node) && (match node.Data { None => true, Some(d) => d@.len() == 0 })
}
/// which of the three it was
pub open spec fn sp_failed_as<'a>(b: Seq<u8>, e: ParsingFailed<'a>) -> bool {
    match e {
        ParsingFailed::InvalidDagPb(_) => sp_node::<'a>(b) is None,
        ParsingFailed::NoData(_) => sp_dataless(b),
        ParsingFailed::InvalidUnixFs(_, _) => sp_node::<'a>(b) is Some && !sp_dataless(b) && sp_flat::<'a>(b) is None,
    }
}
}
@fn FlatUnixFs::try_parse
@ret r
@spec
    ensures
        r is Ok == sp_flat(data@) is Some,
        r matches Ok(n) ==> sp_flat(data@) == Some(n) && sp_borrowed(n.data.Data),
        r matches Err(e) ==> sp_failed(data@, e), // [C11 C12]
        r matches Err(e) ==> sp_failed_as(data@, e), // [C18]
@file src/dir/directory.rs
@type UnexpectedDirectoryProperties
@append
verus! {
/// a directory has nothing which belongs to files or shards
pub open spec fn sp_plain_dir(f: FlatUnixFs<'_>) -> bool {
    &&& f.data.filesize is None
    &&& f.data.blocksizes@.len() == 0
    &&& f.data.hashType is None
    &&& f.data.fanout is None
    &&& (match f.data.Data { None => true, Some(d) => d@.len() == 0 })
}
impl UnexpectedDirectoryProperties {
    /// tells the properties of the directory
    pub closed spec fn sp_of(self, f: FlatUnixFs<'_>) -> bool {
        &&& self.filesize == f.data.filesize
        &&& self.blocksizes == f.data.blocksizes
        &&& self.hash_type == f.data.hashType
        &&& self.fanout == f.data.fanout
        &&& self.data is Some == f.data.Data is Some
        &&& self.data matches Some(d) ==> d@ =~= f.data.Data->0@
    }
}
}
@fn check_directory_supported props=C11,C13,C18
@ret r
@spec
    ensures
        r is Ok == sp_plain_dir(flat), // [C11 C13 C18]
        r matches Ok(f) ==> f == flat, // [C11 C13]
        r matches Err(e) ==> e.sp_of(flat), // [C18]
@replace
data . map ( | $s | $s . to_vec ( ) )
@with
(match data { None => None, Some($s) => Some(crate::v_bytes_owned($s)) })
@replace
flat . data . Data . as_deref ( )
@with
crate::v_cow_deref(&flat.data.Data)
@replace
data . unwrap_or_default ( )
@with
crate::v_or_empty(data)
@file src/dir.rs
@type MaybeResolved wrap
@type ResolveError
@type MultipleMatchingLinks
@append
verus! {
use crate::pb::{sp_flat, sp_node, sp_plain_links};
/// identifier of a link
pub open spec fn sp_target(l: PBLink<'_>) -> Option<Cid> { crate::sp_cid(match l.Hash { None => Seq::<u8>::empty(), Some(c) => c@ }) }
pub open spec fn sp_name(l: PBLink<'_>) -> Seq<char> { crate::sp_text(l.Name) }
/// the indices of the links with the name
pub open spec fn sp_named(links: Seq<PBLink<'_>>, name: Seq<char>) -> Seq<int>
    decreases links.len()
{
    if links.len() == 0 { Seq::empty() } else {
        let rest = sp_named(links.drop_last(), name);
        if sp_name(links.last()) == name { rest.push(links.len() - 1) } else { rest }
    }
}
}
@fn try_convert_cid props=C11,C12,C18
@closure 0
|$1: libipld::cid::Error| -> (r: InvalidCidInLink) ensures r.about(nth as int, link)
@ret r
@spec
    ensures
        r matches Err(e) ==> e.about(nth as int, link), // [C18]
        r is Ok == sp_target(link) is Some, // [C11 C12]
        r matches Ok(c) ==> Some(c) == sp_target(link), // [C11 C12]
@proof start
broadcast use crate::ax_cidg;
@replace
link . Hash . as_deref ( ) . unwrap_or_default ( )
@with
crate::v_cow_or_empty(&link.Hash)
@append
verus! {
use sharded_lookup::{sp_scan, sp_shard, PartitioningError};
impl MultipleMatchingLinks {
    pub open spec fn sp_first(self) -> (usize, Cid) {
        match self { MultipleMatchingLinks::Two { first, .. } => first, MultipleMatchingLinks::OneValid { first, .. } => first }
    }
    pub open spec fn sp_second(self) -> int {
        match self { MultipleMatchingLinks::Two { second, .. } => second.0 as int, MultipleMatchingLinks::OneValid { second, .. } => second.sp_nth() }
    }
    /// the other link is `l`, which is at the index `j`
    pub open spec fn sp_second_is(self, j: int, l: PBLink<'_>) -> bool {
        match self {
            MultipleMatchingLinks::Two { second, .. } => second.0 == j && sp_target(l) == Some(second.1),
            MultipleMatchingLinks::OneValid { second, .. } => second.about(j, l) && sp_target(l) is None,
        }
    }
    /// the two links are among `links`
    pub open spec fn sp_two_of(self, links: Seq<PBLink<'_>>) -> bool {
        let (i, j) = (self.sp_first().0 as int, self.sp_second());
        &&& i < j < links.len()
        &&& sp_target(links[i]) == Some(self.sp_first().1)
        &&& self.sp_second_is(j, links[j])
    }
}
impl vstd::std_specs::convert::FromSpecImpl<InvalidCidInLink> for ResolveError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: InvalidCidInLink) -> ResolveError { ResolveError::Lookup(LookupError::InvalidCid(d)) }
}
impl vstd::std_specs::convert::FromSpecImpl<MultipleMatchingLinks> for ResolveError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: MultipleMatchingLinks) -> ResolveError { ResolveError::Lookup(LookupError::Multiple(d)) }
}
impl vstd::std_specs::convert::FromSpecImpl<UnexpectedDirectoryProperties> for ResolveError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: UnexpectedDirectoryProperties) -> ResolveError { ResolveError::UnexpectedDirProperties(d) }
}
impl vstd::std_specs::convert::FromSpecImpl<ShardError> for ResolveError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: ShardError) -> ResolveError { ResolveError::Lookup(LookupError::Shard(d)) }
}
impl vstd::std_specs::convert::FromSpecImpl<LookupError> for ResolveError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: LookupError) -> ResolveError { ResolveError::Lookup(d) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<((usize, Cid), (usize, PBLink<'a>))> for MultipleMatchingLinks {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(d: ((usize, Cid), (usize, PBLink<'a>))) -> MultipleMatchingLinks { arbitrary() }
}
}
@fn From@MultipleMatchingLinks::from props=C18
@ret r
@spec
    ensures
        r.sp_first() == v_arg.0, // [C18]
        r.sp_second_is(v_arg.1.0 as int, v_arg.1.1), // [C18]
@replace
fn from ( $p : $t ) -> $r {
@with
fn from(v_arg: $t) -> $r { let $p = v_arg;
@fn MultipleMatchingLinks::into_inner props=C18
@ret r
@spec
    ensures r == self.sp_first().1, // [C18]
@fn From@ResolveError::from props=C11,C18
@fn From@ResolveError#1::from props=C11,C12,C18
@fn From@ResolveError#2::from props=C11,C12,C18
@fn From@ResolveError#3::from props=C11,C12,C18
@fn From@ResolveError#4::from props=C11,C12,C18
@file src/dir/sharded_lookup.rs
@type Cache
@type ShardedLookup
@type PartitioningError
@type ShardError
@type LookupError
@append
verus! {
use super::sp_target;
use crate::pb::{sp_flat, sp_borrowed};
impl Cache {
    pub closed spec fn empty(self) -> bool { self.buffer@.len() == 0 }
}
pub open spec fn sp_cache_ok(c: Option<Cache>) -> bool { c matches Some(c) ==> c.empty() }
impl vstd::std_specs::convert::FromSpecImpl<VecDeque<Cid>> for Cache {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(d: VecDeque<Cid>) -> Cache { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<InvalidCidInLink> for PartitioningError {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(d: InvalidCidInLink) -> PartitioningError { PartitioningError::InvalidCid(d) }
}
impl vstd::std_specs::convert::FromSpecImpl<MultipleMatchingLinks> for PartitioningError {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(d: MultipleMatchingLinks) -> PartitioningError { PartitioningError::Multiple(d) }
}
pub closed spec fn sp_lookup_error(d: PartitioningError) -> LookupError {
    match d { PartitioningError::Multiple(m) => LookupError::Multiple(m), PartitioningError::InvalidCid(e) => LookupError::InvalidCid(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<PartitioningError> for LookupError {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(d: PartitioningError) -> LookupError { sp_lookup_error(d) }
}
impl vstd::std_specs::convert::FromSpecImpl<PartitioningError> for ResolveError {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(d: PartitioningError) -> ResolveError { ResolveError::Lookup(sp_lookup_error(d)) }
}
impl vstd::std_specs::convert::FromSpecImpl<ShardError> for LookupError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: ShardError) -> LookupError { LookupError::Shard(d) }
}
impl vstd::std_specs::convert::FromSpecImpl<MultipleMatchingLinks> for LookupError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: MultipleMatchingLinks) -> LookupError { LookupError::Multiple(d) }
}
impl vstd::std_specs::convert::FromSpecImpl<InvalidCidInLink> for LookupError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: InvalidCidInLink) -> LookupError { LookupError::InvalidCid(d) }
}
/// the bytes of the name of a link
pub open spec fn sp_name_bytes(l: PBLink<'_>) -> Seq<u8> { vstd::utf8::encode_utf8(crate::sp_text(l.Name)) }
/// an entry of a bucket: two characters and the whole name
pub open spec fn sp_entry(l: PBLink<'_>, name: Seq<u8>) -> bool { sp_name_bytes(l).len() > 2 && sp_name_bytes(l).skip(2) == name }
/// a link to another bucket
pub open spec fn sp_bucket(l: PBLink<'_>) -> bool { sp_name_bytes(l).len() == 2 }
/// the entry with the name and the other buckets; none when there are two such entries or a target of those is invalid
pub open spec fn sp_scan(links: Seq<PBLink<'_>>, name: Seq<u8>) -> Option<(Option<Cid>, Seq<Cid>)>
    decreases links.len()
{
    if links.len() == 0 { Some((None, Seq::empty())) } else {
        match sp_scan(links.drop_last(), name) {
            None => None,
            Some((found, buckets)) => {
                let l = links.last();
                if sp_entry(l, name) {
                    if found is Some || sp_target(l) is None { None } else { Some((sp_target(l), buckets)) }
                } else if sp_bucket(l) {
                    if sp_target(l) is None { None } else { Some((found, buckets.push(sp_target(l)->0))) }
                } else {
                    Some((found, buckets))
                }
            },
        }
    }
}
pub proof fn lm_scan_none(links: Seq<PBLink<'_>>, n: int, name: Seq<u8>)
    ensures 0 <= n <= links.len() && sp_scan(links.take(n), name) is None ==> sp_scan(links, name) is None
    decreases links.len() - n
{
    if n < 0 || n > links.len() {} else if n < links.len() {
        assert(links.take(n + 1).drop_last() =~= links.take(n));
        lm_scan_none(links, n + 1, name);
    } else {
        assert(links.take(n) =~= links);
    }
}
pub open spec fn sp_found(links: Seq<PBLink<'_>>, name: Seq<u8>) -> Option<Cid> { match sp_scan(links, name) { None => None, Some((c, _)) => c } }
pub open spec fn sp_buckets(links: Seq<PBLink<'_>>, name: Seq<u8>) -> Seq<Cid> { match sp_scan(links, name) { None => Seq::empty(), Some((_, b)) => b } }
/// a bucket of the supported kind
pub open spec fn sp_shard_ok(f: FlatUnixFs<'_>) -> bool {
    &&& f.data.hashType == Some(34u64)
    &&& f.data.fanout == Some(256u64)
    &&& f.data.filesize is None
    &&& f.data.blocksizes@.len() == 0
}
/// what the bucket says about the name
pub open spec fn sp_shard(f: FlatUnixFs<'_>, name: Seq<u8>) -> Option<(Option<Cid>, Seq<Cid>)> {
    if f.data.Type == UnixFsType::HAMTShard && sp_shard_ok(f) { sp_scan(f.links@, name) } else { None }
}
/// what is wrong with the bucket itself
pub open spec fn sp_shard_fault(f: FlatUnixFs<'_>, e: ShardError) -> bool {
    match e {
        ShardError::UnsupportedProperties { hash_type, fanout } => hash_type == f.data.hashType && fanout == f.data.fanout && (hash_type != Some(34u64) || fanout != Some(256u64)),
        ShardError::UnexpectedProperties { filesize, blocksizes } => filesize == f.data.filesize && blocksizes == f.data.blocksizes && (filesize is Some || blocksizes@.len() > 0),
    }
}
/// what is wrong with the links of a bucket, when looking for the name
pub open spec fn sp_links_fault(links: Seq<PBLink<'_>>, name: Seq<u8>, e: LookupError) -> bool {
    match e {
        LookupError::Multiple(m) => m.sp_two_of(links) && sp_entry(links[m.sp_first().0 as int], name) && sp_entry(links[m.sp_second()], name),
        LookupError::InvalidCid(x) => crate::sp_bad_target(links, x) && (sp_entry(links[x.sp_nth()], name) || sp_bucket(links[x.sp_nth()])),
        _ => false,
    }
}
/// what is wrong with a bucket, when looking for the name
pub open spec fn sp_bucket_fault(f: FlatUnixFs<'_>, name: Seq<u8>, e: LookupError) -> bool {
    match e {
        LookupError::Shard(s) => sp_shard_fault(f, s),
        _ => sp_links_fault(f.links@, name, e),
    }
}
/// what is wrong with a block which should have been a bucket
pub open spec fn sp_continue_fault(block: Seq<u8>, name: Seq<u8>, e: LookupError) -> bool {
    match sp_flat(block) {
        None => e matches LookupError::Read(x) && (x is None ==> crate::pb::sp_dataless(block)),
        Some(f) => if f.data.Type == UnixFsType::HAMTShard { sp_bucket_fault(f, name, e) } else { e matches LookupError::UnexpectedBucketType(t) && t.sp_kind() == f.data.Type },
    }
}
impl<'needle> ShardedLookup<'needle> {
    pub closed spec fn pend(self) -> Seq<Cid> { self.links@ }
    pub closed spec fn name(self) -> Seq<u8> { vstd::utf8::encode_utf8(self.needle@) }
    pub open spec fn wf(self) -> bool { self.pend().len() > 0 }
}
/// a step of a lookup of `name`: `s` is what the bucket says, `before` what was still to be loaded
pub open spec fn sp_step(s: Option<(Option<Cid>, Seq<Cid>)>, before: Seq<Cid>, name: Seq<u8>, r: Option<MaybeResolved<'_>>) -> bool {
    match s {
        None => r is None,
        Some((Some(c), _)) => r == Some(MaybeResolved::<'_>::Found(c)),
        Some((None, buckets)) => if (before + buckets).len() == 0 { r is Some && r->0 is NotFound } else {
            r is Some && r->0 is NeedToLoadMore && r->0->NeedToLoadMore_0.pend() =~= before + buckets && r->0->NeedToLoadMore_0.name() == name
        },
    }
}
}
@fn From@PartitioningError::from props=C12,C18
@fn From@PartitioningError#1::from props=C12,C18
@fn From@ResolveError::from props=C12,C18
@fn From@LookupError::from props=C12,C18
@fn From@LookupError#1::from props=C12,C18
@fn From@LookupError#2::from props=C12,C18
@fn From@LookupError#3::from props=C12,C18
@fn LookupError::into_resolve_error props=C12,C18
@ret r
@spec
    ensures r == ResolveError::Lookup(self), // [C12]
@fn From@Cache::from props=C17
@ret r
@spec
    ensures r.empty(), // [C17]
@fn ShardedLookup::pending_links props=C12,C07
@ret r
@spec
    requires self.wf(),
    ensures
        *r.0 == self.pend()[0], // [C12]
        r.1.remaining().len() == self.pend().len() - 1, // [C12]
        forall|i: int| 0 <= i < r.1.remaining().len() ==> *(#[trigger] r.1.remaining()[i]) == self.pend()[i + 1], // [C12]
@replace
( & Cid , impl Iterator < Item = & Cid > )
@with
(&Cid, alloc::collections::vec_deque::Iter<'_, Cid>)
@fn ShardedLookup::continue_walk props=C12,C07,C17,C18
@ret r
@spec
    requires self.wf(),
    ensures
        sp_step(match sp_flat(next@) { None => None, Some(f) => sp_shard(f, self.name()) }, self.pend().skip(1), self.name(), r.ok()), // [C12]
        r matches Err(e) ==> sp_continue_fault(next@, self.name(), e), // [C18]
        sp_cache_ok(*old(cache)) ==> sp_cache_ok(*final(cache)), // [C17]
@proof start
broadcast use {crate::lm_unexpected, crate::lm_vec_len, crate::ax_question};
@replace
debug_assert_eq ! ( Some ( self . pending_links ( ) . 0 ) , self . links . front ( ) ) ;
@with
{ let v_first = self.pending_links().0; proof { assert(*v_first == self.links@[0]); } }
@replace any
self . links . is_empty ( )
@with
crate::v_queue_is_empty(&self.links)
@replace
self . needle . as_ref ( )
@with
crate::v_cow_str(&self.needle)
@fn ShardedLookup::with_owned_needle props=C12
@ret r
@spec
    ensures r.pend() == self.pend(), r.name() == self.name(), // [C12]
@replace
needle . into_owned ( )
@with
crate::v_into_owned(needle)
@fn ShardedLookup::lookup_or_start props=C12,C07,C17,C18
@ret r
@spec
    requires hamt.data.Type == UnixFsType::HAMTShard, sp_cache_ok(*old(cache)),
    ensures
        sp_step(sp_shard(hamt, crate::sp_bytes(needle)), Seq::empty(), crate::sp_bytes(needle), r.ok()), // [C12 C17]
        r matches Err(e) ==> sp_bucket_fault(hamt, crate::sp_bytes(needle), e), // [C18]
        sp_cache_ok(*final(cache)), // [C17]
@proof start
broadcast use {crate::lm_vec_len, crate::ax_question};
@replace
cache . take ( ) . map ( | $c | $e ) . unwrap_or_default ( )
@with
(match cache.take() { Some($c) => $e, None => VecDeque::new() })
@replace any
links . is_empty ( )
@with
crate::v_queue_is_empty(&links)
@fn ShardedLookup::check_supported props=C12,C13,C07,C18
@ret r
@spec
    requires old(hamt).data.Type == UnixFsType::HAMTShard,
    ensures
        r is Ok == sp_shard_ok(*old(hamt)), // [C12 C13 C18]
        r is Ok ==> *final(hamt) == *old(hamt), // [C12 C13]
        r matches Err(e) ==> sp_shard_fault(*old(hamt), e), // [C18]
@replace
core :: mem :: take ( & mut hamt . data . blocksizes )
@with
crate::v_vec_take(&mut hamt.data.blocksizes)
@fn ShardedLookup::partition props=C12,C07,C18
@attrs #[verifier::loop_isolation(false)]
@ret r
@spec
    requires crate::sp_usual(iter),
    ensures
        r is Ok == sp_scan(crate::sp_rem(iter), crate::sp_bytes(needle)) is Some, // [C12]
        r matches Ok(found) ==> {
            let s = sp_scan(crate::sp_rem(iter), crate::sp_bytes(needle))->0;
            &&& found == s.0 // [C12]
            &&& final(work)@ =~= old(work)@ + s.1 // [C12]
        },
        crate::sp_rem(iter).len() <= usize::MAX ==> (r matches Err(e) ==> sp_links_fault(crate::sp_rem(iter), crate::sp_bytes(needle), sp_lookup_error(e))), // [C18]
@proof start
broadcast use {crate::lm_about, crate::ax_question};
@replace
for ( $i , $l ) in iter . enumerate ( ) { $$body }
@with
let ghost v_all = crate::sp_rem(iter);
for v_x in v_it: crate::v_enumerate(iter)
    invariant
        v_it.seq().len() == v_all.len(),
        forall|k: int| 0 <= k < v_all.len() ==> (#[trigger] v_it.seq()[k]) == (k as usize, v_all[k]),
        v_all.len() <= usize::MAX ==> ((match found { None => None::<(usize, Cid)>, Some((n, c)) => Some((n, c)) }) matches Some((n, c)) ==> n < v_it.index() && sp_entry(v_all[n as int], crate::sp_bytes(needle)) && sp_target(v_all[n as int]) == Some(c)), // [C18]
        sp_scan(v_all.take(v_it.index()), crate::sp_bytes(needle)) is Some,
        (match found { None => None::<Cid>, Some((_, c)) => Some(c) }) == sp_found(v_all.take(v_it.index()), crate::sp_bytes(needle)), // [C12]
        work@ =~= old(work)@ + sp_buckets(v_all.take(v_it.index()), crate::sp_bytes(needle)), // [C12]
{
    proof {
        assert(v_all.take(v_it.index() + 1).drop_last() =~= v_all.take(v_it.index()));
        lm_scan_none(v_all, v_it.index() + 1, crate::sp_bytes(needle));
    }
    let ($i, $l) = v_x;
    $body
}
proof { assert(v_all.take(v_all.len() as int) =~= v_all); }
@replace
link . Name . as_deref ( ) . unwrap_or_default ( )
@with
crate::v_text_or_empty(&link.Name)
@replace
name . get ( $n .. ) == Some ( needle )
@with
crate::v_tail_is(name, $n, needle)
@replace any
name . len ( )
@with
crate::v_str_len(name)
@replace
found . map ( | ( _ , $c ) | $e )
@with
(match found { None => None, Some((_, $c)) => Some($e) })
@file src/dir.rs
@append
verus! {
/// the answer of a plain node
pub open spec fn sp_unique(links: Seq<PBLink<'_>>, name: Seq<char>) -> Option<Option<Cid>> {
    let s = sp_named(links, name);
    if s.len() == 0 { Some(None) }
    else if s.len() == 1 && sp_target(links[s[0]]) is Some { Some(sp_target(links[s[0]])) }
    else { None }
}
pub open spec fn sp_answer(a: Option<Option<Cid>>, r: Option<MaybeResolved<'_>>) -> bool {
    match a {
        None => r is None,
        Some(None) => r is Some && r->0 is NotFound,
        Some(Some(c)) => r == Some(MaybeResolved::<'_>::Found(c)),
    }
}
/// what resolving the segment does
pub open spec fn sp_resolved(block: Seq<u8>, name: Seq<char>, r: Option<MaybeResolved<'_>>) -> bool {
    match sp_flat(block) {
        Some(f) => match f.data.Type {
            UnixFsType::HAMTShard => sharded_lookup::sp_step(sp_shard(f, vstd::utf8::encode_utf8(name)), Seq::empty(), vstd::utf8::encode_utf8(name), r),
            UnixFsType::Directory => sp_answer(if directory::sp_plain_dir(f) { sp_unique(f.links@, name) } else { None }, r),
            _ => r is None,
        },
        None => match sp_plain_links(block) {
            Some(links) => sp_answer(sp_unique(links@, name), r),
            None => r is None,
        },
    }
}
/// what is wrong with the links of a plain node
pub open spec fn sp_plain_fault(links: Seq<PBLink<'_>>, name: Seq<char>, e: LookupError) -> bool {
    match e {
        LookupError::Multiple(m) => m.sp_two_of(links) && sp_name(links[m.sp_first().0 as int]) == name && sp_name(links[m.sp_second()]) == name,
        LookupError::InvalidCid(x) => crate::sp_bad_target(links, x) && sp_name(links[x.sp_nth()]) == name,
        _ => false,
    }
}
/// what is wrong with the block the segment is resolved in
pub open spec fn sp_resolve_fault(block: Seq<u8>, name: Seq<char>, e: ResolveError) -> bool {
    match sp_flat(block) {
        Some(f) => match f.data.Type {
            UnixFsType::HAMTShard => e matches ResolveError::Lookup(l) && sharded_lookup::sp_bucket_fault(f, vstd::utf8::encode_utf8(name), l),
            UnixFsType::Directory => match e {
                ResolveError::UnexpectedDirProperties(p) => !directory::sp_plain_dir(f) && p.sp_of(f),
                ResolveError::Lookup(l) => sp_plain_fault(f.links@, name, l),
                _ => false,
            },
            _ => e matches ResolveError::UnexpectedType(t) && t.sp_kind() == f.data.Type,
        },
        None => match sp_plain_links(block) {
            Some(links) => e matches ResolveError::Lookup(l) && sp_plain_fault(links@, name, l),
            None => e is Read,
        },
    }
}
/// the first n links with the name
pub open spec fn sp_taken<'a>(links: Seq<PBLink<'a>>, name: Seq<char>, v: Seq<(usize, PBLink<'a>)>) -> bool {
    let s = sp_named(links, name);
    &&& v.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]).1 == links[s[i]]
}
/// with their indices
pub open spec fn sp_taken_at<'a>(links: Seq<PBLink<'a>>, name: Seq<char>, v: Seq<(usize, PBLink<'a>)>) -> bool {
    let s = sp_named(links, name);
    &&& v.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]).0 == s[i]
}
pub proof fn lm_named_bound(links: Seq<PBLink<'_>>, name: Seq<char>)
    ensures
        forall|i: int| 0 <= i < sp_named(links, name).len() ==> 0 <= #[trigger] sp_named(links, name)[i] < links.len(),
        forall|i: int, j: int| 0 <= i < j < sp_named(links, name).len() ==> #[trigger] sp_named(links, name)[i] < #[trigger] sp_named(links, name)[j],
        forall|i: int| 0 <= i < sp_named(links, name).len() ==> sp_name(links[#[trigger] sp_named(links, name)[i]]) == name,
        forall|k: int| 0 <= k < links.len() && sp_name(#[trigger] links[k]) == name ==> sp_named(links, name).contains(k),
    decreases links.len()
{
    if links.len() > 0 {
        let l = links.drop_last();
        lm_named_bound(l, name);
        let s = sp_named(links, name);
        let t = sp_named(l, name);
        assert forall|k: int| 0 <= k < links.len() && sp_name(#[trigger] links[k]) == name implies s.contains(k) by {
            if k < l.len() {
                assert(l[k] == links[k]);
                assert(t.contains(k));
                let i = t.index_of(k);
                assert(s[i] == k);
            } else {
                assert(s[s.len() - 1] == k);
            }
        }
    }
}
pub proof fn lm_taken_step<'a>(links: Seq<PBLink<'a>>, n: int, name: Seq<char>, v: Seq<(usize, PBLink<'a>)>, i: usize)
    ensures
        0 <= n < links.len() && sp_taken(links.take(n), name, v) ==>
            sp_taken(links.take(n + 1), name, if sp_name(links[n]) == name { v.push((i, links[n])) } else { v }),
{
    if 0 <= n < links.len() && sp_taken(links.take(n), name, v) {
        let a = links.take(n);
        let b = links.take(n + 1);
        assert(b.drop_last() =~= a);
        lm_named_bound(a, name);
        lm_named_bound(b, name);
        let w = if sp_name(links[n]) == name { v.push((i, links[n])) } else { v };
        assert forall|k: int| 0 <= k < sp_named(b, name).len() implies (#[trigger] w[k]).1 == b[sp_named(b, name)[k]] by {
            if k < sp_named(a, name).len() { assert(v[k].1 == a[sp_named(a, name)[k]]); }
        }
    }
}
pub proof fn lm_taken_at_step<'a>(links: Seq<PBLink<'a>>, n: int, name: Seq<char>, v: Seq<(usize, PBLink<'a>)>, i: usize)
    ensures
        0 <= n < links.len() && i == n && sp_taken_at(links.take(n), name, v) ==>
            sp_taken_at(links.take(n + 1), name, if sp_name(links[n]) == name { v.push((i, links[n])) } else { v }),
{
    if 0 <= n < links.len() && i == n && sp_taken_at(links.take(n), name, v) {
        assert(links.take(n + 1).drop_last() =~= links.take(n));
    }
}
}
@fn resolve props=C11,C12,C17,C07,C18
@attrs #[verifier::loop_isolation(false)]
@proof start
broadcast use {crate::lm_unexpected, crate::lm_about, crate::ax_question};
@ret r
@spec
    requires sharded_lookup::sp_cache_ok(*old(cache)),
    ensures
        sp_resolved(block@, needle@, r.ok()), // [C11 C12 C17]
        r matches Err(e) ==> sp_resolve_fault(block@, needle@, e), // [C18]
        sharded_lookup::sp_cache_ok(*final(cache)), // [C17]
@replace
let mut matching = links . into_iter ( ) . enumerate ( ) . filter_map ( | ( $i , $l ) | { $$body } ) ;
@with
let ghost v_links = links@;
let v_n = links.len();
let mut v_all: Vec<(usize, PBLink<'_>)> = Vec::new();
for v_x in v_it: crate::v_enumerate(links.into_iter())
    invariant
        v_it.seq().len() == v_links.len(),
        forall|k: int| 0 <= k < v_links.len() ==> (#[trigger] v_it.seq()[k]) == (k as usize, v_links[k]),
        sp_taken(v_links.take(v_it.index()), needle@, v_all@), // [C11]
        sp_taken_at(v_links.take(v_it.index()), needle@, v_all@), // [C18]
{
    proof {
        lm_taken_step(v_links, v_it.index(), needle@, v_all@, v_x.0);
        lm_taken_at_step(v_links, v_it.index(), needle@, v_all@, v_x.0);
    }
    let ($i, $l) = v_x;
    let v_o: Option<(usize, PBLink<'_>)> = { $body };
    if let Some(v_p) = v_o { v_all.push(v_p); }
}
proof {
    assert(v_links.take(v_links.len() as int) =~= v_links);
    lm_named_bound(v_links, needle@);
}
let mut matching = v_all.into_iter();
@replace
link . Name . as_deref ( ) . unwrap_or_default ( )
@with
crate::v_text_or_empty(&link.Name)
@note the arm of the unreadable block is put first: it is disjoint from the arms it is put before, which the pattern spells out (Verus resolves `cache` wrongly at the exit of a last arm)
@replace
match FlatUnixFs :: try_parse ( block ) { Ok ( hamt ) if hamt . data . Type == UnixFsType :: HAMTShard => { $$a } Ok ( flat ) if flat . data . Type == UnixFsType :: Directory => { $$b } Err ( ParsingFailed :: InvalidUnixFs ( _ , PBNode { Links : links , .. } ) ) | Err ( ParsingFailed :: NoData ( PBNode { Links : links , .. } ) ) => links , Ok ( other ) => { $$c } Err ( ParsingFailed :: InvalidDagPb ( $e ) ) => return Err ( ResolveError :: Read ( $f ) ) , }
@with
match FlatUnixFs::try_parse(block) {
    Err(ParsingFailed::InvalidDagPb($e)) => return Err(ResolveError::Read($f)),
    Ok(hamt) if hamt.data.Type == UnixFsType::HAMTShard => { $a }
    Ok(flat) if flat.data.Type == UnixFsType::Directory => { $b }
    Err(ParsingFailed::InvalidUnixFs(_, PBNode { Links: links, .. })) | Err(ParsingFailed::NoData(PBNode { Links: links, .. })) => links,
    Ok(other) => { $c }
}
