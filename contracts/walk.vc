@note The tree walk: what one step does, for all blocks.
@file src/dir.rs
@append
verus! {
pub(crate) use directory::sp_plain_dir;
pub(crate) use sharded_lookup::{sp_name_bytes, sp_shard_ok, sp_shard_fault};
}
@fn check_hamtshard_supported props=C12,C13,C07,C18
@ret r
@spec
    requires flat.data.Type == UnixFsType::HAMTShard,
    ensures
        r is Ok == sp_shard_ok(flat), // [C12 C13 C18]
        r matches Ok(f) ==> f == flat, // [C12 C13]
        r matches Err(e) ==> sp_shard_fault(flat, e), // [C18]
@proof start
broadcast use crate::ax_question;
@file src/file.rs
@append
verus! {
pub(crate) use reader::sp_data;
}
@file src/walk.rs
@type Walker
@type InnerEntry
@type InnerKind
@type ContinuedWalk
@type FileSegment
@type Error wrap
@append
verus! {
use crate::dir::{sp_target, sp_name, sp_plain_dir, sp_name_bytes, sp_shard_ok};
use crate::file::visit::{sp_started, sp_continued, sp_cache_ok};
use crate::file::sp_data;
use crate::pb::{sp_flat, sp_borrowed};
use crate::{sp_rem, sp_usual};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(PathBuf);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(Path);
/// the names a path is made of
pub uninterp spec fn sp_path(p: PathBuf) -> Seq<Seq<char>>;
pub uninterp spec fn sp_pathr(p: &Path) -> Seq<Seq<char>>;
/// a name which is one part of a path
pub open spec fn sp_segment(n: Seq<char>) -> bool { n.len() > 0 && n != seq!['.'] && !n.contains('/') }
#[verifier::external_body]
pub fn v_path_new() -> (r: PathBuf)
    ensures sp_path(r) == Seq::<Seq<char>>::empty()
{ PathBuf::new() }
#[verifier::external_body]
pub fn v_path_push(p: &mut PathBuf, n: &str)
    requires sp_segment(n@) || (n@.len() == 0 && sp_path(*old(p)).len() == 0),
    ensures sp_path(*final(p)) == (if n@.len() == 0 { sp_path(*old(p)) } else { sp_path(*old(p)).push(n@) })
{ p.push(n) }
#[verifier::external_body]
pub fn v_path_pop(p: &mut PathBuf) -> (r: bool)
    ensures r == (sp_path(*old(p)).len() > 0), r ==> sp_path(*final(p)) == sp_path(*old(p)).drop_last(), !r ==> *final(p) == *old(p)
{ p.pop() }
#[verifier::external_body]
pub fn v_path_count(p: &PathBuf) -> (r: usize)
    ensures r == sp_path(*p).len() + 1
{ p.ancestors().count() }
#[verifier::external_body]
pub fn v_path(p: &PathBuf) -> (r: &Path)
    ensures sp_pathr(r) == sp_path(*p)
{ p }
#[verifier::external_body]
pub fn v_string(s: &str) -> (r: String)
    ensures r@ == s@
{ String::from(s) }
#[verifier::external_body]
pub fn v_string_empty(s: &String) -> (r: bool)
    ensures r == (s@.len() == 0)
{ s.is_empty() }
/// stands for `.into_iter().enumerate()` with a later `.rev()`
#[verifier::external_body]
pub fn v_numbered_back<T>(v: Vec<T>) -> (r: alloc::vec::IntoIter<(usize, T)>)
    ensures
        sp_rem(r).len() == v@.len(), sp_usual(r),
        forall|i: int| 0 <= i < v@.len() ==> #[trigger] sp_rem(r)[i] == ((v@.len() - 1 - i) as usize, v@[v@.len() - 1 - i])
{ v.into_iter().enumerate().rev().collect::<Vec<_>>().into_iter() }
#[verifier::external_body]
pub fn v_has(s: &str, c: char) -> (r: bool)
    ensures r == s@.contains(c)
{ s.contains(c) }
#[verifier::external_body]
pub fn v_str_is(s: &str, t: &str) -> (r: bool)
    ensures r == (s@ == t@)
{ s == t }
/// `s.get(n..)`
#[verifier::external_body]
pub fn v_tail(s: &str, n: usize) -> (r: Option<&str>)
    ensures
        r is Some == (crate::sp_bytes(s).len() >= n && vstd::utf8::valid_utf8(crate::sp_bytes(s).skip(n as int))),
        r matches Some(t) ==> t@ == vstd::utf8::decode_utf8(crate::sp_bytes(s).skip(n as int)),
{ s.get(n..) }
pub open spec fn sp_tail(l: PBLink<'_>) -> Option<Seq<char>> {
    let b = sp_name_bytes(l);
    if b.len() >= 2 && vstd::utf8::valid_utf8(b.skip(2)) { Some(vstd::utf8::decode_utf8(b.skip(2))) } else { None }
}
/// something still to be loaded: buckets have no name
pub struct VItem { pub cid: Cid, pub name: Seq<char>, pub depth: int }
pub closed spec fn sp_item(t: (Cid, String, usize)) -> VItem { VItem { cid: t.0, name: t.1@, depth: t.2 as int } }
/// link of a directory at `depth`
pub open spec fn sp_dir_item(l: PBLink<'_>, depth: int) -> Option<VItem> {
    if sp_target(l) is Some && sp_segment(sp_name(l)) { Some(VItem { cid: sp_target(l)->0, name: sp_name(l), depth: depth + 1 }) } else { None }
}
/// link of a bucket of a sharded directory at `depth`
pub open spec fn sp_shard_item(l: PBLink<'_>, depth: int) -> Option<VItem> {
    if sp_target(l) is None { None }
    else if sp_name_bytes(l).len() == 2 { Some(VItem { cid: sp_target(l)->0, name: Seq::empty(), depth }) }
    else if sp_tail(l) is Some && sp_segment(sp_tail(l)->0) { Some(VItem { cid: sp_target(l)->0, name: sp_tail(l)->0, depth: depth + 1 }) }
    else { None }
}
impl vstd::std_specs::convert::FromSpecImpl<InvalidCidInLink> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: InvalidCidInLink) -> Error { Error::InvalidCid(d) }
}
impl vstd::std_specs::convert::FromSpecImpl<FileReadFailed> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: FileReadFailed) -> Error { sp_as_error(d) }
}
impl vstd::std_specs::convert::FromSpecImpl<UnexpectedDirectoryProperties> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: UnexpectedDirectoryProperties) -> Error { Error::UnsupportedDirectory(d) }
}
impl vstd::std_specs::convert::FromSpecImpl<ShardError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: ShardError) -> Error { Error::UnsupportedHAMTShard(d) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<ParsingFailed<'a>> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: ParsingFailed<'a>) -> Error {
        match d {
            ParsingFailed::InvalidDagPb(e) => Error::DagPbParsingFailed(e),
            ParsingFailed::InvalidUnixFs(e, _) => Error::UnixFsParsingFailed(e),
            ParsingFailed::NoData(_) => Error::EmptyDagPbNode,
        }
    }
}
/// how a walk reports what is wrong with a file
pub open spec fn sp_as_error(d: FileReadFailed) -> Error {
    match d {
        FileReadFailed::File(e) => Error::File(e),
        FileReadFailed::UnexpectedType(t) => Error::UnexpectedType(t),
        FileReadFailed::Read(Some(e)) => Error::DagPbParsingFailed(e),
        FileReadFailed::Read(None) => Error::EmptyDagPbNode,
        FileReadFailed::InvalidCid(l) => Error::InvalidCid(l),
    }
}
pub open spec fn sp_name_ok(l: PBLink<'_>, shard: bool) -> bool {
    if shard { sp_name_bytes(l).len() == 2 || (sp_tail(l) is Some && sp_segment(sp_tail(l)->0)) } else { sp_segment(sp_name(l)) }
}
/// what is wrong with `l`, the link with the index `n`
pub open spec fn sp_link_fault(n: int, l: PBLink<'_>, shard: bool, e: Error) -> bool {
    match e {
        Error::InvalidCid(x) => x.about(n, l) && sp_target(l) is None,
        Error::InvalidLinkName(i) => i == n && !sp_name_ok(l, shard),
        _ => false,
    }
}
pub open spec fn sp_links_fault(links: Seq<PBLink<'_>>, shard: bool, e: Error) -> bool {
    exists|n: int| #![trigger links[n]] 0 <= n < links.len() && sp_link_fault(n, links[n], shard, e)
}
/// what is wrong with the block which was loaded
pub open spec fn sp_entry_fault(w: VW, block: Seq<u8>, e: Error) -> bool {
    match sp_flat(block) {
        None => match e {
            Error::DagPbParsingFailed(_) => crate::pb::sp_node(block) is None,
            Error::UnixFsParsingFailed(_) => crate::pb::sp_node(block) is Some && !crate::pb::sp_dataless(block),
            Error::EmptyDagPbNode => crate::pb::sp_dataless(block),
            _ => false,
        },
        Some(f) => {
            if w.cur is Some && f.data.Type != UnixFsType::HAMTShard && w.stack.last().name.len() == 0 { e matches Error::UnexpectedType(t) && t.sp_kind() == f.data.Type }
            else if f.data.Type == UnixFsType::Directory { (e matches Error::UnsupportedDirectory(p) && !sp_plain_dir(f) && p.sp_of(f)) || sp_links_fault(f.links@, false, e) }
            else if f.data.Type == UnixFsType::HAMTShard { (e matches Error::UnsupportedHAMTShard(s) && crate::dir::sp_shard_fault(f, s)) || sp_links_fault(f.links@, true, e) }
            else if f.data.Type == UnixFsType::Metadata { e matches Error::UnsupportedType(t) && t.sp_kind() == f.data.Type }
            else { exists|x: FileReadFailed| #[trigger] crate::file::visit::sp_start_fault(f, x) && e == sp_as_error(x) }
        },
    }
}
pub open spec fn sp_walk_fault(w: VW, block: Seq<u8>, e: Error) -> bool {
    if w.cur is Some && w.cur->0.visit is Some { exists|x: FileReadFailed| #[trigger] crate::file::visit::sp_continue_fault(w.cur->0.visit->0, block, x) && e == sp_as_error(x) }
    else { sp_entry_fault(w, block, e) }
}
}
@fn From@Error::from props=C18
@fn From@Error#1::from props=C18
@fn From@Error#2::from props=C18
@fn From@Error#3::from props=C18
@fn From@Error#4::from props=C18
@fn is_path_segment props=C07,C13
@ret r
@spec
    ensures r == sp_segment(name@), // [C07 C13]
@proof start
proof { reveal_strlit("."); assert("."@ =~= seq!['.']); }
@replace any
name . is_empty ( )
@with
(crate::v_str_len(name) == 0)
@replace any
name != "."
@with
!v_str_is(name, ".")
@replace any
name . contains ( $c )
@with
v_has(name, $c)
@fn convert_link props=C07,C13,C18
@ret r
@spec
    requires nested_depth > 0,
    ensures
        r is Ok == sp_dir_item(link, nested_depth - 1) is Some, // [C07 C13 C18]
        r matches Ok(x) ==> Some(sp_item(x)) == sp_dir_item(link, nested_depth - 1), // [C13]
        r matches Err(e) ==> sp_link_fault(nth as int, link, false, e), // [C18]
@proof start
broadcast use crate::ax_cidg;
@replace
link . Hash . as_deref ( ) . unwrap_or_default ( )
@with
crate::v_cow_or_empty(&link.Hash)
@replace
link . Name . as_deref ( ) . unwrap_or_default ( )
@with
crate::v_text_or_empty(&link.Name)
@fn convert_sharded_link props=C07,C13,C18
@ret r
@spec
    requires nested_depth == sibling_depth + 1,
    ensures
        r is Ok == sp_shard_item(link, sibling_depth as int) is Some, // [C07 C13 C18]
        r matches Ok(x) ==> Some(sp_item(x)) == sp_shard_item(link, sibling_depth as int), // [C13]
        r matches Err(e) ==> sp_link_fault(nth as int, link, true, e), // [C18]
@proof start
broadcast use crate::ax_cidg;
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@replace
link . Hash . as_deref ( ) . unwrap_or_default ( )
@with
crate::v_cow_or_empty(&link.Hash)
@replace
link . Name . as_deref ( ) . unwrap_or_default ( )
@with
crate::v_text_or_empty(&link.Name)
@replace any
String :: from ( $s )
@with
v_string($s)
@replace any
prefixed . len ( )
@with
crate::v_str_len(prefixed)
@replace any
prefixed . get ( $n .. )
@with
v_tail(prefixed, $n)
@append
verus! {
pub enum VKind { Bucket, Directory, RootDirectory, File, Symlink }
/// what is looked at
pub struct VCur { pub cid: Cid, pub path: Seq<Seq<char>>, pub depth: int, pub metadata: Metadata, pub visit: Option<FileVisit>, pub size: u64, pub root_dir: bool, pub root_bucket: bool }
/// a walk: `stack` is what is still to be loaded, the next one on top
pub struct VW { pub cur: Option<VCur>, pub stack: Seq<VItem>, pub go: bool }
/// what a step reports
pub struct VStep { pub kind: VKind, pub cid: Cid, pub path: Seq<Seq<char>>, pub metadata: Option<Metadata>, pub bytes: Seq<u8>, pub first: bool, pub last: bool, pub size: u64 }
pub closed spec fn sp_items(s: Seq<(Cid, String, usize)>) -> Seq<VItem> { Seq::new(s.len(), |i: int| sp_item(s[i])) }
impl InnerEntry {
    pub closed spec fn v(self) -> VCur {
        VCur {
            cid: self.cid, path: sp_path(self.path), depth: self.depth as int, metadata: self.metadata,
            visit: match self.kind { InnerKind::File(v, _) => v, _ => None },
            size: match self.kind { InnerKind::File(_, n) => n, _ => 0 },
            root_dir: self.kind is RootDirectory,
            root_bucket: self.kind is BucketAtRoot,
        }
    }
}
pub proof fn v_empty_name(n: &str)
    ensures (crate::sp_bytes(n).len() == 0) == (n@.len() == 0)
{
    if n@.len() == 0 { assert(n@ =~= Seq::<char>::empty()); }
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
}
impl Walker {
    pub closed spec fn v(self) -> VW {
        VW {
            cur: match self.current { None => None, Some(e) => Some(e.v()) },
            stack: match self.next { None => sp_items(self.pending@), Some(n) => sp_items(self.pending@).push(sp_item(n)) },
            go: self.should_continue,
        }
    }
    /// nothing is pending behind a missing next one
    pub closed spec fn sp_tidy(self) -> bool { self.next is None ==> self.pending@.len() == 0 }
}
/// depth of the directory an item belongs to
pub open spec fn sp_base(i: VItem) -> int { if i.name.len() == 0 { i.depth } else { i.depth - 1 } }
pub open spec fn sp_root_ok(i: VItem) -> bool { if i.name.len() == 0 { i.depth == 1 } else { i.depth == 2 && sp_segment(i.name) } }
impl VCur {
    pub open spec fn wf(self) -> bool {
        &&& self.depth == self.path.len() + 1
        &&& self.visit matches Some(v) ==> v.wf()
    }
}
impl VW {
    pub open spec fn wf(self) -> bool {
        match self.cur {
            None => self.stack.len() == 1 && sp_root_ok(self.stack[0]),
            Some(c) => {
                &&& c.wf()
                &&& forall|i: int| 0 <= i < self.stack.len() ==> sp_base(#[trigger] self.stack[i]) >= 1 && sp_base(self.stack[i]) <= c.depth && (self.stack[i].name.len() > 0 ==> sp_segment(self.stack[i].name))
                &&& forall|i: int, j: int| 0 <= i <= j < self.stack.len() ==> sp_base(#[trigger] self.stack[i]) <= sp_base(#[trigger] self.stack[j])
                &&& c.root_dir ==> forall|i: int| 0 <= i < self.stack.len() ==> (#[trigger] self.stack[i]).name.len() > 0
                &&& c.root_bucket ==> forall|i: int| 0 <= i < self.stack.len() ==> sp_base(#[trigger] self.stack[i]) == c.depth
            },
        }
    }
    /// there is something to load
    pub open spec fn more(self) -> bool { self.stack.len() > 0 || (self.cur matches Some(c) && c.visit is Some) }
}
/// path of an item
pub open spec fn sp_under(path: Seq<Seq<char>>, i: VItem) -> Seq<Seq<char>> {
    let p = path.take(sp_base(i) - 1);
    if i.name.len() == 0 { p } else { p.push(i.name) }
}
impl Walker {
    pub closed spec fn sp_depth(self) -> int { match self.next { None => 0, Some(n) => n.2 as int } }
}
}
@fn InnerEntry::new_root_dir props=C13,C14
@ret r
@spec
    requires sp_segment(name@) || name@.len() == 0,
    ensures
        r.v() == (VCur { cid, path: if name@.len() == 0 { seq![] } else { seq![name@] }, depth: depth as int, metadata, visit: None, size: 0, root_dir: true, root_bucket: false }), // [C13 C14]
@replace any
PathBuf :: new ( )
@with
v_path_new()
@replace any
path . push ( $n )
@with
v_path_push(&mut path, $n)
@fn InnerEntry::new_root_bucket props=C13,C14
@ret r
@spec
    requires sp_segment(name@) || name@.len() == 0,
    ensures
        r.v() == (VCur { cid, path: if name@.len() == 0 { seq![] } else { seq![name@] }, depth: depth as int, metadata, visit: None, size: 0, root_dir: false, root_bucket: true }), // [C13 C14]
@replace any
PathBuf :: new ( )
@with
v_path_new()
@replace any
path . push ( $n )
@with
v_path_push(&mut path, $n)
@fn InnerEntry::new_root_file props=C13,C14
@ret r
@spec
    requires sp_segment(name@) || name@.len() == 0,
    ensures
        r.v() == (VCur { cid, path: if name@.len() == 0 { seq![] } else { seq![name@] }, depth: depth as int, metadata, visit: step, size: file_size, root_dir: false, root_bucket: false }), // [C13 C14]
@replace any
PathBuf :: new ( )
@with
v_path_new()
@replace any
path . push ( $n )
@with
v_path_push(&mut path, $n)
@fn InnerEntry::new_root_symlink props=C13,C14,C15
@ret r
@spec
    requires sp_segment(name@) || name@.len() == 0,
    ensures
        r.v() == (VCur { cid, path: if name@.len() == 0 { seq![] } else { seq![name@] }, depth: depth as int, metadata, visit: None, size: 0, root_dir: false, root_bucket: false }), // [C13 C14]
@replace any
PathBuf :: new ( )
@with
v_path_new()
@replace any
path . push ( $n )
@with
v_path_push(&mut path, $n)
@fn InnerEntry::set_path props=C07,C13
@spec
    requires
        old(self).v().depth == old(self).v().path.len() + 1,
        2 <= depth <= old(self).v().depth + 1,
        sp_segment(name@),
    ensures
        final(self).v() == (VCur { path: old(self).v().path.take(depth - 2).push(name@), depth: depth as int, ..old(self).v() }), // [C07 C13]
@loop 0
invariant
    2 <= depth <= old(self).v().depth + 1,
    self.depth == sp_path(self.path).len() + 1,
    self.v() == (VCur { path: sp_path(self.path), depth: self.depth as int, ..old(self).v() }),
    depth <= self.depth + 1,
    self.depth <= old(self).v().depth,
    old(self).v().depth == old(self).v().path.len() + 1,
    sp_path(self.path) =~= old(self).v().path.take(self.depth - 1),
decreases self.depth
@proof loop 0 end
proof { let p = old(self).v().path; assert(p.take(self.depth as int).drop_last() =~= p.take(self.depth - 1)); }
@replace any
self . path . push ( $n )
@with
v_path_push(&mut self.path, $n)
@replace any
assert ! ( self . path . pop ( ) ) ;
@with
let v_p = v_path_pop(&mut self.path); crate::v_assert(v_p);
@replace any
debug_assert_eq ! ( self . depth , self . path . ancestors ( ) . count ( ) ) ;
@with
let v_n = v_path_count(&self.path); crate::v_assert(self.depth == v_n);
@fn InnerEntry::as_directory props=C07,C13,C14
@spec
    requires
        old(self).v().depth == old(self).v().path.len() + 1,
        2 <= depth <= old(self).v().depth + 1,
        sp_segment(name@),
        old(self).v().visit is None,
    ensures
        final(self).v() == (VCur { cid, path: old(self).v().path.take(depth - 2).push(name@), depth: depth as int, metadata, visit: None, size: 0, root_dir: false, root_bucket: false }), // [C07 C13 C14]
@replace any
unreachable ! ( $$x )
@with
{ crate::v_assert(false); }
@fn InnerEntry::as_bucket_root props=C07,C13,C14
@spec
    requires
        old(self).v().depth == old(self).v().path.len() + 1,
        2 <= depth <= old(self).v().depth + 1,
        sp_segment(name@),
        old(self).v().visit is None,
    ensures
        final(self).v() == (VCur { cid, path: old(self).v().path.take(depth - 2).push(name@), depth: depth as int, metadata, visit: None, size: 0, root_dir: false, root_bucket: false }), // [C07 C13 C14]
@replace any
unreachable ! ( $$x )
@with
{ crate::v_assert(false); }
@fn InnerEntry::as_file props=C07,C13,C14
@spec
    requires
        old(self).v().depth == old(self).v().path.len() + 1,
        2 <= depth <= old(self).v().depth + 1,
        sp_segment(name@),
        old(self).v().visit is None,
    ensures
        final(self).v() == (VCur { cid, path: old(self).v().path.take(depth - 2).push(name@), depth: depth as int, metadata, visit: step, size: file_size, root_dir: false, root_bucket: false }), // [C07 C13 C14]
@replace any
unreachable ! ( $$x )
@with
{ crate::v_assert(false); }
@fn InnerEntry::as_symlink props=C07,C13,C14,C15
@spec
    requires
        old(self).v().depth == old(self).v().path.len() + 1,
        2 <= depth <= old(self).v().depth + 1,
        sp_segment(name@),
        old(self).v().visit is None,
    ensures
        final(self).v() == (VCur { cid, path: old(self).v().path.take(depth - 2).push(name@), depth: depth as int, metadata, visit: None, size: 0, root_dir: false, root_bucket: false }), // [C07 C13 C14]
@replace any
unreachable ! ( $$x )
@with
{ crate::v_assert(false); }
@fn InnerEntry::as_bucket props=C07,C13
@spec
    requires
        old(self).v().depth == old(self).v().path.len() + 1,
        1 <= depth <= old(self).v().depth,
        name@.len() == 0,
        old(self).v().visit is None,
        !old(self).v().root_dir,
        old(self).v().root_bucket ==> depth == old(self).v().depth,
    ensures
        final(self).v() == (VCur { cid, path: old(self).v().path.take(depth - 1), depth: depth as int, visit: None, size: 0, ..old(self).v() }), // [C07 C13]
@loop 0
invariant
    1 <= depth <= self.depth,
    self.depth == sp_path(self.path).len() + 1,
    self.v() == (VCur { cid, path: sp_path(self.path), depth: self.depth as int, visit: None, size: 0, ..old(self).v() }),
    self.depth <= old(self).v().depth,
    old(self).v().depth == old(self).v().path.len() + 1,
    sp_path(self.path) =~= old(self).v().path.take(self.depth - 1),
decreases self.depth
@proof loop 0 end
proof { let p = old(self).v().path; assert(p.take(self.depth as int).drop_last() =~= p.take(self.depth - 1)); }
@proof start
proof { let p = self.v().path; assert(p.take(p.len() as int) =~= p); }
@replace any
unreachable ! ( $$x )
@with
{ crate::v_assert(false); }
@replace any
assert ! ( self . path . pop ( ) ) ;
@with
let v_p = v_path_pop(&mut self.path); crate::v_assert(v_p);
@replace any
assert ! ( name . is_empty ( ) ) ;
@with
let v_l = crate::v_str_len(name); proof { v_empty_name(name); } crate::v_assert(v_l == 0);
@replace any
assert_eq ! ( self . depth , depth , $$m ) ;
@with
crate::v_assert(self.depth == depth);
@append
verus! {
impl<'a> FileSegment<'a> {
    pub closed spec fn sp_bytes(self) -> Seq<u8> { self.bytes@ }
    pub closed spec fn sp_first(self) -> bool { self.first_block }
    pub closed spec fn sp_last(self) -> bool { self.last_block }
}
impl<'a> ContinuedWalk<'a> {
    pub open spec fn v(self) -> VStep {
        match self {
            ContinuedWalk::Bucket(c, p) => VStep { kind: VKind::Bucket, cid: *c, path: sp_pathr(p), metadata: None, bytes: Seq::empty(), first: false, last: false, size: 0 },
            ContinuedWalk::Directory(c, p, m) => VStep { kind: VKind::Directory, cid: *c, path: sp_pathr(p), metadata: Some(*m), bytes: Seq::empty(), first: false, last: false, size: 0 },
            ContinuedWalk::RootDirectory(c, p, m) => VStep { kind: VKind::RootDirectory, cid: *c, path: sp_pathr(p), metadata: Some(*m), bytes: Seq::empty(), first: false, last: false, size: 0 },
            ContinuedWalk::File(s, c, p, m, n) => VStep { kind: VKind::File, cid: *c, path: sp_pathr(p), metadata: Some(*m), bytes: s.sp_bytes(), first: s.sp_first(), last: s.sp_last(), size: n },
            ContinuedWalk::Symlink(b, c, p, m) => VStep { kind: VKind::Symlink, cid: *c, path: sp_pathr(p), metadata: Some(*m), bytes: b@, first: false, last: false, size: 0 },
        }
    }
}
/// the items of all links, in order; none if one of them is no good
pub open spec fn sp_all_items(links: Seq<PBLink<'_>>, depth: int, shard: bool) -> Option<Seq<VItem>> {
    if forall|i: int| 0 <= i < links.len() ==> sp_any_item(#[trigger] links[i], depth, shard) is Some {
        Some(Seq::new(links.len(), |i: int| sp_any_item(links[i], depth, shard)->0))
    } else { None }
}
pub open spec fn sp_any_item(l: PBLink<'_>, depth: int, shard: bool) -> Option<VItem> {
    if shard { sp_shard_item(l, depth) } else { sp_dir_item(l, depth) }
}
/// what loading the item on top of the stack, whose block is `block`, does
pub open spec fn sp_entered(w: VW, block: Seq<u8>, r: Option<VStep>, w2: VW) -> bool {
    let top = w.stack.last();
    let rest = w.stack.drop_last();
    let at = match w.cur { None => Seq::empty(), Some(c) => c.path };
    let path = sp_under(at, top);
    match sp_flat(block) {
        None => r is None,
        Some(f) => {
            let m = crate::sp_metadata(f.data);
            let shard = f.data.Type == UnixFsType::HAMTShard;
            if w.cur is Some && !shard && top.name.len() == 0 { r is None }
            else if shard || f.data.Type == UnixFsType::Directory {
                let items = sp_all_items(f.links@, top.depth, shard);
                let kind = if w.cur is None { VKind::RootDirectory } else if !shard { VKind::Directory } else if top.name.len() == 0 { VKind::Bucket } else { VKind::RootDirectory };
                if items is None || (if shard { !sp_shard_ok(f) } else { !sp_plain_dir(f) }) { r is None }
                else {
                    &&& r == Some(VStep { kind, cid: top.cid, path, metadata: if kind is Bucket { None } else { Some(m) }, bytes: Seq::empty(), first: false, last: false, size: 0 })
                    &&& w2.stack =~= rest + items->0.reverse()
                    &&& w2.cur matches Some(c) && c.path == path && c.depth == top.depth && c.visit is None && c.cid == top.cid
                    &&& w2.cur->0.root_dir == (w.cur is None && !shard)
                    &&& w2.cur->0.root_bucket == (shard && (w.cur is None || (kind is Bucket && w.cur->0.root_bucket)))
                }
            } else if f.data.Type == UnixFsType::Symlink {
                &&& r == Some(VStep { kind: VKind::Symlink, cid: top.cid, path, metadata: Some(m), bytes: sp_data(f), first: false, last: false, size: 0 })
                &&& w2.stack =~= rest
                &&& w2.cur == Some(VCur { cid: top.cid, path, depth: top.depth, metadata: m, visit: None, size: 0, root_dir: false, root_bucket: false })
            } else if f.data.Type == UnixFsType::Metadata { r is None }
            else {
                exists|s: Result<(&[u8], u64, Metadata, Option<FileVisit>), FileReadFailed>| #![trigger sp_started(f, None, s)] {
                    &&& sp_started(f, None, s)
                    &&& r is Some == s is Ok
                    &&& s matches Ok((bytes, size, _, visit)) ==> {
                        &&& r == Some(VStep { kind: VKind::File, cid: top.cid, path, metadata: Some(m), bytes: bytes@, first: true, last: visit is None, size })
                        &&& w2.stack =~= rest
                        &&& w2.cur == Some(VCur { cid: top.cid, path, depth: top.depth, metadata: m, visit, size, root_dir: false, root_bucket: false })
                    }
                }
            }
        },
    }
}
/// a step of a walk
pub open spec fn sp_walked(w: VW, block: Seq<u8>, r: Option<VStep>, w2: VW) -> bool {
    &&& w2.go == (r is Some && w2.more())
    &&& if w.cur is Some && w.cur->0.visit is Some {
        let c = w.cur->0;
        exists|s: Result<(&[u8], Option<FileVisit>), FileReadFailed>| #![trigger sp_continued(c.visit->0, block, s)] {
            &&& sp_continued(c.visit->0, block, s)
            &&& r is Some == s is Ok
            &&& s matches Ok((bytes, visit)) ==> {
                &&& r == Some(VStep { kind: VKind::File, cid: c.cid, path: c.path, metadata: Some(c.metadata), bytes: bytes@, first: false, last: visit is None, size: c.size })
                &&& w2.stack =~= w.stack
                &&& w2.cur == Some(VCur { visit, ..c })
            }
        }
    } else { sp_entered(w, block, r, w2) }
}
}
@append
verus! {
#[verifier::external_body]
pub fn v_idle_default() -> (r: IdleFileVisit)
    ensures r.target() is None
{ IdleFileVisit::default() }
pub broadcast proof fn lm_items_push(s: Seq<(Cid, String, usize)>, x: (Cid, String, usize))
    ensures #[trigger] sp_items(s.push(x)) =~= sp_items(s).push(sp_item(x))
{}
pub broadcast proof fn lm_items_drop(s: Seq<(Cid, String, usize)>)
    requires s.len() > 0,
    ensures (#[trigger] sp_items(s.drop_last())).push(sp_item(s.last())) =~= sp_items(s), sp_items(s.drop_last()) =~= sp_items(s).drop_last()
{}
pub broadcast proof fn lm_items_none(s: Seq<(Cid, String, usize)>)
    ensures (#[trigger] sp_items(s)).len() == s.len()
{}
/// stands for `for link in links.into_iter().enumerate().map(f).rev() { pending.push(link?) }`
#[verifier::loop_isolation(false)]
pub fn v_push_links<'b, F: Fn(usize, PBLink<'b>) -> Result<(Cid, String, usize), Error>>(pending: &mut Vec<(Cid, String, usize)>, links: Vec<PBLink<'b>>, f: F, depth: Ghost<int>, shard: Ghost<bool>) -> (r: Result<(), Error>)
    requires
        forall|i: usize, l: PBLink<'b>| call_requires(f, (i, l)),
        forall|i: usize, l: PBLink<'b>, x: Result<(Cid, String, usize), Error>| #[trigger] call_ensures(f, (i, l), x) ==> {
            &&& x is Ok == sp_any_item(l, depth@, shard@) is Some
            &&& x matches Ok(y) ==> Some(sp_item(y)) == sp_any_item(l, depth@, shard@)
            &&& x matches Err(e) ==> sp_link_fault(i as int, l, shard@, e)
        },
    ensures
        r matches Err(e) ==> sp_links_fault(links@, shard@, e),
        r is Ok == sp_all_items(links@, depth@, shard@) is Some,
        r is Ok ==> sp_items(final(pending)@) =~= sp_items(old(pending)@) + sp_all_items(links@, depth@, shard@)->0.reverse(),
{
    let ghost all = links@;
    let ghost n = all.len() as int;
    proof { crate::lm_vec_len(links); }
    let ghost p0 = sp_items(pending@);
    let v = v_numbered_back(links);
    for x in it: v
        invariant
            n == all.len(),
            it.seq().len() == n,
            forall|k: int| 0 <= k < n ==> (#[trigger] it.seq()[k]) == ((n - 1 - k) as usize, all[n - 1 - k]),
            forall|i: usize, l: PBLink<'b>| call_requires(f, (i, l)),
            forall|i: usize, l: PBLink<'b>, x: Result<(Cid, String, usize), Error>| #[trigger] call_ensures(f, (i, l), x) ==> {
                &&& x is Ok == sp_any_item(l, depth@, shard@) is Some
                &&& x matches Ok(y) ==> Some(sp_item(y)) == sp_any_item(l, depth@, shard@)
                &&& x matches Err(e) ==> sp_link_fault(i as int, l, shard@, e)
            },
            forall|k: int| n - it.index() <= k < n ==> sp_any_item(#[trigger] all[k], depth@, shard@) is Some,
            sp_items(pending@) =~= p0 + Seq::new(it.index() as nat, |k: int| sp_any_item(all[n - 1 - k], depth@, shard@)->0),
    {
        let (i, l) = x;
        let ghost p1 = pending@;
        match f(i, l) {
            Err(e) => {
                proof {
                    assert(l == all[n - 1 - it.index()]);
                    assert(sp_any_item(all[n - 1 - it.index()], depth@, shard@) is None);
                }
                return Err(e);
            },
            Ok(y) => {
                pending.push(y);
                proof { lm_items_push(p1, y); }
            },
        }
    }
    proof {
        assert(sp_items(pending@) =~= p0 + sp_all_items(all, depth@, shard@)->0.reverse());
    }
    Ok(())
}
}
@fn FileSegment::first props=C13
@ret r
@spec
    ensures r.sp_bytes() == bytes@, r.sp_first(), r.sp_last() == last_block, // [C13]
@fn FileSegment::later props=C13
@ret r
@spec
    ensures r.sp_bytes() == bytes@, !r.sp_first(), r.sp_last() == last_block, // [C13]
@fn FileSegment::is_first props=C13
@ret r
@spec
    ensures r == self.sp_first(), // [C13]
@fn FileSegment::is_last props=C13
@ret r
@spec
    ensures r == self.sp_last(), // [C13]
@fn FileSegment::as_bytes props=C13
@ret r
@spec
    ensures r@ == self.sp_bytes(), // [C13]
@fn AsRef@FileSegment::as_ref props=C13
@ret r
@spec
    ensures r@ == self.sp_bytes(), // [C13]
@fn Walker::new props=C13
@ret r
@spec
    requires root_name@.len() == 0 || sp_segment(root_name@),
    ensures
        r.v().wf(), r.sp_tidy(), // [C07 C13]
        r.v().cur is None && r.v().go, // [C13]
        r.v().stack =~= seq![VItem { cid, name: root_name@, depth: if root_name@.len() == 0 { 1 } else { 2 } }], // [C13]
@replace any
root_name . is_empty ( )
@with
v_string_empty(&root_name)
@fn Walker::should_continue props=C13
@ret r
@spec
    ensures r == self.v().go, // [C13]
@fn Walker::next props=C07,C13,C14,C15,C17,C18
@attrs #[verifier::spinoff_prover] #[verifier::rlimit(200)]
@ret r
@spec
    requires
        old(self).v().wf(), old(self).sp_tidy(), old(self).v().more(), sp_cache_ok(*old(cache)),
        old(self).sp_depth() < usize::MAX,
    ensures
        sp_walked(old(self).v(), bytes@, match r { Ok(c) => Some(c.v()), Err(_) => None }, final(self).v()), // [C07 C13 C14 C15 C17 C18]
        r is Ok ==> final(self).sp_tidy(), // [C07 C13]
        sp_cache_ok(*final(cache)), // [C17]
        r matches Err(e) ==> sp_walk_fault(old(self).v(), bytes@, e), // [C18]
@proof start
broadcast use {crate::ax_question, crate::lm_unexpected, lm_items_push, lm_items_drop, lm_items_none};
let ghost v_w0 = self.v();
let ghost v_b0 = bytes@;
proof {
    assert(v_w0.stack.drop_last() =~= sp_items(self.pending@) || self.next is None);
    let t = v_w0.stack.last();
    if v_w0.cur is None { assert(sp_under(Seq::empty(), t) =~= (if t.name.len() == 0 { seq![] } else { seq![t.name] })); }
}
let ghost mut v_gf: Option<Result<(&[u8], u64, Metadata, Option<FileVisit>), FileReadFailed>> = None;
let ghost mut v_gs: Option<Result<(&[u8], Option<FileVisit>), FileReadFailed>> = None;
@replace
let links = flat . links . into_iter ( ) . enumerate ( ) . map ( | ( $i , $l ) | convert_link ( $$c ) ) . rev ( ) ; for link in links { pending . push ( link ? ) ; }
@with
v_push_links(pending, flat.links, |$i: usize, $l: PBLink<'b>| -> (r: Result<(Cid, String, usize), Error>)
    requires depth < usize::MAX
    ensures r is Ok == sp_dir_item($l, depth as int) is Some, r matches Ok(x) ==> Some(sp_item(x)) == sp_dir_item($l, depth as int), r matches Err(e) ==> sp_link_fault($i as int, $l, false, e)
    { convert_link($c) }, Ghost(depth as int), Ghost(false))?;
proof {
    let v_i = sp_all_items(sp_flat(v_b0)->0.links@, depth as int, false);
    assert(sp_items(pending@) =~= v_w0.stack.drop_last() + v_i->0.reverse());
    if pending@.len() > 0 { lm_items_drop(pending@); }
}
@replace
let links = flat . links . into_iter ( ) . enumerate ( ) . map ( | ( $i , $l ) | convert_sharded_link ( $$c ) ) . rev ( ) ; for link in links { pending . push ( link ? ) ; }
@with
v_push_links(pending, flat.links, |$i: usize, $l: PBLink<'b>| -> (r: Result<(Cid, String, usize), Error>)
    requires depth < usize::MAX
    ensures r is Ok == sp_shard_item($l, depth as int) is Some, r matches Ok(x) ==> Some(sp_item(x)) == sp_shard_item($l, depth as int), r matches Err(e) ==> sp_link_fault($i as int, $l, true, e)
    { convert_sharded_link($c) }, Ghost(depth as int), Ghost(true))?;
proof {
    let v_i = sp_all_items(sp_flat(v_b0)->0.links@, depth as int, true);
    assert(sp_items(pending@) =~= v_w0.stack.drop_last() + v_i->0.reverse());
    if pending@.len() > 0 { lm_items_drop(pending@); }
}
@replace
IdleFileVisit :: default ( ) . start_from_parsed ( $b , $c ) ?
@with
{
    let v_s = v_idle_default().start_from_parsed($b, $c);
    proof { v_gf = Some(v_s); }
    v_s?
}
@proof before let segment = FileSegment :: first ( bytes , ! file_continues ) ;
proof { assert(sp_started(sp_flat(v_b0)->0, None, v_gf->0)); }
@replace
visit . take ( ) . unwrap ( ) . continue_walk ( $b , $c ) ?
@with
{
    let v_fv = visit.take().unwrap();
    proof { assert(v_fv == v_w0.cur->0.visit->0); }
    let v_s = v_fv.continue_walk($b, $c);
    proof { v_gs = Some(v_s); }
    v_s?
}
@proof before return Ok ( ContinuedWalk :: File ( segment , cid , v_path ( path ) , metadata , * sz ) ) ;
proof {
    assert(sp_continued(v_w0.cur->0.visit->0, v_b0, v_gs->0));
    assert(v_w0.cur->0.cid == *cid);
    assert(v_w0.cur->0.path == sp_path(*path));
    assert(v_w0.cur->0.metadata == *metadata);
    assert(v_w0.cur->0.size == *sz);
    assert(segment.sp_bytes() == v_gs->0->Ok_0.0@);
    assert(segment.sp_last() == (v_gs->0->Ok_0.1 is None));
    assert(v_gs->0->Ok_0.1 == *visit);
}
@replace any
& ie . path
@with
v_path(&ie.path)
@replace
ContinuedWalk :: File ( segment , cid , path , metadata , $n )
@with
ContinuedWalk::File(segment, cid, v_path(path), metadata, $n)
@proof before let ( cid , name , depth ) = next . take ( ) . expect ( "continued without next" ) ;
proof { assert(contents@ =~= sp_data(sp_flat(v_b0)->0)); }
@append
verus! {
/// what else could be loaded already
#[verifier::external_body]
pub struct VCids<'a>(Vec<&'a Cid>);
#[verifier::external_body]
pub fn v_cids<'a>(p: &'a Vec<(Cid, String, usize)>) -> VCids<'a> { VCids(p.iter().map(|(cid, ..)| cid).rev().collect()) }
#[verifier::external_body]
pub fn v_cids_next<'a>(p: &'a Option<(Cid, String, usize)>) -> VCids<'a> { VCids(p.iter().map(|(cid, ..)| cid).collect()) }
#[verifier::external_body]
pub fn v_cids_chain<'a, A: Iterator<Item = &'a Cid>>(a: A, b: VCids<'a>, c: VCids<'a>) -> VCids<'a> { VCids(a.chain(b.0.into_iter().chain(c.0)).collect()) }
}
@fn Walker::pending_links props=C07,C13
@ret r
@spec
    requires self.v().wf(), self.sp_tidy(), self.v().more(),
    ensures
        *r.0 == (if self.v().cur matches Some(c) && c.visit is Some { self.v().cur->0.visit->0.pend().last().0 } else { self.v().stack.last().cid }), // [C13]
@replace
( & Cid , impl Iterator < Item = & Cid > + '_ )
@with
(&Cid, VCids<'_>)
@replace
self . pending . iter ( ) . map ( $c ) . rev ( )
@with
v_cids(&self.pending)
@replace
self . next . iter ( ) . map ( $c )
@with
v_cids_next(&self.next)
@replace
Either :: Left ( rest . chain ( next . chain ( cids ) ) )
@with
v_cids_chain(rest, next, cids)
@replace
Either :: Right ( cids )
@with
cids
@replace
self . current . as_ref ( ) . map ( | c | & c . kind )
@with
(match self.current.as_ref() { None => None, Some(c) => Some(&c.kind) })
