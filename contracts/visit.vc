@note Range selection and slicing of a file visit, and the visit itself.
@file src/file/visit.rs
@type Cache
@type FileVisit
@type IdleFileVisit
@append
verus! {
use crate::file::reader::{sp_zip, sp_data, sp_own_size, sp_node_ok};
use crate::pb::{sp_flat, sp_borrowed, sp_ranges};

pub open spec fn sp_max(a: u64, b: u64) -> u64 { if a >= b { a } else { b } }
pub open spec fn sp_min(a: u64, b: u64) -> u64 { if a <= b { a } else { b } }

/// the two ranges overlap or touch
pub open spec fn sp_touches(block: Range<u64>, target: Option<Range<u64>>) -> bool {
    match target {
        None => true,
        Some(t) => sp_max(block.start, t.start) <= sp_min(block.end, t.end),
    }
}
/// the bytes of `content`, which starts at the file offset `start`, which are inside of the target
pub open spec fn sp_inside(content: Seq<u8>, start: int, target: Option<Range<u64>>) -> Seq<u8> {
    match target {
        None => content,
        Some(t) => {
            let a = if t.start <= start { 0 } else { t.start - start };
            let b = if t.end <= start { 0 } else { t.end - start };
            let a = if a > content.len() { content.len() as int } else { a };
            let b = if b > content.len() { content.len() as int } else { b };
            if a >= b { Seq::empty() } else { content.subrange(a, b) }
        },
    }
}
pub open spec fn sp_deref(t: Option<&Range<u64>>) -> Option<Range<u64>> {
    match t { None => None, Some(r) => Some(*r) }
}
/// identifier of a link
pub open spec fn sp_link_hash(l: PBLink<'_>) -> Seq<u8> {
    match l.Hash { None => Seq::empty(), Some(c) => c@ }
}
pub open spec fn sp_pending(s: Seq<(PBLink<'_>, Range<u64>)>, target: Option<Range<u64>>) -> Seq<(Cid, Range<u64>)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let rest = sp_pending(s.drop_last(), target);
        if sp_touches(s.last().1, target) { rest.push((crate::sp_cid(sp_link_hash(s.last().0))->0, s.last().1)) } else { rest }
    }
}
pub open spec fn sp_cids_ok(s: Seq<(PBLink<'_>, Range<u64>)>, target: Option<Range<u64>>) -> bool {
    forall|i: int| 0 <= i < s.len() && sp_touches(s[i].1, target) ==> crate::sp_cid(sp_link_hash((#[trigger] s[i]).0)) is Some
}
pub open spec fn sp_ordered(s: Seq<(Cid, Range<u64>)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.start <= s[i].1.end
}
pub proof fn lm_pending_ordered(s: Seq<(PBLink<'_>, Range<u64>)>, t: Option<Range<u64>>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.start <= s[i].1.end,
    ensures sp_ordered(sp_pending(s, t))
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).1.start <= s.drop_last()[i].1.end by { assert(s.drop_last()[i] == s[i]); }
        lm_pending_ordered(s.drop_last(), t);
    }
}
pub proof fn lm_ordered_join(a: Seq<(Cid, Range<u64>)>, b: Seq<(Cid, Range<u64>)>)
    requires sp_ordered(a), sp_ordered(b),
    ensures sp_ordered(a + b.reverse())
{
    assert forall|i: int| 0 <= i < (a + b.reverse()).len() implies (#[trigger] (a + b.reverse())[i]).1.start <= (a + b.reverse())[i].1.end by {
        if i < a.len() { assert((a + b.reverse())[i] == a[i]); } else { assert((a + b.reverse())[i] == b[b.len() - 1 - (i - a.len())]); }
    }
}
pub proof fn lm_ranges_ordered(f: FlatUnixFs<'_>, o: u64, t: Option<Range<u64>>)
    requires sp_node_ok(f, o),
    ensures sp_ordered(sp_pending(sp_ranges(sp_zip(f), o), t)),
{
    let s = sp_zip(f);
    crate::pb::lm_ranges_step(s);
    crate::file::reader::lm_zip_sum(f, s.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] sp_ranges(s, o)[i]).1.start <= sp_ranges(s, o)[i].1.end by {
        crate::pb::lm_psum_mono(s, i, i + 1);
        assert(crate::pb::sp_psum(s, i + 1) <= crate::pb::sp_psum(s, s.len() as int));
    }
    lm_pending_ordered(sp_ranges(s, o), t);
}
pub open spec fn sp_snd<'a>(s: Seq<(usize, (PBLink<'a>, Range<u64>))>) -> Seq<(PBLink<'a>, Range<u64>)> {
    Seq::new(s.len(), |i: int| s[i].1)
}
pub proof fn lm_take_step(s: Seq<(PBLink<'_>, Range<u64>)>, i: int)
    ensures 0 <= i < s.len() ==> s.take(i + 1).drop_last() =~= s.take(i) && s.take(i + 1).last() == s[i] && s.take(i + 1).len() == i + 1
{}
pub proof fn lm_take_all(s: Seq<(PBLink<'_>, Range<u64>)>)
    ensures s.take(s.len() as int) =~= s
{}
impl Cache {
    pub closed spec fn empty(self) -> bool { self.inner@.len() == 0 }
}
pub open spec fn sp_cache_ok(c: Option<Cache>) -> bool { c matches Some(c) ==> c.empty() }
#[verifier::external_body]
fn v_cache_default() -> (r: Cache)
    ensures r.empty()
{ Cache::default() }
impl FileVisit {
    pub closed spec fn pend(self) -> Seq<(Cid, Range<u64>)> { self.pending@ }
    pub closed spec fn target(self) -> Option<Range<u64>> { self.range }
    pub closed spec fn trav(self) -> Traversal { self.state }
    pub open spec fn wf(self) -> bool {
        self.pend().len() > 0 && sp_ordered(self.pend())
    }
}
impl IdleFileVisit {
    pub closed spec fn target(self) -> Option<Range<u64>> { self.range }
}
/// one of the links is no identifier
pub open spec fn sp_link_fault(links: Seq<PBLink<'_>>, e: FileReadFailed) -> bool {
    e matches FileReadFailed::InvalidCid(x) && crate::sp_bad_target(links, x)
}
/// what is wrong with the block a visit starts with
pub open spec fn sp_start_fault(f: FlatUnixFs<'_>, e: FileReadFailed) -> bool {
    crate::file::reader::sp_node_fault(f, 0, e) || sp_link_fault(f.links@, e)
}
/// what is wrong with the next block of a visit
pub open spec fn sp_continue_fault(v: FileVisit, block: Seq<u8>, e: FileReadFailed) -> bool {
    let range = v.pend().last().1;
    ||| (e matches FileReadFailed::File(x) && v.trav().sp_misplaced(range, x))
    ||| crate::file::reader::sp_later_fault(block, range.start, e)
    ||| (sp_flat(block) matches Some(f) && sp_link_fault(f.links@, e))
}
/// what starting a visit of the node does
pub open spec fn sp_started(f: FlatUnixFs<'_>, target: Option<Range<u64>>, r: Result<FileVisitResult<'_>, FileReadFailed>) -> bool {
    let links = sp_ranges(sp_zip(f), 0);
    let next = sp_pending(links, target).reverse();
    &&& r is Ok == (sp_node_ok(f, 0) && sp_cids_ok(links, target))
    &&& r matches Ok((bytes, size, metadata, visit)) ==> {
        &&& size == sp_own_size(f)
        &&& metadata == crate::sp_metadata(f.data)
        &&& bytes@ =~= (if f.links@.len() == 0 { sp_inside(sp_data(f), 0, target) } else { Seq::empty() })
        &&& visit is Some == (next.len() > 0)
        &&& visit matches Some(v) ==> v.wf() && v.pend() =~= next && v.target() == target && v.trav().after(f, 0, metadata, size)
    }
}
}
@fn block_is_in_target_range props=C05
@ret r
@spec
    ensures r == sp_touches(*block, sp_deref(target)), // [C05]
@fn target_slice props=C01,C05,C07
@ret r
@spec
    requires block.start <= block.end,
    ensures
        content@.len() == block.end - block.start ==> r@ =~= sp_inside(content@, block.start as int, Some(*target)), // [C05]
@fn maybe_target_slice props=C01,C05,C07
@ret r
@spec
    requires block.start <= block.end,
    ensures
        target is None ==> r@ == content@, // [C01 C05]
        content@.len() == block.end - block.start ==> r@ =~= sp_inside(content@, block.start as int, sp_deref(target)), // [C05]
@fn to_pending props=C01,C05,C06,C07,C18
@ret r
@spec
    ensures
        r is Ok == crate::sp_cid(sp_link_hash(link)) is Some, // [C06]
        r matches Ok(p) ==> p == (crate::sp_cid(sp_link_hash(link))->0, range), // [C01 C05]
        r matches Err(e) ==> (e matches FileReadFailed::InvalidCid(x) && x.about(nth as int, link)), // [C18]
@proof start
broadcast use crate::ax_cidg;
@replace
link . Hash . as_deref ( ) . unwrap_or_default ( )
@with
crate::v_cow_or_empty(&link.Hash)
@fn From@Cache::from props=C17
@ret r
@spec
    ensures r.empty(), // [C17]
@append
verus! {
impl vstd::std_specs::convert::FromSpecImpl<Vec<(Cid, Range<u64>)>> for Cache {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(d: Vec<(Cid, Range<u64>)>) -> Cache { arbitrary() }
}
}
@fn IdleFileVisit::with_target_range props=C05
@ret r
@spec
    ensures r.target() == Some(range), // [C05]
@fn IdleFileVisit::start props=C01,C05,C06,C07,C14,C18
@ret r
@spec
    ensures
        sp_flat(block@) is None ==> r is Err, // [C06]
        sp_flat(block@) matches Some(f) ==> sp_started(f, self.target(), r), // [C01 C05 C06 C14]
        r matches Err(e) ==> (match sp_flat(block@) { None => crate::file::reader::sp_unread(block@, e), Some(f) => sp_start_fault(f, e) }), // [C18]
@proof start
broadcast use crate::ax_question;
@fn IdleFileVisit::start_from_parsed props=C01,C05,C06,C07,C14,C17,C18
@ret r
@spec
    requires sp_borrowed(block.data.Data), sp_cache_ok(*old(cache)),
    ensures
        sp_started(block, self.target(), r), // [C01 C05 C06 C14 C17]
        r matches Err(e) ==> sp_start_fault(block, e), // [C18]
        sp_cache_ok(*final(cache)), // [C17]
@proof start
broadcast use crate::ax_question;
@fn IdleFileVisit::start_from_reader props=C01,C05,C06,C07,C14,C17,C18
@attrs #[verifier::loop_isolation(false)]
@ret r
@spec
    requires sp_cache_ok(*old(cache)), fr.wf(),
    ensures
        forall|f: FlatUnixFs<'a>, m: Metadata| #![trigger fr.reads(f, 0, m, sp_own_size(f) as u64)]
            sp_node_ok(f, 0) && m == crate::sp_metadata(f.data) && fr.reads(f, 0, m, sp_own_size(f) as u64) ==> sp_started(f, self.target(), r), // [C01 C05 C06 C14 C17]
        r matches Err(e) ==> forall|f: FlatUnixFs<'a>, m: Metadata| #![trigger fr.reads(f, 0, m, sp_own_size(f) as u64)] fr.reads(f, 0, m, sp_own_size(f) as u64) ==> sp_link_fault(f.links@, e), // [C18]
        sp_cache_ok(*final(cache)), // [C17]
@proof start
broadcast use {crate::lm_about, crate::ax_question, crate::file::reader::lm_after, crate::file::reader::lm_reads};
@replace
cache . take ( ) . unwrap_or_default ( )
@with
(match cache.take() { Some(c) => c, None => v_cache_default() })
@replace any
if $c { return None ; } Some ( $r ) }
@with
if $c { None } else { Some($r) } }
@replace
let pending = iter . enumerate ( ) . filter_map ( | $p | { $$f } ) ; for item in pending { $$body }
@with
let ghost v_g = iter;
for v_x in v_it: crate::v_enumerate(iter)
    invariant
        sp_snd(v_it.seq()) =~= v_g.remaining(),
        forall|i: int| 0 <= i < v_it.seq().len() ==> (#[trigger] v_it.seq()[i]).0 == i as usize,
        links@ == sp_pending(v_g.remaining().take(v_it.index()), self.range),
        sp_cids_ok(v_g.remaining().take(v_it.index()), self.range),
{
    proof { lm_take_step(v_g.remaining(), v_it.index()); }
    let $p = v_x;
    let v_o: Option<Result<(Cid, Range<u64>), FileReadFailed>> = { $f };
    if let Some(item) = v_o { $body }
}
proof {
    lm_take_all(v_g.remaining());
    assert forall|f: FlatUnixFs<'a>, m: Metadata| #![trigger fr.reads(f, 0, m, sp_own_size(f) as u64)] sp_node_ok(f, 0) implies sp_ordered(sp_pending(sp_ranges(sp_zip(f), 0), self.range).reverse()) by {
        lm_ranges_ordered(f, 0, self.range);
    }
}
@replace
fr . as_ref ( ) . to_owned ( )
@with
crate::v_metadata_to_owned(fr.as_ref())
@append
verus! {
pub open spec fn sp_continued<'a>(v: FileVisit, block: Seq<u8>, r: Result<(&'a [u8], Option<FileVisit>), FileReadFailed>) -> bool {
    let range = v.pend().last().1;
    let o = range.start;
    match sp_flat(block) {
        None => r is Err,
        Some(f) => {
            let links = sp_ranges(sp_zip(f), o);
            let next = v.pend().drop_last() + sp_pending(links, v.target()).reverse();
            &&& r is Ok == (!v.trav().sp_refuses(range) && sp_node_ok(f, o) && f.data.mode is None && f.data.mtime is None && sp_cids_ok(links, v.target()))
            &&& r matches Ok((bytes, visit)) ==> {
                &&& f.links@.len() > 0 ==> bytes@.len() == 0
                &&& f.links@.len() == 0 && v.target() is None ==> bytes@ == sp_data(f)
                &&& f.links@.len() == 0 && sp_data(f).len() == range.end - range.start ==> bytes@ =~= sp_inside(sp_data(f), o as int, v.target())
                &&& visit is Some == (next.len() > 0)
                &&& visit matches Some(w) ==> w.wf() && w.pend() =~= next && w.target() == v.target() && w.trav().after(f, o, v.trav().sp_metadata(), v.trav().sp_file_size())
            }
        },
    }
}
}
@fn FileVisit::continue_walk props=C01,C05,C06,C07,C14,C17,C18
@attrs #[verifier::loop_isolation(false)]
@ret r
@spec
    requires self.wf(),
    ensures
        sp_continued(self, next@, r), // [C01 C05 C06 C14]
        r matches Ok((_, visit)) ==> if visit is Some { *final(cache) == *old(cache) } else { sp_cache_ok(*final(cache)) }, // [C17]
        r is Err ==> *final(cache) == *old(cache), // [C17]
        r matches Err(e) ==> sp_continue_fault(self, next@, e), // [C18]
@proof start
broadcast use {crate::lm_about, crate::ax_question, crate::file::reader::lm_after, crate::file::reader::lm_reads};
let ghost v_0 = self;
@replace
( & mut self . pending [ before .. ] ) . reverse ( )
@with
crate::v_reverse_from(&mut self.pending, before);
proof {
    assert(self.pending@ =~= v_0.pending@.drop_last() + sp_pending(v_g.remaining(), self.range).reverse());
    if let Some(f) = sp_flat(next@) {
        assert(v_g.remaining() == sp_ranges(sp_zip(f), range.start));
        lm_ranges_ordered(f, range.start, self.range);
        lm_ordered_join(v_0.pending@.drop_last(), sp_pending(v_g.remaining(), self.range));
    }
}
@replace
for ( $i , ( $l , $r ) ) in iter . enumerate ( ) { if $c { continue ; } $$body }
@with
let ghost v_g = iter;
for v_x in v_it: crate::v_enumerate(iter)
    invariant
        sp_snd(v_it.seq()) =~= v_g.remaining(),
        forall|i: int| 0 <= i < v_it.seq().len() ==> (#[trigger] v_it.seq()[i]).0 == i as usize,
        self.pending@ =~= v_0.pending@.drop_last() + sp_pending(v_g.remaining().take(v_it.index()), self.range),
        sp_cids_ok(v_g.remaining().take(v_it.index()), self.range),
        self.range == v_0.range,
{
    proof { lm_take_step(v_g.remaining(), v_it.index()); }
    let ($i, ($l, $r)) = v_x;
    if $c { } else { $body }
}
proof {
    lm_take_all(v_g.remaining());
}
@fn FileVisit::file_size props=C01
@ret r
@spec
    ensures r == self.trav().sp_file_size(), // [C01]
@fn AsRef@FileVisit::as_ref props=C14
@ret r
@spec
    ensures *r == self.trav().sp_metadata(), // [C14]
@fn FileVisit::pending_links props=C01,C05,C07
@ret r
@spec
    requires self.wf(),
    ensures
        *r.0 == self.pend().last().0, // [C01 C05]
@replace
. map ( | ( $a , _ ) | $b )
@with
.map(|v_p: &(Cid, Range<u64>)| -> (v_r: &Cid) ensures *v_r == v_p.0 { let ($a, _) = v_p; $b })
