@note Whole reads: a ghost tree, what a visit of it yields, and a driver over the real API.
@file src/file/reader.rs
@append
verus! {
/// what may follow the node `f` at `offset`
pub broadcast proof fn lm_next_inside(t: Traversal, f: FlatUnixFs<'_>, offset: u64, metadata: Metadata, file_size: u64, next: Range<u64>)
    requires
        #[trigger] t.after(f, offset, metadata, file_size), sp_node_ok(f, offset), f.links@.len() > 0,
        offset <= next.start <= next.end <= offset + sp_own_size(f),
    ensures !(#[trigger] t.sp_refuses(next)),
{}
pub broadcast proof fn lm_next_leaf(t: Traversal, f: FlatUnixFs<'_>, offset: u64, metadata: Metadata, file_size: u64, next: Range<u64>)
    requires
        #[trigger] t.after(f, offset, metadata, file_size), sp_node_ok(f, offset), f.links@.len() == 0,
        next.start == offset + sp_own_size(f),
    ensures !(#[trigger] t.sp_refuses(next)),
{}
}
@file src/file/visit.rs
@append
verus! {
use crate::pb::UnixFsType;
/// a file as a tree
pub enum GT { Leaf(Seq<u8>), Node(Seq<GT>) }
pub open spec fn gt_bytes(t: GT) -> Seq<u8>
    decreases t, 0int
{
    match t { GT::Leaf(b) => b, GT::Node(k) => gt_cat(k, k.len() as int) }
}
/// bytes of the first n
pub open spec fn gt_cat(k: Seq<GT>, n: int) -> Seq<u8>
    decreases k, n
{
    if n <= 0 || n > k.len() { Seq::empty() } else { gt_cat(k, n - 1) + gt_bytes(k[n - 1]) }
}
pub open spec fn gt_size(t: GT) -> nat
    decreases t, 0int
{
    match t { GT::Leaf(b) => 1, GT::Node(k) => 1 + gt_sizes(k, k.len() as int) }
}
pub open spec fn gt_sizes(k: Seq<GT>, n: int) -> nat
    decreases k, n
{
    if n <= 0 || n > k.len() { 0 } else { gt_sizes(k, n - 1) + gt_size(k[n - 1]) }
}
pub type GStore = Map<Cid, Seq<u8>>;
/// the block is the root of the tree `t` starting at the file offset `at`, with everything below it in the store
pub open spec fn gt_is(store: GStore, block: Seq<u8>, at: int, t: GT, root: bool) -> bool
    decreases t
{
    &&& sp_flat(block) is Some
    &&& {
        let f = sp_flat(block)->0;
        &&& f.data.Type == UnixFsType::File || f.data.Type == UnixFsType::Raw
        &&& f.links@.len() == f.data.blocksizes@.len()
        &&& f.data.hashType is None
        &&& f.data.fanout is None
        &&& root || (f.data.mode is None && f.data.mtime is None)
        &&& at + gt_bytes(t).len() <= u64::MAX
        &&& match t {
            GT::Leaf(b) => {
                &&& f.links@.len() == 0
                &&& sp_data(f) == b
                &&& f.data.filesize is None || f.data.filesize == Some(b.len() as u64)
            },
            GT::Node(k) => {
                &&& f.links@.len() == k.len() && k.len() > 0
                &&& f.data.filesize == Some(gt_bytes(t).len() as u64)
                &&& forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> {
                    let c = crate::sp_cid(sp_link_hash(f.links@[i]));
                    &&& f.data.blocksizes@[i] == gt_bytes(k[i]).len()
                    &&& c is Some && store.dom().contains(c->0)
                    &&& gt_is(store, store[c->0], at + gt_cat(k, i).len(), k[i], false)
                }
            },
        }
    }
}
/// pending links (the next one is the last) stand for the trees `ts`
pub open spec fn pend_is(store: GStore, p: Seq<(Cid, Range<u64>)>, ts: Seq<GT>, target: Option<Range<u64>>) -> bool {
    &&& p.len() == ts.len()
    &&& forall|i: int| #![trigger p[i]] #![trigger ts[i]] 0 <= i < p.len() ==> {
        &&& store.dom().contains(p[i].0)
        &&& gt_is(store, store[p[i].0], p[i].1.start as int, ts[i], false)
        &&& p[i].1.end == p[i].1.start + gt_bytes(ts[i]).len()
        &&& sp_touches(p[i].1, target)
    }
    &&& forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i && j == i + 1 && j < p.len() ==> p[i].1.start == p[j].1.end
}
/// what is still to come
pub open spec fn pend_bytes(p: Seq<(Cid, Range<u64>)>, ts: Seq<GT>, target: Option<Range<u64>>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 || ts.len() != p.len() { Seq::empty() } else {
        sp_inside(gt_bytes(ts.last()), p.last().1.start as int, target) + pend_bytes(p.drop_last(), ts.drop_last(), target)
    }
}
/// the trees behind the links which sp_pending selects
pub open spec fn kids_in(s: Seq<(PBLink<'_>, Range<u64>)>, k: Seq<GT>, target: Option<Range<u64>>) -> Seq<GT>
    decreases s.len()
{
    if s.len() == 0 || k.len() != s.len() { Seq::empty() } else {
        let rest = kids_in(s.drop_last(), k.drop_last(), target);
        if sp_touches(s.last().1, target) { rest.push(k.last()) } else { rest }
    }
}
/// bytes of pending links in forward order
pub open spec fn fwd_bytes(p: Seq<(Cid, Range<u64>)>, ts: Seq<GT>, target: Option<Range<u64>>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 || ts.len() != p.len() { Seq::empty() } else {
        fwd_bytes(p.drop_last(), ts.drop_last(), target) + sp_inside(gt_bytes(ts.last()), p.last().1.start as int, target)
    }
}
pub proof fn lm_inside_cat(a: Seq<u8>, b: Seq<u8>, at: int, target: Option<Range<u64>>)
    requires 0 <= at,
    ensures sp_inside(a + b, at, target) =~= sp_inside(a, at, target) + sp_inside(b, at + a.len(), target)
{}
pub proof fn lm_inside_not(a: Seq<u8>, r: Range<u64>, target: Option<Range<u64>>)
    requires r.start + a.len() == r.end, !sp_touches(r, target),
    ensures sp_inside(a, r.start as int, target) =~= Seq::<u8>::empty()
{}
pub proof fn lm_cat_len(k: Seq<GT>, a: int, b: int)
    requires 0 <= a <= b <= k.len(),
    ensures gt_cat(k, a).len() <= gt_cat(k, b).len()
    decreases b
{
    if a < b { lm_cat_len(k, a, b - 1); }
}
/// the block sizes of a node add up to the bytes below it
pub proof fn lm_sum_is_cat(f: FlatUnixFs<'_>, k: Seq<GT>, n: int)
    requires
        0 <= n <= k.len() == f.data.blocksizes@.len(),
        forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> f.data.blocksizes@[i] == gt_bytes(k[i]).len(),
    ensures crate::pb::sp_sum(f.data.blocksizes@, n) == gt_cat(k, n).len()
    decreases n
{
    if n > 0 { lm_sum_is_cat(f, k, n - 1); }
}
/// links of a node selected by the range, for the first n
pub open spec fn sel_ok(store: GStore, s: Seq<(PBLink<'_>, Range<u64>)>, k: Seq<GT>, o: int, target: Option<Range<u64>>, n: int) -> bool {
    let p = sp_pending(s.take(n), target);
    let ts = kids_in(s.take(n), k.take(n), target);
    let at = o + gt_cat(k, n).len();
    &&& p.len() == ts.len() <= n
    &&& sp_cids_ok(s.take(n), target)
    &&& forall|i: int| #![trigger p[i]] #![trigger ts[i]] 0 <= i < p.len() ==> {
        &&& store.dom().contains(p[i].0)
        &&& gt_is(store, store[p[i].0], p[i].1.start as int, ts[i], false)
        &&& p[i].1.end == p[i].1.start + gt_bytes(ts[i]).len()
        &&& sp_touches(p[i].1, target)
        &&& o <= p[i].1.start <= p[i].1.end <= at
    }
    &&& forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i && j == i + 1 && j < p.len() ==> p[i].1.end == p[j].1.start
    &&& fwd_bytes(p, ts, target) =~= sp_inside(gt_cat(k, n), o, target)
    // what follows is either right behind, or not in the range at all
    &&& p.len() > 0 ==> (p.last().1.end == at || (target is Some && target->0.end < at))
    &&& n > 0 && (target matches Some(t) ==> t.start <= at <= t.end) ==> p.len() > 0
    &&& gt_sizes(ts, ts.len() as int) <= gt_sizes(k, n)
}
pub proof fn lm_sizes_push(a: Seq<GT>, x: GT)
    ensures gt_sizes(a.push(x), a.len() as int + 1) == gt_sizes(a, a.len() as int) + gt_size(x)
{
    lm_sizes_prefix(a.push(x), a, a.len() as int);
}
pub proof fn lm_sizes_prefix(a: Seq<GT>, b: Seq<GT>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures gt_sizes(a, n) == gt_sizes(b, n)
    decreases n
{
    if n > 0 { lm_sizes_prefix(a, b, n - 1); }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lm_select<'a>(store: GStore, f: FlatUnixFs<'a>, s: Seq<(PBLink<'a>, Range<u64>)>, k: Seq<GT>, o: u64, target: Option<Range<u64>>, n: int)
    requires
        0 <= n <= k.len(), s == sp_ranges(sp_zip(f), o),
        f.links@.len() == k.len() == f.data.blocksizes@.len(),
        o + gt_cat(k, k.len() as int).len() <= u64::MAX,
        forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> {
            let c = crate::sp_cid(sp_link_hash(f.links@[i]));
            &&& f.data.blocksizes@[i] == gt_bytes(k[i]).len()
            &&& c is Some && store.dom().contains(c->0)
            &&& gt_is(store, store[c->0], o + gt_cat(k, i).len(), k[i], false)
        },
    ensures sel_ok(store, s, k, o as int, target, n)
    decreases n
{
    if n > 0 {
        lm_select(store, f, s, k, o, target, n - 1);
        let m = n - 1;
        lm_sum_is_cat(f, k, n);
        lm_sum_is_cat(f, k, m);
        crate::file::reader::lm_zip_sum(f, n);
        crate::file::reader::lm_zip_sum(f, m);
        lm_cat_len(k, n, k.len() as int);
        lm_cat_len(k, m, n);
        assert(s.take(n).drop_last() =~= s.take(m));
        assert(k.take(n).drop_last() =~= k.take(m));
        assert(s.take(n).last() == s[m]);
        assert(s[m].0 == f.links@[m]);
        assert(s[m].1.start == o + gt_cat(k, m).len());
        assert(s[m].1.end == o + gt_cat(k, n).len());
        let x = k[m];
        lm_inside_cat(gt_cat(k, m), gt_bytes(x), o as int, target);
        let p0 = sp_pending(s.take(m), target);
        let t0 = kids_in(s.take(m), k.take(m), target);
        let p = sp_pending(s.take(n), target);
        let ts = kids_in(s.take(n), k.take(n), target);
        if sp_touches(s[m].1, target) {
            assert(p == p0.push((crate::sp_cid(sp_link_hash(s[m].0))->0, s[m].1)));
            assert(ts == t0.push(x));
            assert(p.drop_last() =~= p0);
            assert(ts.drop_last() =~= t0);
            lm_sizes_push(t0, x);
            if p0.len() > 0 { assert(p0.last() == p[p.len() - 2]); }
        } else {
            lm_inside_not(gt_bytes(x), s[m].1, target);
            assert(p == p0);
            assert(ts == t0);
            if p0.len() > 0 { assert(sp_touches(p0.last().1, target)); }
        }
        assert forall|i: int| 0 <= i < s.take(n).len() && sp_touches(s.take(n)[i].1, target) implies crate::sp_cid(sp_link_hash((#[trigger] s.take(n)[i]).0)) is Some by {
            assert(s.take(n)[i] == s[i]);
            if i < m { assert(s.take(m)[i] == s[i]); }
        }
    } else {
        assert(s.take(0) =~= Seq::empty());
        assert(sp_inside(gt_cat(k, 0), o as int, target) =~= Seq::empty());
    }
}
/// a list of links put on top of what is pending
pub proof fn lm_put_on_top(p: Seq<(Cid, Range<u64>)>, ts: Seq<GT>, q: Seq<(Cid, Range<u64>)>, us: Seq<GT>, target: Option<Range<u64>>)
    requires p.len() == ts.len(), q.len() == us.len(),
    ensures
        pend_bytes(p + q.reverse(), ts + us.reverse(), target) =~= fwd_bytes(q, us, target) + pend_bytes(p, ts, target),
        gt_sizes(ts + us.reverse(), (ts + us.reverse()).len() as int) == gt_sizes(ts, ts.len() as int) + gt_sizes(us, us.len() as int),
    decreases q.len()
{
    if q.len() == 0 {
        assert(p + q.reverse() =~= p);
        assert(ts + us.reverse() =~= ts);
    } else {
        // the last of q goes to the bottom
        let x = q.last();
        let y = us.last();
        let p2 = p.push(x);
        let t2 = ts.push(y);
        assert(p + q.reverse() =~= p2 + q.drop_last().reverse());
        assert(ts + us.reverse() =~= t2 + us.drop_last().reverse());
        assert(p2.drop_last() =~= p);
        assert(t2.drop_last() =~= ts);
        lm_put_on_top(p2, t2, q.drop_last(), us.drop_last(), target);
        lm_sizes_push(ts, y);
        lm_sizes_prefix(us.drop_last(), us, us.len() - 1);
    }
}
/// what is pending after the links of the tree on top have replaced it
pub open spec fn next_trees(f: FlatUnixFs<'_>, o: u64, t: GT, below: Seq<GT>, target: Option<Range<u64>>) -> Seq<GT> {
    match t {
        GT::Leaf(_) => below,
        GT::Node(k) => below + kids_in(sp_ranges(sp_zip(f), o), k, target).reverse(),
    }
}
pub open spec fn next_links(f: FlatUnixFs<'_>, o: u64, below: Seq<(Cid, Range<u64>)>, target: Option<Range<u64>>) -> Seq<(Cid, Range<u64>)> {
    below + sp_pending(sp_ranges(sp_zip(f), o), target).reverse()
}
pub open spec fn stands(store: GStore, l: (Cid, Range<u64>), t: GT, target: Option<Range<u64>>) -> bool {
    &&& store.dom().contains(l.0)
    &&& gt_is(store, store[l.0], l.1.start as int, t, false)
    &&& l.1.end == l.1.start + gt_bytes(t).len()
    &&& sp_touches(l.1, target)
}
pub proof fn lm_join(store: GStore, p: Seq<(Cid, Range<u64>)>, ts: Seq<GT>, q: Seq<(Cid, Range<u64>)>, us: Seq<GT>, target: Option<Range<u64>>)
    requires
        pend_is(store, p, ts, target),
        q.len() == us.len(),
        forall|i: int| 0 <= i < q.len() ==> stands(store, #[trigger] q[i], us[i], target),
        forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i && j == i + 1 && j < q.len() ==> q[i].1.end == q[j].1.start,
        p.len() > 0 && q.len() > 0 ==> p.last().1.start == q.last().1.end,
    ensures pend_is(store, p + q.reverse(), ts + us.reverse(), target)
{
    let r = p + q.reverse();
    let vs = ts + us.reverse();
    assert forall|i: int| #![trigger r[i]] #![trigger vs[i]] 0 <= i < r.len() implies stands(store, r[i], vs[i], target) by {
        if i < p.len() {
            assert(r[i] == p[i] && vs[i] == ts[i]);
        } else {
            let j = q.len() - 1 - (i - p.len());
            assert(r[i] == q[j] && vs[i] == us[j]);
            assert(stands(store, q[j], us[j], target));
        }
    }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i && j == i + 1 && j < r.len() implies r[i].1.start == r[j].1.end by {
        if j < p.len() {
            assert(r[i] == p[i] && r[j] == p[j]);
        } else if i >= p.len() {
            let a = q.len() - 1 - (i - p.len());
            assert(r[i] == q[a] && r[j] == q[a - 1]);
        } else {
            assert(r[i] == p.last());
            assert(r[j] == q.last());
        }
    }
}
pub open spec fn open_pre(store: GStore, block: Seq<u8>, o: u64, t: GT, root: bool, below: Seq<(Cid, Range<u64>)>, ts: Seq<GT>, target: Option<Range<u64>>) -> bool {
    &&& gt_is(store, block, o as int, t, root)
    &&& pend_is(store, below, ts, target)
    &&& below.len() > 0 ==> below.last().1.start == o + gt_bytes(t).len()
    // what is below is only there when the range touches this tree too
    &&& below.len() > 0 ==> sp_touches(Range { start: o, end: (o + gt_bytes(t).len()) as u64 }, target)
}
proof fn lm_node_kids(store: GStore, block: Seq<u8>, at: int, k: Seq<GT>, root: bool)
    requires gt_is(store, block, at, GT::Node(k), root),
    ensures
        ({
            let f = sp_flat(block)->0;
            &&& f.links@.len() == f.data.blocksizes@.len() == k.len() && k.len() > 0
            &&& at + gt_cat(k, k.len() as int).len() <= u64::MAX
            &&& forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> {
                let c = crate::sp_cid(sp_link_hash(f.links@[i]));
                &&& f.data.blocksizes@[i] == gt_bytes(k[i]).len()
                &&& c is Some && store.dom().contains(c->0)
                &&& gt_is(store, store[c->0], at + gt_cat(k, i).len(), k[i], false)
            }
        }),
{
    reveal_with_fuel(gt_is, 2);
    reveal_with_fuel(gt_bytes, 2);
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lm_open_node(store: GStore, block: Seq<u8>, o: u64, k: Seq<GT>, root: bool, below: Seq<(Cid, Range<u64>)>, ts: Seq<GT>, target: Option<Range<u64>>)
    requires open_pre(store, block, o, GT::Node(k), root, below, ts, target),
    ensures ({
        let t = GT::Node(k);
        let f = sp_flat(block)->0;
        let p = next_links(f, o, below, target);
        let us = next_trees(f, o, t, ts, target);
        &&& sp_node_ok(f, o)
        &&& sp_own_size(f) == gt_bytes(t).len()
        &&& f.links@.len() > 0
        &&& sp_cids_ok(sp_ranges(sp_zip(f), o), target)
        &&& pend_is(store, p, us, target)
        &&& gt_sizes(us, us.len() as int) < gt_size(t) + gt_sizes(ts, ts.len() as int)
        &&& pend_bytes(p, us, target) =~= sp_inside(gt_bytes(t), o as int, target) + pend_bytes(below, ts, target)
        &&& p.len() > 0 ==> o <= p.last().1.start <= p.last().1.end <= o + gt_bytes(t).len()
    }),
{
    let f = sp_flat(block)->0;
    let s = sp_ranges(sp_zip(f), o);
    let n = k.len() as int;
    lm_node_kids(store, block, o as int, k, root);
    lm_select(store, f, s, k, o, target, n);
    lm_sum_is_cat(f, k, n);
    assert(s.take(n) =~= s);
    assert(k.take(n) =~= k);
    let q = sp_pending(s, target);
    let us = kids_in(s, k, target);
    lm_put_on_top(below, ts, q, us, target);
    if below.len() > 0 { assert(sp_touches(below[below.len() - 1].1, target)); }
    assert forall|i: int| 0 <= i < q.len() implies stands(store, #[trigger] q[i], us[i], target) by {}
    lm_join(store, below, ts, q, us, target);
    let p = below + q.reverse();
    if q.len() > 0 { assert(p.last() == q[0]); }
}
pub proof fn lm_open_leaf(store: GStore, block: Seq<u8>, o: u64, b: Seq<u8>, root: bool, below: Seq<(Cid, Range<u64>)>, ts: Seq<GT>, target: Option<Range<u64>>)
    requires open_pre(store, block, o, GT::Leaf(b), root, below, ts, target),
    ensures ({
        let f = sp_flat(block)->0;
        &&& sp_node_ok(f, o)
        &&& sp_own_size(f) == b.len()
        &&& f.links@.len() == 0
        &&& sp_cids_ok(sp_ranges(sp_zip(f), o), target)
        &&& sp_data(f) == b
        &&& next_links(f, o, below, target) =~= below
        &&& sp_pending(sp_ranges(sp_zip(f), o), target).len() == 0
    }),
{
    let f = sp_flat(block)->0;
    let s = sp_ranges(sp_zip(f), o);
    assert(s =~= Seq::empty());
    assert(crate::pb::sp_sum(f.data.blocksizes@, 0) == 0);
}
}
@append
verus! {
/// where the blocks come from
pub trait VBlocks {
    spec fn all(&self) -> GStore;
    fn fetch(&self, c: &Cid) -> (r: &[u8])
        requires self.all().dom().contains(*c), // [C01 C05]
        ensures r@ == self.all()[*c];
}
/// a visit which has come this far will see the trees `ts` and nothing else
pub open spec fn visit_is(store: GStore, v: FileVisit, ts: Seq<GT>, target: Option<Range<u64>>, metadata: Metadata, size: u64) -> bool {
    &&& v.wf()
    &&& v.target() == target
    &&& pend_is(store, v.pend(), ts, target)
    &&& !v.trav().sp_refuses(v.pend().last().1)
    &&& v.trav().sp_metadata() == metadata
    &&& v.trav().sp_file_size() == size
}
pub proof fn lm_start(store: GStore, block: Seq<u8>, t: GT, target: Option<Range<u64>>, r: Result<FileVisitResult<'_>, FileReadFailed>)
    requires
        gt_is(store, block, 0, t, true),
        sp_started(sp_flat(block)->0, target, r),
    ensures
        r is Ok,
        r->Ok_0.1 == gt_bytes(t).len(),
        r->Ok_0.2 == crate::sp_metadata(sp_flat(block)->0.data),
        r->Ok_0.3 is None ==> r->Ok_0.0@ =~= sp_inside(gt_bytes(t), 0, target),
        r->Ok_0.3 is Some ==> {
            let v = r->Ok_0.3->0;
            let ts = next_trees(sp_flat(block)->0, 0, t, Seq::empty(), target);
            &&& visit_is(store, v, ts, target, r->Ok_0.2, r->Ok_0.1)
            &&& r->Ok_0.0@ + pend_bytes(v.pend(), ts, target) =~= sp_inside(gt_bytes(t), 0, target)
        },
{
    broadcast use {crate::file::reader::lm_after, crate::file::reader::lm_next_inside};
    let f = sp_flat(block)->0;
    let none = Seq::<(Cid, Range<u64>)>::empty();
    let nt = Seq::<GT>::empty();
    match t {
        GT::Leaf(b) => {
            lm_open_leaf(store, block, 0, b, true, none, nt, target);
        },
        GT::Node(k) => {
            lm_open_node(store, block, 0, k, true, none, nt, target);
            let p = next_links(f, 0, none, target);
            let q = sp_pending(sp_ranges(sp_zip(f), 0), target).reverse();
            assert(p =~= q);
            if let Ok((bytes, size, metadata, Some(v))) = r {
                assert(v.pend() == p);
                assert(v.trav().after(f, 0, metadata, size));
                assert(!v.trav().sp_refuses(p.last().1));
            }
        },
    }
}
pub proof fn lm_continue(store: GStore, v: FileVisit, ts: Seq<GT>, target: Option<Range<u64>>, metadata: Metadata, size: u64, r: Result<(&[u8], Option<FileVisit>), FileReadFailed>)
    requires
        visit_is(store, v, ts, target, metadata, size),
        sp_continued(v, store[v.pend().last().0], r),
    ensures
        r is Ok,
        r->Ok_0.1 is None ==> r->Ok_0.0@ =~= pend_bytes(v.pend(), ts, target),
        r->Ok_0.1 is Some ==> {
            let us = next_trees(sp_flat(store[v.pend().last().0])->0, v.pend().last().1.start, ts.last(), ts.drop_last(), target);
            let w = r->Ok_0.1->0;
            &&& visit_is(store, w, us, target, metadata, size)
            &&& gt_sizes(us, us.len() as int) < gt_sizes(ts, ts.len() as int)
            &&& r->Ok_0.0@ + pend_bytes(w.pend(), us, target) =~= pend_bytes(v.pend(), ts, target)
        },
{
    broadcast use {crate::file::reader::lm_after, crate::file::reader::lm_next_inside, crate::file::reader::lm_next_leaf};
    let p = v.pend();
    let range = p.last().1;
    let o = range.start;
    let block = store[p.last().0];
    let f = sp_flat(block)->0;
    let below = p.drop_last();
    let bt = ts.drop_last();
    let t = ts.last();
    assert(stands(store, p[p.len() - 1], ts[ts.len() - 1], target));
    assert forall|i: int| #![trigger below[i]] #![trigger bt[i]] 0 <= i < below.len() implies stands(store, below[i], bt[i], target) by {
        assert(below[i] == p[i] && bt[i] == ts[i]);
    }
    assert forall|i: int, j: int| #![trigger below[i], below[j]] 0 <= i && j == i + 1 && j < below.len() implies below[i].1.start == below[j].1.end by {
        assert(below[i] == p[i] && below[j] == p[j]);
    }
    if below.len() > 0 { assert(p[p.len() - 2].1.start == p[p.len() - 1].1.end); }
    lm_sizes_push(bt, t);
    assert(bt.push(t) =~= ts);
    match t {
        GT::Leaf(b) => {
            lm_open_leaf(store, block, o, b, false, below, bt, target);
            assert(below + sp_pending(sp_ranges(sp_zip(f), o), target).reverse() =~= below);
            if let Ok((bytes, Some(w))) = r {
                assert(w.pend() == below);
                assert(!w.trav().sp_refuses(below.last().1));
            }
            if v.target() is None { assert(sp_inside(b, o as int, target) == b); }
        },
        GT::Node(k) => {
            lm_open_node(store, block, o, k, false, below, bt, target);
            let p2 = next_links(f, o, below, target);
            if let Ok((bytes, Some(w))) = r {
                assert(w.pend() == p2);
                assert(!w.trav().sp_refuses(p2.last().1));
            }
        },
    }
}
/// The whole read of a file by the documented loop: yields exactly the bytes inside of the range,
/// without an error, reporting the size and the metadata of the root at every step, and asking for
/// blocks which touch the range only.
pub fn v_read_all<B: VBlocks>(blocks: &B, root: &[u8], range: Option<Range<u64>>, t: Ghost<GT>) -> (r: Vec<u8>)
    requires gt_is(blocks.all(), root@, 0, t@, true),
    ensures r@ =~= sp_inside(gt_bytes(t@), 0, range), // [C01 C05 C06]
{
    let ghost target = range;
    let idle = match range { None => IdleFileVisit { range: None }, Some(r) => IdleFileVisit { range: None }.with_target_range(r) };
    let mut out: Vec<u8> = Vec::new();
    let started = idle.start(root);
    proof { lm_start(blocks.all(), root@, t@, target, started); }
    let (bytes, size, metadata, mut step) = match started { Ok(x) => x, Err(_) => { proof { assert(false); /* no error */ } // [C01 C05 C06]
 return out; } };
    assert(size == gt_bytes(t@).len()); // [C01]
    assert(metadata == crate::sp_metadata(sp_flat(root@)->0.data));
    out.extend_from_slice(bytes);
    let mut cache: Option<Cache> = None;
    let ghost mut ts = next_trees(sp_flat(root@)->0, 0, t@, Seq::empty(), target);
    loop
        invariant
            target == range,
            gt_is(blocks.all(), root@, 0, t@, true),
            step is None ==> out@ =~= sp_inside(gt_bytes(t@), 0, target),
            step is Some ==> {
                &&& visit_is(blocks.all(), step->0, ts, target, metadata, size)
                &&& out@ + pend_bytes(step->0.pend(), ts, target) =~= sp_inside(gt_bytes(t@), 0, target)
            },
        ensures step is None,
        decreases if step is Some { 1 + gt_sizes(ts, ts.len() as int) } else { 0 },
    {
        match step {
            None => { return out; },
            Some(visit) => {
                let ghost v0 = visit;
                let reported = visit.file_size();
                assert(reported == size); // [C01]
                let m = visit.as_ref();
                assert(*m == metadata); // [C14]
                let (first, _) = visit.pending_links();
                proof { assert(visit.pend().last() == visit.pend()[visit.pend().len() - 1]); }
                assert(sp_touches(visit.pend().last().1, target)); // [C05]
                let block = blocks.fetch(first);
                let continued = visit.continue_walk(block, &mut cache);
                proof { lm_continue(blocks.all(), v0, ts, target, metadata, size, continued); }
                match continued {
                    Err(_) => { proof { assert(false); /* no error */ } // [C01 C05 C06]
 return out; },
                    Ok((bytes, next)) => {
                        out.extend_from_slice(bytes);
                        proof { ts = next_trees(sp_flat(block@)->0, v0.pend().last().1.start, ts.last(), ts.drop_last(), target); }
                        step = next;
                    },
                }
            },
        }
    }
}
}
