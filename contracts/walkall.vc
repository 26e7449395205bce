@note Whole walks: a ghost tree, what a walk of it reports, and a driver over the real API.
@file src/walk.rs
@append
verus! {
use crate::file::visit::{GT, GStore, VBlocks, gt_bytes, gt_is, gt_size, gt_sizes, visit_is, pend_bytes, next_trees, lm_start, lm_continue};
/// what is below an item: entries of a directory or bucket in the order of the links, or the tree of a file
pub struct WT { pub kids: Seq<WT>, pub file: GT }
/// an element of the tree as a walk reports it, the segments of a file put together
pub struct VSeen { pub kind: VKind, pub cid: Cid, pub path: Seq<Seq<char>>, pub metadata: Option<Metadata>, pub bytes: Seq<u8>, pub size: u64 }
/// what the entries of the block are
pub open spec fn wt_items(f: FlatUnixFs<'_>, depth: int) -> Option<Seq<VItem>> {
    if f.data.Type == UnixFsType::HAMTShard {
        if sp_shard_ok(f) { sp_all_items(f.links@, depth, true) } else { None }
    } else if f.data.Type == UnixFsType::Directory {
        if sp_plain_dir(f) { sp_all_items(f.links@, depth, false) } else { None }
    } else { Some(Seq::empty()) }
}
/// the store has the item and everything below it; nothing is at fault
pub open spec fn wt_is(store: GStore, i: VItem, t: WT, top: bool) -> bool
    decreases t
{
    &&& store.contains_key(i.cid)
    &&& sp_flat(store[i.cid]) is Some
    &&& i.depth < usize::MAX
    &&& {
        let f = sp_flat(store[i.cid])->0;
        let items = wt_items(f, i.depth);
        // only buckets of sharded directories are without a name
        &&& !top && i.name.len() == 0 ==> f.data.Type == UnixFsType::HAMTShard
        &&& f.data.Type != UnixFsType::Metadata
        &&& f.data.Type == UnixFsType::File || f.data.Type == UnixFsType::Raw ==> gt_is(store, store[i.cid], 0, t.file, true)
        &&& items is Some
        &&& t.kids.len() == items->0.len()
        &&& forall|k: int| #![trigger t.kids[k]] 0 <= k < t.kids.len() ==> wt_is(store, items->0[k], t.kids[k], false)
    }
}
pub open spec fn wt_path(i: VItem, at: Seq<Seq<char>>) -> Seq<Seq<char>> { if i.name.len() == 0 { at } else { at.push(i.name) } }
/// the item itself
pub open spec fn wt_self(store: GStore, i: VItem, t: WT, at: Seq<Seq<char>>, top: bool) -> VSeen {
    let f = sp_flat(store[i.cid])->0;
    let y = f.data.Type;
    let kind = if y == UnixFsType::Directory { if top { VKind::RootDirectory } else { VKind::Directory } }
        else if y == UnixFsType::HAMTShard { if top || i.name.len() > 0 { VKind::RootDirectory } else { VKind::Bucket } }
        else if y == UnixFsType::Symlink { VKind::Symlink } else { VKind::File };
    VSeen {
        kind, cid: i.cid, path: wt_path(i, at),
        metadata: if kind is Bucket { None } else { Some(crate::sp_metadata(f.data)) },
        bytes: if kind is File { gt_bytes(t.file) } else if kind is Symlink { sp_data(f) } else { Seq::empty() },
        size: if kind is File { gt_bytes(t.file).len() as u64 } else { 0 },
    }
}
/// everything in the tree: an element before what is below it, and that in the order of the links
pub open spec fn wt_seen(store: GStore, i: VItem, t: WT, at: Seq<Seq<char>>, top: bool) -> Seq<VSeen>
    decreases t, 0int
{
    let items = wt_items(sp_flat(store[i.cid])->0, i.depth)->0;
    seq![wt_self(store, i, t, at, top)] + wt_seen_all(store, items, t.kids, wt_path(i, at), 0)
}
/// from the n-th on
pub open spec fn wt_seen_all(store: GStore, s: Seq<VItem>, k: Seq<WT>, at: Seq<Seq<char>>, n: int) -> Seq<VSeen>
    decreases k, k.len() - n
{
    if n < 0 || n >= k.len() || n >= s.len() { Seq::empty() } else { wt_seen(store, s[n], k[n], at, false) + wt_seen_all(store, s, k, at, n + 1) }
}
pub open spec fn wt_size(t: WT) -> nat
    decreases t, 0int
{
    1 + wt_sizes(t.kids, 0)
}
pub open spec fn wt_sizes(k: Seq<WT>, n: int) -> nat
    decreases k, k.len() - n
{
    if n < 0 || n >= k.len() { 0 } else { wt_size(k[n]) + wt_sizes(k, n + 1) }
}
/// something still to be walked: an item, what is below it, and the path of the directory which it is in
pub struct WTodo { pub i: VItem, pub t: WT, pub at: Seq<Seq<char>> }
pub open spec fn td_seen(store: GStore, s: Seq<WTodo>, top: bool) -> Seq<VSeen>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { wt_seen(store, s.last().i, s.last().t, s.last().at, top) + td_seen(store, s.drop_last(), top) }
}
pub open spec fn td_size(s: Seq<WTodo>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { wt_size(s.last().t) + td_size(s.drop_last()) }
}
pub open spec fn td_items(s: Seq<WTodo>) -> Seq<VItem> { Seq::new(s.len(), |i: int| s[i].i) }
/// the entries of a node, the first one on top
pub open spec fn td_kids(s: Seq<VItem>, k: Seq<WT>, at: Seq<Seq<char>>) -> Seq<WTodo> { Seq::new(s.len(), |i: int| WTodo { i: s[i], t: k[i], at }).reverse() }
/// the walk will see what is in `td`, at the paths said there
pub open spec fn td_is(store: GStore, w: VW, td: Seq<WTodo>) -> bool {
    let path = match w.cur { None => Seq::empty(), Some(c) => c.path };
    &&& w.wf()
    &&& w.stack =~= td_items(td)
    &&& forall|n: int| 0 <= n < td.len() ==> wt_is(store, (#[trigger] td[n]).i, td[n].t, w.cur is None)
    &&& forall|n: int| 0 <= n < td.len() ==> (#[trigger] td[n]).at == path.take(sp_base(td[n].i) - 1)
}
pub proof fn lm_td_join(store: GStore, s: Seq<VItem>, k: Seq<WT>, at: Seq<Seq<char>>, n: int, below: Seq<WTodo>)
    requires 0 <= n <= s.len(), s.len() == k.len(),
    ensures
        ({
            let x = below + td_kids(s.skip(n), k.skip(n), at);
            &&& td_seen(store, x, false) =~= wt_seen_all(store, s, k, at, n) + td_seen(store, below, false)
            &&& td_size(x) == wt_sizes(k, n) + td_size(below)
        }),
    decreases s.len() - n
{
    let x = below + td_kids(s.skip(n), k.skip(n), at);
    if n == s.len() {
        assert(x =~= below);
    } else {
        lm_td_join(store, s, k, at, n + 1, below);
        let y = below + td_kids(s.skip(n + 1), k.skip(n + 1), at);
        assert(x.drop_last() =~= y);
        assert(x.last() == (WTodo { i: s[n], t: k[n], at }));
    }
}
/// what loading the item on top leaves to be walked
pub open spec fn td_next(store: GStore, td: Seq<WTodo>) -> Seq<WTodo> {
    let x = td.last();
    td.drop_last() + td_kids(wt_items(sp_flat(store[x.i.cid])->0, x.i.depth)->0, x.t.kids, wt_path(x.i, x.at))
}
impl VW {
    /// a file is being read
    pub open spec fn busy(self) -> bool { self.cur is Some && self.cur->0.visit is Some }
}
pub open spec fn td_visit(store: GStore, w: VW, ts: Seq<GT>) -> bool {
    w.busy() ==> visit_is(store, w.cur->0.visit->0, ts, None, w.cur->0.metadata, w.cur->0.size)
}
/// bytes of the file at hand which are still to come
pub open spec fn td_rest(w: VW, ts: Seq<GT>) -> Seq<u8> {
    if w.busy() { pend_bytes(w.cur->0.visit->0.pend(), ts, None) } else { Seq::empty() }
}
/// the report with the segment added to it
pub open spec fn sp_put(log: Seq<VSeen>, s: VStep) -> Seq<VSeen> {
    if s.kind is File && !s.first {
        log.drop_last().push(VSeen { bytes: log.last().bytes + s.bytes, ..log.last() })
    } else {
        log.push(VSeen { kind: s.kind, cid: s.cid, path: s.path, metadata: s.metadata, bytes: s.bytes, size: s.size })
    }
}
/// the report with what is missing from the file at hand
pub open spec fn sp_filled(log: Seq<VSeen>, rest: Seq<u8>) -> Seq<VSeen> {
    if rest.len() == 0 || log.len() == 0 { log } else { log.drop_last().push(VSeen { bytes: log.last().bytes + rest, ..log.last() }) }
}
/// where the walk is after the item on top, which has the entries `items`, has been loaded
pub open spec fn sp_moved(w: VW, items: Seq<VItem>, dir: bool, w2: VW) -> bool {
    let top = w.stack.last();
    let at = match w.cur { None => Seq::empty(), Some(c) => c.path };
    &&& w2.cur is Some
    &&& w2.cur->0.path == sp_under(at, top)
    &&& w2.cur->0.depth == top.depth
    &&& w2.cur->0.visit matches Some(v) ==> v.wf()
    &&& w2.cur->0.root_dir ==> w.cur is None && dir
    &&& w2.cur->0.root_bucket ==> w.cur is None || (w.cur->0.root_bucket && top.name.len() == 0)
    &&& w2.stack =~= w.stack.drop_last() + items.reverse()
    &&& forall|k: int| 0 <= k < items.len() ==> sp_base(#[trigger] items[k]) == top.depth && (items[k].name.len() > 0 ==> sp_segment(items[k].name)) && (dir ==> items[k].name.len() > 0)
}
#[verifier::spinoff_prover]
pub proof fn lm_moved_wf(w: VW, items: Seq<VItem>, dir: bool, w2: VW)
    requires w.wf(), w.stack.len() > 0, sp_moved(w, items, dir, w2),
    ensures w2.wf()
{
    let top = w.stack.last();
    let b = sp_base(top);
    let c2 = w2.cur->0;
    let m = w.stack.len() - 1;
    let path = match w.cur { None => Seq::empty(), Some(c) => c.path };
    assert(top == w.stack[m]);
    assert(path.len() >= b - 1 >= 0);
    assert(c2.path.len() + 1 == c2.depth);
    assert forall|n: int| 0 <= n < w2.stack.len() implies (n < m ==> w2.stack[n] == w.stack[n] && sp_base(w.stack[n]) <= b) && (n >= m ==> w2.stack[n] == items[items.len() - 1 - (n - m)] && sp_base(#[trigger] w2.stack[n]) == top.depth) by {
        if n < m {
            assert(w2.stack[n] == w.stack[n]);
            assert(sp_base(w.stack[n]) <= sp_base(w.stack[m]));
        } else {
            assert(sp_base(items[items.len() - 1 - (n - m)]) == top.depth);
        }
    }
    assert forall|n: int| 0 <= n < w2.stack.len() implies sp_base(#[trigger] w2.stack[n]) >= 1 && sp_base(w2.stack[n]) <= c2.depth && (w2.stack[n].name.len() > 0 ==> sp_segment(w2.stack[n].name)) by {
        if n < m { assert(w2.stack[n] == w.stack[n]); }
    }
    assert forall|i: int, j: int| 0 <= i <= j < w2.stack.len() implies sp_base(#[trigger] w2.stack[i]) <= sp_base(#[trigger] w2.stack[j]) by {
        if i < m { assert(w2.stack[i] == w.stack[i]); }
        if j < m { assert(w2.stack[j] == w.stack[j]); }
    }
    if c2.root_dir {
        assert forall|i: int| 0 <= i < w2.stack.len() implies (#[trigger] w2.stack[i]).name.len() > 0 by { assert(i >= m); }
    }
    if c2.root_bucket {
        assert forall|i: int| 0 <= i < w2.stack.len() implies sp_base(#[trigger] w2.stack[i]) == c2.depth by {
            if i < m { assert(w2.stack[i] == w.stack[i]); assert(sp_base(w.stack[i]) == w.cur->0.depth); assert(sp_base(w.stack[m]) == w.cur->0.depth); }
        }
    }
}
#[verifier::spinoff_prover]
pub proof fn lm_moved_td(store: GStore, w: VW, td: Seq<WTodo>, items: Seq<VItem>, dir: bool, w2: VW)
    requires
        td_is(store, w, td), td.len() > 0, sp_moved(w, items, dir, w2), w2.wf(),
        items == wt_items(sp_flat(store[td.last().i.cid])->0, td.last().i.depth)->0,
    ensures td_is(store, w2, td_next(store, td)), sp_under(match w.cur { None => Seq::empty(), Some(c) => c.path }, td.last().i) == wt_path(td.last().i, td.last().at)
{
    let x = td.last();
    let top = w.stack.last();
    let m = td.len() - 1;
    let path = match w.cur { None => Seq::empty(), Some(c) => c.path };
    assert(w.stack.len() == td.len());
    assert(w.stack[m] == td[m].i);
    assert(top == x.i);
    assert(wt_is(store, x.i, x.t, w.cur is None));
    assert(x.at == path.take(sp_base(top) - 1));
    let p2 = wt_path(x.i, x.at);
    let td2 = td_next(store, td);
    let b = sp_base(top);
    assert(td2.len() == m + items.len());
    assert forall|n: int| m <= n < td2.len() implies #[trigger] td2[n] == (WTodo { i: items[items.len() - 1 - (n - m)], t: x.t.kids[items.len() - 1 - (n - m)], at: p2 }) by {}
    assert forall|n: int| 0 <= n < m implies #[trigger] td2[n] == td[n] && w2.stack[n] == w.stack[n] && w.stack[n] == td[n].i && sp_base(td[n].i) <= b && sp_base(td[n].i) >= 1 by {
        assert(w2.stack[n] == w.stack[n]);
        assert(w.stack[n] == td[n].i);
        assert(sp_base(w.stack[n]) <= sp_base(w.stack[m]));
    }
    assert(w2.stack =~= td_items(td2)) by {
        assert forall|n: int| 0 <= n < td2.len() implies w2.stack[n] == #[trigger] td2[n].i by {}
    }
    assert forall|n: int| 0 <= n < td2.len() implies wt_is(store, (#[trigger] td2[n]).i, td2[n].t, false) by {
        if n < m { assert(wt_is(store, td[n].i, td[n].t, w.cur is None)); }
        else {
            let k = items.len() - 1 - (n - m);
            assert(wt_is(store, items[k], x.t.kids[k], false));
        }
    }
    assert forall|n: int| 0 <= n < td2.len() implies (#[trigger] td2[n]).at == p2.take(sp_base(td2[n].i) - 1) by {
        if n < m {
            assert(td[n].at == path.take(sp_base(td[n].i) - 1));
            assert(td[n].at =~= p2.take(sp_base(td[n].i) - 1));
        } else {
            assert(sp_base(items[items.len() - 1 - (n - m)]) == top.depth);
            assert(p2.len() == top.depth - 1);
            assert(p2.take(top.depth - 1) =~= p2);
        }
    }
}
#[verifier::spinoff_prover]
pub proof fn lm_entered(store: GStore, w: VW, td: Seq<WTodo>, block: Seq<u8>, r: Option<VStep>, w2: VW) -> (ts: Seq<GT>)
    requires
        td_is(store, w, td), td.len() > 0,
        w.cur matches Some(c) ==> c.visit is None,
        block == store[td.last().i.cid],
        sp_walked(w, block, r, w2),
    ensures
        r is Some,
        td_is(store, w2, td_next(store, td)),
        td_visit(store, w2, ts),
        w2.cur is Some,
        w2.go == w2.more(),
        r->0.kind is File ==> r->0.first && r->0.last == (w2.cur->0.visit is None),
        !(r->0.kind is File) ==> w2.cur->0.visit is None,
        ({
            let s = wt_self(store, td.last().i, td.last().t, td.last().at, w.cur is None);
            &&& VSeen { kind: r->0.kind, cid: r->0.cid, path: r->0.path, metadata: r->0.metadata, bytes: r->0.bytes + td_rest(w2, ts), size: r->0.size } == s
            &&& r->0.kind is File ==> w2.cur->0.cid == s.cid && w2.cur->0.path == s.path && Some(w2.cur->0.metadata) == s.metadata && w2.cur->0.size == s.size
        }),
{
    let x = td.last();
    let top = w.stack.last();
    let f = sp_flat(block)->0;
    let path = match w.cur { None => Seq::empty(), Some(c) => c.path };
    assert(w.stack.len() == td.len());
    assert(w.stack[td.len() - 1] == td[td.len() - 1].i);
    assert(top == x.i);
    assert(wt_is(store, x.i, x.t, w.cur is None));
    let items = wt_items(f, top.depth)->0;
    let p2 = sp_under(path, top);
    let shard = f.data.Type == UnixFsType::HAMTShard;
    let dir = f.data.Type == UnixFsType::Directory;
    assert forall|k: int| 0 <= k < items.len() implies sp_base(#[trigger] items[k]) == top.depth && (items[k].name.len() > 0 ==> sp_segment(items[k].name)) && (dir ==> items[k].name.len() > 0) by {
        assert(sp_any_item(f.links@[k], top.depth, shard) is Some);
    }
    if f.data.Type == UnixFsType::File || f.data.Type == UnixFsType::Raw {
        let s = choose|s: Result<(&[u8], u64, Metadata, Option<FileVisit>), FileReadFailed>| #![trigger sp_started(f, None, s)] {
            &&& sp_started(f, None, s)
            &&& r is Some == s is Ok
            &&& s matches Ok((bytes, size, _, visit)) ==> {
                &&& r == Some(VStep { kind: VKind::File, cid: top.cid, path: p2, metadata: Some(crate::sp_metadata(f.data)), bytes: bytes@, first: true, last: visit is None, size })
                &&& w2.stack =~= w.stack.drop_last()
                &&& w2.cur == Some(VCur { cid: top.cid, path: p2, depth: top.depth, metadata: crate::sp_metadata(f.data), visit, size, root_dir: false, root_bucket: false })
            }
        };
        lm_start(store, block, x.t.file, None, s);
        let ts = if s->Ok_0.3 is Some { next_trees(f, 0, x.t.file, Seq::empty(), None) } else { Seq::empty() };
        assert(r->0.bytes + td_rest(w2, ts) =~= gt_bytes(x.t.file));
        assert(items.len() == 0);
        assert(w.stack.drop_last() + items.reverse() =~= w.stack.drop_last());
        lm_moved_wf(w, items, dir, w2);
        lm_moved_td(store, w, td, items, dir, w2);
        ts
    } else {
        let ts = Seq::<GT>::empty();
        assert(w2.cur->0.visit is None);
        assert(r->0.bytes + td_rest(w2, ts) =~= r->0.bytes);
        assert(w.stack.drop_last() + items.reverse() =~= w2.stack);
        lm_moved_wf(w, items, dir, w2);
        lm_moved_td(store, w, td, items, dir, w2);
        ts
    }
}
#[verifier::spinoff_prover]
pub proof fn lm_went_on(store: GStore, w: VW, td: Seq<WTodo>, ts: Seq<GT>, block: Seq<u8>, r: Option<VStep>, w2: VW) -> (us: Seq<GT>)
    requires
        td_is(store, w, td), td_visit(store, w, ts),
        w.busy(), block == store[w.cur->0.visit->0.pend().last().0],
        sp_walked(w, block, r, w2),
    ensures
        r is Some,
        td_is(store, w2, td), td_visit(store, w2, us),
        w2.cur is Some,
        w2.go == w2.more(),
        r->0.kind is File && !r->0.first && r->0.last == (w2.cur->0.visit is None),
        r->0.cid == w.cur->0.cid && r->0.path == w.cur->0.path && r->0.metadata == Some(w.cur->0.metadata) && r->0.size == w.cur->0.size,
        w2.cur == Some(VCur { visit: w2.cur->0.visit, ..w.cur->0 }),
        r->0.bytes + td_rest(w2, us) =~= td_rest(w, ts),
        w2.cur->0.visit is Some ==> gt_sizes(us, us.len() as int) < gt_sizes(ts, ts.len() as int),
{
    let c = w.cur->0;
    let s = choose|s: Result<(&[u8], Option<FileVisit>), FileReadFailed>| #![trigger sp_continued(c.visit->0, block, s)] {
        &&& sp_continued(c.visit->0, block, s)
        &&& r is Some == s is Ok
        &&& s matches Ok((bytes, visit)) ==> {
            &&& r == Some(VStep { kind: VKind::File, cid: c.cid, path: c.path, metadata: Some(c.metadata), bytes: bytes@, first: false, last: visit is None, size: c.size })
            &&& w2.stack =~= w.stack
            &&& w2.cur == Some(VCur { visit, ..c })
        }
    };
    lm_continue(store, c.visit->0, ts, None, c.metadata, c.size, s);
    let us = next_trees(sp_flat(store[c.visit->0.pend().last().0])->0, c.visit->0.pend().last().1.start, ts.last(), ts.drop_last(), None);
    assert(w2.stack =~= w.stack);
    us
}
impl Walker {
    pub proof fn lm_depth(self)
        requires self.sp_tidy(),
        ensures self.v().stack.len() > 0 ==> self.sp_depth() == self.v().stack.last().depth, self.v().stack.len() == 0 ==> self.sp_depth() == 0
    {}
}
/// the report so far, and the file at hand
pub open spec fn sp_logged(store: GStore, w: VW, td: Seq<WTodo>, ts: Seq<GT>, log: Seq<VSeen>, all: Seq<VSeen>) -> bool {
    &&& td_is(store, w, td)
    &&& td_visit(store, w, ts)
    &&& w.go == w.more()
    &&& w.busy() ==> log.len() > 0 && ({
        let l = log.last();
        l.kind is File && l.cid == w.cur->0.cid && l.path == w.cur->0.path && l.metadata == Some(w.cur->0.metadata) && l.size == w.cur->0.size
    })
    &&& sp_filled(log, td_rest(w, ts)) + td_seen(store, td, w.cur is None) =~= all
}
pub open spec fn sp_left(w: VW, ts: Seq<GT>) -> nat { if w.busy() { 1 + gt_sizes(ts, ts.len() as int) } else { 0 } }
#[verifier::spinoff_prover]
pub proof fn lm_step(store: GStore, w: VW, td: Seq<WTodo>, ts: Seq<GT>, log: Seq<VSeen>, all: Seq<VSeen>, block: Seq<u8>, r: Option<VStep>, w2: VW) -> (n: (Seq<WTodo>, Seq<GT>))
    requires
        sp_logged(store, w, td, ts, log, all), w.more(),
        sp_walked(w, block, r, w2),
        block == store[if w.busy() { w.cur->0.visit->0.pend().last().0 } else { w.stack.last().cid }],
    ensures
        r is Some,
        r->0.kind is File ==> r->0.first == !w.busy() && r->0.last == !w2.busy(),
        w.busy() ==> r->0.kind is File,
        sp_logged(store, w2, n.0, n.1, sp_put(log, r->0), all),
        td_size(n.0) < td_size(td) || (td_size(n.0) == td_size(td) && sp_left(w2, n.1) < sp_left(w, ts)),
{
    let none = Seq::<u8>::empty();
    if w.busy() {
        let us = lm_went_on(store, w, td, ts, block, r, w2);
        let log2 = sp_put(log, r->0);
        assert(sp_filled(log2, td_rest(w2, us)) =~= sp_filled(log, td_rest(w, ts))) by {
            assert(log.last().bytes + (r->0.bytes + td_rest(w2, us)) =~= log2.last().bytes + td_rest(w2, us));
            assert(log.drop_last().push(log.last()) =~= log);
            assert(log2.drop_last() =~= log.drop_last());
            assert(log.last().bytes + none =~= log.last().bytes);
            assert(log2.last().bytes + none =~= log2.last().bytes);
            if td_rest(w2, us).len() == 0 { assert(td_rest(w2, us) =~= none); }
            if td_rest(w, ts).len() == 0 { assert(td_rest(w, ts) =~= none); }
        }
        (td, us)
    } else {
        assert(w.stack.len() == td.len());
        let x = td.last();
        assert(w.stack[td.len() - 1] == td[td.len() - 1].i);
        let us = lm_entered(store, w, td, block, r, w2);
        let td2 = td_next(store, td);
        let log2 = sp_put(log, r->0);
        let items = wt_items(sp_flat(block)->0, x.i.depth)->0;
        let at = wt_path(x.i, x.at);
        let me = wt_self(store, x.i, x.t, x.at, w.cur is None);
        assert(wt_is(store, td[td.len() - 1].i, td[td.len() - 1].t, w.cur is None));
        lm_td_join(store, items, x.t.kids, at, 0, td.drop_last());
        assert(items.skip(0) =~= items);
        assert(x.t.kids.skip(0) =~= x.t.kids);
        lm_td_top(store, td.drop_last(), w);
        assert(sp_filled(log, td_rest(w, ts)) =~= log);
        assert(sp_filled(log2, td_rest(w2, us)) =~= log.push(me)) by {
            assert(log2.drop_last() =~= log);
            assert(log2.last().bytes + none =~= log2.last().bytes);
            if td_rest(w2, us).len() == 0 { assert(td_rest(w2, us) =~= none); }
        }
        let s1 = wt_seen_all(store, items, x.t.kids, at, 0);
        let s2 = td_seen(store, td.drop_last(), false);
        assert(td_seen(store, td, w.cur is None) == (seq![me] + s1) + s2);
        assert(td_seen(store, td2, false) == s1 + s2);
        assert(log + ((seq![me] + s1) + s2) =~= log.push(me) + (s1 + s2));
        (td2, us)
    }
}
/// The whole walk of a tree by the documented loop: it ends without an error, having reported
/// every element of the tree once, with its path, metadata and contents, before what is below it
/// and in the order of the links; whatever was in the cache.
pub fn v_walk<B: VBlocks>(blocks: &B, cid: Cid, root_name: String, cache: &mut Option<Cache>, t: Ghost<WT>) -> (log: Ghost<Seq<VSeen>>)
    requires
        root_name@.len() == 0 || sp_segment(root_name@),
        wt_is(blocks.all(), VItem { cid, name: root_name@, depth: if root_name@.len() == 0 { 1 } else { 2 } }, t@, true),
        sp_cache_ok(*old(cache)),
    ensures
        log@ =~= wt_seen(blocks.all(), VItem { cid, name: root_name@, depth: if root_name@.len() == 0 { 1 } else { 2 } }, t@, Seq::empty(), true), // [C07 C13 C14 C15 C17]
        sp_cache_ok(*final(cache)), // [C17]
{
    let ghost store = blocks.all();
    let ghost root = VItem { cid, name: root_name@, depth: if root_name@.len() == 0 { 1 } else { 2 } };
    let ghost all = wt_seen(store, root, t@, Seq::empty(), true);
    let mut walker = Walker::new(cid, root_name);
    let ghost mut td = seq![WTodo { i: root, t: t@, at: Seq::empty() }];
    let ghost mut ts = Seq::<GT>::empty();
    let ghost mut log = Seq::<VSeen>::empty();
    proof {
        assert(walker.v().stack =~= td_items(td));
        assert(Seq::<Seq<char>>::empty().take(0) =~= Seq::<Seq<char>>::empty());
        assert(td.drop_last() =~= Seq::empty());
        reveal_with_fuel(td_seen, 2);
        assert(td_seen(store, td, true) =~= all);
        assert(sp_filled(log, td_rest(walker.v(), ts)) =~= log);
    }
    while walker.should_continue()
        invariant
            store == blocks.all(),
            sp_cache_ok(*cache),
            walker.sp_tidy(),
            sp_logged(store, walker.v(), td, ts, log, all),
        decreases td_size(td), sp_left(walker.v(), ts),
    {
        let ghost w0 = walker.v();
        proof {
            walker.lm_depth();
            if w0.busy() {
                assert(w0.cur->0.visit->0.pend().last() == w0.cur->0.visit->0.pend()[w0.cur->0.visit->0.pend().len() - 1]);
            } else {
                assert(w0.stack.last() == td[td.len() - 1].i);
            }
            if w0.stack.len() > 0 {
                assert(w0.stack.last() == td[td.len() - 1].i);
                assert(wt_is(store, td[td.len() - 1].i, td[td.len() - 1].t, w0.cur is None));
            }
        }
        let (first, _) = walker.pending_links();
        let block = blocks.fetch(first);
        let ghost mut step: Option<VStep> = None;
        match walker.next(block, cache) {
            Err(_) => {},
            Ok(c) => { proof { step = Some(c.v()); } },
        }
        proof {
            let n = lm_step(store, w0, td, ts, log, all, block@, step, walker.v());
            assert(step is Some); /* no error */ // [C07 C13]
            td = n.0;
            ts = n.1;
            log = sp_put(log, step->0);
        }
    }
    proof {
        assert(td.len() == 0);
        assert(sp_filled(log, td_rest(walker.v(), ts)) =~= log);
    }
    Ghost(log)
}
/// behind the item at the top of a walk there is nothing
pub proof fn lm_td_top(store: GStore, s: Seq<WTodo>, w: VW)
    requires w.wf(), w.cur is None ==> s.len() + 1 == w.stack.len(),
    ensures td_seen(store, s, w.cur is None) == td_seen(store, s, false)
{}
}
