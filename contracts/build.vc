@note The directory builder: the tree which is built, what is emitted for it, and the iteration over it.
@file src/dir/builder/dir_builder.rs
@type DirBuilder
@type DuplicateName
@type FoundLeaf
@file src/dir/builder.rs
@type Entry
@type TreeOptions
@append
verus! {
use alloc::collections::BTreeMap;
use crate::Metadata;
/// the entries in the order in which the map yields them, which is the order of the bytes of the names
uninterp spec fn sp_entries(m: BTreeMap<String, Entry>) -> Seq<(String, Entry)>;
/// what is in the map has been there before the map
broadcast axiom fn ax_entries_in(m: BTreeMap<String, Entry>, i: int)
    requires 0 <= i < sp_entries(m).len(),
    ensures #[trigger] (decreases_to!(m => sp_entries(m)[i].1));
/// a directory with everything below it
pub struct BT { pub id: u64, pub parent: Option<u64>, pub meta: Metadata, pub kids: Seq<BK> }
pub struct BK { pub name: Seq<char>, pub item: BE }
pub enum BE { Leaf(Cid, u64), Dir(BT) }
pub closed spec fn sp_bt(d: DirBuilder) -> BT
    decreases d via lm_bt_dec
{
    let s = sp_entries(d.nodes);
    BT {
        id: d.id, parent: d.parent_id, meta: d.metadata,
        kids: Seq::new(s.len(), |i: int| if 0 <= i < s.len() {
            BK { name: s[i].0@, item: match s[i].1 { Entry::Leaf(l) => BE::Leaf(l.link, l.total_size), Entry::Directory(x) => BE::Dir(sp_bt(x)) } }
        } else { arbitrary() }),
    }
}
#[via_fn]
proof fn lm_bt_dec(d: DirBuilder) { broadcast use ax_entries_in; }
spec fn sp_be(e: Entry) -> BE { match e { Entry::Leaf(l) => BE::Leaf(l.link, l.total_size), Entry::Directory(x) => BE::Dir(sp_bt(x)) } }
spec fn sp_kids(s: Seq<(String, Entry)>) -> Seq<BK> { Seq::new(s.len(), |i: int| BK { name: s[i].0@, item: sp_be(s[i].1) }) }
broadcast proof fn lm_bt(d: DirBuilder)
    ensures
        #[trigger] sp_bt(d) == (BT { id: d.id, parent: d.parent_id, meta: d.metadata, kids: sp_kids(sp_entries(d.nodes)) }),
{
    assert(sp_bt(d).kids =~= sp_kids(sp_entries(d.nodes)));
}
/// an entry of a directory to be rendered
pub struct AL { pub name: Seq<char>, pub cid: Cid, pub total: u64 }
spec fn sp_al(l: NamedLeaf) -> AL { AL { name: l.0@, cid: l.1, total: l.2 } }
spec fn sp_als(l: Seq<Option<NamedLeaf>>) -> Seq<Option<AL>> { Seq::new(l.len(), |i: int| match l[i] { None => None, Some(x) => Some(sp_al(x)) }) }
pub open spec fn al_link(a: AL) -> VLink { VLink { hash: Some(crate::pb::sp_cid_bytes(a.cid)), name: Some(a.name), tsize: Some(a.total) } }
pub open spec fn al_links(l: Seq<Option<AL>>) -> Seq<VLink> { Seq::new(l.len(), |i: int| al_link(l[i]->0)) }
pub open spec fn al_all(l: Seq<Option<AL>>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Some }
pub open spec fn al_totals(l: Seq<Option<AL>>) -> int
    decreases l.len()
{
    if l.len() == 0 { 0 } else { al_totals(l.drop_last()) + (match l.last() { None => 0int, Some(a) => a.total as int }) }
}
proof fn lm_als(l: Seq<Option<NamedLeaf>>)
    ensures
        sp_all_some(l) == al_all(sp_als(l)),
        sp_all_some(l) ==> sp_leaf_links(l) == al_links(sp_als(l)),
        sp_totals(l) == al_totals(sp_als(l)),
    decreases l.len()
{
    if al_all(sp_als(l)) {
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) is Some by { assert(sp_als(l)[i] is Some); }
    }
    if sp_all_some(l) {
        assert forall|i: int| 0 <= i < l.len() implies #[trigger] sp_leaf_links(l)[i] == al_links(sp_als(l))[i] by { assert(l[i] is Some); }
        assert(sp_leaf_links(l) =~= al_links(sp_als(l)));
    }
    if l.len() > 0 {
        lm_als(l.drop_last());
        assert(sp_als(l).drop_last() =~= sp_als(l.drop_last()));
    }
}
/// a directory as it is emitted
pub struct BO { pub path: Seq<Seq<char>>, pub cid: Cid, pub total: int, pub block: Seq<u8> }
pub open spec fn rd_one(path: Seq<Seq<char>>, l: Seq<Option<AL>>, m: Metadata) -> BO {
    let b = crate::pb::sp_enc_flat(al_links(l), crate::sp_dir_data(m));
    BO { path, cid: crate::pb::sp_block_cid(b), total: b.len() + al_totals(l), block: b }
}
pub open spec fn al_of(name: Seq<char>, o: BO) -> AL { AL { name, cid: o.cid, total: o.total as u64 } }
/// the entries of a directory, all below it rendered
pub open spec fn bt_leaves(t: BT) -> Seq<Option<AL>>
    decreases t
{
    Seq::new(t.kids.len(), |i: int| if 0 <= i < t.kids.len() {
        Some(match t.kids[i].item {
            BE::Leaf(c, n) => AL { name: t.kids[i].name, cid: c, total: n },
            BE::Dir(s) => al_of(t.kids[i].name, rd_one(Seq::empty(), bt_leaves(s), s.meta)),
        })
    } else { None })
}
pub open spec fn rd_self(t: BT, path: Seq<Seq<char>>) -> BO { rd_one(path, bt_leaves(t), t.meta) }
/// what is emitted for a directory: everything below it before itself
pub open spec fn rd_seq(t: BT, path: Seq<Seq<char>>) -> Seq<BO>
    decreases t, 0int
{
    rd_kids(t.kids, path, t.kids.len() as int).push(rd_self(t, path))
}
pub open spec fn rd_kids(k: Seq<BK>, path: Seq<Seq<char>>, n: int) -> Seq<BO>
    decreases k, n
{
    if n <= 0 || n > k.len() { Seq::empty() }
    else { (match k[n - 1].item { BE::Leaf(_, _) => Seq::empty(), BE::Dir(s) => rd_seq(s, path.push(k[n - 1].name)) }) + rd_kids(k, path, n - 1) }
}
/// what is emitted for the whole tree: the root only when it was asked for
pub open spec fn rd_tree(t: BT, wrap: bool) -> Seq<BO> {
    let all = rd_kids(t.kids, Seq::empty(), t.kids.len() as int);
    if wrap { all.push(rd_self(t, Seq::empty())) } else { all }
}
impl TreeOptions {
    pub closed spec fn sp_limit(self) -> Option<u64> { self.block_size_limit }
    pub closed spec fn sp_wrap(self) -> bool { self.wrap_with_directory }
}
/// the paths are joined by slashes
pub open spec fn sp_join(p: Seq<Seq<char>>) -> Seq<char>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { sp_join(p.drop_last()) + seq!['/'] + p.last() }
}
/// the builder's tree: numbers of directories are not used again below them, sizes fit, names have no slashes
pub open spec fn bt_ok(t: BT, above: Set<u64>, depth: int) -> bool
    decreases t
{
    &&& !above.contains(t.id)
    &&& rd_self(t, Seq::empty()).total <= u64::MAX
    &&& forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() ==> {
        &&& !t.kids[i].name.contains('/')
        &&& depth > 0 ==> t.kids[i].name.len() > 0
        &&& t.kids[i].item matches BE::Dir(s) ==> {
            &&& s.parent == Some(t.id)
            &&& s.kids.len() > 0 ==> t.kids[i].name.len() > 0
            &&& bt_ok(s, above.insert(t.id), depth + 1)
        }
    }
}
/// position of the last slash
pub open spec fn sp_slash(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 } else if s.last() == '/' { s.len() - 1 } else { sp_slash(s.drop_last()) }
}
/// the segments of a path of so many segments
pub open spec fn sp_segs(s: Seq<char>, depth: nat) -> Seq<Seq<char>>
    decreases depth
{
    if depth == 0 { Seq::empty() }
    else if depth == 1 { seq![s] }
    else { sp_segs(s.take(sp_slash(s)), (depth - 1) as nat).push(s.skip(sp_slash(s) + 1)) }
}
pub open spec fn sp_segs_ok(s: Seq<char>, depth: nat) -> bool
    decreases depth
{
    if depth == 0 { s.len() == 0 }
    else if depth == 1 { true }
    else { 0 < sp_slash(s) < s.len() && sp_segs_ok(s.take(sp_slash(s)), (depth - 1) as nat) }
}
pub proof fn lm_slash(s: Seq<char>)
    ensures
        -1 <= sp_slash(s) < s.len(),
        sp_slash(s) >= 0 ==> s[sp_slash(s)] == '/',
        forall|i: int| sp_slash(s) < i < s.len() ==> s[i] != '/',
        sp_slash(s) < 0 ==> !s.contains('/'),
    decreases s.len()
{
    if s.len() > 0 && s.last() != '/' {
        lm_slash(s.drop_last());
        assert forall|i: int| sp_slash(s) < i < s.len() implies s[i] != '/' by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
    }
}
/// the segments are those of the path
pub proof fn lm_join(s: Seq<char>, depth: nat)
    requires sp_segs_ok(s, depth),
    ensures sp_join(sp_segs(s, depth)) == s, sp_segs(s, depth).len() == depth
    decreases depth
{
    if depth >= 2 {
        lm_slash(s);
        let k = sp_slash(s);
        lm_join(s.take(k), (depth - 1) as nat);
        assert(sp_segs(s, depth).drop_last() =~= sp_segs(s.take(k), (depth - 1) as nat));
        assert(s =~= s.take(k) + seq!['/'] + s.skip(k + 1));
    }
}
/// one more segment
pub proof fn lm_segs_push(s: Seq<char>, depth: nat, name: Seq<char>)
    requires sp_segs_ok(s, depth), depth > 0, s.len() > 0, !name.contains('/'),
    ensures
        sp_segs(s + seq!['/'] + name, depth + 1) == sp_segs(s, depth).push(name),
        sp_segs_ok(s + seq!['/'] + name, depth + 1),
{
    let r = s + seq!['/'] + name;
    lm_slash(r);
    assert(r[s.len() as int] == '/');
    let k = sp_slash(r);
    if k > s.len() { assert(name[k - s.len() - 1] == '/'); assert(false); }
    assert(k == s.len());
    assert(r.take(k) =~= s);
    assert(r.skip(k + 1) =~= name);
}
}
@file src/dir/builder/iter.rs
@type PostOrderIterator
@type Visited
@type LeafStorage
@type TreeNode
@type OwnedTreeNode
@append
verus! {
/// pending work
pub enum AV {
    DescentRoot(BT),
    Descent { t: BT, name: Seq<char>, depth: int, index: int },
    Post { parent: u64, depth: int, name: Seq<char>, index: int, leaves: AS, meta: Metadata },
    PostRoot { leaves: AS, meta: Metadata },
}
pub enum AS { Direct(Seq<Option<AL>>), Stashed(u64) }
pub struct RS { pub path: Seq<Seq<char>>, pub stash: Map<u64, Seq<Option<AL>>>, pub outs: Seq<BO>, pub ok: bool }
pub open spec fn stash_ready(m: Map<u64, Seq<Option<AL>>>, p: u64, i: int) -> bool { m.contains_key(p) && 0 <= i < m[p].len() && m[p][i] is None }
pub open spec fn stash_put(m: Map<u64, Seq<Option<AL>>>, p: u64, i: int, a: AL) -> Map<u64, Seq<Option<AL>>> { m.insert(p, m[p].update(i, Some(a))) }
pub open spec fn path_at(path: Seq<Seq<char>>, name: Seq<char>, depth: int) -> Seq<Seq<char>> { if depth <= 0 { Seq::empty() } else { path.take(depth - 1).push(name) } }
pub open spec fn path_ok(path: Seq<Seq<char>>, name: Seq<char>, depth: int) -> bool {
    &&& 1 <= depth <= path.len() + 1
    &&& !name.contains('/')
    &&& depth >= 2 ==> name.len() > 0 && path[0].len() > 0
}
pub open spec fn as_leaves(a: AS, m: Map<u64, Seq<Option<AL>>>) -> Seq<Option<AL>> { match a { AS::Direct(l) => l, AS::Stashed(id) => m[id] } }
pub open spec fn as_stash(a: AS, m: Map<u64, Seq<Option<AL>>>) -> Map<u64, Seq<Option<AL>>> { match a { AS::Direct(l) => m, AS::Stashed(id) => m.remove(id) } }
pub open spec fn as_ok(a: AS, m: Map<u64, Seq<Option<AL>>>) -> bool {
    &&& a matches AS::Stashed(id) ==> m.contains_key(id)
    &&& al_all(as_leaves(a, m))
}
/// what comes of the topmost pending work and everything it leads to
pub open spec fn rs_step(v: AV, s: RS, wrap: bool) -> RS {
    match v {
        AV::DescentRoot(t) => RS {
            path: Seq::empty(), stash: s.stash,
            outs: s.outs + rd_kids(t.kids, Seq::empty(), t.kids.len() as int) + (if wrap { seq![rd_self(t, Seq::empty())] } else { Seq::empty() }),
            ok: s.ok && bt_ok(t, s.stash.dom(), 0),
        },
        AV::Descent { t, name, depth, index } => {
            let p = path_at(s.path, name, depth);
            RS {
                path: p, stash: stash_put(s.stash, t.parent->0, index, al_of(name, rd_self(t, p))), outs: s.outs + rd_seq(t, p),
                ok: {
                    &&& s.ok && path_ok(s.path, name, depth) && t.parent is Some && stash_ready(s.stash, t.parent->0, index)
                    &&& bt_ok(t, s.stash.dom(), depth) && (t.kids.len() > 0 ==> name.len() > 0)
                },
            }
        },
        AV::Post { parent, depth, name, index, leaves, meta } => {
            let p = path_at(s.path, name, depth);
            let o = rd_one(p, as_leaves(leaves, s.stash), meta);
            RS {
                path: p, stash: stash_put(as_stash(leaves, s.stash), parent, index, al_of(name, o)), outs: s.outs.push(o),
                ok: s.ok && path_ok(s.path, name, depth) && as_ok(leaves, s.stash) && o.total <= u64::MAX && stash_ready(as_stash(leaves, s.stash), parent, index),
            }
        },
        AV::PostRoot { leaves, meta } => {
            let o = rd_one(Seq::empty(), as_leaves(leaves, s.stash), meta);
            RS {
                path: Seq::empty(), stash: as_stash(leaves, s.stash), outs: if wrap { s.outs.push(o) } else { s.outs },
                ok: s.ok && as_ok(leaves, s.stash) && o.total <= u64::MAX,
            }
        },
    }
}
/// what comes of all pending work, the last first
pub open spec fn rs_run(p: Seq<AV>, s: RS, wrap: bool) -> RS
    decreases p.len()
{
    if p.len() == 0 { s } else { rs_run(p.drop_last(), rs_step(p.last(), s, wrap), wrap) }
}
pub proof fn lm_run_add(a: Seq<AV>, b: Seq<AV>, s: RS, wrap: bool)
    ensures rs_run(a + b, s, wrap) == rs_run(a, rs_run(b, s, wrap), wrap)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lm_run_add(a, b.drop_last(), rs_step(b.last(), s, wrap), wrap);
    }
}
/// what has been emitted before makes no difference
pub proof fn lm_run_outs(p: Seq<AV>, s: RS, wrap: bool)
    ensures
        ({
            let r = rs_run(p, s, wrap);
            let z = rs_run(p, RS { outs: Seq::empty(), ..s }, wrap);
            r.outs == s.outs + z.outs && r.ok == z.ok && r.path == z.path && r.stash == z.stash
        }),
    decreases p.len()
{
    let z = RS { outs: Seq::empty(), ..s };
    if p.len() == 0 { assert(s.outs + Seq::<BO>::empty() =~= s.outs); }
    else {
        let s1 = rs_step(p.last(), s, wrap);
        let z1 = rs_step(p.last(), z, wrap);
        assert(s1.outs =~= s.outs + z1.outs);
        assert(RS { outs: Seq::empty(), ..s1 } == RS { outs: Seq::empty(), ..z1 });
        lm_run_outs(p.drop_last(), s1, wrap);
        lm_run_outs(p.drop_last(), z1, wrap);
        let e = rs_run(p.drop_last(), RS { outs: Seq::empty(), ..s1 }, wrap).outs;
        assert(s.outs + (z1.outs + e) =~= (s.outs + z1.outs) + e);
    }
}
pub proof fn lm_run_ok(p: Seq<AV>, s: RS, wrap: bool)
    requires rs_run(p, s, wrap).ok,
    ensures s.ok
    decreases p.len()
{
    if p.len() > 0 { lm_run_ok(p.drop_last(), rs_step(p.last(), s, wrap), wrap); }
}
/// how often something is taken from the pending work
pub open spec fn bt_wt(t: BT) -> nat
    decreases t, 0int
{
    1 + ks_wt(t.kids, t.kids.len() as int)
}
pub open spec fn ks_wt(k: Seq<BK>, n: int) -> nat
    decreases k, n
{
    if n <= 0 || n > k.len() { 0 } else { ks_wt(k, n - 1) + (match k[n - 1].item { BE::Leaf(_, _) => 0, BE::Dir(s) => 1 + bt_wt(s) }) }
}
pub open spec fn av_wt(v: AV) -> nat { match v { AV::Descent { t, .. } => 1 + bt_wt(t), AV::DescentRoot(t) => 1 + bt_wt(t), _ => 1 } }
pub open spec fn avs_wt(p: Seq<AV>) -> nat
    decreases p.len()
{
    if p.len() == 0 { 0 } else { avs_wt(p.drop_last()) + av_wt(p.last()) }
}
pub proof fn lm_wt_add(a: Seq<AV>, b: Seq<AV>)
    ensures avs_wt(a + b) == avs_wt(a) + avs_wt(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lm_wt_add(a, b.drop_last()); }
}
pub proof fn lm_wt_descents(k: Seq<BK>, depth: int, n: int)
    requires 0 <= n <= k.len(),
    ensures avs_wt(av_descents(k, depth, n)) == ks_wt(k, n)
    decreases n
{
    if n > 0 {
        lm_wt_descents(k, depth, n - 1);
        match k[n - 1].item {
            BE::Dir(t) => { assert(av_descents(k, depth, n).drop_last() =~= av_descents(k, depth, n - 1)); },
            _ => {},
        }
    }
}
/// a directory gives way to itself and its subdirectories
pub proof fn lm_wt_less(p: Seq<AV>, post: AV, t: BT, depth: int)
    requires
        p.len() > 0, post is Post || post is PostRoot,
        match p.last() { AV::Descent { t: x, .. } => x == t, AV::DescentRoot(x) => x == t, _ => false },
    ensures avs_wt(p.drop_last().push(post) + av_descents(t.kids, depth, t.kids.len() as int)) < avs_wt(p)
{
    let d = av_descents(t.kids, depth, t.kids.len() as int);
    lm_wt_add(p.drop_last().push(post), d);
    lm_wt_descents(t.kids, depth, t.kids.len() as int);
    assert(p.drop_last().push(post).drop_last() =~= p.drop_last());
    assert(bt_wt(t) == 1 + ks_wt(t.kids, t.kids.len() as int));
}
/// the directories among the first entries, as pending work
pub open spec fn av_descents(k: Seq<BK>, depth: int, n: int) -> Seq<AV>
    decreases n
{
    if n <= 0 || n > k.len() { Seq::empty() }
    else {
        match k[n - 1].item {
            BE::Leaf(_, _) => av_descents(k, depth, n - 1),
            BE::Dir(t) => av_descents(k, depth, n - 1).push(AV::Descent { t, name: k[n - 1].name, depth, index: n - 1 }),
        }
    }
}
/// the entries which are not directories, in their places
pub open spec fn al_part(k: Seq<BK>) -> Seq<Option<AL>> {
    Seq::new(k.len(), |i: int| match k[i].item { BE::Leaf(c, n) => Some(AL { name: k[i].name, cid: c, total: n }), BE::Dir(_) => None })
}
/// and those from the n-th on have been filled in
pub open spec fn al_from(t: BT, n: int) -> Seq<Option<AL>> {
    Seq::new(t.kids.len(), |i: int| if i < n { al_part(t.kids)[i] } else { bt_leaves(t)[i] })
}
pub proof fn lm_descents_none(k: Seq<BK>, depth: int, n: int)
    requires 0 <= n <= k.len(), av_descents(k, depth, n).len() == 0,
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] k[i]).item is Leaf
    decreases n
{
    if n > 0 { lm_descents_none(k, depth, n - 1); }
}
/// the subdirectories of a directory
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lm_run_kids(t: BT, above: Set<u64>, depth: int, pt: Seq<Seq<char>>, n: int, s: RS, wrap: bool)
    requires
        0 <= n <= t.kids.len(), depth >= 0, bt_ok(t, above, depth),
        s.ok, s.stash.dom() == above.insert(t.id), s.path.len() >= depth, s.path.take(depth) == pt,
        t.kids.len() > 0 && depth > 0 ==> pt[0].len() > 0,
        s.stash[t.id] == al_from(t, n),
    ensures
        ({
            let r = rs_run(av_descents(t.kids, depth + 1, n), s, wrap);
            &&& r.ok
            &&& r.stash == s.stash.insert(t.id, bt_leaves(t))
            &&& r.outs == s.outs + rd_kids(t.kids, pt, n)
            &&& r.path.len() >= depth && r.path.take(depth) == pt
        }),
    decreases n
{
    if n == 0 {
        assert(al_from(t, 0) =~= bt_leaves(t));
        assert(s.stash =~= s.stash.insert(t.id, bt_leaves(t)));
        assert(s.outs + Seq::<BO>::empty() =~= s.outs);
    } else {
        let k = t.kids[n - 1];
        match k.item {
            BE::Leaf(_, _) => {
                assert(al_from(t, n) =~= al_from(t, n - 1));
                lm_run_kids(t, above, depth, pt, n - 1, s, wrap);
                assert(Seq::<BO>::empty() + rd_kids(t.kids, pt, n - 1) =~= rd_kids(t.kids, pt, n - 1));
            },
            BE::Dir(u) => {
                let d = AV::Descent { t: u, name: k.name, depth: depth + 1, index: n - 1 };
                let all = av_descents(t.kids, depth + 1, n);
                assert(all.drop_last() =~= av_descents(t.kids, depth + 1, n - 1));
                let s1 = rs_step(d, s, wrap);
                let p = path_at(s.path, k.name, depth + 1);
                assert(p == pt.push(k.name));
                assert(al_from(t, n)[n - 1] is None);
                assert(depth > 0 ==> s.path[0] == pt[0]);
                assert(path_ok(s.path, k.name, depth + 1));
                assert(s1.ok);
                assert(rd_self(u, p).total == rd_one(Seq::empty(), bt_leaves(u), u.meta).total);
                assert(s1.stash[t.id] =~= al_from(t, n - 1));
                assert(s1.stash.dom() =~= s.stash.dom());
                assert(s1.path.take(depth) =~= pt);
                lm_run_kids(t, above, depth, pt, n - 1, s1, wrap);
                let r = rs_run(all, s, wrap);
                assert(r.stash =~= s.stash.insert(t.id, bt_leaves(t)));
                assert(r.outs =~= s.outs + (rd_seq(u, p) + rd_kids(t.kids, pt, n - 1)));
            },
        }
    }
}
/// a directory has been expanded
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lm_run_descent(t: BT, name: Seq<char>, depth: int, index: int, s: RS, wrap: bool)
    requires
        rs_step(AV::Descent { t, name, depth, index }, s, wrap).ok,
    ensures
        ({
            let p = path_at(s.path, name, depth);
            let c = av_descents(t.kids, depth + 1, t.kids.len() as int);
            let leaves = if c.len() > 0 { AS::Stashed(t.id) } else { AS::Direct(al_part(t.kids)) };
            let stash = if c.len() > 0 { s.stash.insert(t.id, al_part(t.kids)) } else { s.stash };
            rs_run(seq![AV::Post { parent: t.parent->0, depth, name, index, leaves, meta: t.meta }] + c, RS { path: p, stash, ..s }, wrap)
                == rs_step(AV::Descent { t, name, depth, index }, s, wrap)
        }),
{
    let p = path_at(s.path, name, depth);
    let n = t.kids.len() as int;
    let c = av_descents(t.kids, depth + 1, n);
    let leaves = if c.len() > 0 { AS::Stashed(t.id) } else { AS::Direct(al_part(t.kids)) };
    let stash = if c.len() > 0 { s.stash.insert(t.id, al_part(t.kids)) } else { s.stash };
    let post = AV::Post { parent: t.parent->0, depth, name, index, leaves, meta: t.meta };
    let s1 = RS { path: p, stash, ..s };
    lm_run_add(seq![post], c, s1, wrap);
    let r = rs_run(c, s1, wrap);
    assert(seq![post].drop_last() =~= Seq::empty());
    assert(rs_run(seq![post], r, wrap) == rs_run(Seq::empty(), rs_step(post, r, wrap), wrap));
    assert(rs_run(Seq::empty(), rs_step(post, r, wrap), wrap) == rs_step(post, r, wrap));
    let want = rs_step(AV::Descent { t, name, depth, index }, s, wrap);
    let got = rs_step(post, r, wrap);
    if c.len() > 0 {
        assert(al_part(t.kids) =~= al_from(t, n));
        assert(p.take(depth) =~= p);
        assert(stash.dom() =~= s.stash.dom().insert(t.id));
        if depth > 1 { assert(p[0] == s.path[0]); }
        lm_run_kids(t, s.stash.dom(), depth, p, n, s1, wrap);
        assert(path_at(r.path, name, depth) =~= p) by {
            assert(r.path.take(depth) == p);
            assert(r.path.take(depth - 1) =~= p.take(depth - 1));
        }
        if depth > 1 { assert(r.path[0] == p[0]); }
        assert(r.stash.remove(t.id) =~= s.stash);
        assert(al_all(bt_leaves(t)));
        assert(got.outs =~= want.outs);
    } else {
        lm_descents_none(t.kids, depth + 1, n);
        assert(al_part(t.kids) =~= bt_leaves(t));
        assert(path_at(p, name, depth) =~= p);
        lm_no_kids(t.kids, p, n);
        assert(r == s1);
        assert(got.outs =~= want.outs);
        assert(al_all(bt_leaves(t)));
    }
}
pub proof fn lm_no_kids(k: Seq<BK>, p: Seq<Seq<char>>, n: int)
    requires 0 <= n <= k.len(), forall|i: int| 0 <= i < n ==> (#[trigger] k[i]).item is Leaf,
    ensures rd_kids(k, p, n) == Seq::<BO>::empty()
    decreases n
{
    if n > 0 {
        lm_no_kids(k, p, n - 1);
        assert(k[n - 1].item is Leaf);
        assert(rd_kids(k, p, n) =~= Seq::empty());
    }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lm_run_root(t: BT, s: RS, wrap: bool)
    requires
        rs_step(AV::DescentRoot(t), s, wrap).ok,
    ensures
        ({
            let c = av_descents(t.kids, 1, t.kids.len() as int);
            let leaves = if c.len() > 0 { AS::Stashed(t.id) } else { AS::Direct(al_part(t.kids)) };
            let stash = if c.len() > 0 { s.stash.insert(t.id, al_part(t.kids)) } else { s.stash };
            rs_run(seq![AV::PostRoot { leaves, meta: t.meta }] + c, RS { path: Seq::empty(), stash, ..s }, wrap)
                == rs_step(AV::DescentRoot(t), s, wrap)
        }),
{
    let p = Seq::<Seq<char>>::empty();
    let n = t.kids.len() as int;
    let c = av_descents(t.kids, 1, n);
    let leaves = if c.len() > 0 { AS::Stashed(t.id) } else { AS::Direct(al_part(t.kids)) };
    let stash = if c.len() > 0 { s.stash.insert(t.id, al_part(t.kids)) } else { s.stash };
    let post = AV::PostRoot { leaves, meta: t.meta };
    let s1 = RS { path: p, stash, ..s };
    lm_run_add(seq![post], c, s1, wrap);
    let r = rs_run(c, s1, wrap);
    assert(seq![post].drop_last() =~= Seq::empty());
    assert(rs_run(seq![post], r, wrap) == rs_run(Seq::empty(), rs_step(post, r, wrap), wrap));
    assert(rs_run(Seq::empty(), rs_step(post, r, wrap), wrap) == rs_step(post, r, wrap));
    let want = rs_step(AV::DescentRoot(t), s, wrap);
    let got = rs_step(post, r, wrap);
    assert(al_all(bt_leaves(t)));
    if c.len() > 0 {
        assert(al_part(t.kids) =~= al_from(t, n));
        assert(p.take(0) =~= p);
        assert(stash.dom() =~= s.stash.dom().insert(t.id));
        lm_run_kids(t, s.stash.dom(), 0, p, n, s1, wrap);
        assert(r.stash.remove(t.id) =~= s.stash);
        assert(got.outs =~= want.outs);
    } else {
        lm_descents_none(t.kids, 1, n);
        assert(al_part(t.kids) =~= bt_leaves(t));
        lm_no_kids(t.kids, p, n);
        assert(r == s1);
        assert(got.outs =~= want.outs);
    }
}
}
@append
verus! {
spec fn sp_as(l: LeafStorage) -> AS { match l { LeafStorage::Direct(v) => AS::Direct(sp_als(v@)), LeafStorage::Stashed(id) => AS::Stashed(id) } }
spec fn sp_av(v: Visited) -> AV {
    match v {
        Visited::DescentRoot(d) => AV::DescentRoot(sp_bt(d)),
        Visited::Descent { node, name, depth, index } => AV::Descent { t: sp_bt(node), name: name@, depth: depth as int, index: index as int },
        Visited::Post { parent_id, depth, name, index, leaves, metadata } =>
            AV::Post { parent: parent_id, depth: depth as int, name: name@, index: index as int, leaves: sp_as(leaves), meta: metadata },
        Visited::PostRoot { leaves, metadata } => AV::PostRoot { leaves: sp_as(leaves), meta: metadata },
    }
}
spec fn sp_avs(s: Seq<Visited>) -> Seq<AV> { Seq::new(s.len(), |i: int| sp_av(s[i])) }
spec fn sp_stash(m: Map<u64, Vec<Option<NamedLeaf>>>) -> Map<u64, Seq<Option<AL>>> { m.map_values(|v: Vec<Option<NamedLeaf>>| sp_als(v@)) }
spec fn sp_below(v: Visited) -> bool { v is Descent || v is Post }
impl PostOrderIterator {
    spec fn sp_state(self) -> RS {
        RS { path: sp_segs(self.full_path@, self.old_depth as nat), stash: sp_stash(self.persisted_cids@), outs: Seq::empty(), ok: true }
    }
    spec fn sp_final(self) -> RS { rs_run(sp_avs(self.pending@), self.sp_state(), self.opts.wrap_with_directory) }
    /// what is yet to be emitted when nothing is too large
    #[verifier::opaque]
    pub closed spec fn sp_outs(self) -> Seq<BO> { self.sp_final().outs }
    #[verifier::opaque]
    pub closed spec fn sp_inv(self) -> bool {
        &&& self.sp_final().ok
        &&& sp_segs_ok(self.full_path@, self.old_depth as nat)
        &&& self.reused_children@.len() == 0
        &&& forall|i: int| 0 < i < self.pending@.len() ==> sp_below(#[trigger] self.pending@[i])
    }
    pub closed spec fn sp_limit(self) -> Option<u64> { self.opts.block_size_limit }
    /// how much work is pending
    #[verifier::opaque]
    spec fn sp_left(self) -> nat { avs_wt(sp_avs(self.pending@)) }
}
/// byte n of the path is character k
spec fn sp_at(s: Seq<char>, k: int, n: int) -> bool { 0 <= k <= s.len() && vstd::utf8::encode_utf8(s.take(k)).len() == n }
#[verifier::external_body]
fn v_last_slash(s: &String) -> (r: Option<usize>)
    ensures
        r is Some == (sp_slash(s@) >= 0),
        r matches Some(n) ==> sp_at(s@, sp_slash(s@), n as int) && sp_at(s@, sp_slash(s@) + 1, n + 1) && n < usize::MAX,
{ s.bytes().rposition(|ch| ch == b'/') }
#[verifier::external_body]
fn v_str_from(s: &String, n: usize, k: Ghost<int>) -> (r: &str)
    requires sp_at(s@, k@, n as int),
    ensures r@ == s@.skip(k@)
{ &s[n..] }
#[verifier::external_body]
fn v_truncate(s: &mut String, n: usize, k: Ghost<int>)
    requires sp_at(old(s)@, k@, n as int),
    ensures final(s)@ == old(s)@.take(k@)
{ s.truncate(n) }
#[verifier::external_body]
fn v_clear(s: &mut String)
    ensures final(s)@ == Seq::<char>::empty()
{ s.clear() }
#[verifier::external_body]
fn v_push(s: &mut String, c: char)
    ensures final(s)@ == old(s)@ + seq![c]
{ s.push(c) }
#[verifier::external_body]
fn v_push_str(s: &mut String, t: &str)
    ensures final(s)@ == old(s)@ + t@
{ s.push_str(t) }
#[verifier::external_body]
fn v_is_empty(s: &String) -> (r: bool)
    ensures r == (s@.len() == 0)
{ s.is_empty() }
#[verifier::external_body]
fn v_same(a: Option<&str>, b: Option<&str>) -> (r: bool)
    ensures r == (match (a, b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
{ a == b }
}
@fn update_full_path props=C09
@spec
    requires
        sp_segs_ok(old(v_p.0)@, *old(v_p.1) as nat),
        name is None ==> depth == 0,
        name matches Some(n) ==> path_ok(sp_segs(old(v_p.0)@, *old(v_p.1) as nat), n@, depth as int),
    ensures
        sp_segs_ok(final(v_p.0)@, depth as nat),
        *final(v_p.1) == depth,
        sp_segs(final(v_p.0)@, depth as nat) == path_at(sp_segs(old(v_p.0)@, *old(v_p.1) as nat), name->0@, depth as int), // [C09]
@replace
fn update_full_path ( ( full_path , old_depth ) : ( & mut String , & mut usize ) , $$x )
@with
fn update_full_path(v_p: (&mut String, &mut usize), $x)
@replace any
full_path . clear ( )
@with
v_clear(full_path)
@replace any
full_path . bytes ( ) . rposition ( | ch | ch == b'/' )
@with
v_last_slash(full_path)
@replace any
Some ( & full_path [ ( slash_at + 1 ) .. ] ) == name
@with
v_same(Some(v_str_from(full_path, slash_at + 1, Ghost(sp_slash(full_path@) + 1))), name)
@replace any
full_path . truncate ( $x )
@with
v_truncate(full_path, $x, Ghost(sp_slash(full_path@)))
@replace any
full_path . push ( $x )
@with
v_push(full_path, $x)
@replace any
full_path . push_str ( $x )
@with
v_push_str(full_path, $x)
@replace any
full_path . is_empty ( )
@with
v_is_empty(full_path)
@replace any
todo ! ( $$x )
@with
vstd::pervasive::unreached::<()>()
@attrs #[verifier::loop_isolation(false)]
@loop 0
invariant
    depth >= 2,
    depth <= *old(v_p.1) + 1,
    depth <= *old_depth + 1 <= *old(v_p.1) + 1,
    sp_segs_ok(full_path@, *old_depth as nat),
    sp_segs(full_path@, *old_depth as nat) == sp_segs(old(v_p.0)@, *old(v_p.1) as nat).take(*old_depth as int),
decreases *old_depth
@proof start
let (full_path, old_depth) = v_p;
let ghost g0 = sp_segs(old(v_p.0)@, *old(v_p.1) as nat);
proof {
    lm_join(old(v_p.0)@, *old(v_p.1) as nat);
    lm_slash(full_path@);
}
@proof loop 0 start
let ghost g1 = sp_segs(full_path@, *old_depth as nat);
proof {
    lm_slash(full_path@);
    lm_join(full_path@, *old_depth as nat);
    assert(g1 == sp_segs(full_path@.take(sp_slash(full_path@)), (*old_depth - 1) as nat).push(full_path@.skip(sp_slash(full_path@) + 1)));
    assert(g1.drop_last() =~= g0.take(*old_depth - 1));
    assert(g1.last() == g0[*old_depth - 1]);
    if *old_depth == depth { assert(g0.take(depth - 1).push(g0[depth - 1]) =~= g1); }
    assert(sp_segs(full_path@.take(sp_slash(full_path@)), (*old_depth - 1) as nat) =~= g1.drop_last());
}
@proof before if let Some ( name ) = name
let ghost g2 = full_path@;
proof {
    if depth >= 2 {
        assert(g0.take(*old_depth as int) == g0.take(depth - 1));
        lm_join(g2, (depth - 1) as nat);
        lm_first(g2, (depth - 1) as nat);
        lm_segs_push(g2, (depth - 1) as nat, name->0@);
    } else {
        assert(Seq::<char>::empty() + (if depth == 1 { name->0@ } else { Seq::empty() }) =~= (if depth == 1 { name->0@ } else { Seq::empty() }));
        assert(path_at(g0, name->0@, depth as int) =~= (if depth == 1 { seq![name->0@] } else { Seq::empty() }));
    }
}
@append
verus! {
pub proof fn lm_first(s: Seq<char>, depth: nat)
    requires sp_segs_ok(s, depth), depth > 0, sp_segs(s, depth)[0].len() > 0,
    ensures s.len() > 0
    decreases depth
{
    if depth > 1 { lm_slash(s); }
}
}
@append
verus! {
/// the entries, one after the other
#[verifier::external_body]
fn v_entries(m: alloc::collections::BTreeMap<String, Entry>) -> (r: alloc::vec::IntoIter<(String, Entry)>)
    ensures crate::sp_usual(r), crate::sp_rem(r) == sp_entries(m), sp_entries(m).len() <= usize::MAX
{ m.into_iter().collect::<Vec<_>>().into_iter() }
proof fn lm_kids_step(s: Seq<(String, Entry)>, i: int)
    requires 0 <= i < s.len(),
    ensures sp_kids(s)[i] == (BK { name: s[i].0@, item: sp_be(s[i].1) }), sp_kids(s).len() == s.len()
{}
proof fn lm_avs_push(s: Seq<Visited>, v: Visited)
    ensures sp_avs(s.push(v)) == sp_avs(s).push(sp_av(v))
{ assert(sp_avs(s.push(v)) =~= sp_avs(s).push(sp_av(v))); }
proof fn lm_avs_add(a: Seq<Visited>, b: Seq<Visited>)
    ensures sp_avs(a + b) == sp_avs(a) + sp_avs(b)
{ assert(sp_avs(a + b) =~= sp_avs(a) + sp_avs(b)); }
}
@fn partition_children_leaves props=C04,C08,C09,C10
@ret r
@spec
    requires
        crate::sp_usual(it), crate::sp_rem(it).len() <= usize::MAX, depth < usize::MAX, old(children)@.len() == 0,
    ensures
        ({
            let k = sp_kids(crate::sp_rem(it));
            &&& sp_avs(final(children)@) == av_descents(k, depth + 1, k.len() as int) // [C09]
            &&& sp_als(r@) == al_part(k) // [C09]
            &&& forall|i: int| 0 <= i < final(children)@.len() ==> sp_below(#[trigger] final(children)@[i])
        }),
@replace
for ( $i , ( $k , $v ) ) in it . enumerate ( ) { $$body }
@with
let ghost v_all = crate::sp_rem(it);
let ghost v_k = sp_kids(v_all);
proof { assert(sp_avs(children@) =~= Seq::empty()); }
for v_x in v_it: crate::v_enumerate(it)
    invariant
        depth < usize::MAX,
        v_it.seq().len() == v_all.len(),
        v_k == sp_kids(v_all),
        forall|j: int| 0 <= j < v_all.len() ==> (#[trigger] v_it.seq()[j]) == (j as usize, v_all[j]),
        v_all.len() <= usize::MAX,
        sp_avs(children@) == av_descents(v_k, depth + 1, v_it.index() as int), // [C09]
        leaves@.len() == v_it.index(),
        sp_als(leaves@) =~= al_part(v_k).take(v_it.index() as int), // [C09]
        forall|i: int| 0 <= i < children@.len() ==> sp_below(#[trigger] children@[i]),
{
    let ghost v_l = leaves@;
    let ghost v_c = children@;
    let ghost v_n = v_it.index() as int;
    proof {
        assert(v_it.seq()[v_n] == (v_n as usize, v_all[v_n]));
        lm_kids_step(v_all, v_n);
    }
    let ($i, ($k, $v)) = v_x;
    $body
    proof {
        if children@.len() > v_c.len() { lm_avs_push(v_c, children@.last()); assert(children@ =~= v_c.push(children@.last())); }
        assert(al_part(v_k).take(v_n + 1) =~= al_part(v_k).take(v_n).push(al_part(v_k)[v_n]));
        assert(leaves@ =~= v_l.push(leaves@.last()));
        assert(sp_als(leaves@) =~= sp_als(v_l).push(sp_als(leaves@).last()));
    }
}
proof { assert(al_part(v_k).take(v_all.len() as int) =~= al_part(v_k)); }
@fn LeafStorage::into_inner props=C07,C09
@ret r
@spec
    requires
        self matches LeafStorage::Stashed(id) ==> old(stash)@.contains_key(id),
    ensures
        sp_als(r@) == as_leaves(sp_as(self), sp_stash(old(stash)@)), // [C09]
        sp_stash(final(stash)@) == as_stash(sp_as(self), sp_stash(old(stash)@)), // [C09]
@proof start
broadcast use vstd::std_specs::hash::group_hash_axioms;
@append
verus! {
impl vstd::std_specs::convert::FromSpecImpl<u64> for LeafStorage {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(k: u64) -> LeafStorage { LeafStorage::Stashed(k) }
}
impl vstd::std_specs::convert::FromSpecImpl<Leaves> for LeafStorage {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(k: Leaves) -> LeafStorage { LeafStorage::Direct(k) }
}
}
@fn From@LeafStorage::from props=C09
@fn From@LeafStorage#1::from props=C09
@fn PostOrderIterator::new props=C09,C10
@ret r
@spec
    requires bt_ok(sp_bt(root), Set::empty(), 0),
    ensures
        r.sp_inv(),
        r.sp_outs() == rd_tree(sp_bt(root), opts.sp_wrap()), // [C04 C09 C10 C14]
        r.sp_limit() == opts.sp_limit(), // [C10]
@replace
String :: with_capacity ( $x )
@with
v_with_capacity($x)
@replace any
vec ! [ $x ]
@with
v_one($x)
@append
verus! {
#[verifier::external_body]
fn v_with_capacity(n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty()
{ String::with_capacity(n) }
fn v_one<T>(x: T) -> (r: Vec<T>)
    ensures r@ == seq![x]
{
    let mut v = Vec::new();
    v.push(x);
    v
}
}
@replace
persisted_cids : Default :: default ( )
@with
persisted_cids: v_no_stash()
@proof start
proof {
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let t = sp_bt(root);
    reveal(PostOrderIterator::sp_inv); reveal(PostOrderIterator::sp_outs);
    let z = RS { path: Seq::empty(), stash: Map::empty(), outs: Seq::empty(), ok: true };
    let v = Visited::DescentRoot(root);
    assert(sp_avs(seq![v]) =~= seq![AV::DescentRoot(t)]);
    assert(seq![AV::DescentRoot(t)].drop_last() =~= Seq::empty());
    assert(rs_run(seq![AV::DescentRoot(t)], z, opts.wrap_with_directory) == rs_step(AV::DescentRoot(t), z, opts.wrap_with_directory)) by { reveal_with_fuel(rs_run, 2); }
    assert(sp_stash(Map::empty()) =~= Map::empty());
    assert(z.stash.dom() =~= Set::empty());
    assert(rs_step(AV::DescentRoot(t), z, opts.wrap_with_directory).outs =~= rd_tree(t, opts.wrap_with_directory));
}
@append
verus! {
#[verifier::external_body]
fn v_no_stash() -> (r: HashMap<u64, Vec<Option<NamedLeaf>>>)
    ensures r@ == Map::<u64, Vec<Option<NamedLeaf>>>::empty()
{ Default::default() }
}
@append
verus! {
/// a mutable look into the map
#[verifier::external_body]
fn v_stash_mut<'a>(m: &'a mut HashMap<u64, Vec<Option<NamedLeaf>>>, k: &u64) -> (r: Option<&'a mut Vec<Option<NamedLeaf>>>)
    ensures
        match r {
            None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@,
            Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)),
        },
{ m.get_mut(k) }
/// a string is no longer than isize::MAX bytes
axiom fn ax_string_len(s: String)
    ensures s@.len() <= isize::MAX;
proof fn lm_segs_len(s: Seq<char>, depth: nat)
    requires sp_segs_ok(s, depth),
    ensures depth <= s.len() + 1
    decreases depth
{
    if depth > 1 { lm_segs_len(s.take(sp_slash(s)), (depth - 1) as nat); }
}
/// the numbers of entries and their sizes as they are rendered
proof fn lm_one(l: Seq<Option<NamedLeaf>>, m: Metadata, path: Seq<Seq<char>>)
    requires al_all(sp_als(l)),
    ensures
        sp_all_some(l),
        rd_one(path, sp_als(l), m).block == sp_dir_block(l, m),
        rd_one(path, sp_als(l), m).total == sp_dir_block(l, m).len() + sp_totals(l),
        rd_one(path, sp_als(l), m).cid == sp_block_cid(sp_dir_block(l, m)),
{ lm_als(l); }
impl PostOrderIterator {
    spec fn sp_top(self) -> Visited { self.pending@.last() }
    spec fn sp_next(self) -> RS { rs_step(sp_av(self.sp_top()), self.sp_state(), self.opts.wrap_with_directory) }
    /// the invariant, spelled out
    proof fn lm_top(self)
        requires self.sp_inv(),
        ensures
            self.reused_children@.len() == 0,
            self.pending@.len() == 0 ==> self.sp_outs().len() == 0,
            self.pending@.len() > 0 ==> self.sp_next().ok,
            self.pending@.len() > 0 && self.sp_next().outs.len() == 1 && !(self.sp_top() is Descent) ==> self.sp_outs().len() > 0 && self.sp_outs()[0] == self.sp_next().outs[0],
            self.pending@.len() > 1 ==> sp_below(self.sp_top()),
            sp_segs_ok(self.full_path@, self.old_depth as nat),
            self.old_depth <= isize::MAX + 1,
            sp_segs(self.full_path@, self.old_depth as nat).len() == self.old_depth,
    {
        reveal(PostOrderIterator::sp_inv);
        reveal(PostOrderIterator::sp_outs);
        lm_segs_len(self.full_path@, self.old_depth as nat);
        lm_join(self.full_path@, self.old_depth as nat);
        ax_string_len(self.full_path);
        if self.pending@.len() > 0 {
            assert(sp_avs(self.pending@).drop_last() =~= sp_avs(self.pending@.drop_last()));
            lm_run_ok(sp_avs(self.pending@.drop_last()), self.sp_next(), self.opts.wrap_with_directory);
            lm_run_outs(sp_avs(self.pending@.drop_last()), self.sp_next(), self.opts.wrap_with_directory);
        }
    }
    /// nothing is pending any more
    proof fn lm_cleared(self)
        requires
            self.pending@.len() == 0, self.reused_children@.len() == 0, sp_segs_ok(self.full_path@, self.old_depth as nat),
        ensures self.sp_inv(), self.sp_outs().len() == 0
    {
        reveal(PostOrderIterator::sp_inv);
        reveal(PostOrderIterator::sp_outs);
    }
    /// a directory has been replaced by its subdirectories and itself again
    #[verifier::spinoff_prover]
    proof fn lm_expanded(self, before: Self, post: Visited, c: Seq<Visited>)
        requires
            before.sp_inv(), before.pending@.len() > 0, before.sp_top() is Descent || before.sp_top() is DescentRoot,
            self.opts == before.opts, self.reused_children@.len() == 0,
            self.pending@ == before.pending@.drop_last().push(post) + c,
            sp_segs_ok(self.full_path@, self.old_depth as nat),
            forall|i: int| 0 <= i < c.len() ==> sp_below(#[trigger] c[i]),
            ({
                let v = sp_av(before.sp_top());
                let t = match v { AV::Descent { t, .. } => t, AV::DescentRoot(t) => t, _ => arbitrary() };
                let depth = match v { AV::Descent { depth, .. } => depth, _ => 0 };
                let k = av_descents(t.kids, depth + 1, t.kids.len() as int);
                let leaves = if k.len() > 0 { AS::Stashed(t.id) } else { AS::Direct(al_part(t.kids)) };
                let m = sp_stash(before.persisted_cids@);
                &&& sp_avs(c) == k
                &&& sp_stash(self.persisted_cids@) == (if k.len() > 0 { m.insert(t.id, al_part(t.kids)) } else { m })
                &&& match v {
                    AV::Descent { t, name, depth, index } => {
                        &&& sp_segs(self.full_path@, self.old_depth as nat) == path_at(sp_segs(before.full_path@, before.old_depth as nat), name, depth)
                        &&& sp_av(post) == (AV::Post { parent: t.parent->0, depth, name, index, leaves, meta: t.meta })
                    },
                    _ => self.old_depth == 0 && sp_av(post) == (AV::PostRoot { leaves, meta: t.meta }),
                }
            }),
        ensures self.sp_inv(), self.sp_outs() == before.sp_outs(), self.sp_left() < before.sp_left()
    {
        reveal(PostOrderIterator::sp_left);
        before.lm_top();
        reveal(PostOrderIterator::sp_inv);
        reveal(PostOrderIterator::sp_outs);
        let wrap = self.opts.wrap_with_directory;
        let rest = before.pending@.drop_last();
        assert(sp_avs(before.pending@).drop_last() =~= sp_avs(rest));
        lm_avs_add(rest.push(post), c);
        lm_avs_push(rest, post);
        let a = sp_avs(rest);
        let b = seq![sp_av(post)] + sp_avs(c);
        assert(a.push(sp_av(post)) + sp_avs(c) =~= a + b);
        lm_run_add(a, b, self.sp_state(), wrap);
        match sp_av(before.sp_top()) {
            AV::Descent { t, depth, .. } => { lm_wt_less(sp_avs(before.pending@), sp_av(post), t, depth + 1); },
            AV::DescentRoot(t) => { lm_wt_less(sp_avs(before.pending@), sp_av(post), t, 1); },
            _ => {},
        }
        match sp_av(before.sp_top()) {
            AV::Descent { t, name, depth, index } => { lm_run_descent(t, name, depth, index, before.sp_state(), wrap); },
            AV::DescentRoot(t) => { assert(sp_segs(self.full_path@, 0) =~= Seq::empty()); lm_run_root(t, before.sp_state(), wrap); },
            _ => {},
        }
        assert forall|i: int| 0 < i < self.pending@.len() implies sp_below(#[trigger] self.pending@[i]) by {
            if i < rest.len() { assert(before.pending@[i] == self.pending@[i]); }
            else if i == rest.len() { assert(sp_below(before.sp_top())); }
            else { assert(c[i - rest.len() - 1] == self.pending@[i]); }
        }
    }
    /// a directory has been emitted
    #[verifier::spinoff_prover]
    proof fn lm_emitted(self, before: Self, o: BO)
        requires
            before.sp_inv(), before.pending@.len() > 0,
            self.opts == before.opts, self.reused_children@.len() == 0,
            self.pending@ == before.pending@.drop_last(),
            sp_segs_ok(self.full_path@, self.old_depth as nat),
            before.sp_next().outs == seq![o],
            before.sp_next().path == sp_segs(self.full_path@, self.old_depth as nat),
            before.sp_next().stash == sp_stash(self.persisted_cids@),
        ensures
            self.sp_inv(), before.sp_outs() == seq![o] + self.sp_outs(),
    {
        before.lm_top();
        reveal(PostOrderIterator::sp_inv);
        reveal(PostOrderIterator::sp_outs);
        let wrap = self.opts.wrap_with_directory;
        assert(sp_avs(before.pending@).drop_last() =~= sp_avs(self.pending@));
        assert(RS { outs: Seq::empty(), ..before.sp_next() } == self.sp_state());
        lm_run_outs(sp_avs(self.pending@), before.sp_next(), wrap);
        assert forall|i: int| 0 < i < self.pending@.len() implies sp_below(#[trigger] self.pending@[i]) by {
            assert(before.pending@[i] == self.pending@[i]);
        }
    }
    /// the root was not asked for
    proof fn lm_no_root(self, before: Self)
        requires
            before.sp_inv(), before.pending@.len() > 0, before.sp_top() is PostRoot, !before.opts.wrap_with_directory,
        ensures before.pending@.len() == 1, before.sp_outs().len() == 0
    {
        before.lm_top();
        reveal(PostOrderIterator::sp_inv);
        reveal(PostOrderIterator::sp_outs);
        assert(sp_avs(before.pending@).drop_last() =~= sp_avs(before.pending@.drop_last()));
        assert(sp_avs(before.pending@.drop_last()) =~= Seq::empty());
        assert(before.sp_final() == before.sp_next()) by { reveal_with_fuel(rs_run, 2); }
    }
}
}
@fn PostOrderIterator::next_borrowed props=C04,C07,C08,C09,C10,C14
@ret r
@attrs #[verifier::loop_isolation(false)] #[verifier::rlimit(30)]
@spec
    requires
        old(self).sp_inv(),
    ensures
        final(self).sp_inv(),
        final(self).sp_limit() == old(self).sp_limit(),
        match r {
            None => old(self).sp_outs().len() == 0 && final(self).sp_outs().len() == 0, // [C09]
            Some(Ok(n)) => {
                &&& old(self).sp_outs().len() > 0 // [C09]
                &&& n.path@ == sp_join(old(self).sp_outs()[0].path) // [C09]
                &&& n.block@ == old(self).sp_outs()[0].block // [C04 C08 C09 C10 C14]
                &&& *n.cid == old(self).sp_outs()[0].cid // [C04]
                &&& n.total_size == old(self).sp_outs()[0].total // [C10]
                &&& (old(self).sp_limit() matches Some(l) ==> n.block@.len() <= l) // [C10]
                &&& final(self).sp_outs() == old(self).sp_outs().skip(1) // [C09]
            },
            Some(Err(TreeConstructionFailed::TooLargeBlock(k))) => {
                &&& old(self).sp_outs().len() > 0 // [C10]
                &&& k == old(self).sp_outs()[0].block.len() // [C10]
                &&& old(self).sp_limit() matches Some(l) && l < k // [C10]
                &&& final(self).sp_outs().len() == 0 // [C10]
            },
            Some(Err(_)) => false, // [C10]
        },
@loop 0
invariant
    self.sp_inv(),
    self.sp_outs() == old(self).sp_outs(),
    self.opts == old(self).opts,
decreases self.sp_left()
@proof start
hide(rs_run); hide(rd_kids); hide(rd_seq); hide(bt_ok); hide(sp_segs_ok); hide(sp_segs); hide(sp_join); hide(av_descents); hide(bt_leaves); hide(sp_bt); hide(al_part);
broadcast use vstd::std_specs::hash::group_hash_axioms;
@replace any
break ;
@with
{ proof { self.lm_no_root(v_s); self.lm_cleared(); } break; }
@replace
while let Some ( visited ) = self . pending . pop ( ) { $$b }
@with
loop {
    let ghost v_s = *self;
    proof { self.lm_top(); }
    match self.pending.pop() {
        None => { proof { self.lm_cleared(); } break; }
        Some(visited) => {
            let ghost v_0 = visited;
            proof { assert(self.pending@ =~= v_s.pending@.drop_last()); }
            $b
        }
    }
}
@replace
Visited :: DescentRoot ( $n ) => { $$b }
@with
Visited::DescentRoot($n) => {
    let ghost v_n = $n;
    let ghost mut v_c = Seq::<Visited>::empty();
    proof { lm_bt($n); }
    $b
    proof {
        let n = v_s.pending@.len() - 1;
        let k = sp_bt(v_n).kids;
        assert(self.pending@ =~= v_s.pending@.drop_last().push(self.pending@[n]) + v_c);
        assert(sp_stash(self.persisted_cids@) =~= (if v_c.len() > 0 { sp_stash(v_s.persisted_cids@).insert(v_n.id, al_part(k)) } else { sp_stash(v_s.persisted_cids@) }));
        assert(sp_avs(v_c).len() == v_c.len());
        self.lm_expanded(v_s, self.pending@[n], v_c);
    }
}
@replace
Visited :: Descent { node , $$n } => { $$b }
@with
Visited::Descent { node, $n } => {
    let ghost v_n = node;
    let ghost mut v_c = Seq::<Visited>::empty();
    proof { lm_bt(node); }
    $b
    proof {
        let n = v_s.pending@.len() - 1;
        let k = sp_bt(v_n).kids;
        assert(self.pending@ =~= v_s.pending@.drop_last().push(self.pending@[n]) + v_c);
        assert(sp_stash(self.persisted_cids@) =~= (if v_c.len() > 0 { sp_stash(v_s.persisted_cids@).insert(v_n.id, al_part(k)) } else { sp_stash(v_s.persisted_cids@) }));
        assert(sp_avs(v_c).len() == v_c.len());
        self.lm_expanded(v_s, self.pending@[n], v_c);
    }
}
@replace any
self . pending . append ( $c ) ;
@with
{ proof { v_c = $c@; } self.pending.append($c); }
@replace any
Some ( name . as_ref ( ) )
@with
Some(name.as_str())
@replace any
node . nodes . into_iter ( )
@with
v_entries(node.nodes)
@replace
self . persisted_cids . get_mut ( $x )
@with
v_stash_mut(&mut self.persisted_cids, $x)
@replace any
leaves . into_inner ( $x )
@with
{
    let v_l = leaves.into_inner($x);
    proof { if al_all(sp_als(v_l@)) { lm_one(v_l@, sp_meta(v_0), sp_segs(self.full_path@, self.old_depth as nat)); } }
    v_l
}
@replace any
return Some ( Err ( $e ) ) ;
@with
{ proof { self.lm_cleared(); } return Some(Err($e)); }
@replace any
return Some ( Ok ( $$x ) ) ;
@with
{
    proof {
        match v_0 {
            Visited::Post { parent_id, name, index, leaves, .. } => {
                let m = as_stash(sp_as(leaves), sp_stash(v_s.persisted_cids@));
                assert(sp_als(self.persisted_cids@[parent_id]@) =~= v_s.sp_next().stash[parent_id]);
            },
            _ => {},
        }
        assert(sp_stash(self.persisted_cids@) =~= v_s.sp_next().stash);
        assert(v_s.sp_next().outs =~= seq![v_s.sp_next().outs[0]]);
        self.lm_emitted(v_s, v_s.sp_next().outs[0]);
        lm_join(self.full_path@, self.old_depth as nat);
        assert(self.sp_outs() =~= v_s.sp_outs().skip(1));
    }
    return Some(Ok($x));
}
@append
verus! {
spec fn sp_meta(v: Visited) -> Metadata {
    match v { Visited::Post { metadata, .. } => metadata, Visited::PostRoot { metadata, .. } => metadata, _ => arbitrary() }
}
}
@append
verus! {
#[verifier::external_body]
fn v_owned_str(s: &str) -> (r: String)
    ensures r@ == s@
{ s.to_owned() }
#[verifier::external_body]
fn v_owned_cid(c: &Cid) -> (r: Cid)
    ensures r == *c
{ c.to_owned() }
#[verifier::external_body]
fn v_boxed(b: &[u8]) -> (r: Box<[u8]>)
    ensures r@ == b@
{ b.into() }
impl OwnedTreeNode {
    /// is the directory
    pub open spec fn sp_is(self, o: BO) -> bool {
        self.path@ == sp_join(o.path) && self.block@ == o.block && self.cid == o.cid && self.total_size == o.total
    }
}
/// how long what is rendered may be until it is refused
pub open spec fn bo_fits(o: BO, limit: Option<u64>) -> bool { limit matches Some(l) ==> o.block.len() <= l }
}
@fn TreeNode::into_owned props=C04,C09,C10
@ret r
@spec
    ensures r.path@ == self.path@, r.cid == *self.cid, r.total_size == self.total_size, r.block@ == self.block@, // [C04 C09 C10]
@replace any
self . path . to_owned ( )
@with
v_owned_str(self.path)
@replace any
self . cid . to_owned ( )
@with
v_owned_cid(self.cid)
@replace any
self . block . into ( )
@with
v_boxed(self.block)
@dup Iterator@PostOrderIterator::next as=v_next priv props=C04,C09,C10
@ret r
@spec
    requires old(self).sp_inv(),
    ensures
        final(self).sp_inv(),
        final(self).sp_limit() == old(self).sp_limit(),
        match r {
            None => old(self).sp_outs().len() == 0 && final(self).sp_outs().len() == 0, // [C09]
            Some(Ok(n)) => {
                &&& old(self).sp_outs().len() > 0 // [C09]
                &&& n.sp_is(old(self).sp_outs()[0]) // [C04 C09 C10]
                &&& bo_fits(old(self).sp_outs()[0], old(self).sp_limit()) // [C10]
                &&& final(self).sp_outs() == old(self).sp_outs().skip(1) // [C09]
            },
            Some(Err(TreeConstructionFailed::TooLargeBlock(k))) => {
                &&& old(self).sp_outs().len() > 0 // [C10]
                &&& k == old(self).sp_outs()[0].block.len() // [C10]
                &&& !bo_fits(old(self).sp_outs()[0], old(self).sp_limit()) // [C10]
                &&& final(self).sp_outs().len() == 0 // [C10]
            },
            Some(Err(_)) => false, // [C10]
        },
@replace
. map ( | res | res . map ( TreeNode :: into_owned ) )
@with
.map(|res: Result<TreeNode<'_>, TreeConstructionFailed>| -> (q: Result<OwnedTreeNode, TreeConstructionFailed>)
    ensures match res {
        Ok(n) => q matches Ok(m) && m.path@ == n.path@ && m.cid == *n.cid && m.total_size == n.total_size && m.block@ == n.block@,
        Err(e) => q == Err::<OwnedTreeNode, TreeConstructionFailed>(e),
    }
    { match res { Ok(n) => Ok(TreeNode::into_owned(n)), Err(e) => Err(e) } })
@replace any
Self :: Item
@with
Result<OwnedTreeNode, TreeConstructionFailed>
@append
verus! {
impl PostOrderIterator {
    /// everything, one after the other
    pub(super) fn v_all(self) -> (r: (Vec<OwnedTreeNode>, Option<TreeConstructionFailed>))
        requires self.sp_inv(),
        ensures
            forall|i: int| 0 <= i < r.0@.len() ==> (#[trigger] r.0@[i]).sp_is(self.sp_outs()[i]) && bo_fits(self.sp_outs()[i], self.sp_limit()), // [C04 C09 C10 C14]
            match r.1 {
                None => r.0@.len() == self.sp_outs().len(), // [C09]
                Some(TreeConstructionFailed::TooLargeBlock(k)) => {
                    &&& r.0@.len() < self.sp_outs().len() // [C10]
                    &&& !bo_fits(self.sp_outs()[r.0@.len() as int], self.sp_limit()) // [C10]
                    &&& k == self.sp_outs()[r.0@.len() as int].block.len() // [C10]
                },
                Some(_) => false, // [C10]
            }
    {
        let ghost all = self.sp_outs();
        let ghost limit = self.sp_limit();
        let mut it = self;
        let mut out: Vec<OwnedTreeNode> = Vec::new();
        let mut err: Option<TreeConstructionFailed> = None;
        proof { assert(all.skip(0) =~= all); }
        loop
            invariant
                it.sp_inv(), it.sp_limit() == limit, limit == self.sp_limit(), all == self.sp_outs(),
                out@.len() <= all.len(),
                err is None ==> it.sp_outs() == all.skip(out@.len() as int),
                err is Some ==> it.sp_outs().len() == 0 && out@.len() < all.len(),
                forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).sp_is(all[i]) && bo_fits(all[i], limit),
                match err {
                    None => true,
                    Some(TreeConstructionFailed::TooLargeBlock(k)) => !bo_fits(all[out@.len() as int], limit) && k == all[out@.len() as int].block.len(),
                    Some(_) => false,
                },
            ensures err is None ==> out@.len() == all.len()
            decreases it.sp_outs().len()
        {
            proof { assert(err is None ==> it.sp_outs().len() == all.len() - out@.len()); }
            match it.v_next() {
                None => { break; }
                Some(Ok(n)) => {
                    proof { assert(all.skip(out@.len() as int).skip(1) =~= all.skip(out@.len() as int + 1)); }
                    out.push(n);
                }
                Some(Err(e)) => { err = Some(e); }
            }
        }
        (out, err)
    }
}
}
@file src/dir/builder.rs
@type TreeBuildingFailed
@append
verus! {
/// the order of names is that of their bytes
pub open spec fn sp_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true } else { a[0] < b[0] || (a[0] == b[0] && sp_lt(a.skip(1), b.skip(1))) }
}
pub open spec fn sp_less(a: Seq<char>, b: Seq<char>) -> bool { sp_lt(vstd::utf8::encode_utf8(a), vstd::utf8::encode_utf8(b)) }
/// the map yields its entries in ascending order
axiom fn ax_entries_sorted(m: BTreeMap<String, Entry>)
    ensures forall|i: int, j: int| 0 <= i < j < sp_entries(m).len() ==> sp_less((#[trigger] sp_entries(m)[i]).0@, (#[trigger] sp_entries(m)[j]).0@);
/// entries are sorted by name, here and below
pub open spec fn bt_sorted(t: BT) -> bool
    decreases t
{
    &&& forall|i: int, j: int| 0 <= i < j < t.kids.len() ==> sp_less((#[trigger] t.kids[i]).name, (#[trigger] t.kids[j]).name)
    &&& forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() ==> (t.kids[i].item matches BE::Dir(s) ==> bt_sorted(s))
}
proof fn lm_sorted(d: DirBuilder)
    ensures bt_sorted(sp_bt(d))
    decreases d
{
    broadcast use ax_entries_in;
    let s = sp_entries(d.nodes);
    let t = sp_bt(d);
    lm_bt(d);
    ax_entries_sorted(d.nodes);
    assert forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() implies (t.kids[i].item matches BE::Dir(s) ==> bt_sorted(s)) by {
        match s[i].1 {
            Entry::Directory(x) => { assert(decreases_to!(d.nodes => s[i].1)); lm_sorted(x); },
            Entry::Leaf(_) => {},
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.kids.len() implies sp_less((#[trigger] t.kids[i]).name, (#[trigger] t.kids[j]).name) by {
        assert(s[i].0@ == t.kids[i].name && s[j].0@ == t.kids[j].name);
    }
}
/// the entry with the name
pub open spec fn bk_find(k: Seq<BK>, name: Seq<char>) -> Option<int>
    decreases k.len()
{
    if k.len() == 0 { None } else if k.last().name == name { Some(k.len() - 1) } else { bk_find(k.drop_last(), name) }
}
/// where a new entry with the name goes
pub open spec fn bk_pos(k: Seq<BK>, name: Seq<char>) -> int
    decreases k.len()
{
    if k.len() == 0 || sp_less(k.last().name, name) { k.len() as int } else { bk_pos(k.drop_last(), name) }
}
pub open spec fn bk_insert(k: Seq<BK>, name: Seq<char>, item: BE) -> Seq<BK> { k.insert(bk_pos(k, name), BK { name, item }) }
pub proof fn lm_pos(k: Seq<BK>, name: Seq<char>)
    ensures 0 <= bk_pos(k, name) <= k.len()
    decreases k.len()
{
    if k.len() > 0 { lm_pos(k.drop_last(), name); }
}
pub proof fn lm_find(k: Seq<BK>, name: Seq<char>)
    ensures
        match bk_find(k, name) {
            Some(i) => 0 <= i < k.len() && k[i].name == name,
            None => forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).name != name,
        },
    decreases k.len()
{
    if k.len() > 0 && k.last().name != name {
        lm_find(k.drop_last(), name);
        if bk_find(k.drop_last(), name) is None {
            assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]).name != name by { if i < k.len() - 1 { assert(k.drop_last()[i] == k[i]); } }
        }
    }
}
pub proof fn lm_find_same(k: Seq<BK>, name: Seq<char>)
    ensures
        bk_find(k, name) matches Some(i) ==> 0 <= i < k.len() && k.update(i, BK { name, item: k[i].item }) == k,
{
    lm_find(k, name);
    match bk_find(k, name) { Some(i) => { assert(k.update(i, BK { name, item: k[i].item }) =~= k); }, None => {} }
}
/// what is done to a directory: an entry is put, or metadata is set
pub enum BOp { Put(Cid, u64), Meta(Metadata) }
/// why it is refused
pub enum EK { Rooted, Repeated, EndsInSlash, TooMany, Duplicate, LeafAsDirectory }
pub uninterp spec fn sp_no_metadata() -> Metadata;
pub open spec fn bt_new(parent: u64, id: u64) -> BT { BT { id, parent: Some(parent), meta: sp_no_metadata(), kids: Seq::empty() } }
pub open spec fn op_ok(op: BOp, t: BT, name: Seq<char>) -> bool {
    match bk_find(t.kids, name) { None => true, Some(i) => op is Meta && t.kids[i].item is Dir }
}
pub open spec fn op_new(op: BOp, t: BT, name: Seq<char>) -> bool { op is Meta && bk_find(t.kids, name) is None }
pub open spec fn op_do(op: BOp, t: BT, name: Seq<char>, id: u64) -> BT {
    match op {
        BOp::Put(c, n) => BT { kids: bk_insert(t.kids, name, BE::Leaf(c, n)), ..t },
        BOp::Meta(m) => match bk_find(t.kids, name) {
            None => BT { kids: bk_insert(t.kids, name, BE::Dir(BT { meta: m, ..bt_new(t.id, id) })), ..t },
            Some(i) => bt_at(t, i, name, BT { meta: m, ..t.kids[i].item->Dir_0 }),
        },
    }
}
pub open spec fn op_err(op: BOp) -> EK { match op { BOp::Put(_, _) => EK::Duplicate, BOp::Meta(_) => EK::LeafAsDirectory } }
/// the directory with another subdirectory in a place
pub open spec fn bt_at(t: BT, i: int, name: Seq<char>, s: BT) -> BT { BT { kids: t.kids.update(i, BK { name, item: BE::Dir(s) }), ..t } }
pub open spec fn bt_add(t: BT, name: Seq<char>, s: BT) -> BT { BT { kids: bk_insert(t.kids, name, BE::Dir(s)), ..t } }
/// what comes of the operation below a directory: the directory and the next number, or why it is refused
pub open spec fn bt_mod(t: BT, segs: Seq<Seq<char>>, j: int, c: int, op: BOp) -> Result<(BT, int), EK>
    decreases segs.len() - j
{
    if j >= segs.len() - 1 {
        if op_ok(op, t, segs.last()) { Ok((op_do(op, t, segs.last(), c as u64), if op_new(op, t, segs.last()) { c + 1 } else { c })) } else { Err(op_err(op)) }
    } else {
        match bk_find(t.kids, segs[j]) {
            Some(i) => match t.kids[i].item {
                BE::Dir(s) => match bt_mod(s, segs, j + 1, c, op) { Ok((u, d)) => Ok((bt_at(t, i, segs[j], u), d)), Err(e) => Err(e) },
                BE::Leaf(_, _) => Err(EK::LeafAsDirectory),
            },
            None => match bt_mod(bt_new(t.id, c as u64), segs, j + 1, c + 1, op) { Ok((u, d)) => Ok((bt_add(t, segs[j], u), d)), Err(e) => Err(e) },
        }
    }
}
/// the segments between the slashes
pub open spec fn sp_split(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if sp_slash(s) < 0 || sp_slash(s) >= s.len() { seq![s] } else { sp_split(s.take(sp_slash(s))).push(s.skip(sp_slash(s) + 1)) }
}
pub open spec fn sp_repeats(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() - 1 && #[trigger] s[i] == '/' && s[i + 1] == '/' }
/// and at the root, with the faults of the path
pub open spec fn bt_mod_all(t: BT, s: Seq<char>, wrap: bool, c: int, op: BOp) -> Result<(BT, int), EK> {
    let segs = sp_split(s);
    if s.len() > 0 && s.last() == '/' { Err(EK::EndsInSlash) }
    else if sp_repeats(s) { Err(EK::Repeated) }
    else if segs.len() > 1 && segs[0].len() == 0 { Err(EK::Rooted) }
    else if !wrap && t.kids.len() > 0 && bk_find(t.kids, segs[0]) is None { Err(EK::TooMany) }
    else { bt_mod(t, segs, 0, c, op) }
}
pub open spec fn sp_kind(e: TreeBuildingFailed) -> EK {
    match e {
        TreeBuildingFailed::RootedPath(_) => EK::Rooted,
        TreeBuildingFailed::RepeatSlashesInPath(_) => EK::Repeated,
        TreeBuildingFailed::PathEndsInSlash(_) => EK::EndsInSlash,
        TreeBuildingFailed::TooManyRootLevelEntries => EK::TooMany,
        TreeBuildingFailed::DuplicatePath(_) => EK::Duplicate,
        TreeBuildingFailed::LeafAsDirectory(_) => EK::LeafAsDirectory,
    }
}
/// stands for btree_map::Entry
enum VEntry<'a> { Occupied(VOcc<'a>), Vacant(VVac<'a>) }
struct VOcc<'a> { e: &'a mut Entry }
struct VVac<'a> { map: &'a mut BTreeMap<String, Entry>, key: String }
impl<'a> VOcc<'a> {
    fn into_mut(self) -> (r: &'a mut Entry)
        ensures *r == *old(self.e), *final(self.e) == *final(r)
    { self.e }
}
spec fn sp_map(m: BTreeMap<String, Entry>) -> Seq<BK> { sp_kids(sp_entries(m)) }
impl<'a> VVac<'a> {
    #[verifier::external_body]
    fn insert(self, v: Entry) -> (r: &'a mut Entry)
        ensures *r == v, sp_map(*final(self.map)) == bk_insert(sp_map(*old(self.map)), self.key@, sp_be(*final(r)))
    { self.map.entry(self.key).or_insert(v) }
}
#[verifier::external_body]
fn v_entry<'a>(m: &'a mut BTreeMap<String, Entry>, key: String) -> (r: VEntry<'a>)
    ensures
        match r {
            VEntry::Occupied(o) => {
                &&& bk_find(sp_map(*old(m)), key@) is Some
                &&& sp_be(*o.e) == sp_map(*old(m))[bk_find(sp_map(*old(m)), key@)->0].item
                &&& sp_map(*final(m)) == sp_map(*old(m)).update(bk_find(sp_map(*old(m)), key@)->0, BK { name: key@, item: sp_be(*final(o.e)) })
            },
            VEntry::Vacant(v) => bk_find(sp_map(*old(m)), key@) is None && *v.map == *old(m) && v.key@ == key@ && *final(m) == *final(v.map),
        },
{
    if m.contains_key(&key) { VEntry::Occupied(VOcc { e: m.get_mut(&key).unwrap() }) } else { VEntry::Vacant(VVac { map: m, key }) }
}
#[verifier::external_body]
fn v_has(m: &BTreeMap<String, Entry>, key: &str) -> (r: bool)
    ensures r == bk_find(sp_map(*m), key@) is Some
{ m.contains_key(key) }
#[verifier::external_body]
fn v_count(m: &BTreeMap<String, Entry>) -> (r: usize)
    ensures r == sp_map(*m).len()
{ m.len() }
#[verifier::external_body]
fn v_no_entries() -> (r: BTreeMap<String, Entry>)
    ensures sp_map(r) == Seq::<BK>::empty()
{ Default::default() }
#[verifier::external_body]
fn v_no_metadata() -> (r: Metadata)
    ensures r == sp_no_metadata()
{ Default::default() }
}
@fn Entry::as_dir_builder props=C09
@ret r
@spec
    ensures
        match r {
            Ok(d) => *old(self) == Entry::Directory(*d) && *final(self) == Entry::Directory(*final(d)), // [C09]
            Err(_) => *old(self) is Leaf && *final(self) == *old(self), // [C09]
        },
@file src/dir/builder/dir_builder.rs
@append
verus! {
use super::*;
}
@fn DirBuilder::new props=C09,C14
@ret r
@spec
    requires parent_id != id,
    ensures sp_bt(r) == bt_new(parent_id, id), // [C09 C14]
@replace
nodes : Default :: default ( )
@with
nodes: v_no_entries()
@replace
metadata : Default :: default ( )
@with
metadata: v_no_metadata()
@proof start
broadcast use lm_bt;
@fn DirBuilder::root props=C09
@ret r
@spec
    ensures sp_bt(r) == (BT { id, parent: None, meta: sp_no_metadata(), kids: Seq::empty() }), // [C09]
@replace
nodes : Default :: default ( )
@with
nodes: v_no_entries()
@replace
metadata : Default :: default ( )
@with
metadata: v_no_metadata()
@proof start
broadcast use lm_bt;
@fn DirBuilder::len props=C09
@ret r
@spec
    ensures r == sp_bt(*self).kids.len(), // [C09]
@proof start
broadcast use lm_bt;
@replace any
self . nodes . len ( )
@with
v_count(&self.nodes)
@fn DirBuilder::is_empty props=C09
@ret r
@spec
    ensures r == (sp_bt(*self).kids.len() == 0), // [C09]
@proof start
broadcast use lm_bt;
@replace any
self . nodes . is_empty ( )
@with
(v_count(&self.nodes) == 0)
@fn DirBuilder::set_metadata props=C14
@spec
    ensures sp_bt(*final(self)) == (BT { meta: metadata, ..sp_bt(*old(self)) }), // [C14]
@proof start
broadcast use lm_bt;
@fn DirBuilder::put_leaf props=C09
@ret r
@spec
    ensures
        ({
            let op = BOp::Put(leaf.sp_link(), leaf.sp_total());
            let t = sp_bt(*old(self));
            match r {
                Ok(_) => op_ok(op, t, key@) && sp_bt(*final(self)) == op_do(op, t, key@, 0), // [C09]
                Err(_) => !op_ok(op, t, key@) && sp_bt(*final(self)) == t, // [C09]
            }
        }),
@replace
self . nodes . entry ( $x )
@with
v_entry(&mut self.nodes, $x)
@proof start
broadcast use lm_bt;
use super::VEntry::{Occupied, Vacant};
proof { lm_find_same(sp_bt(*self).kids, key@); }
@fn DirBuilder::add_or_get_node props=C09,C14
@ret r
@spec
    requires
        *old(id) is Some,
        (*old(id))->0 != sp_bt(*old(self)).id,
    ensures
        ({
            let t = sp_bt(*old(self));
            match bk_find(t.kids, key@) {
                None => {
                    &&& r matches Ok(d) && sp_bt(*d) == bt_new(t.id, (*old(id))->0) // [C09]
                    &&& sp_bt(*final(self)) == bt_add(t, key@, sp_bt(*final(r->Ok_0))) // [C09]
                    &&& *final(id) is None // [C09]
                },
                Some(i) => {
                    &&& *final(id) == *old(id)
                    &&& r is Ok == t.kids[i].item is Dir // [C09]
                    &&& r is Err ==> sp_bt(*final(self)) == t // [C09]
                    &&& r matches Ok(d) ==> BE::Dir(sp_bt(*d)) == t.kids[i].item && sp_bt(*final(self)) == bt_at(t, i, key@, sp_bt(*final(d))) // [C09]
                },
            }
        }),
@replace
self . nodes . entry ( $x )
@with
v_entry(&mut self.nodes, $x)
@replace
oe . into_mut ( ) . as_dir_builder ( ) . map_err ( | _ | $e )
@with
match oe.into_mut().as_dir_builder() { Ok(v_d) => Ok(v_d), Err(_) => Err($e) }
@proof start
broadcast use lm_bt;
use super::VEntry::{Occupied, Vacant};
proof { lm_find_same(sp_bt(*self).kids, key@); }
@file src/dir/builder.rs
@append
verus! {
/// numbers are not used again below, names have no slashes, only an empty directory at the root can be without a name
pub open spec fn bt_shape(t: BT, above: Set<u64>, depth: int) -> bool
    decreases t
{
    &&& !above.contains(t.id)
    &&& forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() ==> {
        &&& !t.kids[i].name.contains('/')
        &&& depth > 0 ==> t.kids[i].name.len() > 0
        &&& t.kids[i].item matches BE::Dir(s) ==> {
            &&& s.parent == Some(t.id)
            &&& s.kids.len() > 0 ==> t.kids[i].name.len() > 0
            &&& bt_shape(s, above.insert(t.id), depth + 1)
        }
    }
}
/// the sizes of all directories fit
pub open spec fn bt_fits(t: BT) -> bool
    decreases t
{
    &&& rd_self(t, Seq::empty()).total <= u64::MAX
    &&& forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() ==> (t.kids[i].item matches BE::Dir(s) ==> bt_fits(s))
}
pub proof fn lm_shape_ok(t: BT, above: Set<u64>, depth: int)
    requires bt_shape(t, above, depth), bt_fits(t),
    ensures bt_ok(t, above, depth)
    decreases t
{
    assert forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() implies {
        &&& !t.kids[i].name.contains('/')
        &&& depth > 0 ==> t.kids[i].name.len() > 0
        &&& t.kids[i].item matches BE::Dir(s) ==> {
            &&& s.parent == Some(t.id)
            &&& s.kids.len() > 0 ==> t.kids[i].name.len() > 0
            &&& bt_ok(s, above.insert(t.id), depth + 1)
        }
    } by {
        match t.kids[i].item { BE::Dir(s) => { lm_shape_ok(s, above.insert(t.id), depth + 1); }, _ => {} }
    }
}
/// all numbers are lower
pub open spec fn bt_below(t: BT, c: int) -> bool
    decreases t
{
    &&& t.id < c
    &&& forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() ==> (t.kids[i].item matches BE::Dir(s) ==> bt_below(s, c))
}
pub proof fn lm_below(t: BT, c: int, d: int)
    requires bt_below(t, c), c <= d,
    ensures bt_below(t, d)
    decreases t
{
    assert forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() implies (t.kids[i].item matches BE::Dir(s) ==> bt_below(s, d)) by {
        match t.kids[i].item { BE::Dir(s) => { lm_below(s, c, d); }, _ => {} }
    }
}
pub open spec fn sp_segs_fine(segs: Seq<Seq<char>>) -> bool {
    &&& segs.len() > 0
    &&& forall|i: int| 0 <= i < segs.len() ==> !(#[trigger] segs[i]).contains('/')
    &&& forall|i: int| 1 <= i < segs.len() ==> (#[trigger] segs[i]).len() > 0
    &&& segs.len() > 1 ==> segs[0].len() > 0
}
pub open spec fn sp_above(above: Set<u64>, c: int) -> bool { forall|x: u64| #[trigger] above.contains(x) ==> x < c }
/// the shape of one changed entry
spec fn sp_kid_shape(t: BT, k: BK, depth: int, above: Set<u64>) -> bool {
    &&& !k.name.contains('/')
    &&& depth > 0 ==> k.name.len() > 0
    &&& k.item matches BE::Dir(s) ==> s.parent == Some(t.id) && (s.kids.len() > 0 ==> k.name.len() > 0) && bt_shape(s, above.insert(t.id), depth + 1)
}
spec fn sp_kid_below(k: BK, c: int) -> bool { k.item matches BE::Dir(s) ==> bt_below(s, c) }
/// one entry of a directory is new
proof fn lm_kid_added(t: BT, name: Seq<char>, item: BE, c: int, d: int, above: Set<u64>, depth: int)
    requires
        bt_shape(t, above, depth), bt_below(t, c), c <= d,
        sp_kid_shape(t, BK { name, item }, depth, above), sp_kid_below(BK { name, item }, d),
    ensures
        bt_shape(BT { kids: bk_insert(t.kids, name, item), ..t }, above, depth),
        bt_below(BT { kids: bk_insert(t.kids, name, item), ..t }, d),
{
    let u = BT { kids: bk_insert(t.kids, name, item), ..t };
    let p = bk_pos(t.kids, name);
    lm_pos(t.kids, name);
    lm_below(t, c, d);
    assert forall|i: int| #![trigger u.kids[i]] 0 <= i < u.kids.len() implies sp_kid_shape(u, u.kids[i], depth, above) && sp_kid_below(u.kids[i], d) by {
        if i < p { assert(u.kids[i] == t.kids[i]); } else if i > p { assert(u.kids[i] == t.kids[i - 1]); } else { assert(u.kids[i] == (BK { name, item })); }
    }
}
/// one entry of a directory has changed
proof fn lm_kid_changed(t: BT, n: int, name: Seq<char>, s: BT, c: int, d: int, above: Set<u64>, depth: int)
    requires
        0 <= n < t.kids.len(),
        bt_shape(t, above, depth), bt_below(t, c), c <= d,
        sp_kid_shape(t, BK { name, item: BE::Dir(s) }, depth, above), bt_below(s, d),
    ensures
        bt_shape(bt_at(t, n, name, s), above, depth),
        bt_below(bt_at(t, n, name, s), d),
{
    let u = bt_at(t, n, name, s);
    lm_below(t, c, d);
    assert forall|i: int| #![trigger u.kids[i]] 0 <= i < u.kids.len() implies sp_kid_shape(u, u.kids[i], depth, above) && sp_kid_below(u.kids[i], d) by {
        if i != n { assert(u.kids[i] == t.kids[i]); }
    }
}
/// the operations keep the shape
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
proof fn lm_mod_shape(t: BT, segs: Seq<Seq<char>>, j: int, c: int, op: BOp, above: Set<u64>)
    requires
        bt_mod(t, segs, j, c, op) is Ok, sp_segs_fine(segs), 0 <= j < segs.len(), 0 <= c, c + segs.len() - j <= u64::MAX,
        bt_shape(t, above, j), bt_below(t, c), sp_above(above, c),
    ensures
        ({
            let (u, d) = bt_mod(t, segs, j, c, op)->Ok_0;
            bt_shape(u, above, j) && bt_below(u, d) && c <= d <= c + segs.len() - j && u.id == t.id && u.parent == t.parent && u.kids.len() > 0
        }),
    decreases segs.len() - j
{
    let name = segs[j];
    lm_find(t.kids, name);
    lm_pos(t.kids, name);
    if j == segs.len() - 1 {
        assert(segs.last() == name);
        let d = if op_new(op, t, name) { c + 1 } else { c };
        match op {
            BOp::Put(x, n) => { lm_kid_added(t, name, BE::Leaf(x, n), c, d, above, j); },
            BOp::Meta(m) => match bk_find(t.kids, name) {
                None => {
                    let s = BT { meta: m, ..bt_new(t.id, c as u64) };
                    assert(bt_shape(s, above.insert(t.id), j + 1));
                    assert(bt_below(s, d));
                    lm_kid_added(t, name, BE::Dir(s), c, d, above, j);
                },
                Some(i) => {
                    let s0 = t.kids[i].item->Dir_0;
                    let s = BT { meta: m, ..s0 };
                    lm_meta(s0, m, above.insert(t.id), j + 1, c);
                    lm_kid_changed(t, i, name, s, c, d, above, j);
                },
            },
        }
    } else {
        assert(name.len() > 0);
        let a = above.insert(t.id);
        match bk_find(t.kids, name) {
            Some(i) => {
                let s = t.kids[i].item->Dir_0;
                lm_mod_shape(s, segs, j + 1, c, op, a);
                let (u, d) = bt_mod(s, segs, j + 1, c, op)->Ok_0;
                lm_kid_changed(t, i, name, u, c, d, above, j);
            },
            None => {
                let s = bt_new(t.id, c as u64);
                assert(bt_shape(s, a, j + 1));
                assert(bt_below(s, c + 1));
                lm_mod_shape(s, segs, j + 1, c + 1, op, a);
                let (u, d) = bt_mod(s, segs, j + 1, c + 1, op)->Ok_0;
                lm_kid_added(t, name, BE::Dir(u), c, d, above, j);
            },
        }
    }
}
proof fn lm_meta(s: BT, m: Metadata, above: Set<u64>, depth: int, c: int)
    requires bt_shape(s, above, depth), bt_below(s, c),
    ensures bt_shape(BT { meta: m, ..s }, above, depth), bt_below(BT { meta: m, ..s }, c)
{
    let u = BT { meta: m, ..s };
    assert forall|i: int| #![trigger u.kids[i]] 0 <= i < u.kids.len() implies sp_kid_shape(u, u.kids[i], depth, above) && sp_kid_below(u.kids[i], c) by {
        assert(u.kids[i] == s.kids[i]);
    }
}
/// the segments of a path in which nothing is at fault
pub proof fn lm_split(s: Seq<char>)
    requires !sp_repeats(s), s.len() > 0 ==> s.last() != '/',
    ensures
        sp_split(s).len() > 0,
        forall|i: int| 0 <= i < sp_split(s).len() ==> !(#[trigger] sp_split(s)[i]).contains('/'),
        forall|i: int| 1 <= i < sp_split(s).len() ==> (#[trigger] sp_split(s)[i]).len() > 0,
    decreases s.len()
{
    lm_slash(s);
    let k = sp_slash(s);
    if k >= 0 {
        let h = s.take(k);
        if k > 0 && s[k - 1] == '/' { assert(sp_repeats(s)); }
        if sp_repeats(h) {
            let i = choose|i: int| 0 <= i < h.len() - 1 && #[trigger] h[i] == '/' && h[i + 1] == '/';
            assert(s[i] == '/' && s[i + 1] == '/');
        }
        lm_split(h);
        let t = sp_split(h);
        let x = s.skip(k + 1);
        let u = sp_split(s);
        assert(u =~= t.push(x));
        assert(!x.contains('/')) by {
            if x.contains('/') {
                let i = choose|i: int| 0 <= i < x.len() && x[i] == '/';
                assert(s[i + k + 1] == '/');
            }
        }
        assert(s[k] == '/');
        assert(s.last() == s[s.len() - 1]);
        assert(x.len() > 0);
        assert forall|i: int| 0 <= i < u.len() implies !(#[trigger] u[i]).contains('/') by {
            if i < t.len() { assert(u[i] == t[i]); } else { assert(u[i] == x); }
        }
        assert forall|i: int| 1 <= i < u.len() implies (#[trigger] u[i]).len() > 0 by {
            if i < t.len() { assert(u[i] == t[i]); } else { assert(u[i] == x); }
        }
    } else {
        assert(sp_split(s) =~= seq![s]);
    }
}
/// a directory without entries takes everything
pub proof fn lm_mod_new(t: BT, segs: Seq<Seq<char>>, j: int, c: int, op: BOp)
    requires t.kids.len() == 0,
    ensures bt_mod(t, segs, j, c, op) is Ok
    decreases segs.len() - j
{
    if j < segs.len() - 1 { lm_mod_new(bt_new(t.id, c as u64), segs, j + 1, c + 1, op); }
}
}
@append
verus! {
proof fn lm_mod_keeps(t: BT, s: Seq<char>, wrap: bool, c: int)
    requires
        bt_shape(t, Set::empty(), 0), bt_below(t, c), 0 <= c, c + sp_split(s).len() <= u64::MAX, !wrap ==> t.kids.len() <= 1,
    ensures
        forall|op: BOp| (#[trigger] bt_mod_all(t, s, wrap, c, op)) matches Ok(x) ==> {
            &&& bt_shape(x.0, Set::empty(), 0) && bt_below(x.0, x.1) && x.0.parent == t.parent && x.1 <= u64::MAX
            &&& !wrap ==> x.0.kids.len() <= 1
        },
{
    assert forall|op: BOp| (#[trigger] bt_mod_all(t, s, wrap, c, op)) is Ok implies {
        let x = bt_mod_all(t, s, wrap, c, op)->Ok_0;
        &&& bt_shape(x.0, Set::empty(), 0) && bt_below(x.0, x.1) && x.0.parent == t.parent && x.1 <= u64::MAX
        &&& !wrap ==> x.0.kids.len() <= 1
    } by {
        let segs = sp_split(s);
        lm_split(s);
        lm_mod_shape(t, segs, 0, c, op, Set::empty());
        lm_pos(t.kids, segs[0]);
        lm_find(t.kids, segs[0]);
    }
}
/// what stands for the iterator over the segments of a path
#[verifier::external_body]
struct VParts<'a> { it: core::iter::Peekable<core::iter::Enumerate<core::str::Split<'a, char>>> }
impl<'a> VParts<'a> {
    uninterp spec fn left(&self) -> Seq<Seq<char>>;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, &'a str)>)
        ensures
            match r {
                Some(x) => {
                    &&& old(self).left().len() > 0 && x.0 == old(self).at() && x.1@ == old(self).left()[0]
                    &&& final(self).left() == old(self).left().skip(1) && final(self).at() == old(self).at() + 1
                },
                None => old(self).left().len() == 0 && final(self).left() == old(self).left() && final(self).at() == old(self).at(),
            },
    { Iterator::next(&mut self.it) }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&(usize, &'a str)>)
        ensures
            final(self).left() == old(self).left() && final(self).at() == old(self).at(),
            match r {
                Some(x) => old(self).left().len() > 0 && x.0 == old(self).at() && x.1@ == old(self).left()[0],
                None => old(self).left().len() == 0,
            },
    { core::iter::Peekable::peek(&mut self.it) }
}
#[verifier::external_body]
fn v_parts<'a>(s: &'a str, c: char) -> (r: VParts<'a>)
    requires c == '/',
    ensures r.left() == sp_split(s@), r.at() == 0
{ VParts { it: s.split(c).enumerate().peekable() } }
#[verifier::external_body]
fn v_ends(s: &str, c: char) -> (r: bool)
    ensures r == (s@.len() > 0 && s@.last() == c)
{ s.ends_with(c) }
spec fn sp_within(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.skip(i).take(p.len() as int) == p }
#[verifier::external_body]
fn v_within(s: &str, p: &str) -> (r: bool)
    ensures r == sp_within(s@, p@)
{ s.contains(p) }
#[verifier::external_body]
fn v_nothing(s: &str) -> (r: bool)
    ensures r == (s@.len() == 0)
{ s.is_empty() }
#[verifier::external_body]
fn v_longer(s: &str, n: usize) -> usize { s.len().max(n) }
trait VOr<T>: Sized {
    fn v_or<E>(self, e: E) -> (r: Result<T, E>);
}
impl<T, X> VOr<T> for Result<T, X> {
    fn v_or<E>(self, e: E) -> (r: Result<T, E>)
        ensures r == (match self { Ok(x) => Ok::<T, E>(x), Err(_) => Err::<T, E>(e) })
    { match self { Ok(x) => Ok(x), Err(_) => Err(e) } }
}
proof fn lm_repeats(s: Seq<char>, p: Seq<char>)
    requires p.len() == 2, p[0] == '/', p[1] == '/',
    ensures sp_within(s, p) == sp_repeats(s)
{
    if sp_within(s, p) {
        let i = choose|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.skip(i).take(p.len() as int) == p;
        assert(s.skip(i).take(2)[0] == s[i] && s.skip(i).take(2)[1] == s[i + 1]);
    }
    if sp_repeats(s) {
        let i = choose|i: int| 0 <= i < s.len() - 1 && #[trigger] s[i] == '/' && s[i + 1] == '/';
        assert(s.skip(i).take(2) =~= p);
    }
}
/// what the caller's function does to the directory
spec fn f_does(op: BOp, t: BT, name: Seq<char>, o: Option<u64>, r: Result<(), TreeBuildingFailed>, t2: BT, o2: Option<u64>) -> bool {
    if op_ok(op, t, name) { r is Ok && t2 == op_do(op, t, name, o->0) && o2 is None == op_new(op, t, name) }
    else { r is Err && sp_kind(r->Err_0) == op_err(op) && t2 == t && o2 is Some }
}
#[verifier::prophetic]
spec fn f_is<F>(f: F, op: BOp) -> bool
    where F: FnOnce(&mut DirBuilder, String, &mut Option<u64>) -> Result<(), TreeBuildingFailed>
{
    &&& forall|d: &mut DirBuilder, n: String, o: &mut Option<u64>| #![trigger call_requires(f, (d, n, o))]
        *o is Some && (*o)->0 != sp_bt(*d).id ==> call_requires(f, (d, n, o))
    &&& forall|d: &mut DirBuilder, n: String, o: &mut Option<u64>, r: Result<(), TreeBuildingFailed>| #![trigger call_ensures(f, (d, n, o), r)]
        *o is Some && (*o)->0 != sp_bt(*d).id && call_ensures(f, (d, n, o), r) ==> f_does(op, sp_bt(*d), n@, *o, r, sp_bt(*final(d)), *final(o))
}
}
@file src/dir/builder/buffered.rs
@type BufferingTreeBuilder
@append
verus! {
use super::*;
impl BufferingTreeBuilder {
    pub closed spec fn sp_tree(self) -> BT { sp_bt(self.root_builder) }
    pub closed spec fn sp_next(self) -> int { self.counter as int }
    pub closed spec fn sp_wrap(self) -> bool { self.opts.sp_wrap() }
    pub closed spec fn sp_limit(self) -> Option<u64> { self.opts.sp_limit() }
    /// numbers of directories are all different from those above them, names are right
    pub open spec fn sp_inv(self) -> bool {
        &&& bt_shape(self.sp_tree(), Set::empty(), 0)
        &&& bt_below(self.sp_tree(), self.sp_next())
        &&& self.sp_tree().parent is None
        &&& !self.sp_wrap() ==> self.sp_tree().kids.len() <= 1
    }
    /// there are numbers left for the directories of the path
    pub open spec fn sp_room(self, path: Seq<char>) -> bool { self.sp_next() + sp_split(path).len() <= u64::MAX }
    /// what an operation does to the builder
    pub open spec fn sp_step(self, path: Seq<char>, op: BOp, r: Result<(), TreeBuildingFailed>, to: Self) -> bool {
        &&& to.sp_wrap() == self.sp_wrap() && to.sp_limit() == self.sp_limit()
        &&& match bt_mod_all(self.sp_tree(), path, self.sp_wrap(), self.sp_next(), op) {
            Ok(x) => r is Ok && to.sp_tree() == x.0 && to.sp_next() == x.1,
            Err(k) => r is Err && sp_kind(r->Err_0) == k && to.sp_tree() == self.sp_tree() && to.sp_next() == self.sp_next(),
        }
    }
}
}
@fn BufferingTreeBuilder::new props=C09,C10
@ret r
@spec
    ensures
        r.sp_inv(), // [C09]
        r.sp_tree() == (BT { id: 0, parent: None, meta: sp_no_metadata(), kids: Seq::empty() }), // [C09]
        r.sp_next() == 1,
        r.sp_wrap() == opts.sp_wrap(), // [C09]
        r.sp_limit() == opts.sp_limit(), // [C10]
@fn BufferingTreeBuilder::modify_with props=C09,C14
@ret r
@spec
    requires
        old(self).sp_inv(), old(self).sp_room(full_path@),
        exists|op: BOp| f_is(f, op),
    ensures
        forall|op: BOp| #![trigger f_is(f, op)] #![trigger old(self).sp_step(full_path@, op, r, *final(self))] f_is(f, op) ==> old(self).sp_step(full_path@, op, r, *final(self)) && final(self).sp_inv(), // [C09 C14]
@replace any
full_path . len ( ) . max ( $x )
@with
v_longer(full_path, $x)
@replace
full_path . split ( $c ) . enumerate ( ) . peekable ( )
@with
v_parts(full_path, $c)
@replace
full_path . ends_with ( $c )
@with
v_ends(full_path, $c)
@replace
full_path . contains ( $c )
@with
v_within(full_path, $c)
@replace any
full_path . to_string ( )
@with
crate::walk::v_string(full_path)
@replace any
next . to_string ( )
@with
crate::walk::v_string(next)
@replace
match ( depth , next , last )
@with
match (depth, v_nothing(next), last)
@replace any
( $a , "" , $b )
@with
($a, true, $b)
@replace any
unreachable ! ( $$x )
@with
return unreached()
@replace any
dir_builder . nodes . contains_key ( $x )
@with
v_has(&dir_builder.nodes, $x)
@replace any
dir_builder . nodes . entry ( $x )
@with
v_entry(&mut dir_builder.nodes, $x)
@replace any
. map_err ( | _ | $e )
@with
.v_or($e)
@attrs #[verifier::loop_isolation(false)]
@proof start
broadcast use lm_bt;
use super::VEntry::{Occupied, Vacant};
let ghost t0 = sp_bt(self.root_builder);
let ghost c0 = self.counter as int;
let ghost segs = sp_split(full_path@);
let ghost wrap = self.sp_wrap();
let ghost mut v_ctx: spec_fn(BT) -> BT = |x: BT| x;
let ghost mut v_j: int = 0;
proof {
    reveal_strlit("//");
    lm_repeats(full_path@, "//"@);
    assert(segs.skip(0) =~= segs);
}
@proof loop 0 before
let ghost v_fin = sp_bt(*final(dir_builder));
proof { lm_split(full_path@); }
@loop 0
    invariant
        0 <= v_j < segs.len(),
        remaining.left() == segs.skip(v_j), remaining.at() == v_j,
        v_fin == v_ctx(sp_bt(*final(dir_builder))),
        c0 <= *counter <= c0 + v_j,
        forall|op: BOp| #[trigger] bt_mod(t0, segs, 0, c0, op) == (match bt_mod(sp_bt(*dir_builder), segs, v_j, *counter as int, op) { Ok((u, d)) => Ok((v_ctx(u), d)), Err(e) => Err::<(BT, int), EK>(e) }),
        *counter == c0 ==> v_ctx(sp_bt(*dir_builder)) == t0,
        *counter > c0 ==> sp_bt(*dir_builder).kids.len() == 0,
        bt_below(sp_bt(*dir_builder), *counter as int),
        v_j == 0 ==> sp_bt(*dir_builder) == t0 && *counter == c0,
        v_j > 0 ==> segs[0].len() > 0 && (wrap || t0.kids.len() == 0 || bk_find(t0.kids, segs[0]) is Some),
    decreases segs.len() - v_j
@proof loop 0 start
let ghost v_cur = sp_bt(*dir_builder);
let ghost v_c = *counter as int;
proof {
    assert(segs.skip(v_j)[0] == segs[v_j]);
    assert(segs.skip(v_j).skip(1) =~= segs.skip(v_j + 1));
    lm_find(v_cur.kids, segs[v_j]);
    lm_find_same(v_cur.kids, segs[v_j]);
    lm_mod_keeps(t0, full_path@, wrap, c0);
}
@proof loop 0 end
proof {
    let v_name = segs[v_j];
    let v_f = v_ctx;
    match bk_find(v_cur.kids, v_name) {
        Some(i) => { v_ctx = |x: BT| v_f(bt_at(v_cur, i, v_name, x)); },
        None => { v_ctx = |x: BT| v_f(bt_add(v_cur, v_name, x)); },
    }
    v_j = v_j + 1;
}
@fn BufferingTreeBuilder::put_link props=C09
@ret r
@spec
    requires old(self).sp_inv(), old(self).sp_room(full_path@),
    ensures
        final(self).sp_inv(), // [C09]
        old(self).sp_step(full_path@, BOp::Put(target, total_size), r, *final(self)), // [C09]
@replace any
full_path . to_string ( )
@with
crate::walk::v_string(full_path)
@replace any
. map_err ( | _ | $e )
@with
.v_or($e)
@replace
self . modify_with ( $p , | $a , $b , $c | $$body )
@with
{
    let v_f = |$a: &mut DirBuilder, $b: String, v_o: &mut Option<u64>| -> (v_r: Result<(), TreeBuildingFailed>)
        requires *old(v_o) is Some, (*old(v_o))->0 != sp_bt(*old($a)).id
        ensures f_does(BOp::Put(target, total_size), sp_bt(*old($a)), $b@, *old(v_o), v_r, sp_bt(*final($a)), *final(v_o))
        { let $c = v_o; $body };
    proof { assert(f_is(v_f, BOp::Put(target, total_size))); }
    self.modify_with($p, v_f)
}
@fn BufferingTreeBuilder::set_metadata props=C09,C14
@ret r
@spec
    requires old(self).sp_inv(), old(self).sp_room(full_path@),
    ensures
        final(self).sp_inv(), // [C09]
        old(self).sp_step(full_path@, BOp::Meta(metadata), r, *final(self)), // [C09 C14]
@replace any
full_path . to_string ( )
@with
crate::walk::v_string(full_path)
@replace any
. map_err ( | _ | $e )
@with
.v_or($e)
@replace
self . modify_with ( $p , | $a , $b , $c | $$body )
@with
{
    let v_f = |$a: &mut DirBuilder, $b: String, v_o: &mut Option<u64>| -> (v_r: Result<(), TreeBuildingFailed>)
        requires *old(v_o) is Some, (*old(v_o))->0 != sp_bt(*old($a)).id
        ensures f_does(BOp::Meta(metadata), sp_bt(*old($a)), $b@, *old(v_o), v_r, sp_bt(*final($a)), *final(v_o))
        { let $c = v_o; $body };
    proof { assert(f_is(v_f, BOp::Meta(metadata))); }
    self.modify_with($p, v_f)
}
@fn BufferingTreeBuilder::build props=C04,C09,C10,C14
@ret r
@spec
    requires self.sp_inv(), bt_fits(self.sp_tree()),
    ensures
        r.sp_inv(), // [C09]
        r.sp_outs() == rd_tree(self.sp_tree(), self.sp_wrap()), // [C04 C09 C14]
        r.sp_limit() == self.sp_limit(), // [C10]
        bt_sorted(self.sp_tree()), // [C04]
@proof start
proof {
    lm_shape_ok(sp_bt(self.root_builder), Set::empty(), 0);
    lm_sorted(self.root_builder);
}
@file src/dir/builder.rs
@fn TreeOptions::block_size_limit props=C10
@spec
    ensures final(self).sp_limit() == limit && final(self).sp_wrap() == old(self).sp_wrap(), // [C10]
@fn TreeOptions::wrap_with_directory props=C09
@spec
    ensures final(self).sp_wrap() && final(self).sp_limit() == old(self).sp_limit(), // [C09]
@fn Default@TreeOptions::default props=C09
@ret r
@spec
    ensures !r.sp_wrap(), // [C09]
@file src/dir/builder.rs
@append
verus! {
/// what a path of the tree leads to
pub enum At { Nothing, Leaf(Cid, u64), Dir(Metadata) }
pub open spec fn bk_item(k: Seq<BK>, name: Seq<char>) -> Option<BE> { match bk_find(k, name) { Some(i) => Some(k[i].item), None => None } }
pub open spec fn bt_what(t: BT, q: Seq<Seq<char>>) -> At
    decreases q.len()
{
    if q.len() == 0 { At::Dir(t.meta) } else {
        match bk_item(t.kids, q[0]) {
            None => At::Nothing,
            Some(BE::Leaf(c, n)) => if q.len() == 1 { At::Leaf(c, n) } else { At::Nothing },
            Some(BE::Dir(s)) => bt_what(s, q.skip(1)),
        }
    }
}
/// the directory at a path
pub open spec fn bt_sub(t: BT, q: Seq<Seq<char>>) -> Option<BT>
    decreases q.len()
{
    if q.len() == 0 { Some(t) } else { match bk_item(t.kids, q[0]) { Some(BE::Dir(s)) => bt_sub(s, q.skip(1)), _ => None } }
}
pub proof fn lm_sub_what(t: BT, q: Seq<Seq<char>>)
    ensures bt_sub(t, q) matches Some(s) ==> bt_what(t, q) == At::Dir(s.meta), bt_sub(t, q) is None ==> !(bt_what(t, q) is Dir)
    decreases q.len()
{
    if q.len() > 0 { match bk_item(t.kids, q[0]) { Some(BE::Dir(s)) => { lm_sub_what(s, q.skip(1)); }, _ => {} } }
}
/// what it leads to after an operation at another path
pub open spec fn sp_then(old: At, s: Seq<Seq<char>>, q: Seq<Seq<char>>, op: BOp) -> At {
    if q == s { match op { BOp::Put(c, n) => At::Leaf(c, n), BOp::Meta(m) => At::Dir(m) } }
    else if q.len() < s.len() && s.take(q.len() as int) == q && old is Nothing { At::Dir(sp_no_metadata()) }
    else { old }
}
proof fn lm_insert_item(k: Seq<BK>, name: Seq<char>, item: BE, n: Seq<char>)
    requires bk_find(k, name) is None,
    ensures bk_item(bk_insert(k, name, item), n) == (if n == name { Some(item) } else { bk_item(k, n) })
    decreases k.len()
{
    let u = bk_insert(k, name, item);
    let p = bk_pos(k, name);
    lm_pos(k, name);
    if p == k.len() {
        assert(u =~= k.push(BK { name, item }));
        assert(u.drop_last() =~= k);
        lm_find(k, n);
    } else {
        let h = k.drop_last();
        lm_insert_item(h, name, item, n);
        lm_pos(h, name);
        assert(u.drop_last() =~= bk_insert(h, name, item));
        assert(u.last() == k.last());
        lm_find(h, n);
        lm_find(u.drop_last(), n);
    }
}
proof fn lm_update_item(k: Seq<BK>, i: int, name: Seq<char>, item: BE, n: Seq<char>)
    requires bk_find(k, name) == Some(i),
    ensures bk_item(k.update(i, BK { name, item }), n) == (if n == name { Some(item) } else { bk_item(k, n) })
    decreases k.len()
{
    lm_find(k, name);
    let u = k.update(i, BK { name, item });
    let h = k.drop_last();
    if i == k.len() - 1 {
        assert(u.drop_last() =~= h);
        lm_find(h, n);
    } else {
        lm_update_item(h, i, name, item, n);
        assert(u.drop_last() =~= h.update(i, BK { name, item }));
        assert(u.last() == k.last());
        lm_find(h, n);
        lm_find(u.drop_last(), n);
    }
}
/// an accepted operation changes what its path leads to, adds the directories on the way, and changes nothing else
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lm_mod_what(t: BT, segs: Seq<Seq<char>>, j: int, c: int, op: BOp, q: Seq<Seq<char>>)
    requires bt_mod(t, segs, j, c, op) is Ok, 0 <= j < segs.len(),
    ensures bt_what(bt_mod(t, segs, j, c, op)->Ok_0.0, q) == sp_then(bt_what(t, q), segs.skip(j), q, op)
    decreases segs.len() - j
{
    let u = bt_mod(t, segs, j, c, op)->Ok_0.0;
    let s = segs.skip(j);
    let name = segs[j];
    lm_find(t.kids, name);
    assert(s[0] == name);
    if q.len() > 0 {
        let n = q[0];
        let rest = q.skip(1);
        assert(segs.skip(j + 1) =~= s.skip(1));
        if n != name {
            assert(q != s);
            if q.len() < s.len() && s.take(q.len() as int) == q { assert(s.take(q.len() as int)[0] == s[0]); }
        } else {
            if rest == s.skip(1) { assert(q =~= s) by { assert forall|i: int| 0 <= i < q.len() implies q[i] == s[i] by { if i > 0 { assert(q[i] == rest[i - 1] && s[i] == s.skip(1)[i - 1]); } } } }
            if q.len() < s.len() {
                assert(s.take(q.len() as int).skip(1) =~= s.skip(1).take(rest.len() as int));
                if s.skip(1).take(rest.len() as int) == rest {
                    assert(s.take(q.len() as int) =~= q) by {
                        assert forall|i: int| 0 <= i < q.len() implies s.take(q.len() as int)[i] == q[i] by { if i > 0 { assert(q[i] == rest[i - 1] && s[i] == s.skip(1).take(rest.len() as int)[i - 1]); } }
                    }
                }
            }
        }
        if j == segs.len() - 1 {
            assert(segs.last() == name);
            assert(s =~= seq![name]);
            if q.len() == 1 { assert(q =~= seq![n]); }
            match op {
                BOp::Put(x, m) => { lm_insert_item(t.kids, name, BE::Leaf(x, m), n); assert(bt_what(u, q) == sp_then(bt_what(t, q), s, q, op)); },
                BOp::Meta(m) => match bk_find(t.kids, name) {
                    None => {
                        let z = BT { meta: m, ..bt_new(t.id, c as u64) };
                        lm_insert_item(t.kids, name, BE::Dir(z), n);
                        assert(bt_what(z, rest) == (if rest.len() == 0 { At::Dir(m) } else { At::Nothing }));
                        assert(bt_what(u, q) == sp_then(bt_what(t, q), s, q, op));
                    },
                    Some(i) => {
                        let d = t.kids[i].item->Dir_0;
                        let z = BT { meta: m, ..d };
                        lm_update_item(t.kids, i, name, BE::Dir(z), n);
                        assert(bt_what(z, rest) == (if rest.len() == 0 { At::Dir(m) } else { bt_what(d, rest) }));
                        assert(bt_what(u, q) == sp_then(bt_what(t, q), s, q, op));
                    },
                },
            }
        } else {
            match bk_find(t.kids, name) {
                Some(i) => {
                    let d = t.kids[i].item->Dir_0;
                    let x = bt_mod(d, segs, j + 1, c, op)->Ok_0.0;
                    lm_mod_what(d, segs, j + 1, c, op, rest);
                    lm_update_item(t.kids, i, name, BE::Dir(x), n);
                    assert(bt_what(u, q) == sp_then(bt_what(t, q), s, q, op));
                },
                None => {
                    let d = bt_new(t.id, c as u64);
                    let x = bt_mod(d, segs, j + 1, c + 1, op)->Ok_0.0;
                    lm_mod_what(d, segs, j + 1, c + 1, op, rest);
                    lm_insert_item(t.kids, name, BE::Dir(x), n);
                    assert(bt_what(d, rest) == (if rest.len() == 0 { At::Dir(sp_no_metadata()) } else { At::Nothing }));
                    if rest.len() == 0 { assert(s.skip(1).take(0) =~= rest); }
                    assert(bt_what(u, q) == sp_then(bt_what(t, q), s, q, op));
                },
            }
        }
    } else {
        assert(u.meta == t.meta);
        assert(q != s);
    }
}
/// operations are accepted exactly when nothing is in their way
pub proof fn lm_mod_why(t: BT, segs: Seq<Seq<char>>, j: int, c: int, op: BOp)
    requires 0 <= j < segs.len(),
    ensures
        ({
            let s = segs.skip(j);
            match bt_mod(t, segs, j, c, op) {
                Ok(_) => {
                    &&& forall|k: int| 0 <= k < s.len() ==> !(bt_what(t, #[trigger] s.take(k)) is Leaf)
                    &&& op is Put ==> bt_what(t, s) is Nothing
                    &&& op is Meta ==> !(bt_what(t, s) is Leaf)
                },
                Err(EK::Duplicate) => op is Put && !(bt_what(t, s) is Nothing),
                Err(EK::LeafAsDirectory) => exists|k: int| 0 <= k <= s.len() && (bt_what(t, #[trigger] s.take(k)) is Leaf) && (op is Put ==> k < s.len()),
                Err(_) => false,
            }
        }),
    decreases segs.len() - j
{
    let s = segs.skip(j);
    let name = segs[j];
    assert(s[0] == name);
    assert(s.take(s.len() as int) =~= s);
    if j == segs.len() - 1 {
        assert(s =~= seq![name]);
        assert(s.skip(1) =~= Seq::<Seq<char>>::empty());
        match bk_item(t.kids, name) { Some(BE::Dir(d)) => { assert(bt_what(d, s.skip(1)) == At::Dir(d.meta)); }, _ => {} }
        assert forall|k: int| 0 <= k < s.len() implies !(bt_what(t, #[trigger] s.take(k)) is Leaf) by { assert(s.take(k).len() == 0); }
    } else {
        assert(segs.skip(j + 1) =~= s.skip(1));
        match bk_find(t.kids, name) {
            Some(i) => match t.kids[i].item {
                BE::Dir(d) => {
                    lm_mod_why(d, segs, j + 1, c, op);
                    let z = s.skip(1);
                    match bt_mod(d, segs, j + 1, c, op) {
                        Ok(_) => {
                            assert forall|k: int| 0 <= k < s.len() implies !(bt_what(t, #[trigger] s.take(k)) is Leaf) by {
                                if k > 0 { assert(s.take(k).skip(1) =~= z.take(k - 1)); assert(s.take(k)[0] == name); }
                            }
                        },
                        Err(EK::LeafAsDirectory) => {
                            let k = choose|k: int| 0 <= k <= z.len() && (bt_what(d, #[trigger] z.take(k)) is Leaf) && (op is Put ==> k < z.len());
                            assert(s.take(k + 1).skip(1) =~= z.take(k));
                            assert(s.take(k + 1)[0] == name);
                            assert(bt_what(t, s.take(k + 1)) is Leaf);
                        },
                        _ => {},
                    }
                },
                BE::Leaf(_, _) => {
                    assert(s.take(1)[0] == name);
                    assert(bt_what(t, s.take(1)) is Leaf);
                },
            },
            None => {
                lm_mod_new(bt_new(t.id, c as u64), segs, j + 1, c + 1, op);
                assert forall|k: int| 0 <= k < s.len() implies !(bt_what(t, #[trigger] s.take(k)) is Leaf) by { if k > 0 { assert(s.take(k)[0] == name); } }
            },
        }
    }
}
/// names differ
pub open spec fn bt_uniq(t: BT) -> bool
    decreases t
{
    &&& forall|i: int, j: int| 0 <= i < j < t.kids.len() ==> (#[trigger] t.kids[i]).name != (#[trigger] t.kids[j]).name
    &&& forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() ==> (t.kids[i].item matches BE::Dir(s) ==> bt_uniq(s))
}
proof fn lm_not_less(a: Seq<u8>)
    ensures !sp_lt(a, a)
    decreases a.len()
{
    if a.len() > 0 { lm_not_less(a.skip(1)); }
}
pub proof fn lm_uniq(t: BT)
    requires bt_sorted(t),
    ensures bt_uniq(t)
    decreases t
{
    assert forall|i: int, j: int| 0 <= i < j < t.kids.len() implies (#[trigger] t.kids[i]).name != (#[trigger] t.kids[j]).name by {
        lm_not_less(vstd::utf8::encode_utf8(t.kids[i].name));
        assert(sp_less(t.kids[i].name, t.kids[j].name));
    }
    assert forall|i: int| #![trigger t.kids[i]] 0 <= i < t.kids.len() implies (t.kids[i].item matches BE::Dir(s) ==> bt_uniq(s)) by {
        match t.kids[i].item { BE::Dir(s) => { lm_uniq(s); }, _ => {} }
    }
}
/// b is a or below a
pub open spec fn sp_under(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
spec fn sp_is_dir_of(t: BT, p: Seq<Seq<char>>, o: BO) -> bool {
    sp_under(p, o.path) && bt_sub(t, o.path.skip(p.len() as int)) is Some && o == rd_self(bt_sub(t, o.path.skip(p.len() as int))->0, o.path)
}
spec fn sp_has_path(o: Seq<BO>, p: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).path == p }
spec fn sp_kid_out(t: BT, p: Seq<Seq<char>>, n: int, o: BO) -> bool {
    sp_is_dir_of(t, p, o) && o.path.len() > p.len() && (bk_find(t.kids, o.path[p.len() as int]) matches Some(m) && m < n)
}
/// only directories which are there
#[verifier::opaque]
spec fn out_only(t: BT, p: Seq<Seq<char>>, o: Seq<BO>) -> bool { forall|i: int| 0 <= i < o.len() ==> sp_is_dir_of(t, p, #[trigger] o[i]) }
/// all of them
#[verifier::opaque]
spec fn out_every(t: BT, p: Seq<Seq<char>>, o: Seq<BO>) -> bool { forall|q: Seq<Seq<char>>| #![trigger bt_sub(t, q)] bt_sub(t, q) is Some ==> sp_has_path(o, p + q) }
/// once, and after everything below them
#[verifier::opaque]
spec fn out_after(o: Seq<BO>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> !sp_under((#[trigger] o[i]).path, (#[trigger] o[j]).path) }
#[verifier::opaque]
spec fn kid_only(t: BT, p: Seq<Seq<char>>, n: int, o: Seq<BO>) -> bool { forall|i: int| 0 <= i < o.len() ==> sp_kid_out(t, p, n, #[trigger] o[i]) }
#[verifier::opaque]
spec fn kid_every(t: BT, p: Seq<Seq<char>>, n: int, o: Seq<BO>) -> bool {
    forall|q: Seq<Seq<char>>| #![trigger bt_sub(t, q)] bt_sub(t, q) is Some && q.len() > 0 && bk_find(t.kids, q[0])->0 < n ==> sp_has_path(o, p + q)
}
proof fn lm_emitted(t: BT, p: Seq<Seq<char>>)
    requires bt_uniq(t),
    ensures out_only(t, p, rd_seq(t, p)), out_every(t, p, rd_seq(t, p)), out_after(rd_seq(t, p))
    decreases t, 1int
{
    let n = t.kids.len() as int;
    lm_emitted_kids(t, p, n);
    lm_self_only(t, p, rd_kids(t.kids, p, n));
    lm_self_every(t, p, rd_kids(t.kids, p, n));
    lm_self_after(t, p, rd_kids(t.kids, p, n));
}
proof fn lm_self_only(t: BT, p: Seq<Seq<char>>, k: Seq<BO>)
    requires kid_only(t, p, t.kids.len() as int, k),
    ensures out_only(t, p, k.push(rd_self(t, p)))
{
    reveal(kid_only);
    reveal(out_only);
    let o = k.push(rd_self(t, p));
    assert(p.skip(p.len() as int) =~= Seq::<Seq<char>>::empty());
    assert(p.take(p.len() as int) =~= p);
    assert forall|i: int| 0 <= i < o.len() implies sp_is_dir_of(t, p, #[trigger] o[i]) by {
        if i < k.len() { assert(o[i] == k[i]); } else { assert(bt_sub(t, Seq::<Seq<char>>::empty()) == Some(t)); }
    }
}
proof fn lm_self_every(t: BT, p: Seq<Seq<char>>, k: Seq<BO>)
    requires kid_every(t, p, t.kids.len() as int, k),
    ensures out_every(t, p, k.push(rd_self(t, p)))
{
    reveal(kid_every);
    reveal(out_every);
    let o = k.push(rd_self(t, p));
    assert forall|q: Seq<Seq<char>>| #![trigger bt_sub(t, q)] bt_sub(t, q) is Some implies sp_has_path(o, p + q) by {
        if q.len() == 0 { assert(p + q =~= p); assert(o[k.len() as int].path == p); }
        else {
            lm_find(t.kids, q[0]);
            assert(sp_has_path(k, p + q));
            let i = choose|i: int| 0 <= i < k.len() && (#[trigger] k[i]).path == p + q;
            assert(o[i].path == p + q);
        }
    }
}
proof fn lm_self_after(t: BT, p: Seq<Seq<char>>, k: Seq<BO>)
    requires kid_only(t, p, t.kids.len() as int, k), out_after(k),
    ensures out_after(k.push(rd_self(t, p)))
{
    reveal(kid_only);
    reveal(out_after);
    let o = k.push(rd_self(t, p));
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies !sp_under((#[trigger] o[i]).path, (#[trigger] o[j]).path) by {
        assert(o[i] == k[i]);
        assert(o[i].path.len() > p.len());
        if j < k.len() { assert(o[j] == k[j]); }
    }
}
proof fn lm_emitted_kids(t: BT, p: Seq<Seq<char>>, n: int)
    requires bt_uniq(t), 0 <= n <= t.kids.len(),
    ensures kid_only(t, p, n, rd_kids(t.kids, p, n)), kid_every(t, p, n, rd_kids(t.kids, p, n)), out_after(rd_kids(t.kids, p, n))
    decreases t, 0int, n
{
    if n > 0 {
        lm_emitted_kids(t, p, n - 1);
        let b = rd_kids(t.kids, p, n - 1);
        lm_first(t, n);
        match t.kids[n - 1].item {
            BE::Leaf(_, _) => {
                assert(rd_kids(t.kids, p, n) =~= b);
                lm_no_kid(t, p, n, b);
            },
            BE::Dir(s) => {
                let pk = p.push(t.kids[n - 1].name);
                lm_emitted(s, pk);
                let a = rd_seq(s, pk);
                lm_kid_only(t, p, n, s, a, b);
                lm_kid_every(t, p, n, s, a, b);
                lm_kid_after(t, p, n, s, a, b);
            },
        }
    } else {
        reveal(kid_only);
        reveal(kid_every);
        reveal(out_after);
        assert forall|q: Seq<Seq<char>>| #![trigger bt_sub(t, q)] bt_sub(t, q) is Some && q.len() > 0 && bk_find(t.kids, q[0])->0 < n implies sp_has_path(rd_kids(t.kids, p, n), p + q) by { lm_find(t.kids, q[0]); }
    }
}
proof fn lm_first(t: BT, n: int)
    requires bt_uniq(t), 0 < n <= t.kids.len(),
    ensures bk_find(t.kids, t.kids[n - 1].name) == Some(n - 1)
{
    let name = t.kids[n - 1].name;
    lm_find(t.kids, name);
    let m = bk_find(t.kids, name);
    if m is None { assert(t.kids[n - 1].name != name); }
    if m->0 < n - 1 { assert(t.kids[m->0].name != t.kids[n - 1].name); }
    if m->0 > n - 1 { assert(t.kids[n - 1].name != t.kids[m->0].name); }
}
proof fn lm_no_kid(t: BT, p: Seq<Seq<char>>, n: int, b: Seq<BO>)
    requires 0 < n <= t.kids.len(), t.kids[n - 1].item is Leaf, kid_only(t, p, n - 1, b), kid_every(t, p, n - 1, b),
    ensures kid_only(t, p, n, b), kid_every(t, p, n, b)
{
    reveal(kid_only);
    reveal(kid_every);
    assert forall|i: int| 0 <= i < b.len() implies sp_kid_out(t, p, n, #[trigger] b[i]) by { assert(sp_kid_out(t, p, n - 1, b[i])); }
    assert forall|q: Seq<Seq<char>>| #![trigger bt_sub(t, q)] bt_sub(t, q) is Some && q.len() > 0 && bk_find(t.kids, q[0])->0 < n implies sp_has_path(b, p + q) by {
        lm_find(t.kids, q[0]);
    }
}
proof fn lm_kid_only(t: BT, p: Seq<Seq<char>>, n: int, s: BT, a: Seq<BO>, b: Seq<BO>)
    requires
        0 < n <= t.kids.len(), t.kids[n - 1].item == BE::Dir(s), bk_find(t.kids, t.kids[n - 1].name) == Some(n - 1),
        kid_only(t, p, n - 1, b), out_only(s, p.push(t.kids[n - 1].name), a),
    ensures kid_only(t, p, n, a + b)
{
    reveal(kid_only);
    reveal(out_only);
    let o = a + b;
    assert forall|i: int| 0 <= i < o.len() implies sp_kid_out(t, p, n, #[trigger] o[i]) by {
        if i < a.len() { assert(o[i] == a[i]); lm_kid_out(t, p, n, s, a[i]); }
        else { assert(o[i] == b[i - a.len()]); assert(sp_kid_out(t, p, n - 1, b[i - a.len()])); }
    }
}
proof fn lm_kid_every(t: BT, p: Seq<Seq<char>>, n: int, s: BT, a: Seq<BO>, b: Seq<BO>)
    requires
        0 < n <= t.kids.len(), t.kids[n - 1].item == BE::Dir(s),
        kid_every(t, p, n - 1, b), out_every(s, p.push(t.kids[n - 1].name), a),
    ensures kid_every(t, p, n, a + b)
{
    reveal(kid_every);
    reveal(out_every);
    let o = a + b;
    let pk = p.push(t.kids[n - 1].name);
    assert forall|q: Seq<Seq<char>>| #![trigger bt_sub(t, q)] bt_sub(t, q) is Some && q.len() > 0 && bk_find(t.kids, q[0])->0 < n implies sp_has_path(o, p + q) by {
        lm_find(t.kids, q[0]);
        if bk_find(t.kids, q[0])->0 == n - 1 {
            assert(bt_sub(s, q.skip(1)) is Some);
            assert(pk + q.skip(1) =~= p + q);
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).path == pk + q.skip(1);
            assert(o[i].path == p + q);
        } else {
            let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).path == p + q;
            assert(o[i + a.len()].path == p + q);
        }
    }
}
proof fn lm_kid_after(t: BT, p: Seq<Seq<char>>, n: int, s: BT, a: Seq<BO>, b: Seq<BO>)
    requires
        0 < n <= t.kids.len(), bk_find(t.kids, t.kids[n - 1].name) == Some(n - 1),
        kid_only(t, p, n - 1, b), out_only(s, p.push(t.kids[n - 1].name), a), out_after(a), out_after(b),
    ensures out_after(a + b)
{
    reveal(kid_only);
    reveal(out_only);
    reveal(out_after);
    let o = a + b;
    let name = t.kids[n - 1].name;
    let pk = p.push(name);
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies !sp_under((#[trigger] o[i]).path, (#[trigger] o[j]).path) by {
        if j < a.len() { assert(o[i] == a[i] && o[j] == a[j]); }
        else if i >= a.len() { assert(o[i] == b[i - a.len()] && o[j] == b[j - a.len()]); }
        else {
            assert(o[i] == a[i] && o[j] == b[j - a.len()]);
            let x = o[i].path;
            let y = o[j].path;
            assert(sp_under(pk, x));
            assert(x.take(pk.len() as int)[p.len() as int] == name);
            if sp_under(x, y) { assert(y.take(x.len() as int)[p.len() as int] == y[p.len() as int]); }
        }
    }
}
proof fn lm_kid_out(t: BT, p: Seq<Seq<char>>, n: int, s: BT, o: BO)
    requires
        1 <= n <= t.kids.len(), t.kids[n - 1].item == BE::Dir(s), bk_find(t.kids, t.kids[n - 1].name) == Some(n - 1),
        sp_is_dir_of(s, p.push(t.kids[n - 1].name), o),
    ensures sp_kid_out(t, p, n, o)
{
    let name = t.kids[n - 1].name;
    let pk = p.push(name);
    let x = o.path;
    assert(x.take(pk.len() as int)[p.len() as int] == name);
    assert(x.take(p.len() as int) =~= p) by { assert forall|i: int| 0 <= i < p.len() implies x[i] == p[i] by { assert(x.take(pk.len() as int)[i] == pk[i]); } }
    let q = x.skip(p.len() as int);
    assert(q[0] == name);
    assert(q.skip(1) =~= x.skip(pk.len() as int));
    assert(bt_sub(t, q) == bt_sub(s, q.skip(1)));
}
/// what is emitted for the tree is every directory once, with its path, after everything below it; the root when it was asked for
pub open spec fn sp_emitted(t: BT, wrap: bool, o: Seq<BO>) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> (bt_sub(t, (#[trigger] o[i]).path) matches Some(s) && o[i] == rd_self(s, o[i].path) && (o[i].path.len() > 0 || wrap))
    &&& forall|q: Seq<Seq<char>>| #![trigger bt_sub(t, q)] bt_sub(t, q) is Some && (wrap || q.len() > 0) ==> exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).path == q
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> !sp_under((#[trigger] o[i]).path, (#[trigger] o[j]).path)
}
pub proof fn lm_tree_outs(t: BT, wrap: bool)
    requires bt_uniq(t),
    ensures sp_emitted(t, wrap, rd_tree(t, wrap))
{
    let e = Seq::<Seq<char>>::empty();
    let n = t.kids.len() as int;
    let o = rd_tree(t, wrap);
    lm_emitted(t, e);
    lm_emitted_kids(t, e, n);
    if wrap { assert(o =~= rd_seq(t, e)); lm_outs_wrap(t, o); } else { lm_outs_bare(t, o); }
}
proof fn lm_outs_wrap(t: BT, o: Seq<BO>)
    requires out_only(t, Seq::empty(), o), out_every(t, Seq::empty(), o), out_after(o),
    ensures sp_emitted(t, true, o)
{
    reveal(out_only);
    reveal(out_every);
    reveal(out_after);
    let e = Seq::<Seq<char>>::empty();
    assert forall|i: int| 0 <= i < o.len() implies (bt_sub(t, (#[trigger] o[i]).path) matches Some(s) && o[i] == rd_self(s, o[i].path)) by {
        assert(sp_is_dir_of(t, e, o[i]));
        assert(o[i].path.skip(0) =~= o[i].path);
    }
    assert forall|q: Seq<Seq<char>>| #![trigger bt_sub(t, q)] bt_sub(t, q) is Some implies sp_has_path(o, q) by { assert(e + q =~= q); }
}
proof fn lm_outs_bare(t: BT, o: Seq<BO>)
    requires kid_only(t, Seq::empty(), t.kids.len() as int, o), kid_every(t, Seq::empty(), t.kids.len() as int, o), out_after(o),
    ensures sp_emitted(t, false, o)
{
    reveal(kid_only);
    reveal(kid_every);
    reveal(out_after);
    let e = Seq::<Seq<char>>::empty();
    assert forall|i: int| 0 <= i < o.len() implies (bt_sub(t, (#[trigger] o[i]).path) matches Some(s) && o[i] == rd_self(s, o[i].path) && o[i].path.len() > 0) by {
        assert(sp_kid_out(t, e, t.kids.len() as int, o[i]));
        assert(o[i].path.skip(0) =~= o[i].path);
    }
    assert forall|q: Seq<Seq<char>>| #![trigger bt_sub(t, q)] bt_sub(t, q) is Some && q.len() > 0 implies sp_has_path(o, q) by { assert(e + q =~= q); lm_find(t.kids, q[0]); }
}
}
@append
verus! {
/// what a path leads to after the accepted operations of a history
pub open spec fn sp_model(h: Seq<(Seq<Seq<char>>, BOp)>, q: Seq<Seq<char>>) -> At
    decreases h.len()
{
    if h.len() == 0 { if q.len() == 0 { At::Dir(sp_no_metadata()) } else { At::Nothing } }
    else { sp_then(sp_model(h.drop_last(), q), h.last().0, q, h.last().1) }
}
/// the operations of a history which were accepted
pub open spec fn sp_accepted(ops: Seq<(Seq<char>, BOp)>, res: Seq<Option<EK>>) -> Seq<(Seq<Seq<char>>, BOp)>
    decreases res.len()
{
    if res.len() == 0 { Seq::empty() }
    else {
        let h = sp_accepted(ops, res.drop_last());
        if res.last() is None { h.push((sp_split(ops[res.len() - 1].0), ops[res.len() - 1].1)) } else { h }
    }
}
/// an operation is refused for the reason which is given, and accepted when there is none
pub open spec fn sp_verdict(h: Seq<(Seq<Seq<char>>, BOp)>, s: Seq<char>, op: BOp, wrap: bool, e: Option<EK>) -> bool {
    let segs = sp_split(s);
    match e {
        Some(EK::EndsInSlash) => s.len() > 0 && s.last() == '/',
        Some(EK::Repeated) => sp_repeats(s),
        Some(EK::Rooted) => s.len() > 0 && s[0] == '/',
        Some(EK::TooMany) => !wrap && sp_model(h, seq![segs[0]]) is Nothing && exists|n: Seq<char>| !(#[trigger] sp_model(h, seq![n]) is Nothing),
        Some(EK::Duplicate) => op is Put && !(sp_model(h, segs) is Nothing),
        Some(EK::LeafAsDirectory) => exists|k: int| 0 <= k <= segs.len() && (sp_model(h, #[trigger] segs.take(k)) is Leaf) && (op is Put ==> k < segs.len()),
        None => {
            &&& !(s.len() > 0 && s.last() == '/') && !sp_repeats(s) && !(s.len() > 0 && s[0] == '/')
            &&& wrap || !(sp_model(h, seq![segs[0]]) is Nothing) || forall|n: Seq<char>| #[trigger] sp_model(h, seq![n]) is Nothing
            &&& op is Put ==> sp_model(h, segs) is Nothing
            &&& op is Meta ==> !(sp_model(h, segs) is Leaf)
            &&& forall|k: int| 0 <= k < segs.len() ==> !(sp_model(h, #[trigger] segs.take(k)) is Leaf)
        },
    }
}
pub open spec fn sp_is_model(t: BT, h: Seq<(Seq<Seq<char>>, BOp)>) -> bool { forall|q: Seq<Seq<char>>| #![trigger bt_what(t, q)] #![trigger sp_model(h, q)] bt_what(t, q) == sp_model(h, q) }
proof fn lm_first_seg(s: Seq<char>)
    requires s.len() > 0,
    ensures sp_split(s).len() > 0, (s[0] == '/') == (sp_split(s)[0].len() == 0), s[0] == '/' ==> sp_split(s).len() > 1
    decreases s.len()
{
    lm_slash(s);
    let k = sp_slash(s);
    if k >= 0 {
        let h = s.take(k);
        assert(sp_split(s) == sp_split(h).push(s.skip(k + 1)));
        if k > 0 { lm_first_seg(h); assert(h[0] == s[0]); assert(sp_split(s)[0] == sp_split(h)[0]); }
        else { assert(sp_slash(h) < 0); assert(sp_split(h) =~= seq![h]); assert(sp_split(s)[0] == h); }
    } else {
        assert(sp_split(s) =~= seq![s]);
        if s[0] == '/' { assert(s.contains('/')); }
    }
}
proof fn lm_root_item(t: BT, n: Seq<char>)
    ensures (bk_find(t.kids, n) is None) == (bt_what(t, seq![n]) is Nothing)
{
    let q = seq![n];
    lm_find(t.kids, n);
    match bk_item(t.kids, n) { Some(BE::Dir(s)) => { assert(bt_what(s, q.skip(1)) == At::Dir(s.meta)); }, _ => {} }
}
/// one operation: the verdict, and the model afterwards
proof fn lm_step(t: BT, h: Seq<(Seq<Seq<char>>, BOp)>, s: Seq<char>, wrap: bool, c: int, op: BOp)
    requires sp_is_model(t, h),
    ensures
        match bt_mod_all(t, s, wrap, c, op) {
            Ok(x) => sp_verdict(h, s, op, wrap, None) && sp_is_model(x.0, h.push((sp_split(s), op))),
            Err(k) => sp_verdict(h, s, op, wrap, Some(k)),
        },
{
    let segs = sp_split(s);
    if (s.len() > 0 && s.last() == '/') || sp_repeats(s) { }
    else {
        lm_split(s);
        if s.len() > 0 { lm_first_seg(s); } else { assert(segs =~= seq![s]); }
        lm_root_item(t, segs[0]);
        assert(segs.skip(0) =~= segs);
        if segs.len() > 1 && segs[0].len() == 0 { }
        else if !wrap && t.kids.len() > 0 && bk_find(t.kids, segs[0]) is None {
            let n = t.kids[0].name;
            lm_root_item(t, n);
            lm_find(t.kids, n);
            assert(!(sp_model(h, seq![n]) is Nothing));
        } else {
            lm_mod_why(t, segs, 0, c, op);
            match bt_mod_all(t, s, wrap, c, op) {
                Ok(x) => {
                    assert forall|k: int| 0 <= k < segs.len() implies !(sp_model(h, #[trigger] segs.take(k)) is Leaf) by { assert(bt_what(t, segs.take(k)) == sp_model(h, segs.take(k))); }
                    if !wrap && t.kids.len() == 0 {
                        assert forall|n: Seq<char>| #[trigger] sp_model(h, seq![n]) is Nothing by { lm_root_item(t, n); assert(bt_what(t, seq![n]) == sp_model(h, seq![n])); }
                    }
                    assert(bt_what(t, segs) == sp_model(h, segs));
                    assert(bt_what(t, seq![segs[0]]) == sp_model(h, seq![segs[0]]));
                    let g = h.push((segs, op));
                    assert(g.drop_last() =~= h);
                    assert forall|q: Seq<Seq<char>>| #![trigger bt_what(x.0, q)] #![trigger sp_model(g, q)] bt_what(x.0, q) == sp_model(g, q) by {
                        lm_mod_what(t, segs, 0, c, op, q);
                        assert(bt_what(t, q) == sp_model(h, q));
                    }
                },
                Err(EK::LeafAsDirectory) => {
                    let k = choose|k: int| 0 <= k <= segs.len() && (bt_what(t, #[trigger] segs.take(k)) is Leaf) && (op is Put ==> k < segs.len());
                    assert(bt_what(t, segs.take(k)) == sp_model(h, segs.take(k)));
                },
                _ => { assert(bt_what(t, segs) == sp_model(h, segs)); },
            }
        }
    }
}
/// every operation of a history got the verdict which it should get
pub open spec fn sp_verdicts(ops: Seq<(Seq<char>, BOp)>, res: Seq<Option<EK>>, wrap: bool) -> bool {
    forall|i: int| 0 <= i < res.len() ==> sp_verdict(sp_accepted(ops, res.take(i)), (#[trigger] ops[i]).0, ops[i].1, wrap, res[i])
}
pub open spec fn sp_was_put(ops: Seq<(Seq<char>, BOp)>, res: Seq<Option<EK>>, q: Seq<Seq<char>>, c: Cid, n: u64) -> bool {
    exists|i: int| 0 <= i < res.len() && res[i] is None && sp_split((#[trigger] ops[i]).0) == q && ops[i].1 == BOp::Put(c, n)
}
/// the entries are exactly those of the accepted puts
pub proof fn lm_exactly(ops: Seq<(Seq<char>, BOp)>, res: Seq<Option<EK>>, wrap: bool, q: Seq<Seq<char>>, c: Cid, n: u64)
    requires sp_verdicts(ops, res, wrap), res.len() <= ops.len(),
    ensures (sp_model(sp_accepted(ops, res), q) == At::Leaf(c, n)) == sp_was_put(ops, res, q, c, n)
    decreases res.len()
{
    if res.len() > 0 {
        let p = res.drop_last();
        let l = res.len() - 1;
        assert forall|i: int| 0 <= i < p.len() implies sp_verdict(sp_accepted(ops, p.take(i)), (#[trigger] ops[i]).0, ops[i].1, wrap, p[i]) by { assert(p.take(i) =~= res.take(i)); }
        lm_exactly(ops, p, wrap, q, c, n);
        assert(res.take(l) =~= p);
        assert(sp_verdict(sp_accepted(ops, res.take(l)), ops[l].0, ops[l].1, wrap, res[l]));
        let h = sp_accepted(ops, p);
        let s = sp_split(ops[l].0);
        if res[l] is None { assert(h.push((s, ops[l].1)).drop_last() =~= h); }
        if sp_was_put(ops, res, q, c, n) {
            let i = choose|i: int| 0 <= i < res.len() && res[i] is None && sp_split((#[trigger] ops[i]).0) == q && ops[i].1 == BOp::Put(c, n);
            if i < l { assert(p[i] is None); assert(sp_was_put(ops, p, q, c, n)); }
        }
        if sp_was_put(ops, p, q, c, n) {
            let i = choose|i: int| 0 <= i < p.len() && p[i] is None && sp_split((#[trigger] ops[i]).0) == q && ops[i].1 == BOp::Put(c, n);
            assert(res[i] is None);
            assert(sp_was_put(ops, res, q, c, n));
        }
        if res[l] is None && s == q && ops[l].1 == BOp::Put(c, n) { assert(sp_was_put(ops, res, q, c, n)); }
    }
}
/// how many numbers an operation takes
proof fn lm_next(t: BT, s: Seq<char>, wrap: bool, c: int, op: BOp)
    ensures bt_mod_all(t, s, wrap, c, op) matches Ok(x) ==> x.1 <= c + sp_split(s).len()
{
    if bt_mod_all(t, s, wrap, c, op) is Ok { lm_split(s); lm_next_at(t, sp_split(s), 0, c, op); }
}
proof fn lm_next_at(t: BT, segs: Seq<Seq<char>>, j: int, c: int, op: BOp)
    requires bt_mod(t, segs, j, c, op) is Ok, 0 <= j < segs.len(),
    ensures bt_mod(t, segs, j, c, op)->Ok_0.1 <= c + segs.len() - j
    decreases segs.len() - j
{
    if j < segs.len() - 1 {
        match bk_find(t.kids, segs[j]) {
            Some(i) => { lm_next_at(t.kids[i].item->Dir_0, segs, j + 1, c, op); },
            None => { lm_next_at(bt_new(t.id, c as u64), segs, j + 1, c + 1, op); },
        }
    }
}
/// nothing has been put
proof fn lm_no_tree(t: BT)
    requires t.kids.len() == 0, t.meta == sp_no_metadata(),
    ensures sp_is_model(t, Seq::empty())
{
}
}
@file src/dir/builder/buffered.rs
@append
verus! {
/// one call
enum VOp { Put(String, Cid, u64), Meta(String, Metadata) }
spec fn sp_op(o: VOp) -> (Seq<char>, BOp) { match o { VOp::Put(s, c, n) => (s@, BOp::Put(c, n)), VOp::Meta(s, m) => (s@, BOp::Meta(m)) } }
spec fn sp_ops(o: Seq<VOp>) -> Seq<(Seq<char>, BOp)> { Seq::new(o.len(), |i: int| sp_op(o[i])) }
spec fn sp_why(r: Seq<Result<(), TreeBuildingFailed>>) -> Seq<Option<EK>> { Seq::new(r.len(), |i: int| match r[i] { Ok(_) => None, Err(e) => Some(sp_kind(e)) }) }
spec fn sp_numbers(o: Seq<(Seq<char>, BOp)>) -> int
    decreases o.len()
{
    if o.len() == 0 { 1 } else { sp_numbers(o.drop_last()) + sp_split(o.last().0).len() }
}
proof fn lm_numbers(o: Seq<(Seq<char>, BOp)>, n: int)
    requires 0 <= n <= o.len(),
    ensures sp_numbers(o.take(n)) <= sp_numbers(o)
    decreases o.len()
{
    if n < o.len() { lm_numbers(o.drop_last(), n); assert(o.drop_last().take(n) =~= o.take(n)); } else { assert(o.take(n) =~= o); }
}
/// any history of calls on a new builder
fn v_history(opts: TreeOptions, calls: Vec<VOp>) -> (r: (BufferingTreeBuilder, Vec<Result<(), TreeBuildingFailed>>))
    requires sp_numbers(sp_ops(calls@)) <= u64::MAX,
    ensures
        r.0.sp_inv(), r.0.sp_wrap() == opts.sp_wrap(), r.0.sp_limit() == opts.sp_limit(),
        r.1@.len() == calls@.len(),
        sp_verdicts(sp_ops(calls@), sp_why(r.1@), opts.sp_wrap()), // [C09]
        sp_is_model(r.0.sp_tree(), sp_accepted(sp_ops(calls@), sp_why(r.1@))), // [C09 C14]
{
    let ghost ops = sp_ops(calls@);
    let ghost wrap = opts.sp_wrap();
    let ghost limit = opts.sp_limit();
    let mut b = BufferingTreeBuilder::new(opts);
    let mut out: Vec<Result<(), TreeBuildingFailed>> = Vec::new();
    let mut calls = calls;
    let ghost all = calls@;
    proof { lm_no_tree(b.sp_tree()); assert(sp_why(out@) =~= Seq::<Option<EK>>::empty()); assert(ops.take(0) =~= Seq::<(Seq<char>, BOp)>::empty()); }
    let mut i: usize = 0;
    while i < calls.len()
        invariant
            i == out@.len(), i <= calls@.len(), calls@.len() == ops.len(), all.len() == ops.len(),
            ops == sp_ops(all), forall|k: int| i <= k < all.len() ==> calls@[k] == all[k],
            sp_numbers(ops) <= u64::MAX,
            b.sp_inv(), b.sp_wrap() == wrap, b.sp_limit() == limit,
            b.sp_next() <= sp_numbers(ops.take(i as int)),
            sp_verdicts(ops, sp_why(out@), wrap),
            sp_is_model(b.sp_tree(), sp_accepted(ops, sp_why(out@))),
        decreases calls@.len() - i
    {
        let ghost h = sp_accepted(ops, sp_why(out@));
        let ghost w = sp_why(out@);
        let ghost b0 = b;
        let ghost s = ops[i as int].0;
        let ghost op = ops[i as int].1;
        proof {
            lm_numbers(ops, i + 1);
            assert(ops.take(i + 1).drop_last() =~= ops.take(i as int));
            assert(ops.take(i + 1).last() == ops[i as int]);
            lm_step(b.sp_tree(), h, s, wrap, b.sp_next(), op);
        }
        let mut call = VOp::Meta(String::new(), v_no_metadata());
        core::mem::swap(&mut call, &mut calls[i]);
        let r = match call {
            VOp::Put(path, target, size) => b.put_link(path.as_str(), target, size),
            VOp::Meta(path, metadata) => b.set_metadata(path.as_str(), metadata),
        };
        proof { assert(b0.sp_step(s, op, r, b)); lm_next(b0.sp_tree(), s, wrap, b0.sp_next(), op); }
        out.push(r);
        proof {
            let v = sp_why(out@);
            assert(v.drop_last() =~= w);
            assert(v.take(i as int) =~= w);
            assert forall|k: int| 0 <= k < v.len() implies sp_verdict(sp_accepted(ops, v.take(k)), (#[trigger] ops[k]).0, ops[k].1, wrap, v[k]) by {
                if k < i { assert(v.take(k) =~= w.take(k)); assert(v[k] == w[k]); }
            }
        }
        i = i + 1;
    }
    proof { assert(ops.take(i as int) =~= ops); }
    (b, out)
}
/// and what is built then
fn v_built(b: BufferingTreeBuilder) -> (r: (Vec<OwnedTreeNode>, Option<TreeConstructionFailed>))
    requires b.sp_inv(), bt_fits(b.sp_tree()),
    ensures
        ({
            let all = rd_tree(b.sp_tree(), b.sp_wrap());
            &&& sp_emitted(b.sp_tree(), b.sp_wrap(), all) // [C09]
            &&& bt_sorted(b.sp_tree()) // [C09]
            &&& forall|i: int| 0 <= i < r.0@.len() ==> (#[trigger] r.0@[i]).sp_is(all[i]) && super::iter::bo_fits(all[i], b.sp_limit()) // [C04 C09 C10 C14]
            &&& match r.1 {
                None => r.0@.len() == all.len(), // [C09]
                Some(TreeConstructionFailed::TooLargeBlock(k)) => {
                    &&& r.0@.len() < all.len() // [C10]
                    &&& !super::iter::bo_fits(all[r.0@.len() as int], b.sp_limit()) // [C10]
                    &&& k == all[r.0@.len() as int].block.len() // [C10]
                },
                Some(_) => false, // [C10]
            }
        }),
{
    proof { lm_sorted(b.root_builder); lm_uniq(b.sp_tree()); lm_tree_outs(b.sp_tree(), b.sp_wrap()); }
    b.build().v_all()
}
}
