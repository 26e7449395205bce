@note Whole lookups: the reachable buckets as a ghost tree, and a driver over the real API.
@file src/dir/sharded_lookup.rs
@append
verus! {
use crate::dir::resolve;
pub type GStore = Map<Cid, Seq<u8>>;
/// a bucket and the buckets it links to
pub struct GB { pub block: Seq<u8>, pub kids: Seq<GB> }
/// what the block says about the name
pub open spec fn sp_says(block: Seq<u8>, name: Seq<u8>) -> Option<(Option<Cid>, Seq<Cid>)> {
    match sp_flat(block) { None => None, Some(f) => sp_shard(f, name) }
}
pub open spec fn sp_says_found(block: Seq<u8>, name: Seq<u8>) -> Option<Cid> { match sp_says(block, name) { None => None, Some((c, _)) => c } }
pub open spec fn sp_says_buckets(block: Seq<u8>, name: Seq<u8>) -> Seq<Cid> { match sp_says(block, name) { None => Seq::empty(), Some((_, b)) => b } }
/// the tree has everything which can be reached; below a bucket which is at fault there is nothing
pub open spec fn gb_is(store: GStore, t: GB, name: Seq<u8>) -> bool
    decreases t
{
    match sp_says(t.block, name) {
        None => t.kids.len() == 0,
        Some((_, buckets)) => {
            &&& t.kids.len() == buckets.len()
            &&& forall|i: int| #![trigger buckets[i]] #![trigger t.kids[i]] 0 <= i < t.kids.len() ==> {
                &&& store.contains_key(buckets[i])
                &&& store[buckets[i]] == t.kids[i].block
                &&& gb_is(store, t.kids[i], name)
            }
        },
    }
}
/// no bucket is at fault
pub open spec fn gb_ok(t: GB, name: Seq<u8>) -> bool
    decreases t
{
    sp_says(t.block, name) is Some && forall|i: int| 0 <= i < t.kids.len() ==> gb_ok(#[trigger] t.kids[i], name)
}
/// some bucket holds the name
pub open spec fn gb_holds(t: GB, name: Seq<u8>, c: Cid) -> bool
    decreases t
{
    ||| sp_says(t.block, name) is Some && sp_says_found(t.block, name) == Some(c)
    ||| exists|i: int| 0 <= i < t.kids.len() && gb_holds(#[trigger] t.kids[i], name, c)
}
pub open spec fn gb_size(t: GB) -> nat
    decreases t, 0int
{
    1 + gb_sizes(t.kids, t.kids.len() as int)
}
pub open spec fn gb_sizes(k: Seq<GB>, n: int) -> nat
    decreases k, n
{
    if n <= 0 || n > k.len() { 0 } else { gb_sizes(k, n - 1) + gb_size(k[n - 1]) }
}
pub open spec fn gbs_ok(ts: Seq<GB>, name: Seq<u8>) -> bool { forall|i: int| 0 <= i < ts.len() ==> gb_ok(#[trigger] ts[i], name) }
pub open spec fn gbs_hold(ts: Seq<GB>, name: Seq<u8>, c: Cid) -> bool { exists|i: int| 0 <= i < ts.len() && gb_holds(#[trigger] ts[i], name, c) }
/// the buckets still to be loaded
pub open spec fn gb_pend(store: GStore, p: Seq<Cid>, ts: Seq<GB>, name: Seq<u8>) -> bool {
    &&& p.len() == ts.len()
    &&& forall|i: int| #![trigger p[i]] #![trigger ts[i]] 0 <= i < p.len() ==> {
        &&& store.contains_key(p[i])
        &&& store[p[i]] == ts[i].block
        &&& gb_is(store, ts[i], name)
    }
}
proof fn lm_sizes_add(a: Seq<GB>, b: Seq<GB>, n: int)
    requires 0 <= n <= b.len(),
    ensures gb_sizes(a + b, a.len() + n) == gb_sizes(a, a.len() as int) + gb_sizes(b, n)
    decreases n
{
    if n > 0 { lm_sizes_add(a, b, n - 1); }
    else { lm_sizes_take(a, b, a.len() as int); }
}
proof fn lm_sizes_take(a: Seq<GB>, b: Seq<GB>, n: int)
    requires 0 <= n <= a.len(),
    ensures gb_sizes(a + b, n) == gb_sizes(a, n)
    decreases n
{
    if n > 0 { lm_sizes_take(a, b, n - 1); }
}
/// loading the first bucket, which does not hold the name
proof fn lm_bucket(store: GStore, p: Seq<Cid>, ts: Seq<GB>, name: Seq<u8>)
    requires
        gb_pend(store, p, ts, name), ts.len() > 0,
        sp_says(ts[0].block, name) is Some, sp_says_found(ts[0].block, name) is None,
    ensures ({
        let next = ts.skip(1) + ts[0].kids;
        &&& gb_pend(store, p.skip(1) + sp_says_buckets(ts[0].block, name), next, name)
        &&& gbs_ok(ts, name) == gbs_ok(next, name)
        &&& forall|c: Cid| gbs_hold(ts, name, c) == gbs_hold(next, name, c)
        &&& gb_sizes(ts, ts.len() as int) == 1 + gb_sizes(next, next.len() as int)
    }),
{
    let k = ts[0].kids;
    let rest = ts.skip(1);
    let next = rest + k;
    assert(gb_is(store, ts[0], name));
    assert forall|i: int| 0 <= i < ts.len() - 1 implies rest[i] == ts[i + 1] by {}
    assert(gbs_ok(ts, name) == gbs_ok(next, name)) by {
        if gbs_ok(ts, name) {
            assert(gb_ok(ts[0], name));
            assert forall|i: int| 0 <= i < next.len() implies gb_ok(#[trigger] next[i], name) by {
                if i < rest.len() { assert(next[i] == ts[i + 1]); } else { assert(next[i] == k[i - rest.len()]); }
            }
        }
        if gbs_ok(next, name) {
            assert forall|i: int| 0 <= i < k.len() implies gb_ok(#[trigger] k[i], name) by { assert(next[rest.len() + i] == k[i]); }
            assert forall|i: int| 0 <= i < ts.len() implies gb_ok(#[trigger] ts[i], name) by {
                if i > 0 { assert(next[i - 1] == ts[i]); } else { assert(gb_ok(ts[0], name)); }
            }
        }
    }
    assert forall|c: Cid| gbs_hold(ts, name, c) == gbs_hold(next, name, c) by {
        if gbs_hold(ts, name, c) {
            let i = choose|i: int| 0 <= i < ts.len() && gb_holds(#[trigger] ts[i], name, c);
            if i > 0 { assert(next[i - 1] == ts[i]); } else {
                let j = choose|j: int| 0 <= j < k.len() && gb_holds(#[trigger] k[j], name, c);
                assert(next[rest.len() + j] == k[j]);
            }
        }
        if gbs_hold(next, name, c) {
            let i = choose|i: int| 0 <= i < next.len() && gb_holds(#[trigger] next[i], name, c);
            if i < rest.len() { assert(next[i] == ts[i + 1]); } else { assert(next[i] == k[i - rest.len()]); assert(gb_holds(ts[0], name, c)); }
        }
    }
    let q = p.skip(1) + sp_says_buckets(ts[0].block, name);
    assert forall|i: int| 0 <= i < next.len() implies store.contains_key(q[i]) && store[q[i]] == (#[trigger] next[i]).block && gb_is(store, next[i], name) by {
        if i < rest.len() { assert(next[i] == ts[i + 1]); } else { assert(next[i] == k[i - rest.len()]); }
    }
    lm_sizes_add(rest, k, k.len() as int);
    lm_sizes_add(seq![ts[0]], rest, rest.len() as int);
    assert(seq![ts[0]] + rest =~= ts);
    assert(gb_sizes(seq![ts[0]], 1) == gb_sizes(seq![ts[0]], 0) + gb_size(ts[0]));
}
/// any store of blocks
pub trait VBuckets {
    spec fn all(&self) -> GStore;
    fn fetch(&self, cid: &Cid) -> (r: &[u8])
        requires self.all().contains_key(*cid),
        ensures r@ == self.all()[*cid];
}
/// the documented use: resolve, then feed the first pending link until there is an answer; the name may be owned at any
/// point (`own`), and any cache can be given
pub fn v_lookup<'n, B: VBuckets>(blocks: &B, root: &[u8], needle: &'n str, cache: &mut Option<Cache>, own: &Vec<bool>, t: Ghost<GB>) -> (r: (Result<Option<Cid>, ()>, usize))
    requires
        sp_cache_ok(*old(cache)),
        t@.block == root@,
        gb_is(blocks.all(), t@, crate::sp_bytes(needle)),
        sp_flat(root@) is Some && sp_flat(root@)->0.data.Type == UnixFsType::HAMTShard,
        gb_size(t@) <= usize::MAX,
    ensures
        // an entry which some reachable bucket holds
        r.0 matches Ok(Some(c)) ==> gb_holds(t@, crate::sp_bytes(needle), c), // [C12 C17]
        // none: no bucket holds it, and all of them were loaded
        r.0 matches Ok(None) ==> gb_ok(t@, crate::sp_bytes(needle)) && r.1 == gb_size(t@) - 1 && forall|c: Cid| !gb_holds(t@, crate::sp_bytes(needle), c), // [C12 C17]
        // an error only because of a bucket which is at fault
        r.0 is Err ==> !gb_ok(t@, crate::sp_bytes(needle)), // [C12 C17]
        // which decides it: with sound buckets the name is found exactly when some bucket holds it
        gb_ok(t@, crate::sp_bytes(needle)) && (exists|c: Cid| gb_holds(t@, crate::sp_bytes(needle), c)) ==> r.0 is Ok && r.0->Ok_0 is Some, // [C12 C17]
        sp_cache_ok(*final(cache)), // [C17]
{
    let ghost name = crate::sp_bytes(needle);
    let ghost mut ts = seq![t@];
    let mut loaded: usize = 0;
    let started = resolve(root, needle, &mut *cache);
    proof {
        assert(gb_sizes(ts, 1) == gb_sizes(ts, 0) + gb_size(t@));
        assert(ts[0] == t@);
        let p = seq![arbitrary::<Cid>()];
        if sp_says(root@, name) is Some && sp_says_found(root@, name) is None {
            lm_root(blocks.all(), t@, name);
            ts = t@.kids;
        }
    }
    let mut look = match started {
        Err(_) => { return (Err(()), loaded); },
        Ok(MaybeResolved::Found(c)) => { return (Ok(Some(c)), loaded); },
        Ok(MaybeResolved::NotFound) => { return (Ok(None), loaded); },
        Ok(MaybeResolved::NeedToLoadMore(l)) => l,
    };
    loop
        invariant
            sp_cache_ok(*cache),
            look.wf(), look.name() == name,
            gb_pend(blocks.all(), look.pend(), ts, name),
            gb_ok(t@, name) == gbs_ok(ts, name),
            forall|c: Cid| gb_holds(t@, name, c) == gbs_hold(ts, name, c),
            loaded + gb_sizes(ts, ts.len() as int) == gb_size(t@) - 1,
            gb_size(t@) <= usize::MAX,
            name == crate::sp_bytes(needle),
        decreases gb_sizes(ts, ts.len() as int),
    {
        if loaded < own.len() && own[loaded] {
            look = look.with_owned_needle();
        }
        let ghost l0 = look;
        let (first, _) = look.pending_links();
        let block = blocks.fetch(first);
        assert(ts[0].block == block@);
        proof {
            lm_sizes_add(seq![ts[0]], ts.skip(1), ts.len() - 1);
            assert(seq![ts[0]] + ts.skip(1) =~= ts);
            assert(gb_sizes(seq![ts[0]], 1) == gb_sizes(seq![ts[0]], 0) + gb_size(ts[0]));
        }
        loaded += 1;
        let step = look.continue_walk(block, &mut *cache);
        proof {
            if sp_says(ts[0].block, name) is Some {
                if sp_says_found(ts[0].block, name) is None {
                    lm_bucket(blocks.all(), l0.pend(), ts, name);
                    ts = ts.skip(1) + ts[0].kids;
                } else {
                    assert(gb_holds(ts[0], name, sp_says_found(ts[0].block, name)->0));
                }
            } else {
                assert(!gb_ok(ts[0], name));
            }
        }
        match step {
            Err(_) => { return (Err(()), loaded); },
            Ok(MaybeResolved::Found(c)) => { return (Ok(Some(c)), loaded); },
            Ok(MaybeResolved::NotFound) => { return (Ok(None), loaded); },
            Ok(MaybeResolved::NeedToLoadMore(l)) => { look = l; },
        }
    }
}
proof fn lm_root(store: GStore, t: GB, name: Seq<u8>)
    requires gb_is(store, t, name), sp_says(t.block, name) is Some, sp_says_found(t.block, name) is None,
    ensures
        gb_pend(store, sp_says_buckets(t.block, name), t.kids, name),
        gb_ok(t, name) == gbs_ok(t.kids, name),
        forall|c: Cid| gb_holds(t, name, c) == gbs_hold(t.kids, name, c),
        gb_size(t) == 1 + gb_sizes(t.kids, t.kids.len() as int),
{
    let b = sp_says_buckets(t.block, name);
    assert forall|i: int| 0 <= i < t.kids.len() implies store.contains_key(b[i]) && store[b[i]] == (#[trigger] t.kids[i]).block && gb_is(store, t.kids[i], name) by {
        let x = t.kids[i];
        assert(store.contains_key(b[i]));
    }
}
}
