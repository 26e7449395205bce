@note What an importer has done for the content so far, and the whole import.
@file src/file/adder.rs
@append
verus! {
pub open spec fn is_group<T>(ts: Seq<T>, g: Seq<T>, i: int, n: int) -> bool { 0 <= i * n && i * n + n <= ts.len() && g == ts.subrange(i * n, i * n + n) }
/// the groups are cut at the multiples of n
pub proof fn lm_chunk_at<T>(ts: Seq<T>, n: int)
    requires n >= 1,
    ensures
        chunk(ts, n).0.len() * n + chunk(ts, n).1.len() == ts.len(),
        chunk(ts, n).1 =~= ts.skip(chunk(ts, n).0.len() * n),
        forall|i: int| #![trigger chunk(ts, n).0[i]] 0 <= i < chunk(ts, n).0.len() ==> is_group(ts, chunk(ts, n).0[i], i, n),
    decreases ts.len()
{
    reveal(chunk);
    if ts.len() > 0 {
        let p = ts.drop_last();
        lm_chunk_at(p, n);
        lm_chunk(p, n);
        let (a, b) = chunk(p, n);
        let (c, d) = chunk(ts, n);
        assert(p =~= ts.take(ts.len() - 1));
        if b.len() < n {
            assert(c == a);
            assert(d =~= ts.skip(c.len() * n));
        } else {
            assert(c == a.push(b));
            assert(c.len() * n == a.len() * n + n) by (nonlinear_arith) requires c.len() == a.len() + 1;
        }
        assert forall|i: int| 0 <= i < c.len() implies is_group(ts, #[trigger] chunk(ts, n).0[i], i, n) by {
            if i < a.len() {
                assert(chunk(p, n).0[i] == c[i]);
                assert(is_group(p, c[i], i, n));
                assert(c[i] =~= ts.subrange(i * n, i * n + n));
            } else {
                assert(i == a.len());
                assert(0 <= a.len() * n) by (nonlinear_arith) requires n >= 1;
                assert(i * n == a.len() * n);
                assert(i * n + n <= ts.len());
                assert(c[i] =~= ts.subrange(i * n, i * n + n));
            }
        }
        assert(c == chunk(ts, n).0);
    } else {
        assert(chunk(ts, n).0.len() == 0);
        assert(chunk(ts, n).1.len() == 0);
        assert(0 * n == 0) by (nonlinear_arith);
    }
}
/// a prefix is cut in the same way
pub proof fn lm_chunk_prefix<T>(ts: Seq<T>, m: int, n: int)
    requires n >= 1, 0 <= m <= ts.len(),
    ensures
        chunk(ts.take(m), n).0.len() <= chunk(ts, n).0.len(),
        chunk(ts, n).0.take(chunk(ts.take(m), n).0.len() as int) =~= chunk(ts.take(m), n).0,
        chunk(ts.take(m), n).1.len() == n ==> chunk(ts.take(m), n).0.len() < gs(ts, n).len() && gs(ts, n)[chunk(ts.take(m), n).0.len() as int] == chunk(ts.take(m), n).1,
    decreases ts.len()
{
    if m == ts.len() {
        assert(ts.take(m) =~= ts);
    } else {
        let p = ts.drop_last();
        reveal(chunk);
        lm_chunk_prefix(p, m, n);
        lm_chunk(p, n);
        lm_chunk(ts.take(m), n);
        assert(p.take(m) =~= ts.take(m));
        let q = chunk(ts.take(m), n).0.len() as int;
        assert(chunk(ts, n).0.take(q) =~= chunk(p, n).0.take(q));
        if chunk(ts.take(m), n).1.len() == n {
            if q < chunk(p, n).0.len() {
                assert(gs(p, n)[q] == chunk(p, n).0[q]);
                assert(gs(ts, n)[q] == chunk(ts, n).0[q]);
                assert(chunk(ts, n).0[q] == chunk(p, n).0[q]);
            }
        }
    }
}
// ---- content
/// the chunks which are complete, and what is in the buffer
pub open spec fn full(c: Seq<u8>, max: int) -> Seq<Seq<u8>> { let ch = chunk(c, max); if ch.1.len() == max { ch.0.push(ch.1) } else { ch.0 } }
pub open spec fn rest(c: Seq<u8>, max: int) -> Seq<u8> { let ch = chunk(c, max); if ch.1.len() == max { Seq::empty() } else { ch.1 } }
/// all chunks; an empty file has a single empty one
pub open spec fn chunks(c: Seq<u8>, max: int) -> Seq<Seq<u8>> { if c.len() == 0 { seq![Seq::empty()] } else { gs(c, max) } }
/// links to the leaves done, the complete groups but the last replaced by their nodes
pub(crate) closed spec fn lpend(l: Seq<Link>, n: int) -> Seq<Link> { lnodes(chunk(l, n).0, 1) + chunk(l, n).1 }
/// blocks which are out when the chunks are done
pub(crate) closed spec fn sp_emitted(chs: Seq<Seq<u8>>, n: int) -> Seq<(Cid, Seq<u8>)>
    decreases chs.len()
{
    if chs.len() == 0 { Seq::empty() } else {
        let l = llinks(chs.drop_last());
        sp_emitted(chs.drop_last(), n) + sp_blocks(seq![GT::Leaf(chs.last())])
            + (if chunk(l, n).1.len() >= n { lblocks(seq![chunk(l, n).1]) } else { Seq::empty() })
    }
}
/// everything an import of the content emits, in order: a function of content, chunk size and branching factor
pub closed spec fn sp_import(c: Seq<u8>, max: int, n: int) -> Seq<(Cid, Seq<u8>)> {
    let all = chunks(c, max);
    let l = llinks(all);
    let some = llinks(full(c, max));
    sp_emitted(full(c, max), n)
        + (if rest(c, max).len() > 0 || c.len() == 0 { sp_blocks(seq![GT::Leaf(rest(c, max))]) } else { Seq::empty() })
        + (if l.len() <= 1 { Seq::empty() } else { lblocks(gs(l, n).skip(chunk(some, n).0.len() as int) + ltops(lup(l, n, 0), n, 1)) })
}
impl FileAdder {
    /// this content has been pushed
    pub closed spec fn holds(self, c: Seq<u8>) -> bool {
        &&& self.max() >= 1
        &&& 2 <= self.bf() <= 0x1000_0000_0000_0000
        &&& self.buf() == rest(c, self.max())
        &&& self.links() == lpend(llinks(full(c, self.max())), self.bf())
    }
    /// and this is what came out
    pub closed spec fn emitted(self, c: Seq<u8>) -> Seq<(Cid, Seq<u8>)> { sp_emitted(full(c, self.max()), self.bf()) }
}
proof fn lm_llinks(chs: Seq<Seq<u8>>, x: Seq<u8>)
    ensures llinks(chs.push(x)) =~= llinks(chs).push(sp_link(GT::Leaf(x))), ldepth(llinks(chs), 0), llinks(chs).len() == chs.len()
{
    assert(leaves(chs.push(x)) =~= leaves(chs).push(GT::Leaf(x)));
}
/// what is pending is two rows of links
proof fn lm_lpend(l: Seq<Link>, n: int)
    requires n >= 1, ldepth(l, 0),
    ensures
        l.len() > 0 ==> two(lpend(l, n), chunk(l, n).0.len() as int),
        l.len() == 0 ==> lpend(l, n).len() == 0,
        a_of(lpend(l, n)) =~= lnodes(chunk(l, n).0, 1),
        b_of(lpend(l, n)) =~= chunk(l, n).1,
{
    lm_chunk(l, n);
    lm_chunk_at(l, n);
    let p = lpend(l, n);
    let k = chunk(l, n).0.len() as int;
    assert(p.take(k) =~= lnodes(chunk(l, n).0, 1));
    assert(p.skip(k) =~= chunk(l, n).1);
    if l.len() > 0 {
        assert(two(p, k));
        lm_of(p, k);
    }
}
proof fn lm_starts(v: FileAdder)
    requires v.starts(), v.max() >= 1, 2 <= v.bf() <= 0x1000_0000_0000_0000,
    ensures v.holds(Seq::empty()), v.emitted(Seq::empty()) =~= Seq::empty()
{
    reveal(chunk);
    assert(llinks(full(Seq::empty(), v.max())) =~= Seq::empty());
    assert(lpend(Seq::empty(), v.bf()) =~= Seq::empty());
    assert(v.buf() =~= rest(Seq::empty(), v.max()));
    assert(v.links() =~= Seq::empty());
}
proof fn lm_holds_wf(v: FileAdder, c: Seq<u8>)
    requires v.holds(c),
    ensures v.wf()
{
    let l = llinks(full(c, v.max()));
    lm_llinks(full(c, v.max()), Seq::empty());
    lm_lpend(l, v.bf());
    lm_chunk(l, v.bf());
    lm_chunk(c, v.max());
}
/// one push
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
proof fn lm_pushed(v: FileAdder, c: Seq<u8>, x: Seq<u8>, w: FileAdder, out: Seq<(Cid, Seq<u8>)>)
    requires v.holds(c), v.pushed(x, w, out), v.buf().len() + x.len() <= v.max(),
    ensures w.holds(c + x), w.emitted(c + x) =~= v.emitted(c) + out
{
    let max = v.max();
    let n = v.bf();
    let f = full(c, max);
    let l = llinks(f);
    lm_chunk(c, max);
    lm_llinks(f, Seq::empty());
    lm_lpend(l, n);
    lm_chunk(l, n);
    let y = rest(c, max) + x;
    if chunk(c, max).1.len() == max {
        if x.len() == 0 {
            assert(c + x =~= c);
        } else {
            lm_chunk_next(c, x, max);
            assert(y =~= x);
        }
    } else {
        lm_chunk_more(c, x, max);
    }
    if y.len() < max {
        assert(full(c + x, max) == f);
        assert(rest(c + x, max) =~= y);
        assert(v.emitted(c) + out =~= v.emitted(c));
    } else {
        assert(full(c + x, max) =~= f.push(y));
        assert(rest(c + x, max) =~= Seq::empty());
        lm_llinks(f, y);
        let z = sp_link(GT::Leaf(y));
        assert(f.push(y).drop_last() =~= f);
        let b = chunk(l, n).1;
        assert(b_of(v.links()) == b);
        reveal(chunk);
        assert(l.push(z).drop_last() =~= l);
        assert(v.buf() + x == y);
        if b.len() < n {
            assert(w.links() =~= lpend(l.push(z), n));
        } else {
            assert(chunk(l.push(z), n) == (chunk(l, n).0.push(b), seq![z]));
            assert(lnodes(chunk(l, n).0.push(b), 1) =~= lnodes(chunk(l, n).0, 1).push(lnode(b, 1)));
            assert(w.links() =~= lpend(l.push(z), n));
        }
    }
}
/// what finishing works on
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
proof fn lm_finish_links(v: FileAdder, c: Seq<u8>)
    requires v.holds(c),
    ensures ({
        let l = llinks(chunks(c, v.max()));
        let p = v.last_links();
        let n = v.bf();
        &&& l.len() >= 1
        &&& lfin(a_of(p), b_of(p), n, 0) =~= if l.len() <= 1 { Seq::empty() } else { gs(l, n).skip(chunk(llinks(full(c, v.max())), n).0.len() as int) + ltops(lup(l, n, 0), n, 1) }
    })
{
    let max = v.max();
    let n = v.bf();
    let f = full(c, max);
    let l0 = llinks(f);
    let l = llinks(chunks(c, max));
    let p = v.last_links();
    let x = rest(c, max);
    lm_chunk(c, max);
    lm_llinks(f, x);
    lm_lpend(l0, n);
    lm_chunk(l0, n);
    let a = lnodes(chunk(l0, n).0, 1);
    let b0 = chunk(l0, n).1;
    let q = chunk(l0, n).0.len() as int;
    let b = b_of(p);
    if l0.len() > 0 { lm_lpend_len(l0, n); }
    assert(v.links().len() == 0 <==> l0.len() == 0);
    if x.len() > 0 || l0.len() == 0 {
        let z = sp_link(GT::Leaf(x));
        if c.len() == 0 {
            assert(f =~= Seq::empty());
            assert(x =~= Seq::empty());
        }
        assert(f.push(x) =~= chunks(c, max));
        lm_of_push(v.links(), z);
        assert(a_of(p) == a);
        assert(b =~= b0.push(z));
        if b0.len() < n {
            lm_chunk_more(l0, seq![z], n);
            assert(b0 + seq![z] =~= b);
            assert(l0 + seq![z] =~= l);
            lm_chunk(b, n);
            assert(gs(l, n) =~= chunk(l0, n).0 + gs(b, n));
        } else {
            lm_chunk_next(l0, seq![z], n);
            assert(l0 + seq![z] =~= l);
            lm_chunk(b0, n);
            lm_chunk_next(b0, seq![z], n);
            assert(b0 + seq![z] =~= b);
            assert(gs(l, n) =~= chunk(l0, n).0 + gs(b, n));
        }
    } else {
        assert(f =~= chunks(c, max));
        assert(l == l0);
        assert(a_of(p) == a && b == b0);
        lm_chunk(b, n);
        assert(gs(l, n) =~= chunk(l0, n).0 + gs(b, n));
    }
    assert(a + lup(b, n, 0) =~= lup(l, n, 0));
    assert(gs(l, n).skip(q) =~= gs(b, n));
    reveal(lfin);
    assert(a.len() + b.len() <= 1 <==> l.len() <= 1) by {
        lm_chunk_at(l0, n);
        if q > 0 { assert(q * n >= n) by (nonlinear_arith) requires q >= 1, n >= 1; }
    }
}
proof fn lm_lpend_len(l: Seq<Link>, n: int)
    requires n >= 1, l.len() > 0, ldepth(l, 0),
    ensures lpend(l, n).len() > 0
{
    lm_chunk(l, n);
}
proof fn lm_finished(v: FileAdder, c: Seq<u8>, out: Seq<(Cid, Seq<u8>)>)
    requires v.holds(c), v.finished(out),
    ensures v.emitted(c) + out =~= sp_import(c, v.max(), v.bf())
{
    lm_finish_links(v, c);
    let max = v.max();
    lm_chunk(c, max);
    lm_llinks(full(c, max), Seq::empty());
    let l0 = llinks(full(c, max));
    lm_lpend(l0, v.bf());
    if l0.len() > 0 { lm_lpend_len(l0, v.bf()); }
    assert(v.links().len() == 0 <==> l0.len() == 0);
    assert(rest(c, max).len() == 0 && l0.len() == 0 <==> c.len() == 0);
    assert(lblocks(Seq::empty()) =~= Seq::empty());
}
}
