@note The tree an import makes, its shape, and the whole round trip.
@file src/file/adder.rs
@append
verus! {
use crate::file::visit::GStore;
// ---- rows of trees
pub open spec fn up(ts: Seq<GT>, n: int) -> Seq<GT> { nodes(gs(ts, n)) }
pub open spec fn nodes(g: Seq<Seq<GT>>) -> Seq<GT> { Seq::new(g.len(), |i: int| GT::Node(g[i])) }
/// rows above until a single tree is left
#[verifier::opaque]
pub open spec fn tops(ts: Seq<GT>, n: int) -> Seq<GT>
    decreases ts.len()
{
    if ts.len() <= 1 || gs(ts, n).len() >= ts.len() { Seq::empty() } else { up(ts, n) + tops(up(ts, n), n) }
}
#[verifier::opaque]
pub open spec fn top(ts: Seq<GT>, n: int) -> GT
    decreases ts.len()
{
    if ts.len() <= 1 || gs(ts, n).len() >= ts.len() { ts.last() } else { top(up(ts, n), n) }
}
/// the tree which is made of the content
pub open spec fn tree_of(c: Seq<u8>, max: int, n: int) -> GT { top(leaves(chunks(c, max)), n) }
pub open spec fn tr_emitted(chs: Seq<Seq<u8>>, n: int) -> Seq<GT>
    decreases chs.len()
{
    if chs.len() == 0 { Seq::empty() } else {
        let l = chunk(leaves(chs.drop_last()), n).1;
        tr_emitted(chs.drop_last(), n) + seq![GT::Leaf(chs.last())] + (if l.len() >= n { seq![GT::Node(l)] } else { Seq::empty() })
    }
}
/// the trees whose roots are emitted, in order
pub open spec fn sp_trees(c: Seq<u8>, max: int, n: int) -> Seq<GT> {
    let all = leaves(chunks(c, max));
    tr_emitted(full(c, max), n)
        + (if rest(c, max).len() > 0 || c.len() == 0 { seq![GT::Leaf(rest(c, max))] } else { Seq::empty() })
        + (if all.len() <= 1 { Seq::empty() } else { up(all, n).skip(chunk(leaves(full(c, max)), n).0.len() as int) + tops(up(all, n), n) })
}
pub open spec fn deep(ts: Seq<GT>, d: int) -> bool { forall|i: int| 0 <= i < ts.len() ==> tr_depth(#[trigger] ts[i]) == d }
pub(crate) closed spec fn sp_rows(g: Seq<Seq<GT>>) -> Seq<Seq<Link>> { Seq::new(g.len(), |i: int| sp_links(g[i])) }
/// links are cut where trees are cut
proof fn lm_rows(ts: Seq<GT>, n: int)
    requires n >= 1,
    ensures
        chunk(sp_links(ts), n).0 =~= sp_rows(chunk(ts, n).0),
        chunk(sp_links(ts), n).1 =~= sp_links(chunk(ts, n).1),
        gs(sp_links(ts), n) =~= sp_rows(gs(ts, n)),
        sp_links(ts).len() == ts.len(),
    decreases ts.len()
{
    reveal(chunk);
    if ts.len() > 0 {
        lm_rows(ts.drop_last(), n);
        assert(sp_links(ts).drop_last() =~= sp_links(ts.drop_last()));
        assert(sp_links(ts).last() == sp_link(ts.last()));
    }
    let (a, b) = chunk(ts, n);
    assert(chunk(sp_links(ts), n).0 =~= sp_rows(a));
    assert(chunk(sp_links(ts), n).1 =~= sp_links(b));
    assert(sp_rows(a.push(b)) =~= sp_rows(a).push(sp_links(b)));
}
proof fn lm_parts_fit(k: Seq<GT>, m: int)
    requires 0 <= m <= k.len(), tr_totals(k, k.len() as int) <= u64::MAX, gt_cat(k, k.len() as int).len() <= u64::MAX,
    ensures
        forall|i: int| 0 <= i < m ==> tr_fits(#[trigger] k[i]),
        ltotal(sp_links(k), m) == tr_totals(k, m),
        lsize(sp_links(k), m) == gt_cat(k, m).len(),
        tr_totals(k, m) <= tr_totals(k, k.len() as int),
        gt_cat(k, m).len() <= gt_cat(k, k.len() as int).len(),
        tr_links(k, m) =~= Seq::new(m as nat, |i: int| sp_link_view(sp_links(k)[i])),
    decreases m
{
    lm_totals_mono(k, m, k.len() as int);
    crate::file::visit::lm_cat_len(k, m, k.len() as int);
    if m > 0 {
        lm_parts_fit(k, m - 1);
        assert(tr_fits(k[m - 1]));
        assert(sp_links(k)[m - 1] == sp_link(k[m - 1]));
    }
}
/// the link to a node, made of the links to its parts
proof fn lm_node_link(k: Seq<GT>, d: int)
    requires k.len() > 0, tr_fits(GT::Node(k)), deep(k, d), 0 <= d < usize::MAX,
    ensures
        lnode(sp_links(k), d + 1) == sp_link(GT::Node(k)),
        lblock(sp_links(k)) == tr_block(GT::Node(k)),
        lfits(sp_links(k)),
        all_fit(k),
        tr_depth(GT::Node(k)) == d + 1,
{
    lm_node_bytes(k);
    lm_parts_fit(k, k.len() as int);
    let v = lview(sp_links(k));
    let w = tr_view(GT::Node(k));
    assert(tr_depth(k[0]) == d);
    assert(v.links =~= w.links);
    assert(v.blocksizes =~= w.blocksizes) by {
        assert forall|i: int| 0 <= i < k.len() implies v.blocksizes[i] == w.blocksizes[i] by { assert(tr_fits(k[i])); }
    }
    assert(v == w);
}
proof fn lm_row_up(ts: Seq<GT>, n: int, d: int)
    requires n >= 2, ts.len() >= 1, deep(ts, d), 0 <= d < usize::MAX, all_fit(up(ts, n)),
    ensures
        lup(sp_links(ts), n, d) =~= sp_links(up(ts, n)),
        lblocks(gs(sp_links(ts), n)) =~= sp_blocks(up(ts, n)),
        lall_fit(gs(sp_links(ts), n)),
        deep(up(ts, n), d + 1),
        all_fit(ts),
{
    lm_rows(ts, n);
    lm_chunk(ts, n);
    let g = gs(ts, n);
    assert forall|i: int| 0 <= i < g.len() implies
        lnode(sp_links(g[i]), d + 1) == sp_link(GT::Node(g[i])) && lblock(sp_links(g[i])) == tr_block(GT::Node(g[i])) && lfits(sp_links(g[i])) && all_fit(g[i])
        && tr_depth(#[trigger] up(ts, n)[i]) == d + 1 by {
        assert(tr_fits(up(ts, n)[i]));
        lm_group_all(ts, n, i);
        assert forall|j: int| 0 <= j < g[i].len() implies tr_depth(#[trigger] g[i][j]) == d by {
            assert(ts.contains(g[i][j]));
        }
        lm_node_link(g[i], d);
    }
    assert forall|i: int| 0 <= i < lup(sp_links(ts), n, d).len() implies lup(sp_links(ts), n, d)[i] == sp_links(up(ts, n))[i] by {
        assert(up(ts, n)[i] == GT::Node(g[i]));
        assert(gs(sp_links(ts), n)[i] == sp_links(g[i]));
    }
    assert forall|i: int| 0 <= i < g.len() implies lblocks(gs(sp_links(ts), n))[i] == sp_blocks(up(ts, n))[i] by {
        assert(up(ts, n)[i] == GT::Node(g[i]));
        assert(gs(sp_links(ts), n)[i] == sp_links(g[i]));
    }
    assert forall|i: int| 0 <= i < gs(sp_links(ts), n).len() implies lfits(#[trigger] gs(sp_links(ts), n)[i]) by {
        assert(up(ts, n)[i] == GT::Node(g[i]));
    }
    assert forall|i: int| 0 <= i < ts.len() implies tr_fits(#[trigger] ts[i]) by {
        let (a, b) = lm_where(ts, n, i);
        assert(up(ts, n)[a] == GT::Node(g[a]));
        assert(tr_fits(g[a][b]));
    }
}
/// parts of groups are parts of the row
proof fn lm_group_all<T>(ts: Seq<T>, n: int, i: int)
    requires n >= 1, 0 <= i < gs(ts, n).len(),
    ensures forall|j: int| 0 <= j < gs(ts, n)[i].len() ==> ts.contains(#[trigger] gs(ts, n)[i][j])
{
    lm_chunk_at(ts, n);
    let (a, b) = chunk(ts, n);
    let g = gs(ts, n)[i];
    assert forall|j: int| 0 <= j < g.len() implies ts.contains(#[trigger] g[j]) by {
        if i < a.len() {
            assert(is_group(ts, a[i], i, n));
            assert(g == a[i]);
            assert(g[j] == ts[i * n + j]);
        } else {
            assert(g == b);
            assert(0 <= a.len() * n) by (nonlinear_arith) requires n >= 1;
            assert(g[j] == ts[a.len() * n + j]);
        }
    }
}
/// every part of the row is in a group
proof fn lm_where<T>(ts: Seq<T>, n: int, i: int) -> (r: (int, int))
    requires n >= 1, 0 <= i < ts.len(),
    ensures 0 <= r.0 < gs(ts, n).len(), 0 <= r.1 < gs(ts, n)[r.0].len(), gs(ts, n)[r.0][r.1] == ts[i]
    decreases ts.len()
{
    reveal(chunk);
    let p = ts.drop_last();
    lm_chunk(p, n);
    let (a, b) = chunk(p, n);
    if i == ts.len() - 1 {
        let g = gs(ts, n);
        (g.len() - 1, g.last().len() - 1)
    } else {
        let (x, y) = lm_where(p, n, i);
        if x < a.len() {
            assert(gs(ts, n)[x] == a[x]);
        } else {
            assert(gs(p, n)[x] == b);
            assert(gs(ts, n)[x][y] == b[y]);
        }
        (x, y)
    }
}
/// all rows
#[verifier::spinoff_prover]
proof fn lm_rows_up(ts: Seq<GT>, n: int, d: int)
    requires n >= 2, ts.len() >= 1, deep(ts, d), 0 <= d, d + ts.len() <= usize::MAX, tr_fits(top(ts, n)),
    ensures
        all_fit(ts),
        ts.len() >= 2 ==> all_fit(up(ts, n)),
        lblocks(ltops(sp_links(ts), n, d)) =~= sp_blocks(tops(ts, n)),
        lall_fit(ltops(sp_links(ts), n, d)),
        ltop(sp_links(ts), n, d) == sp_link(top(ts, n)),
    decreases ts.len()
{
    reveal(top); reveal(tops); reveal(ltop); reveal(ltops);
    lm_chunk(ts, n);
    lm_rows(ts, n);
    if ts.len() >= 2 {
        assert(deep(up(ts, n), d + 1)) by {
            let g = gs(ts, n);
            assert forall|i: int| 0 <= i < g.len() implies tr_depth(#[trigger] up(ts, n)[i]) == d + 1 by {
                lm_group_all(ts, n, i);
                assert(ts.contains(g[i][0]));
            }
        }
        lm_rows_up(up(ts, n), n, d + 1);
        lm_row_up(ts, n, d);
        assert(lup(sp_links(ts), n, d) == sp_links(up(ts, n)));
        assert(lblocks(ltops(sp_links(ts), n, d)) =~= lblocks(gs(sp_links(ts), n)) + lblocks(ltops(lup(sp_links(ts), n, d), n, d + 1)));
        assert(sp_blocks(tops(ts, n)) =~= sp_blocks(up(ts, n)) + sp_blocks(tops(up(ts, n), n)));
        let a = gs(sp_links(ts), n);
        let b = ltops(lup(sp_links(ts), n, d), n, d + 1);
        assert forall|i: int| 0 <= i < (a + b).len() implies lfits(#[trigger] (a + b)[i]) by {
            if i < a.len() { assert(lfits(a[i])); } else { assert(lfits(b[i - a.len()])); }
        }
    } else {
        assert(ts[0] == ts.last());
        assert(lblocks(Seq::empty()) =~= sp_blocks(Seq::empty()));
    }
}
/// a group which is complete in a prefix is a node of the whole
proof fn lm_prefix_group(ts: Seq<GT>, m: int, n: int)
    requires n >= 1, 0 <= m <= ts.len(), chunk(ts.take(m), n).1.len() >= n,
    ensures up(ts, n).contains(GT::Node(chunk(ts.take(m), n).1))
{
    lm_chunk_prefix(ts, m, n);
    lm_chunk(ts.take(m), n);
    let i = chunk(ts.take(m), n).0.len() as int;
    assert(up(ts, n)[i] == GT::Node(chunk(ts.take(m), n).1));
}
/// what is out while the content is pushed
proof fn lm_emitted_trees(all: Seq<Seq<u8>>, m: int, n: int)
    requires n >= 2, 0 <= m <= all.len(), all.len() >= 2 ==> all_fit(up(leaves(all), n)),
    ensures sp_emitted(all.take(m), n) =~= sp_blocks(tr_emitted(all.take(m), n))
    decreases m
{
    let chs = all.take(m);
    if m > 0 {
        lm_emitted_trees(all, m - 1, n);
        let p = chs.drop_last();
        assert(p =~= all.take(m - 1));
        assert(leaves(p) =~= leaves(all).take(m - 1));
        lm_rows(leaves(p), n);
        let b = chunk(leaves(p), n).1;
        lm_chunk(leaves(p), n);
        if b.len() >= n {
            lm_prefix_group(leaves(all), m - 1, n);
            assert(tr_fits(GT::Node(b))) by {
                let i = choose|i: int| 0 <= i < up(leaves(all), n).len() && up(leaves(all), n)[i] == GT::Node(b);
                assert(tr_fits(up(leaves(all), n)[i]));
            }
            lm_deep_leaves(p);
            lm_suffix(leaves(p), n);
            lm_node_link(b, 0);
            assert(lblocks(seq![sp_links(b)]) =~= sp_blocks(seq![GT::Node(b)]));
            assert(llinks(p) == sp_links(leaves(p)));
        } 
        let l = if b.len() >= n { seq![GT::Node(b)] } else { Seq::empty() };
        assert(sp_blocks(tr_emitted(chs, n)) =~= sp_blocks(tr_emitted(p, n)) + sp_blocks(seq![GT::Leaf(chs.last())]) + sp_blocks(l));
    } else {
        assert(chs =~= Seq::empty());
    }
}
proof fn lm_deep_leaves(chs: Seq<Seq<u8>>)
    ensures deep(leaves(chs), 0)
{}
proof fn lm_suffix<T>(ts: Seq<T>, n: int)
    requires n >= 1,
    ensures forall|j: int| 0 <= j < chunk(ts, n).1.len() ==> #[trigger] chunk(ts, n).1[j] == ts[ts.len() - chunk(ts, n).1.len() + j] && chunk(ts, n).1.len() <= ts.len()
{
    lm_chunk_at(ts, n);
    assert(0 <= chunk(ts, n).0.len() * n) by (nonlinear_arith) requires n >= 1;
}
proof fn lm_full_prefix(c: Seq<u8>, max: int)
    requires max >= 1,
    ensures ({
        let f = full(c, max);
        let all = chunks(c, max);
        &&& all.len() >= 1
        &&& rest(c, max).len() > 0 || c.len() == 0 ==> all =~= f.push(rest(c, max))
        &&& !(rest(c, max).len() > 0 || c.len() == 0) ==> all =~= f
        &&& f =~= all.take(f.len() as int)
        &&& f.len() <= all.len()
        &&& all.len() <= c.len() || all.len() == 1
    })
{
    lm_chunk(c, max);
    if c.len() == 0 {
        assert(full(c, max) =~= Seq::empty());
        assert(rest(c, max) =~= Seq::empty());
    }
}
/// what is emitted are the blocks of the tree's nodes
#[verifier::spinoff_prover]
proof fn lm_import_trees(c: Seq<u8>, max: int, n: int)
    requires n >= 2, max >= 1, c.len() <= usize::MAX, tr_fits(tree_of(c, max, n)),
    ensures sp_import(c, max, n) =~= sp_blocks(sp_trees(c, max, n))
{
    let chs = chunks(c, max);
    let all = leaves(chs);
    let f = full(c, max);
    lm_full_prefix(c, max);
    lm_deep_leaves(chs);
    lm_rows_up(all, n, 0);
    lm_emitted_trees(chs, f.len() as int, n);
    let x = if rest(c, max).len() > 0 || c.len() == 0 { seq![GT::Leaf(rest(c, max))] } else { Seq::empty() };
    assert(sp_blocks(Seq::empty()) =~= Seq::empty());
    lm_rows(leaves(f), n);
    let q = chunk(leaves(f), n).0.len() as int;
    let e = tr_emitted(f, n);
    if all.len() >= 2 {
        lm_row_up(all, n, 0);
        lm_chunk(all, n);
        assert(leaves(f) =~= all.take(f.len() as int));
        lm_chunk_prefix(all, f.len() as int, n);
        let g = gs(llinks(chs), n);
        lm_deep_up(all, n, 0);
        reveal(top); reveal(tops); reveal(ltops);
        lm_rows_up(up(all, n), n, 1);
        let b = ltops(lup(llinks(chs), n, 0), n, 1);
        assert(q <= g.len());
        assert(lblocks(g.skip(q) + b) =~= lblocks(g).skip(q) + lblocks(b));
        assert(sp_blocks(up(all, n).skip(q)) =~= sp_blocks(up(all, n)).skip(q));
        assert(sp_blocks(e + x + (up(all, n).skip(q) + tops(up(all, n), n))) =~= sp_blocks(e) + sp_blocks(x) + (sp_blocks(up(all, n).skip(q)) + sp_blocks(tops(up(all, n), n))));
    } else {
        assert(sp_blocks(e + x + Seq::empty()) =~= sp_blocks(e) + sp_blocks(x) + Seq::empty());
    }
}
proof fn lm_deep_up(ts: Seq<GT>, n: int, d: int)
    requires n >= 1, deep(ts, d),
    ensures deep(up(ts, n), d + 1)
{
    let g = gs(ts, n);
    lm_chunk(ts, n);
    assert forall|i: int| 0 <= i < g.len() implies tr_depth(#[trigger] up(ts, n)[i]) == d + 1 by {
        lm_group_all(ts, n, i);
        assert(ts.contains(g[i][0]));
    }
}

// ---- what the tree is
proof fn lm_cat_prefix(a: Seq<GT>, b: Seq<GT>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures gt_cat(a, n) == gt_cat(b, n)
    decreases n
{
    if n > 0 { lm_cat_prefix(a, b, n - 1); }
}
proof fn lm_cat_push(a: Seq<GT>, x: GT)
    ensures gt_cat(a.push(x), a.len() as int + 1) == gt_cat(a, a.len() as int) + gt_bytes(x)
{
    lm_cat_prefix(a.push(x), a, a.len() as int);
}
pub open spec fn cat(ts: Seq<GT>) -> Seq<u8> { gt_cat(ts, ts.len() as int) }
/// a row has the bytes of the row below
proof fn lm_cat_up(ts: Seq<GT>, n: int)
    requires n >= 1,
    ensures cat(up(ts, n)) =~= cat(ts), cat(nodes(chunk(ts, n).0)) + cat(chunk(ts, n).1) =~= cat(ts)
    decreases ts.len()
{
    reveal(chunk);
    let (c, d) = chunk(ts, n);
    if ts.len() > 0 {
        let p = ts.drop_last();
        let x = ts.last();
        lm_cat_up(p, n);
        let (a, b) = chunk(p, n);
        assert(p.push(x) =~= ts);
        lm_cat_push(p, x);
        lm_cat_push(b, x);
        if b.len() >= n {
            assert(nodes(a.push(b)) =~= nodes(a).push(GT::Node(b)));
            lm_cat_push(nodes(a), GT::Node(b));
            lm_cat_push(Seq::empty(), x);
            assert(Seq::<GT>::empty().push(x) =~= seq![x]);
            assert(cat(seq![x]) =~= gt_bytes(x));
        }
    }
    if d.len() > 0 {
        assert(nodes(c.push(d)) =~= nodes(c).push(GT::Node(d)));
        lm_cat_push(nodes(c), GT::Node(d));
    } else {
        assert(cat(d) =~= Seq::empty());
    }
}
proof fn lm_cat_top(ts: Seq<GT>, n: int)
    requires n >= 2, ts.len() >= 1,
    ensures gt_bytes(top(ts, n)) =~= cat(ts)
    decreases ts.len()
{
    reveal(top);
    lm_chunk(ts, n);
    if ts.len() >= 2 {
        lm_cat_top(up(ts, n), n);
        lm_cat_up(ts, n);
    } else {
        lm_cat_push(Seq::empty(), ts.last());
        assert(Seq::<GT>::empty().push(ts.last()) =~= ts);
    }
}
proof fn lm_cat_leaves(c: Seq<u8>, max: int)
    requires max >= 1,
    ensures cat(leaves(chunk(c, max).0)) + chunk(c, max).1 =~= c, cat(leaves(chunks(c, max))) =~= c
    decreases c.len()
{
    reveal(chunk);
    let (d, e) = chunk(c, max);
    if c.len() > 0 {
        let p = c.drop_last();
        let x = c.last();
        lm_cat_leaves(p, max);
        let (a, b) = chunk(p, max);
        assert(p.push(x) =~= c);
        if b.len() >= max {
            assert(leaves(a.push(b)) =~= leaves(a).push(GT::Leaf(b)));
            lm_cat_push(leaves(a), GT::Leaf(b));
        }
        lm_chunk(c, max);
        assert(leaves(d.push(e)) =~= leaves(d).push(GT::Leaf(e)));
        lm_cat_push(leaves(d), GT::Leaf(e));
    } else {
        lm_cat_push(Seq::empty(), GT::Leaf(Seq::empty()));
        assert(leaves(chunks(c, max)) =~= Seq::empty().push(GT::Leaf(Seq::empty())));
        assert(leaves(d) =~= Seq::empty());
    }
}
/// the tree has the content
pub proof fn lm_tree_bytes(c: Seq<u8>, max: int, n: int)
    requires max >= 1, n >= 2,
    ensures gt_bytes(tree_of(c, max, n)) =~= c // [C01]
{
    lm_full_prefix(c, max);
    lm_cat_leaves(c, max);
    lm_cat_top(leaves(chunks(c, max)), n);
}
// ---- shape
/// A tree with all leaves d levels below and at most n links in a node. Only the last branch of the
/// last tree of a row may hold less than it could.
pub open spec fn shape(t: GT, n: int, max: int, d: int, last: bool) -> bool
    decreases t
{
    match t {
        GT::Leaf(b) => d == 0 && b.len() <= max && (last || b.len() == max),
        GT::Node(k) => {
            &&& d >= 1
            &&& 1 <= k.len() <= n
            &&& last || k.len() == n
            &&& forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> shape(k[i], n, max, d - 1, last && i == k.len() - 1)
        },
    }
}
pub open spec fn whole_row(ts: Seq<GT>, n: int, max: int, d: int) -> bool { forall|i: int| 0 <= i < ts.len() ==> shape(#[trigger] ts[i], n, max, d, false) }
pub open spec fn row(ts: Seq<GT>, n: int, max: int, d: int) -> bool { ts.len() >= 1 && whole_row(ts.drop_last(), n, max, d) && shape(ts.last(), n, max, d, true) }
proof fn lm_whole_row(ts: Seq<GT>, n: int, max: int, d: int)
    requires n >= 1, d >= 0, whole_row(ts, n, max, d),
    ensures whole_row(nodes(chunk(ts, n).0), n, max, d + 1), whole_row(chunk(ts, n).1, n, max, d)
    decreases ts.len()
{
    reveal(chunk);
    if ts.len() > 0 {
        let p = ts.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies shape(#[trigger] p[i], n, max, d, false) by { assert(p[i] == ts[i]); }
        lm_whole_row(p, n, max, d);
        lm_chunk(p, n);
        let (a, b) = chunk(p, n);
        assert(shape(ts[ts.len() - 1], n, max, d, false));
        let c = nodes(chunk(ts, n).0);
        assert forall|i: int| 0 <= i < c.len() implies shape(#[trigger] c[i], n, max, d + 1, false) by {
            if i < a.len() { assert(c[i] == nodes(a)[i]); } else { assert(c[i] == GT::Node(b)); }
        }
    }
}
proof fn lm_row_shape(ts: Seq<GT>, n: int, max: int, d: int)
    requires n >= 1, d >= 0, row(ts, n, max, d),
    ensures row(up(ts, n), n, max, d + 1)
{
    reveal(chunk);
    let p = ts.drop_last();
    lm_whole_row(p, n, max, d);
    lm_chunk(p, n);
    let (a, b) = chunk(p, n);
    let x = ts.last();
    let u = up(ts, n);
    if b.len() < n {
        assert(u =~= nodes(a).push(GT::Node(b.push(x))));
        assert(shape(GT::Node(b.push(x)), n, max, d + 1, true)) by {
            let k = b.push(x);
            assert forall|i: int| #![trigger k[i]] 0 <= i < k.len() implies shape(k[i], n, max, d, true && i == k.len() - 1) by {
                if i < b.len() { assert(k[i] == b[i]); }
            }
        }
        assert(u.drop_last() =~= nodes(a));
    } else {
        assert(u =~= nodes(a.push(b)).push(GT::Node(seq![x])));
        assert(u.drop_last() =~= nodes(a.push(b)));
        assert(shape(GT::Node(b), n, max, d + 1, false));
        assert forall|i: int| 0 <= i < u.drop_last().len() implies shape(#[trigger] u.drop_last()[i], n, max, d + 1, false) by {
            if i < a.len() { assert(u.drop_last()[i] == nodes(a)[i]); }
        }
        assert(shape(GT::Node(seq![x]), n, max, d + 1, true));
    }
}
/// at least two links, unless it is a leaf
pub open spec fn root_ok(t: GT) -> bool { match t { GT::Leaf(_) => true, GT::Node(k) => k.len() >= 2 } }
proof fn lm_top_shape(ts: Seq<GT>, n: int, max: int, d: int)
    requires n >= 2, d >= 0, row(ts, n, max, d),
    ensures
        shape(top(ts, n), n, max, d + levels(ts, n), true),
        ts.len() >= 2 ==> root_ok(top(ts, n)),
    decreases ts.len()
{
    reveal(top);
    lm_chunk(ts, n);
    if ts.len() >= 2 {
        lm_row_shape(ts, n, max, d);
        lm_top_shape(up(ts, n), n, max, d + 1);
        if up(ts, n).len() == 1 {
            lm_chunk_at(ts, n);
            assert(top(up(ts, n), n) == up(ts, n)[0]);
            assert(gs(ts, n)[0] =~= ts) by {
                let (a, b) = chunk(ts, n);
                if a.len() == 0 { assert(0 * n == 0) by (nonlinear_arith); } else { assert(b.len() == 0); }
            }
        }
    }
}
pub open spec fn levels(ts: Seq<GT>, n: int) -> int
    decreases ts.len()
{
    if ts.len() <= 1 || gs(ts, n).len() >= ts.len() { 0 } else { 1 + levels(up(ts, n), n) }
}
proof fn lm_leaves_row(c: Seq<u8>, max: int, n: int)
    requires max >= 1, n >= 2,
    ensures row(leaves(chunks(c, max)), n, max, 0)
{
    lm_chunk(c, max);
    let (a, b) = chunk(c, max);
    let l = leaves(chunks(c, max));
    if c.len() > 0 {
        assert(l.drop_last() =~= leaves(a));
        assert(l.last() == GT::Leaf(b));
    } else {
        assert(l.drop_last() =~= Seq::empty());
        assert(l.last() == GT::Leaf(Seq::empty()));
    }
}
/// the shape of what is imported
pub proof fn lm_tree_shape(c: Seq<u8>, max: int, n: int)
    requires max >= 1, n >= 2,
    ensures exists|d: int| shape(tree_of(c, max, n), n, max, d, true), root_ok(tree_of(c, max, n)) // [C03]
{
    lm_leaves_row(c, max, n);
    lm_top_shape(leaves(chunks(c, max)), n, max, 0);
    reveal(top);
}

// ---- order
pub open spec fn before(s: Seq<GT>, j: int, t: GT) -> bool { exists|l: int| 0 <= l < j && s[l] == t }
pub open spec fn kids_before(s: Seq<GT>, j: int) -> bool {
    match s[j] { GT::Leaf(_) => true, GT::Node(k) => forall|i: int| 0 <= i < k.len() ==> before(s, j, #[trigger] k[i]) }
}
/// every node comes after all its children
pub open spec fn children_first(s: Seq<GT>) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] kids_before(s, j) }
pub open spec fn has_all(s: Seq<GT>, ts: Seq<GT>) -> bool { forall|i: int| 0 <= i < ts.len() ==> s.contains(#[trigger] ts[i]) }
proof fn lm_cf_append(a: Seq<GT>, b: Seq<GT>)
    requires
        children_first(a),
        forall|j: int| #![trigger b[j]] 0 <= j < b.len() ==> match b[j] { GT::Leaf(_) => true, GT::Node(k) => has_all(a, k) },
    ensures children_first(a + b), has_all(a + b, a), has_all(a + b, b), forall|ts: Seq<GT>| has_all(a, ts) ==> #[trigger] has_all(a + b, ts)
{
    let s = a + b;
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] kids_before(s, j) by {
        if let GT::Node(k) = s[j] {
            assert forall|i: int| 0 <= i < k.len() implies before(s, j, #[trigger] k[i]) by {
                if j < a.len() {
                    assert(kids_before(a, j));
                    assert(before(a, j, k[i]));
                    let l = choose|l: int| 0 <= l < j && a[l] == k[i];
                    assert(s[l] == k[i]);
                } else {
                    assert(s[j] == b[j - a.len()]);
                    assert(a.contains(k[i]));
                    let l = choose|l: int| 0 <= l < a.len() && a[l] == k[i];
                    assert(s[l] == k[i]);
                }
            }
        }
    }
    assert forall|i: int| 0 <= i < a.len() implies s.contains(#[trigger] a[i]) by { assert(s[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies s.contains(#[trigger] b[i]) by { assert(s[i + a.len()] == b[i]); }
    assert forall|ts: Seq<GT>| has_all(a, ts) implies #[trigger] has_all(s, ts) by {
        assert forall|i: int| 0 <= i < ts.len() implies s.contains(#[trigger] ts[i]) by {
            assert(a.contains(ts[i]));
            let l = choose|l: int| 0 <= l < a.len() && a[l] == ts[i];
            assert(s[l] == ts[i]);
        }
    }
}
proof fn lm_cf_emitted(chs: Seq<Seq<u8>>, n: int)
    requires n >= 1,
    ensures
        children_first(tr_emitted(chs, n)),
        has_all(tr_emitted(chs, n), leaves(chs)),
        has_all(tr_emitted(chs, n), nodes(chunk(leaves(chs), n).0)),
    decreases chs.len()
{
    reveal(chunk);
    if chs.len() > 0 {
        let p = chs.drop_last();
        lm_cf_emitted(p, n);
        let ls = leaves(p);
        assert(leaves(chs).drop_last() =~= ls);
        let (a, b) = chunk(ls, n);
        lm_chunk(ls, n);
        lm_suffix(ls, n);
        let e = tr_emitted(p, n);
        let x = seq![GT::Leaf(chs.last())];
        lm_cf_append(e, x);
        assert forall|j: int| 0 <= j < b.len() implies (e + x).contains(#[trigger] b[j]) by {
            assert(e.contains(ls[ls.len() - b.len() + j]));
            assert(has_all(e + x, ls));
            assert((e + x).contains(ls[ls.len() - b.len() + j]));
        }
        let y = if b.len() >= n { seq![GT::Node(b)] } else { Seq::empty() };
        lm_cf_append(e + x, y);
        let r = tr_emitted(chs, n);
        assert(r == e + x + y);
        assert forall|i: int| 0 <= i < leaves(chs).len() implies r.contains(#[trigger] leaves(chs)[i]) by {
            if i < p.len() {
                assert(has_all(e + x + y, ls));
                assert(leaves(chs)[i] == ls[i]);
            } else {
                assert(has_all(e + x + y, x)) by { assert(has_all(e + x, x)); }
                assert(leaves(chs)[i] == x[0]);
            }
        }
        let c = nodes(chunk(leaves(chs), n).0);
        assert forall|i: int| 0 <= i < c.len() implies r.contains(#[trigger] c[i]) by {
            if i < a.len() {
                assert(has_all(e + x + y, nodes(a))) by { assert(has_all(e + x, nodes(a))); }
                assert(c[i] == nodes(a)[i]);
            } else {
                assert(c[i] == y[0]);
                assert(has_all(e + x + y, y));
            }
        }
    } else {
        assert(leaves(chs) =~= Seq::empty());
    }
}
proof fn lm_cf_tops(pre: Seq<GT>, ts: Seq<GT>, n: int)
    requires n >= 2, ts.len() >= 1, children_first(pre), has_all(pre, ts), pre.len() > 0, pre.last() == ts.last(),
    ensures children_first(pre + tops(ts, n)), (pre + tops(ts, n)).last() == top(ts, n)
    decreases ts.len()
{
    reveal(top); reveal(tops);
    lm_chunk(ts, n);
    if ts.len() >= 2 {
        let u = up(ts, n);
        lm_up_kids(pre, ts, n, 0);
        assert(u.skip(0) =~= u);
        lm_cf_append(pre, u);
        assert((pre + u).last() == u.last());
        lm_cf_tops(pre + u, u, n);
        assert(pre + u + tops(u, n) =~= pre + tops(ts, n));
    } else {
        assert(pre + tops(ts, n) =~= pre);
    }
}
proof fn lm_up_kids(pre: Seq<GT>, ts: Seq<GT>, n: int, q: int)
    requires n >= 1, has_all(pre, ts), 0 <= q <= up(ts, n).len(),
    ensures forall|j: int| #![trigger up(ts, n).skip(q)[j]] 0 <= j < up(ts, n).skip(q).len() ==> match up(ts, n).skip(q)[j] { GT::Leaf(_) => true, GT::Node(k) => has_all(pre, k) }
{
    assert forall|j: int| #![trigger up(ts, n).skip(q)[j]] 0 <= j < up(ts, n).skip(q).len() implies match up(ts, n).skip(q)[j] { GT::Leaf(_) => true, GT::Node(k) => has_all(pre, k) } by {
        let k = gs(ts, n)[j + q];
        assert(up(ts, n).skip(q)[j] == GT::Node(k));
        lm_group_all(ts, n, j + q);
        assert forall|i: int| 0 <= i < k.len() implies pre.contains(#[trigger] k[i]) by {
            assert(ts.contains(k[i]));
            let l = choose|l: int| 0 <= l < ts.len() && ts[l] == k[i];
            assert(pre.contains(ts[l]));
        }
    }
}
/// children come first and the root comes last
#[verifier::spinoff_prover]
pub proof fn lm_order(c: Seq<u8>, max: int, n: int)
    requires max >= 1, n >= 2,
    ensures
        children_first(sp_trees(c, max, n)), // [C03]
        sp_trees(c, max, n).len() > 0,
        sp_trees(c, max, n).last() == tree_of(c, max, n), // [C01]
{
    let chs = chunks(c, max);
    let all = leaves(chs);
    let f = full(c, max);
    lm_full_prefix(c, max);
    lm_cf_emitted(f, n);
    let e = tr_emitted(f, n);
    let x = if rest(c, max).len() > 0 || c.len() == 0 { seq![GT::Leaf(rest(c, max))] } else { Seq::empty() };
    lm_cf_append(e, x);
    let r = e + x;
    assert(has_all(r, all)) by {
        assert forall|i: int| 0 <= i < all.len() implies r.contains(#[trigger] all[i]) by {
            if i < f.len() {
                assert(has_all(r, leaves(f)));
                assert(all[i] == leaves(f)[i]);
            } else {
                assert(has_all(r, x));
                assert(all[i] == x[0]);
            }
        }
    }
    let q = chunk(leaves(f), n).0.len() as int;
    assert(leaves(f) =~= all.take(f.len() as int));
    lm_chunk_prefix(all, f.len() as int, n);
    lm_chunk(all, n);
    let u = up(all, n);
    if all.len() >= 2 {
        lm_up_kids(r, all, n, q);
        lm_cf_append(r, u.skip(q));
        let s = r + u.skip(q);
        assert(has_all(s, u)) by {
            assert forall|i: int| 0 <= i < u.len() implies s.contains(#[trigger] u[i]) by {
                if i < q {
                    assert(has_all(r, nodes(chunk(leaves(f), n).0)));
                    assert(has_all(s, nodes(chunk(leaves(f), n).0)));
                    assert(chunk(all, n).0.take(q)[i] == chunk(leaves(f), n).0[i]);
                    assert(u[i] == nodes(chunk(leaves(f), n).0)[i]);
                } else {
                    assert(has_all(s, u.skip(q)));
                    assert(u[i] == u.skip(q)[i - q]);
                }
            }
        }
        assert(q < u.len());
        assert(s.last() == u.last());
        lm_cf_tops(s, u, n);
        reveal(top);
        assert(s + tops(u, n) =~= sp_trees(c, max, n));
    } else {
        assert(sp_trees(c, max, n) =~= r);
        reveal(top);
        if x.len() == 0 {
            assert(f.len() == 1);
            assert(tr_emitted(f.drop_last(), n) =~= Seq::empty());
            assert(leaves(f.drop_last()) =~= Seq::empty());
            reveal(chunk);
            assert(e =~= seq![GT::Leaf(f.last())]);
            assert(r.last() == all.last());
        } else {
            assert(r.last() == all.last());
        }
    }
}
// ---- reading it back
pub open spec fn stored(store: GStore, t: GT) -> bool
    decreases t
{
    &&& store.dom().contains(tr_cid(t))
    &&& store[tr_cid(t)] == tr_block(t)
    &&& match t { GT::Leaf(_) => true, GT::Node(k) => forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> stored(store, k[i]) }
}
/// blocks are short enough for the length fields of the parser
pub open spec fn small(t: GT) -> bool
    decreases t
{
    &&& tr_block(t).len() < 0x8000_0000
    &&& match t { GT::Leaf(_) => true, GT::Node(k) => k.len() > 0 && forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> small(k[i]) }
}
/// the blocks put into a store, in order
pub open spec fn put_all(store: GStore, out: Seq<(Cid, Seq<u8>)>) -> GStore
    decreases out.len()
{
    if out.len() == 0 { store } else { put_all(store, out.drop_last()).insert(out.last().0, out.last().1) }
}
/// no two different blocks have the same identifier
pub open spec fn no_clash(out: Seq<(Cid, Seq<u8>)>) -> bool { forall|i: int, j: int| #![trigger out[i], out[j]] 0 <= i < out.len() && 0 <= j < out.len() && out[i].0 == out[j].0 ==> out[i].1 == out[j].1 }
proof fn lm_put_all(store: GStore, a: Seq<(Cid, Seq<u8>)>, b: Seq<(Cid, Seq<u8>)>)
    ensures put_all(store, a + b) == put_all(put_all(store, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lm_put_all(store, a, b.drop_last());
    }
}
proof fn lm_is_put(store: GStore, out: Seq<(Cid, Seq<u8>)>)
    requires no_clash(out),
    ensures forall|i: int| 0 <= i < out.len() ==> put_all(store, out).dom().contains((#[trigger] out[i]).0) && put_all(store, out)[out[i].0] == out[i].1
    decreases out.len()
{
    if out.len() > 0 {
        let p = out.drop_last();
        assert(no_clash(p)) by { assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < p.len() && 0 <= j < p.len() && p[i].0 == p[j].0 implies p[i].1 == p[j].1 by { assert(p[i] == out[i] && p[j] == out[j]); } }
        lm_is_put(store, p);
        assert forall|i: int| 0 <= i < out.len() implies put_all(store, out).dom().contains((#[trigger] out[i]).0) && put_all(store, out)[out[i].0] == out[i].1 by {
            let l = out[out.len() - 1];
            if i < p.len() { assert(p[i] == out[i]); }
        }
    }
}
proof fn lm_stored(store: GStore, s: Seq<GT>, j: int)
    requires
        children_first(s), 0 <= j < s.len(),
        forall|i: int| 0 <= i < s.len() ==> store.dom().contains(tr_cid(#[trigger] s[i])) && store[tr_cid(s[i])] == tr_block(s[i]),
    ensures stored(store, s[j])
    decreases j
{
    assert(kids_before(s, j));
    if let GT::Node(k) = s[j] {
        assert forall|i: int| #![trigger k[i]] 0 <= i < k.len() implies stored(store, k[i]) by {
            assert(before(s, j, k[i]));
            let l = choose|l: int| 0 <= l < j && s[l] == k[i];
            lm_stored(store, s, l);
        }
    }
}
#[verifier::spinoff_prover]
proof fn lm_written(store: GStore, t: GT, at: int, root: bool)
    requires stored(store, t), small(t), 0 <= at, at + gt_bytes(t).len() <= u64::MAX,
    ensures crate::file::visit::gt_is(store, tr_block(t), at, t, root)
    decreases t
{
    broadcast use {crate::pb::ax_enc, crate::pb::ax_cid_bytes};
    let v = tr_view(t);
    let f = crate::pb::sp_flat(tr_block(t))->0;
    assert(sp_vflat(f) == v);
    assert(f.links@.len() == v.links.len());
    match t {
        GT::Leaf(b) => {
            assert(v.links.len() == 0);
            assert(crate::file::reader::sp_data(f) =~= b);
        },
        GT::Node(k) => {
            lm_links_view(k, k.len() as int);
            assert forall|i: int| #![trigger k[i]] 0 <= i < k.len() implies ({
                let c = crate::sp_cid(crate::file::visit::sp_link_hash(f.links@[i]));
                &&& f.data.blocksizes@[i] == gt_bytes(k[i]).len()
                &&& c is Some && store.dom().contains(c->0)
                &&& crate::file::visit::gt_is(store, store[c->0], at + gt_cat(k, i).len(), k[i], false)
            }) by {
                crate::file::visit::lm_cat_len(k, i + 1, k.len() as int);
                assert(gt_cat(k, i + 1) == gt_cat(k, i) + gt_bytes(k[i]));
                lm_written(store, k[i], at + gt_cat(k, i).len(), false);
                assert(sp_vflat(f).links[i] == v.links[i]);
                assert(sp_vlink(f.links@[i]) == v.links[i]);
                assert(crate::file::visit::sp_link_hash(f.links@[i]) =~= sp_cid_bytes(tr_cid(k[i])));
            }
        },
    }
}
proof fn lm_links_view(k: Seq<GT>, n: int)
    requires 0 <= n <= k.len(),
    ensures tr_links(k, n).len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] tr_links(k, n)[i]).hash == Some(sp_cid_bytes(tr_cid(k[i])))
    decreases n
{
    if n > 0 { lm_links_view(k, n - 1); }
}
/// everything which is emitted for the content, put into a store: the content can be read from it
pub proof fn lm_readable(store: GStore, c: Seq<u8>, max: int, n: int)
    requires
        max >= 1, n >= 2, c.len() <= usize::MAX,
        tr_fits(tree_of(c, max, n)), small(tree_of(c, max, n)),
        no_clash(sp_import(c, max, n)),
    ensures
        crate::file::visit::gt_is(put_all(store, sp_import(c, max, n)), tr_block(tree_of(c, max, n)), 0, tree_of(c, max, n), true),
        sp_import(c, max, n).len() > 0,
        sp_import(c, max, n).last() == (tr_cid(tree_of(c, max, n)), tr_block(tree_of(c, max, n))), // [C01 C04]
        put_all(store, sp_import(c, max, n)).dom().contains(tr_cid(tree_of(c, max, n))),
        put_all(store, sp_import(c, max, n))[tr_cid(tree_of(c, max, n))] == tr_block(tree_of(c, max, n)),
{
    let t = tree_of(c, max, n);
    let out = sp_import(c, max, n);
    let s = sp_trees(c, max, n);
    lm_import_trees(c, max, n);
    lm_order(c, max, n);
    lm_is_put(store, out);
    let st = put_all(store, out);
    assert forall|i: int| 0 <= i < s.len() implies st.dom().contains(tr_cid(#[trigger] s[i])) && st[tr_cid(s[i])] == tr_block(s[i]) by {
        assert(out[i] == (tr_cid(s[i]), tr_block(s[i])));
    }
    lm_stored(st, s, s.len() - 1);
    lm_written(st, t, 0, true);
    assert(out[s.len() - 1] == (tr_cid(t), tr_block(t)));
}

// ---- the documented loop
/// a store which takes blocks and gives them back
pub trait VStore: crate::file::visit::VBlocks {
    fn put(&mut self, c: Cid, b: Vec<u8>)
        ensures final(self).all() == old(self).all().insert(c, b@);
}
spec fn last_is(out: Seq<(Cid, Seq<u8>)>, last: Option<Cid>) -> bool { if out.len() == 0 { last is None } else { last == Some(out.last().0) } }
fn v_last(out: &Vec<(Cid, Vec<u8>)>, last: Option<Cid>) -> (r: Option<Cid>)
    ensures forall|p: Seq<(Cid, Seq<u8>)>| last_is(p, last) ==> #[trigger] last_is(p + sp_out(out@), r)
{
    if out.len() > 0 { 
        Some(out[out.len() - 1].0)
    } else {
        assert forall|p: Seq<(Cid, Seq<u8>)>| last_is(p, last) implies #[trigger] last_is(p + sp_out(out@), last) by { assert(p + sp_out(out@) =~= p); }
        last
    }
}
fn v_put<S: VStore>(store: &mut S, out: Vec<(Cid, Vec<u8>)>)
    ensures final(store).all() == put_all(old(store).all(), sp_out(out@))
{
    let ghost s0 = store.all();
    let ghost all = out@;
    let it = out.into_iter();
    proof { assert(sp_out(all.take(0)) =~= Seq::empty()); }
    for x in y: it
        invariant
            y.seq() == all,
            store.all() == put_all(s0, sp_out(all.take(y.index()))),
    {
        store.put(x.0, x.1);
        proof {
            let a = sp_out(all.take(y.index()));
            let b = sp_out(all.take(y.index() + 1));
            assert(b.drop_last() =~= a);
        }
    }
    proof { assert(all.take(all.len() as int) =~= all); }
}
proof fn lm_room(v: FileAdder, c: Seq<u8>, m: int)
    requires
        0 <= m <= c.len(), v.holds(c.take(m)), c.len() <= usize::MAX,
        tr_fits(tree_of(c, v.max(), v.bf())),
    ensures v.room()
{
    let n = v.bf();
    let max = v.max();
    let chs = chunks(c, max);
    let all = leaves(chs);
    let f = full(c.take(m), max);
    lm_chunk(c, max);
    lm_chunk(c.take(m), max);
    lm_chunk_prefix(c, m, max);
    if m == 0 { assert(f =~= Seq::empty()); }
    assert(f =~= chs.take(f.len() as int)) by {
        let q = chunk(c.take(m), max).0.len() as int;
        assert forall|i: int| 0 <= i < f.len() implies f[i] == chs[i] by {
            if i < q { assert(chunk(c, max).0.take(q)[i] == chunk(c.take(m), max).0[i]); }
        }
    }
    assert(leaves(f) =~= all.take(f.len() as int));
    lm_full_prefix(c, max);
    lm_deep_leaves(chs);
    lm_deep_leaves(f);
    lm_rows_up(all, n, 0);
    let l = llinks(f);
    lm_llinks(f, Seq::empty());
    lm_lpend(l, n);
    lm_rows(leaves(f), n);
    let b = chunk(leaves(f), n).1;
    lm_chunk(leaves(f), n);
    if b.len() == n {
        lm_prefix_group(all, f.len() as int, n);
        let i = choose|i: int| 0 <= i < up(all, n).len() && up(all, n)[i] == GT::Node(b);
        assert(all.len() >= 2);
        assert(tr_fits(up(all, n)[i]));
        lm_suffix(leaves(f), n);
        lm_node_link(b, 0);
    }
}
proof fn lm_room_to_finish(v: FileAdder, c: Seq<u8>)
    requires v.holds(c), c.len() <= usize::MAX, tr_fits(tree_of(c, v.max(), v.bf())),
    ensures v.room_to_finish()
{
    let n = v.bf();
    let chs = chunks(c, v.max());
    let all = leaves(chs);
    lm_finish_links(v, c);
    lm_full_prefix(c, v.max());
    lm_deep_leaves(chs);
    lm_rows_up(all, n, 0);
    reveal(top);
    if all.len() >= 2 {
        lm_row_up(all, n, 0);
        lm_chunk(all, n);
        lm_deep_up(all, n, 0);
        lm_rows_up(up(all, n), n, 1);
        let q = chunk(llinks(full(c, v.max())), n).0.len() as int;
        let f = full(c, v.max());
        assert(llinks(f) =~= llinks(chs).take(f.len() as int));
        lm_chunk_prefix(llinks(chs), f.len() as int, n);
        lm_chunk(llinks(chs), n);
        let g = gs(llinks(chs), n).skip(q) + ltops(lup(llinks(chs), n, 0), n, 1);
        assert forall|i: int| 0 <= i < g.len() implies lfits(#[trigger] g[i]) by {
            if i < gs(llinks(chs), n).skip(q).len() { assert(g[i] == gs(llinks(chs), n)[i + q]); }
        }
    }
}
/// The whole import by the documented loop, with the content given in pieces of any lengths: the
/// blocks put into the store are a function of content, chunk size and branching factor.
pub fn v_import<S: VStore>(adder: FileAdder, content: &[u8], cuts: &[usize], store: &mut S) -> (r: Option<Cid>)
    requires
        adder.starts(), adder.max() >= 1, 2 <= adder.bf() <= 0x1000_0000_0000_0000,
        tr_fits(tree_of(content@, adder.max(), adder.bf())),
    ensures
        final(store).all() == put_all(old(store).all(), sp_import(content@, adder.max(), adder.bf())), // [C01 C02 C03 C04]
        r == Some(sp_import(content@, adder.max(), adder.bf()).last().0), // [C01]
        sp_import(content@, adder.max(), adder.bf()).len() > 0, // [C01]
{
    let ghost max = adder.max();
    let ghost n = adder.bf();
    let ghost c = content@;
    let ghost s0 = store.all();
    let length = content.len();
    proof { lm_starts(adder); }
    let mut adder = adder;
    let mut pos: usize = 0;
    let mut piece: usize = 0;
    let mut last: Option<Cid> = None;
    proof { assert(c.take(0) =~= Seq::empty()); }
    while pos < content.len() || piece < cuts.len()
        invariant
            c == content@, c.len() <= usize::MAX,
            pos <= content.len(), piece <= cuts.len(),
            adder.max() == max, adder.bf() == n,
            adder.holds(c.take(pos as int)),
            tr_fits(tree_of(c, max, n)),
            store.all() == put_all(s0, adder.emitted(c.take(pos as int))),
            last_is(adder.emitted(c.take(pos as int)), last),
        decreases content.len() - pos + cuts.len() - piece,
    {
        let left = content.len() - pos;
        let amount = if piece < cuts.len() && cuts[piece] <= left { cuts[piece] } else { left };
        let input = &content[pos..pos + amount];
        let ghost v0 = adder;
        proof {
            lm_holds_wf(adder, c.take(pos as int));
            lm_room(adder, c, pos as int);
        }
        let (blocks, used) = adder.push(input);
        let out = crate::v_collect(blocks);
        assert(used <= input.len()); // [C02]
        assert(input.len() > 0 ==> used > 0); // [C02]
        proof {
            let x = input@.take(used as int);
            lm_pushed(v0, c.take(pos as int), x, adder, sp_out(out@));
            assert(c.take(pos as int) + x =~= c.take(pos + used));
            lm_put_all(s0, v0.emitted(c.take(pos as int)), sp_out(out@));
        }
        last = v_last(&out, last);
        v_put(store, out);
        pos = pos + used;
        if piece < cuts.len() { piece = piece + 1; }
    }
    proof {
        assert(c.take(pos as int) =~= c);
        lm_holds_wf(adder, c);
        lm_room_to_finish(adder, c);
    }
    let ghost v0 = adder;
    let blocks = adder.finish();
    let out = crate::v_collect(blocks);
    proof {
        lm_finished(v0, c, sp_out(out@));
        lm_put_all(s0, v0.emitted(c), sp_out(out@));
        lm_import_trees(c, max, n);
        lm_order(c, max, n);
    }
    let last = v_last(&out, last);
    proof { assert(last_is(v0.emitted(c) + sp_out(out@), last)); }
    v_put(store, out);
    last
}
/// Importing any content, in pieces of any lengths, with any chunk size and branching factor, and
/// reading any part of it back from the store.
pub fn v_roundtrip<S: VStore>(adder: FileAdder, content: &[u8], cuts: &[usize], store: &mut S, range: Option<core::ops::Range<u64>>) -> (r: Option<Vec<u8>>)
    requires
        adder.starts(), adder.max() >= 1, 2 <= adder.bf() <= 0x1000_0000_0000_0000,
        tr_fits(tree_of(content@, adder.max(), adder.bf())),
        small(tree_of(content@, adder.max(), adder.bf())),
        no_clash(sp_import(content@, adder.max(), adder.bf())),
    ensures
        r is Some, // [C01]
        r->0@ =~= crate::file::visit::sp_inside(content@, 0, range), // [C01 C05]
        range is None ==> r->0@ =~= content@, // [C01]
{
    let ghost max = adder.max();
    let ghost n = adder.bf();
    let ghost c = content@;
    let ghost s0 = store.all();
    let length = content.len();
    let root = v_import(adder, content, cuts, store);
    proof {
        lm_readable(s0, c, max, n);
        lm_tree_bytes(c, max, n);
    }
    match root {
        None => None,
        Some(cid) => {
            let block = store.fetch(&cid);
            Some(crate::file::visit::v_read_all(&*store, block, range, Ghost(tree_of(c, max, n))))
        },
    }
}
}
@append
verus! {
impl vstd::std_specs::convert::FromSpecImpl<BalancedCollector> for Collector {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(b: BalancedCollector) -> Collector { Collector::Balanced(b) }
}
pub open spec fn sp_into<C: Into<Collector>>(c: C, r: Collector) -> bool {
    <C as vstd::std_specs::convert::IntoSpec<Collector>>::obeys_into_spec() ==> r == <C as vstd::std_specs::convert::IntoSpec<Collector>>::into_spec(c)
}
}
@fn FileAdderBuilder::with_collector props=C02,C03
@ret r
@spec
    ensures
        r.chunker() == self.chunker(), // [C02 C03]
        sp_into(collector, r.collector()), // [C02 C03]
@fn From@Collector::from props=C02,C03
