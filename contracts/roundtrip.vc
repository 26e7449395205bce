@note What was written is read back: the decoders' specification on the encoders' output.
@file src/pb.rs
@append
verus! {
/// `x` is at `pos`
pub open spec fn sp_at(b: Seq<u8>, pos: int, x: Seq<u8>) -> bool { 0 <= pos && pos + x.len() <= b.len() && b.subrange(pos, pos + x.len()) == x }
pub proof fn lm_at(b: Seq<u8>, pos: int, x: Seq<u8>, y: Seq<u8>)
    requires sp_at(b, pos, x + y),
    ensures sp_at(b, pos, x), sp_at(b, pos + x.len(), y)
{
    let s = b.subrange(pos, pos + (x + y).len());
    assert(s.subrange(0, x.len() as int) =~= x);
    assert(s.subrange(x.len() as int, s.len() as int) =~= y);
    assert(b.subrange(pos, pos + x.len()) =~= s.subrange(0, x.len() as int));
    assert(b.subrange(pos + x.len(), pos + x.len() + y.len()) =~= s.subrange(x.len() as int, s.len() as int));
}
pub proof fn lm_at_whole(x: Seq<u8>)
    ensures sp_at(x, 0, x)
{
    assert(x.subrange(0, x.len() as int) =~= x);
}
pub open spec fn sp_pow128(n: nat) -> nat
    decreases n
{
    if n == 0 { 1 } else { 128 * sp_pow128((n - 1) as nat) }
}
pub proof fn lm_pow128()
    ensures sp_pow128(1) == 128, sp_pow128(5) == 0x8_0000_0000, sp_pow128(10) > 0xffff_ffff_ffff_ffff
{
    reveal_with_fuel(sp_pow128, 12);
}
pub proof fn lm_varint(b: Seq<u8>, pos: int, v: nat, n: nat)
    requires sp_at(b, pos, sp_varint(v)), v < sp_pow128(n), n > 0,
    ensures rd_v(b, pos, n) == Some((v as int, pos + sp_varint(v).len() as int)), 1 <= sp_varint(v).len() <= n
    decreases v
{
    let x = sp_varint(v);
    if v < 128 {
        assert(x == seq![v as u8]);
        assert(b.subrange(pos, pos + 1)[0] == b[pos]);
    } else {
        let h = seq![(v % 128 + 128) as u8];
        assert(x == h + sp_varint(v / 128));
        lm_at(b, pos, h, sp_varint(v / 128));
        assert(b.subrange(pos, pos + 1)[0] == b[pos]);
        assert(v / 128 < sp_pow128((n - 1) as nat)) by {
            assert(sp_pow128(n) == 128 * sp_pow128((n - 1) as nat));
        }
        assert(n > 1) by { reveal_with_fuel(sp_pow128, 2); }
        lm_varint(b, pos + 1, v / 128, (n - 1) as nat);
    }
}
/// a tag is read back
pub proof fn lm_tag(b: Seq<u8>, pos: int, t: nat)
    requires sp_at(b, pos, sp_varint(t)), t < 0x1_0000_0000,
    ensures rd_v32(b, pos) == Some((t as u32, pos + sp_varint(t).len() as int)), sp_varint(t).len() >= 1
{
    lm_pow128();
    lm_varint(b, pos, t, 10);
}
pub proof fn lm_num(b: Seq<u8>, pos: int, t: nat)
    requires sp_at(b, pos, sp_varint(t)), t <= 0xffff_ffff_ffff_ffff,
    ensures
        rd_v64(b, pos) == Some((t as u64, pos + sp_varint(t).len() as int)),
        rd_v32(b, pos) == Some(((t % 0x1_0000_0000) as u32, pos + sp_varint(t).len() as int)),
{
    lm_pow128();
    lm_varint(b, pos, t, 10);
}
#[verifier::spinoff_prover]
pub proof fn lm_fld_bytes(b: Seq<u8>, pos: int, t: nat, s: Seq<u8>)
    requires sp_at(b, pos, sp_fld_bytes(t, s)), t < 0x1_0000_0000, s.len() < 0x1_0000_0000,
    ensures ({
        let p = pos + sp_varint(t).len();
        let e = pos + sp_fld_bytes(t, s).len();
        &&& rd_v32(b, pos) == Some((t as u32, p as int))
        &&& rd_bytes(b, p as int) == Some((s, e as int))
        &&& rd_in(b, p as int) == Some((e - s.len(), e as int))
        &&& sp_at(b, e - s.len(), s)
        &&& e > pos
    })
{
    reveal(sp_fld_bytes);
    let p = pos + sp_varint(t).len();
    lm_at(b, pos, sp_varint(t) + sp_varint(s.len()), s);
    lm_at(b, pos, sp_varint(t), sp_varint(s.len()));
    lm_tag(b, pos, t);
    lm_tag(b, p as int, s.len());
}
#[verifier::spinoff_prover]
pub proof fn lm_fld_num(b: Seq<u8>, pos: int, t: nat, v: u64)
    requires sp_at(b, pos, sp_fld_num(t, v)), t < 0x1_0000_0000,
    ensures ({
        let p = pos + sp_varint(t).len();
        let e = pos + sp_fld_num(t, v).len();
        &&& rd_v32(b, pos) == Some((t as u32, p as int))
        &&& rd_v64(b, p as int) == Some((v, e as int))
        &&& rd_v32(b, p as int) == Some(((v as int % 0x1_0000_0000) as u32, e as int))
        &&& e > pos
    })
{
    reveal(sp_fld_num);
    lm_at(b, pos, sp_varint(t), sp_varint(v as nat));
    lm_tag(b, pos, t);
    lm_num(b, pos + sp_varint(t).len(), v as nat);
}
#[verifier::spinoff_prover]
pub proof fn lm_fld_le32(b: Seq<u8>, pos: int, t: nat, v: u32)
    requires sp_at(b, pos, sp_fld_le32(t, v)), t < 0x1_0000_0000,
    ensures ({
        let p = pos + sp_varint(t).len();
        let e = pos + sp_fld_le32(t, v).len();
        &&& rd_v32(b, pos) == Some((t as u32, p as int))
        &&& rd_le32(b, p as int) == Some((v, e as int))
        &&& e > pos
    })
{
    reveal(sp_fld_le32);
    let p = pos + sp_varint(t).len();
    lm_at(b, pos, sp_varint(t), sp_le32(v));
    lm_tag(b, pos, t);
    let x = b.subrange(p as int, p + 4);
    assert(x[0] == b[p as int] && x[1] == b[p + 1] && x[2] == b[p + 2] && x[3] == b[p + 3]);
}
pub proof fn lm_link_hash(b: Seq<u8>, pos: int, end: int, acc: VLink, s: Seq<u8>)
    requires sp_at(b, pos, sp_fld_bytes(10, s)), s.len() < 0x8000_0000, pos + sp_fld_bytes(10, s).len() <= end,
    ensures rd_link(b, pos, end, acc) == rd_link(b, pos + sp_fld_bytes(10, s).len(), end, VLink { hash: Some(s), ..acc })
{
    lm_fld_bytes(b, pos, 10, s);
}
pub proof fn lm_link_name(b: Seq<u8>, pos: int, end: int, acc: VLink, t: Seq<char>)
    requires
        sp_at(b, pos, sp_fld_bytes(18, vstd::utf8::encode_utf8(t))),
        vstd::utf8::encode_utf8(t).len() < 0x8000_0000,
        pos + sp_fld_bytes(18, vstd::utf8::encode_utf8(t)).len() <= end,
    ensures rd_link(b, pos, end, acc) == rd_link(b, pos + sp_fld_bytes(18, vstd::utf8::encode_utf8(t)).len(), end, VLink { name: Some(t), ..acc })
{
    vstd::utf8::encode_utf8_decode_utf8(t);
    vstd::utf8::encode_utf8_valid_utf8(t);
    lm_fld_bytes(b, pos, 18, vstd::utf8::encode_utf8(t));
}
pub proof fn lm_link_size(b: Seq<u8>, pos: int, end: int, acc: VLink, t: u64)
    requires sp_at(b, pos, sp_fld_num(24, t)), pos + sp_fld_num(24, t).len() <= end,
    ensures rd_link(b, pos, end, acc) == rd_link(b, pos + sp_fld_num(24, t).len(), end, VLink { tsize: Some(t), ..acc })
{
    lm_fld_num(b, pos, 24, t);
}
#[verifier::spinoff_prover]
pub proof fn lm_fld_len(t: nat, s: Seq<u8>)
    ensures sp_fld_bytes(t, s).len() >= s.len()
{
    reveal(sp_fld_bytes);
}
pub proof fn lm_rd_link(b: Seq<u8>, pos: int, v: VLink)
    requires sp_at(b, pos, sp_enc_link(v)), sp_enc_link(v).len() < 0x8000_0000,
    ensures rd_link(b, pos, pos + sp_enc_link(v).len(), sp_no_link()) == Rd::Good(v, pos + sp_enc_link(v).len())
{
    let h = match v.hash { None => Seq::<u8>::empty(), Some(h) => sp_fld_bytes(10, h) };
    let n = match v.name { None => Seq::<u8>::empty(), Some(n) => sp_fld_bytes(18, vstd::utf8::encode_utf8(n)) };
    let t = match v.tsize { None => Seq::<u8>::empty(), Some(t) => sp_fld_num(24, t) };
    let end = pos + sp_enc_link(v).len();
    lm_at(b, pos, h + n, t);
    lm_at(b, pos, h, n);
    let p1 = pos + h.len();
    let p2 = p1 + n.len();
    let a1 = VLink { hash: v.hash, name: None, tsize: None };
    let a2 = VLink { hash: v.hash, name: v.name, tsize: None };
    match v.hash { None => {}, Some(s) => { lm_fld_len(10, s); lm_link_hash(b, pos, end, sp_no_link(), s); } }
    match v.name { None => {}, Some(s) => { lm_fld_len(18, vstd::utf8::encode_utf8(s)); lm_link_name(b, p1 as int, end, a1, s); } }
    match v.tsize { None => {}, Some(s) => { lm_link_size(b, p2 as int, end, a2, s); } }
}
pub proof fn lm_rd_time(b: Seq<u8>, pos: int, v: unixfs::UnixTime)
    requires sp_at(b, pos, sp_enc_time(v)),
    ensures rd_time(b, pos, pos + sp_enc_time(v).len(), sp_no_time()) == Rd::Good(v, pos + sp_enc_time(v).len())
{
    let s = sp_fld_num(8, v.Seconds as u64);
    let n = match v.FractionalNanoseconds { None => Seq::<u8>::empty(), Some(n) => sp_fld_le32(21, n) };
    let end = pos + sp_enc_time(v).len();
    lm_at(b, pos, s, n);
    let p1 = pos + s.len();
    let a1 = unixfs::UnixTime { Seconds: v.Seconds, FractionalNanoseconds: None };
    lm_fld_num(b, pos, 8, v.Seconds as u64);
    let x = v.Seconds;
    assert((x as u64) as i64 == x) by (bit_vector);
    assert(rd_time(b, pos, end, sp_no_time()) == rd_time(b, p1 as int, end, a1));
    match v.FractionalNanoseconds { None => {}, Some(s) => { lm_fld_le32(b, p1 as int, 21, s); } }
    assert(rd_time(b, p1 as int, end, a1) == rd_time(b, end, end, v));
}
pub proof fn lm_data_type(b: Seq<u8>, pos: int, end: int, acc: VData, t: UnixFsType)
    requires sp_at(b, pos, sp_fld_num(8, sp_type_num(t) as u64)), pos + sp_fld_num(8, sp_type_num(t) as u64).len() <= end,
    ensures rd_data(b, pos, end, acc) == rd_data(b, pos + sp_fld_num(8, sp_type_num(t) as u64).len(), end, VData { ty: t, ..acc })
{
    lm_fld_num(b, pos, 8, sp_type_num(t) as u64);
}
pub proof fn lm_data_bytes(b: Seq<u8>, pos: int, end: int, acc: VData, s: Option<Seq<u8>>)
    requires sp_at(b, pos, sp_opt_bytes(18, s)), sp_opt_bytes(18, s).len() < 0x8000_0000, pos + sp_opt_bytes(18, s).len() <= end, acc.data is None,
    ensures rd_data(b, pos, end, acc) == rd_data(b, pos + sp_opt_bytes(18, s).len(), end, VData { data: s, ..acc })
{
    match s { None => { assert(VData { data: s, ..acc } == acc); }, Some(t) => { lm_fld_len(18, t); lm_fld_bytes(b, pos, 18, t); } }
}
pub proof fn lm_data_filesize(b: Seq<u8>, pos: int, end: int, acc: VData, s: Option<u64>)
    requires sp_at(b, pos, sp_opt_num(24, s)), pos + sp_opt_num(24, s).len() <= end, acc.filesize is None,
    ensures rd_data(b, pos, end, acc) == rd_data(b, pos + sp_opt_num(24, s).len(), end, VData { filesize: s, ..acc })
{
    match s { None => { assert(VData { filesize: s, ..acc } == acc); }, Some(t) => { lm_fld_num(b, pos, 24, t); } }
}
pub proof fn lm_data_hash_type(b: Seq<u8>, pos: int, end: int, acc: VData, s: Option<u64>)
    requires sp_at(b, pos, sp_opt_num(40, s)), pos + sp_opt_num(40, s).len() <= end, acc.hash_type is None,
    ensures rd_data(b, pos, end, acc) == rd_data(b, pos + sp_opt_num(40, s).len(), end, VData { hash_type: s, ..acc })
{
    match s { None => { assert(VData { hash_type: s, ..acc } == acc); }, Some(t) => { lm_fld_num(b, pos, 40, t); } }
}
pub proof fn lm_data_fanout(b: Seq<u8>, pos: int, end: int, acc: VData, s: Option<u64>)
    requires sp_at(b, pos, sp_opt_num(48, s)), pos + sp_opt_num(48, s).len() <= end, acc.fanout is None,
    ensures rd_data(b, pos, end, acc) == rd_data(b, pos + sp_opt_num(48, s).len(), end, VData { fanout: s, ..acc })
{
    match s { None => { assert(VData { fanout: s, ..acc } == acc); }, Some(t) => { lm_fld_num(b, pos, 48, t); } }
}
pub proof fn lm_data_mode(b: Seq<u8>, pos: int, end: int, acc: VData, m: Option<u32>)
    requires
        acc.mode is None,
        sp_at(b, pos, sp_opt_num(56, match m { None => None, Some(m) => Some(m as u64) })),
        pos + sp_opt_num(56, match m { None => None, Some(m) => Some(m as u64) }).len() <= end,
    ensures
        rd_data(b, pos, end, acc) == rd_data(b, pos + sp_opt_num(56, match m { None => None, Some(m) => Some(m as u64) }).len(), end, VData { mode: m, ..acc })
{
    match m { None => { assert(VData { mode: m, ..acc } == acc); }, Some(t) => { lm_fld_num(b, pos, 56, t as u64); } }
}
pub proof fn lm_data_time(b: Seq<u8>, pos: int, end: int, acc: VData, m: Option<unixfs::UnixTime>)
    requires
        acc.mtime is None,
        sp_at(b, pos, sp_opt_bytes(66, match m { None => None, Some(t) => Some(sp_enc_time(t)) })),
        sp_opt_bytes(66, match m { None => None, Some(t) => Some(sp_enc_time(t)) }).len() < 0x8000_0000,
        pos + sp_opt_bytes(66, match m { None => None, Some(t) => Some(sp_enc_time(t)) }).len() <= end,
    ensures
        rd_data(b, pos, end, acc) == rd_data(b, pos + sp_opt_bytes(66, match m { None => None, Some(t) => Some(sp_enc_time(t)) }).len(), end, VData { mtime: m, ..acc })
{
    match m {
        None => { assert(VData { mtime: m, ..acc } == acc); },
        Some(t) => {
            let x = sp_enc_time(t);
            lm_fld_len(66, x);
            lm_fld_bytes(b, pos, 66, x);
            lm_rd_time(b, pos + sp_fld_bytes(66, x).len() - x.len(), t);
        },
    }
}
pub proof fn lm_data_size(b: Seq<u8>, pos: int, end: int, acc: VData, v: u64)
    requires sp_at(b, pos, sp_fld_num(32, v)), pos + sp_fld_num(32, v).len() <= end,
    ensures rd_data(b, pos, end, acc) == rd_data(b, pos + sp_fld_num(32, v).len(), end, VData { blocksizes: acc.blocksizes.push(v), ..acc })
{
    lm_fld_num(b, pos, 32, v);
}
pub proof fn lm_data_sizes(b: Seq<u8>, pos: int, end: int, acc: VData, l: Seq<u64>)
    requires sp_at(b, pos, sp_enc_sizes(l)), pos + sp_enc_sizes(l).len() <= end,
    ensures rd_data(b, pos, end, acc) == rd_data(b, pos + sp_enc_sizes(l).len(), end, VData { blocksizes: acc.blocksizes + l, ..acc })
    decreases l.len()
{
    if l.len() == 0 {
        assert(acc.blocksizes + l =~= acc.blocksizes);
    } else {
        let a = sp_enc_sizes(l.drop_last());
        let z = sp_fld_num(32, l.last());
        lm_at(b, pos, a, z);
        lm_data_sizes(b, pos, end, acc, l.drop_last());
        let m = VData { blocksizes: acc.blocksizes + l.drop_last(), ..acc };
        lm_data_size(b, pos + a.len(), end, m, l.last());
        assert((acc.blocksizes + l.drop_last()).push(l.last()) =~= acc.blocksizes + l);
    }
}
pub proof fn lm_at8(b: Seq<u8>, pos: int, v: VData)
    requires sp_at(b, pos, sp_enc_data(v)),
    ensures ({
        let p1 = pos + sp_fld_num(8, sp_type_num(v.ty) as u64).len();
        let p2 = p1 + sp_opt_bytes(18, v.data).len();
        let p3 = p2 + sp_opt_num(24, v.filesize).len();
        let p4 = p3 + sp_enc_sizes(v.blocksizes).len();
        let p5 = p4 + sp_opt_num(40, v.hash_type).len();
        let p6 = p5 + sp_opt_num(48, v.fanout).len();
        let p7 = p6 + sp_opt_num(56, match v.mode { None => None, Some(m) => Some(m as u64) }).len();
        &&& sp_at(b, pos, sp_fld_num(8, sp_type_num(v.ty) as u64))
        &&& sp_at(b, p1 as int, sp_opt_bytes(18, v.data))
        &&& sp_at(b, p2 as int, sp_opt_num(24, v.filesize))
        &&& sp_at(b, p3 as int, sp_enc_sizes(v.blocksizes))
        &&& sp_at(b, p4 as int, sp_opt_num(40, v.hash_type))
        &&& sp_at(b, p5 as int, sp_opt_num(48, v.fanout))
        &&& sp_at(b, p6 as int, sp_opt_num(56, match v.mode { None => None, Some(m) => Some(m as u64) }))
        &&& sp_at(b, p7 as int, sp_opt_bytes(66, match v.mtime { None => None, Some(t) => Some(sp_enc_time(t)) }))
    })
{
    reveal(sp_enc_data);
    let a = sp_fld_num(8, sp_type_num(v.ty) as u64);
    let x2 = sp_opt_bytes(18, v.data);
    let x3 = sp_opt_num(24, v.filesize);
    let x4 = sp_enc_sizes(v.blocksizes);
    let x5 = sp_opt_num(40, v.hash_type);
    let x6 = sp_opt_num(48, v.fanout);
    let x7 = sp_opt_num(56, match v.mode { None => None, Some(m) => Some(m as u64) });
    let x8 = sp_opt_bytes(66, match v.mtime { None => None, Some(t) => Some(sp_enc_time(t)) });
    let c2 = a + x2;
    let c3 = c2 + x3;
    let c4 = c3 + x4;
    let c5 = c4 + x5;
    let c6 = c5 + x6;
    let c7 = c6 + x7;
    lm_at(b, pos, c7, x8);
    lm_at(b, pos, c6, x7);
    lm_at(b, pos, c5, x6);
    lm_at(b, pos, c4, x5);
    lm_at(b, pos, c3, x4);
    lm_at(b, pos, c2, x3);
    lm_at(b, pos, a, x2);
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lm_rd_data(b: Seq<u8>, pos: int, v: VData)
    requires sp_at(b, pos, sp_enc_data(v)), sp_enc_data(v).len() < 0x8000_0000,
    ensures rd_data(b, pos, pos + sp_enc_data(v).len(), sp_no_data()) == Rd::Good(v, pos + sp_enc_data(v).len())
{
    lm_data_len(v);
    lm_at8(b, pos, v);
    let end = pos + sp_enc_data(v).len();
    let p1 = pos + sp_fld_num(8, sp_type_num(v.ty) as u64).len();
    let p2 = p1 + sp_opt_bytes(18, v.data).len();
    let p3 = p2 + sp_opt_num(24, v.filesize).len();
    let p4 = p3 + sp_enc_sizes(v.blocksizes).len();
    let p5 = p4 + sp_opt_num(40, v.hash_type).len();
    let p6 = p5 + sp_opt_num(48, v.fanout).len();
    let p7 = p6 + sp_opt_num(56, match v.mode { None => None, Some(m) => Some(m as u64) }).len();
    let a1 = VData { ty: v.ty, ..sp_no_data() };
    let a2 = VData { data: v.data, ..a1 };
    let a3 = VData { filesize: v.filesize, ..a2 };
    let a4 = VData { blocksizes: a3.blocksizes + v.blocksizes, ..a3 };
    let a5 = VData { hash_type: v.hash_type, ..a4 };
    let a6 = VData { fanout: v.fanout, ..a5 };
    let a7 = VData { mode: v.mode, ..a6 };
    let a8 = VData { mtime: v.mtime, ..a7 };
    lm_data_type(b, pos, end, sp_no_data(), v.ty);
    lm_data_bytes(b, p1 as int, end, a1, v.data);
    lm_data_filesize(b, p2 as int, end, a2, v.filesize);
    lm_data_sizes(b, p3 as int, end, a3, v.blocksizes);
    lm_data_hash_type(b, p4 as int, end, a4, v.hash_type);
    lm_data_fanout(b, p5 as int, end, a5, v.fanout);
    lm_data_mode(b, p6 as int, end, a6, v.mode);
    lm_data_time(b, p7 as int, end, a7, v.mtime);
    assert(Seq::<u64>::empty() + v.blocksizes =~= v.blocksizes);
    assert(a8 == v);
}
pub proof fn lm_node_links(b: Seq<u8>, pos: int, end: int, acc: VNode, l: Seq<VLink>)
    requires sp_at(b, pos, sp_enc_links(l)), sp_enc_links(l).len() < 0x8000_0000, pos + sp_enc_links(l).len() <= end,
    ensures rd_node(b, pos, end, acc) == rd_node(b, pos + sp_enc_links(l).len(), end, VNode { links: acc.links + l, ..acc })
    decreases l.len()
{
    if l.len() == 0 {
        assert(acc.links + l =~= acc.links);
    } else {
        let a = sp_enc_links(l.drop_last());
        let x = sp_enc_link(l.last());
        let z = sp_fld_bytes(18, x);
        lm_at(b, pos, a, z);
        lm_node_links(b, pos, end, acc, l.drop_last());
        let m = VNode { links: acc.links + l.drop_last(), ..acc };
        lm_fld_len(18, x);
        lm_node_link(b, pos + a.len(), end, m, l.last());
        assert((acc.links + l.drop_last()).push(l.last()) =~= acc.links + l);
    }
}
pub proof fn lm_node_link(b: Seq<u8>, pos: int, end: int, acc: VNode, v: VLink)
    requires
        sp_at(b, pos, sp_fld_bytes(18, sp_enc_link(v))),
        sp_enc_link(v).len() < 0x8000_0000,
        pos + sp_fld_bytes(18, sp_enc_link(v)).len() <= end,
    ensures rd_node(b, pos, end, acc) == rd_node(b, pos + sp_fld_bytes(18, sp_enc_link(v)).len(), end, VNode { links: acc.links.push(v), ..acc })
{
    let x = sp_enc_link(v);
    lm_fld_bytes(b, pos, 18, x);
    lm_rd_link(b, pos + sp_fld_bytes(18, x).len() - x.len(), v);
}
pub proof fn lm_node_data(b: Seq<u8>, pos: int, end: int, acc: VNode, s: Seq<u8>)
    requires sp_at(b, pos, sp_fld_bytes(10, s)), s.len() < 0x8000_0000, pos + sp_fld_bytes(10, s).len() <= end,
    ensures rd_node(b, pos, end, acc) == rd_node(b, pos + sp_fld_bytes(10, s).len(), end, VNode { data: Some(s), ..acc })
{
    lm_fld_bytes(b, pos, 10, s);
}
pub open spec fn sp_no_node() -> VNode { VNode { links: Seq::empty(), data: None } }
/// a node is read back
pub proof fn lm_rd_node(l: Seq<VLink>, d: Option<Seq<u8>>)
    requires sp_enc_node(l, d).len() < 0x8000_0000,
    ensures rd_node(sp_enc_node(l, d), 0, sp_enc_node(l, d).len() as int, sp_no_node()) == Rd::Good(VNode { links: l, data: d }, sp_enc_node(l, d).len() as int)
{
    let b = sp_enc_node(l, d);
    let end = b.len() as int;
    lm_at_whole(b);
    lm_at(b, 0, sp_enc_links(l), sp_opt_bytes(10, d));
    lm_node_links(b, 0, end, sp_no_node(), l);
    assert(Seq::<VLink>::empty() + l =~= l);
    match d { None => {}, Some(s) => { lm_fld_len(10, s); lm_node_data(b, sp_enc_links(l).len() as int, end, VNode { links: l, data: None }, s); } }
}
/// a message is read back
pub proof fn lm_rd_unixfs(v: VData)
    requires sp_enc_data(v).len() < 0x8000_0000,
    ensures rd_data(sp_enc_data(v), 0, sp_enc_data(v).len() as int, sp_no_data()) == Rd::Good(v, sp_enc_data(v).len() as int)
{
    lm_at_whole(sp_enc_data(v));
    lm_rd_data(sp_enc_data(v), 0, v);
}
}
@append
verus! {
pub assume_specification[ quick_protobuf::BytesReader::from_bytes ](b: &[u8]) -> (r: quick_protobuf::BytesReader)
    ensures sp_pos(r) == 0, sp_end(r) == b@.len();
/// the parsers are functions of the bytes (`sp_node`, `sp_unixfs` name what they return), with the contract which their copies
/// `v_try_from` are proved to have
pub axiom fn ax_node<'a>(b: Seq<u8>)
    ensures
        match rd_node(b, 0, b.len() as int, sp_no_node()) {
            Rd::Bad => sp_node::<'a>(b) is None,
            Rd::Odd => true,
            Rd::Good(v, _) => sp_node::<'a>(b) is Some && sp_vnode(sp_node::<'a>(b)->0) == v,
        };
pub axiom fn ax_unixfs<'a>(b: Seq<u8>)
    ensures
        match rd_data(b, 0, b.len() as int, sp_no_data()) {
            Rd::Bad => sp_unixfs::<'a>(b) is None,
            Rd::Odd => true,
            Rd::Good(v, _) => sp_unixfs::<'a>(b) is Some && sp_vdata(sp_unixfs::<'a>(b)->0) == v,
        };
}
@dup TryFrom@PBNode::try_from as=v_try_from props=C01,C05,C08,C16
@ret r
@spec
    ensures
        match rd_node(data@, 0, data@.len() as int, sp_no_node()) {
            Rd::Bad => r is Err, // [C01 C05 C08]
            Rd::Odd => true,
            Rd::Good(v, _) => r is Ok && sp_vnode(r->Ok_0) == v, // [C01 C05 C08]
        },
        r matches Ok(n) ==> (n.Data matches Some(d) ==> sp_part(data@, d@)), // [C16]
@replace
merkledag :: PBNode :: from_reader (
@with
merkledag::PBNode::v_from_reader(
@replace
Self :: Error
@with
quick_protobuf::Error
@dup TryFrom@Data#1::try_from as=v_try_from props=C01,C05,C08
@ret r
@spec
    ensures
        match rd_data(crate::sp_or_empty(data), 0, crate::sp_or_empty(data).len() as int, sp_no_data()) {
            Rd::Bad => r is Err, // [C01 C05 C08]
            Rd::Odd => true,
            Rd::Good(v, _) => r is Ok && sp_vdata(r->Ok_0) == v, // [C01 C05 C08]
        },
@replace
UnixFs :: from_reader (
@with
UnixFs::v_from_reader(
@replace
data . unwrap_or_default ( )
@with
crate::v_or_empty(data)
@replace
Self :: Error
@with
quick_protobuf::Error
@file src/lib.rs
@append
verus! {
pub open spec fn sp_or_empty(c: Option<&[u8]>) -> Seq<u8> { match c { None => Seq::<u8>::empty(), Some(x) => x@ } }
}
