@file src/dagpb.rs
@type NodeData
@append
verus! {
use crate::pb::{sp_node, sp_part, sp_at_part};
/// the data field of the block, if the block parses
pub open spec fn sp_data_field(b: Seq<u8>) -> Option<Option<Seq<u8>>> {
    match sp_node::<'static>(b) { None => None, Some(n) => Some(match n.Data { None => None, Some(d) => Some(d@) }) }
}
pub open spec fn sp_data_bytes(b: Seq<u8>) -> Seq<u8> {
    match sp_data_field(b) { Some(Some(d)) => d, _ => Seq::<u8>::empty() }
}
/// what `as_ref` gives for a value
pub uninterp spec fn sp_as_ref<T>(t: T) -> Seq<u8>;
#[verifier::external_body]
pub fn v_as_ref<T: AsRef<[u8]>>(t: &T) -> (r: &[u8])
    ensures r@ == sp_as_ref(*t)
{ t.as_ref() }
/// where a slice is
#[verifier::external_body]
pub fn v_addr(s: &[u8]) -> (r: usize)
    ensures r + s@.len() <= isize::MAX
{ s.as_ptr() as usize }
/// where a slice borrowed from another one is (that it is borrowed from there is what the name of the other one stands for)
#[verifier::external_body]
pub fn v_addr_in(s: &[u8], full: Ghost<Seq<u8>>, at: Ghost<int>) -> (r: usize)
    requires sp_part(full@, s@),
    ensures sp_at_part(full@, s@, r - at@)
{ s.as_ptr() as usize }
pub fn v_range(r: &Range<usize>) -> (c: Range<usize>)
    ensures c == *r
{ Range { start: r.start, end: r.end } }
#[verifier::external_body]
pub fn v_same(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@)
{ a == b }
impl<T> NodeData<T> {
    pub closed spec fn sp_inner(self) -> T { self.inner }
    pub closed spec fn sp_range(self) -> Option<Range<usize>> { self.range }
    /// made from a block which parses
    pub closed spec fn sp_ok(self) -> bool {
        match self.range {
            None => sp_data_bytes(sp_as_ref(self.inner)).len() == 0,
            Some(r) => r.start <= r.end <= sp_as_ref(self.inner).len() && sp_as_ref(self.inner).subrange(r.start as int, r.end as int) == sp_data_bytes(sp_as_ref(self.inner)),
        }
    }
}
}
@fn node_data props=C07,C16
@ret r
@spec
    ensures
        match sp_data_field(block@) {
            None => r is Err, // [C16]
            Some(None) => r is Ok && r->Ok_0 is None, // [C16]
            Some(Some(d)) => r is Ok && r->Ok_0 is Some && r->Ok_0->0@ == d, // [C16]
        },
        r matches Ok(Some(s)) ==> sp_part(block@, s@), // [C16]
@fn subslice_to_range props=C07,C16
@ret r
@spec
    requires sp_part(full@, sub@),
    ensures r is Some && r->0.start <= r->0.end <= full@.len() && full@.subrange(r->0.start as int, r->0.end as int) == sub@, // [C16]
@proof start
let ghost gfull = full@;
let ghost gn = sub@.len();
@replace
full . as_ptr ( ) as usize
@with
v_addr(full)
@replace
sub . as_ptr ( ) as usize
@with
v_addr_in(sub, Ghost(gfull), Ghost(full as int))
@closure 0
|$1: usize| -> (r: Option<usize>) requires amt <= max ensures r == (if $1 > max - amt { None::<usize> } else { Some($1) })
@closure 1
|$1: usize| -> (r: Range<usize>) requires $1 + amt <= usize::MAX ensures r.start == $1, r.end == $1 + amt
@fn wrap_node_data props=C07,C16
@ret r
@spec
    ensures
        match sp_data_field(sp_as_ref(block)) {
            None => r is Err, // [C16]
            Some(_) => r is Ok && r->Ok_0.sp_ok() && r->Ok_0.sp_inner() == block, // [C16]
        },
@replace
block . as_ref ( )
@with
v_as_ref(&block)
@closure 0
|$1: &[u8]| -> (r: Range<usize>) requires sp_part(full@, $1@) ensures r.start <= r.end <= full@.len(), full@.subrange(r.start as int, r.end as int) == $1@
@fn NodeData::node_data props=C07,C16
@ret r
@spec
    requires self.sp_ok(),
    ensures r@ == sp_data_bytes(sp_as_ref(self.sp_inner())), // [C16]
@replace any
range . clone ( )
@with
v_range(range)
@replace any
self . inner . as_ref ( )
@with
v_as_ref(&self.inner)
@fn NodeData::get_ref props=C16
@ret r
@spec
    ensures *r == self.sp_inner(), // [C16]
@fn NodeData::into_inner props=C16
@ret r
@spec
    ensures r == self.sp_inner(), // [C16]
@dup PartialEq@NodeData::eq as=v_eq props=C07,C16
@ret r
@spec
    requires self.sp_ok(),
    ensures r == (sp_data_bytes(sp_as_ref(self.sp_inner())) == sp_as_ref(*other)), // [C16]
@replace
self . node_data ( ) == other . as_ref ( )
@with
v_same(self.node_data(), v_as_ref(other))
