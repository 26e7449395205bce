@file src/lib.rs
@append
verus! {
global size_of usize == 8;
/// the `?` operator converts an error by `From`
pub broadcast axiom fn ax_question<S: core::convert::From<T>, T>(v: T, r: S)
    ensures
        #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r) && <S as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec()
            ==> r == <S as vstd::std_specs::convert::FromSpec<T>>::from_spec(v);
pub assume_specification<T: core::cmp::Ord>[ core::cmp::max ](a: T, b: T) -> (r: T)
    ensures
        <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { a } else { b });
pub assume_specification<T: core::cmp::Ord>[ core::cmp::min ](a: T, b: T) -> (r: T)
    ensures
        <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { b } else { a });
/// a vector has at most `usize::MAX` elements
pub broadcast proof fn lm_vec_len<T>(v: Vec<T>)
    ensures #[trigger] v@.len() <= usize::MAX
{
    assert(v.len() <= usize::MAX);
    broadcast use vstd::std_specs::vec::axiom_spec_len;
    assert(v.len() as int == v@.len());
}
/// assertions of the code
pub fn v_assert(c: bool)
    requires c,
{}
pub uninterp spec fn sp_cow_ref<'b, 'a, T: ?Sized + alloc::borrow::ToOwned>(c: &'b Cow<'a, T>) -> &'b T;
pub broadcast axiom fn ax_cow_ref_bytes<'b, 'a>(c: &'b Cow<'a, [u8]>)
    ensures (#[trigger] sp_cow_ref::<[u8]>(c))@ == c@;
pub assume_specification<'a, 'b, T: ?Sized + alloc::borrow::ToOwned>[ <Cow<'a, T> as AsRef<T>>::as_ref ](c: &'b Cow<'a, T>) -> (r: &'b T)
    ensures r == sp_cow_ref(c);
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
#[verifier::external_body]
pub fn v_reverse_from<T>(v: &mut Vec<T>, n: usize)
    requires n <= old(v)@.len(),
    ensures final(v)@ == old(v)@.take(n as int) + old(v)@.skip(n as int).reverse(),
{
    (&mut v[n..]).reverse()
}
/// stands for core::iter::Enumerate, which it wraps
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct VEnum<I: Iterator>(core::iter::Enumerate<I>);
impl<I: Iterator> VEnum<I> {
    pub uninterp spec fn inner(&self) -> I;
    pub uninterp spec fn count(&self) -> int;
}
impl<I: Iterator> Iterator for VEnum<I> {
    type Item = (usize, I::Item);
    #[verifier::external_body]
    fn next(&mut self) -> Option<(usize, I::Item)> { self.0.next() }
}
impl<I: Iterator> vstd::std_specs::iter::IteratorSpecImpl for VEnum<I> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    closed spec fn remaining(&self) -> Seq<(usize, I::Item)> {
        Seq::new(self.inner().remaining().len(), |i: int| ((self.count() + i) as usize, self.inner().remaining()[i]))
    }
    #[verifier::prophetic]
    closed spec fn will_return_none(&self) -> bool { self.inner().will_return_none() }
    closed spec fn decrease(&self) -> Option<nat> { self.inner().decrease() }
    open spec fn peek(&self, index: int) -> Option<(usize, I::Item)> { None }
}
#[verifier::external_body]
pub fn v_enumerate<I: Iterator>(i: I) -> (r: VEnum<I>)
    requires i.obeys_prophetic_iter_laws(),
    ensures
        r.remaining() =~= Seq::new(i.remaining().len(), |k: int| (k as usize, i.remaining()[k])),
        r.decrease() == i.decrease(),
{
    VEnum(i.enumerate())
}
}
@append
verus! {
/// the identifier a byte string stands for (the cid crate is not under contract)
pub uninterp spec fn sp_cid(b: Seq<u8>) -> Option<libipld::Cid>;
pub uninterp spec fn sp_cidg<const S: usize>(b: Seq<u8>) -> Option<libipld::cid::CidGeneric<S>>;
pub broadcast axiom fn ax_cidg(b: Seq<u8>)
    ensures #[trigger] sp_cidg::<64>(b) == sp_cid(b);
pub assume_specification<'a, 'b, const S: usize>[ <libipld::cid::CidGeneric<S> as core::convert::TryFrom<&'a [u8]>>::try_from ](b: &'b [u8]) -> (r: Result<libipld::cid::CidGeneric<S>, libipld::cid::Error>)
    ensures
        r is Ok == sp_cidg::<S>(b@) is Some,
        r matches Ok(c) ==> sp_cidg::<S>(b@) == Some(c);
pub fn v_cow_or_empty<'b>(c: &'b Option<Cow<'_, [u8]>>) -> (r: &'b [u8])
    ensures r@ == (match c { None => Seq::<u8>::empty(), Some(x) => x@ })
{
    broadcast use ax_cow_ref_bytes;
    match c { None => &[], Some(x) => x.as_ref() }
}
}
@append
verus! {
/// what an iterator will yield
#[verifier::prophetic]
pub open spec fn sp_rem<I: Iterator>(i: I) -> Seq<I::Item> { i.remaining() }
/// the iterator yields what it will yield and ends
pub open spec fn sp_usual<I: Iterator>(i: I) -> bool { i.obeys_prophetic_iter_laws() && i.decrease() is Some }
/// takes everything
pub fn v_collect<I: Iterator>(i: I) -> (r: Vec<I::Item>)
    requires sp_usual(i),
    ensures r@ == sp_rem(i)
{
    let ghost all = sp_rem(i);
    let mut i = i;
    let mut out = Vec::new();
    loop
        invariant sp_usual(i), out@ + sp_rem(i) =~= all,
        ensures out@ =~= all,
        decreases i.decrease()->0,
    {
        match i.next() {
            None => break,
            Some(x) => out.push(x),
        }
    }
    out
}
/// stands for Option::into_iter().chain(Vec::into_iter()), which yields the value, if any, and then the elements
pub fn v_chain<T>(a: Option<T>, b: Vec<T>) -> (r: alloc::vec::IntoIter<T>)
    ensures sp_rem(r) =~= (match a { None => Seq::empty(), Some(x) => seq![x] }) + b@, sp_usual(r)
{
    let mut v: Vec<T> = Vec::new();
    match a { None => {}, Some(x) => { v.push(x); } }
    let mut b = b;
    v.append(&mut b);
    v.into_iter()
}
}
