// ---- prelude: iterators that are advanced by hand (slice::Iter, vec::IntoIter); the view is what remains ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<'a, T> { x: core::marker::PhantomData<&'a T> }
impl<'a, T> View for VIter<'a, T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
#[verifier::external_body]
pub fn v_iter<'a, T>(v: &'a Vec<T>) -> (r: VIter<'a, T>) ensures r@ == v@ { unimplemented!() }
impl<'a, T> VIter<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        },
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIntoIter<T> { x: core::marker::PhantomData<T> }
impl<T> View for VIntoIter<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
#[verifier::external_body]
pub fn v_into_iter<T>(v: Vec<T>) -> (r: VIntoIter<T>) ensures r@ == v@ { unimplemented!() }
impl<T> VIntoIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        },
    { unimplemented!() }
}
/// push on a String or a Vec
pub trait VPush<T> {
    spec fn s_pushed(&self, x: T, after: &Self) -> bool;
    fn v_push(&mut self, x: T) ensures old(self).s_pushed(x, final(self));
}
impl VPush<char> for String {
    open spec fn s_pushed(&self, x: char, after: &Self) -> bool { after@ == self@.push(x) }
    #[verifier::external_body]
    fn v_push(&mut self, x: char) { unimplemented!() }
}
impl<T> VPush<T> for Vec<T> {
    open spec fn s_pushed(&self, x: T, after: &Self) -> bool { after@ == self@.push(x) }
    #[verifier::external_body]
    fn v_push(&mut self, x: T) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_string_c(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
/// match on a text
/// &v[k..]
#[verifier::external_body]
pub fn v_tail<T>(v: &Vec<T>, k: usize) -> (r: &[T]) requires k <= v@.len(), ensures r@ == v@.skip(k as int) { unimplemented!() }
