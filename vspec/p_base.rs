// ---- prelude: panics, pointers, vectors (trusted wrappers are marked external_body) ----

/// A panic site: allowed only when the function's stated panic condition holds.
#[verifier::external_body]
pub fn vabort(Ghost(pc): Ghost<bool>) -> !
    requires pc,
{ unimplemented!() }

pub trait VUnwrap: Sized {
    type T;
    spec fn s_ok(self) -> bool;
    spec fn s_val(self) -> Self::T;
    fn v_unwrap(self, Ghost(pc): Ghost<bool>) -> (r: Self::T)
        requires self.s_ok() || pc,
        ensures self.s_ok(), r == self.s_val();
}
impl<A> VUnwrap for Option<A> {
    type T = A;
    open spec fn s_ok(self) -> bool { self is Some }
    open spec fn s_val(self) -> A { self->0 }
    #[verifier::external_body]
    fn v_unwrap(self, Ghost(pc): Ghost<bool>) -> (r: A)
        ensures self is Some, r == self->0
    { unimplemented!() }
}
impl<A, E> VUnwrap for Result<A, E> {
    type T = A;
    open spec fn s_ok(self) -> bool { self is Ok }
    open spec fn s_val(self) -> A { self->Ok_0 }
    #[verifier::external_body]
    fn v_unwrap(self, Ghost(pc): Ghost<bool>) -> (r: A)
        ensures self is Ok, r == self->Ok_0
    { unimplemented!() }
}

/// A raw pointer: an address, compared as such.
pub struct VPtr<T> { pub addr: usize, pub ph: core::marker::PhantomData<T> }
impl<T> Clone for VPtr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Copy for VPtr<T> {}
impl<T> PartialEq for VPtr<T> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for VPtr<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
pub open spec fn nullp<T>() -> VPtr<T> { VPtr { addr: 0, ph: core::marker::PhantomData } }
impl<T> VPtr<T> {
    pub fn null() -> (r: Self) ensures r == nullp::<T>()
    { VPtr { addr: 0, ph: core::marker::PhantomData } }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (*self == nullp::<T>())
    { unimplemented!() }
    pub fn cast_mut(self) -> (r: Self) ensures r == self { self }
}

/// moves the element out of the vector which a `for` loop consumes
#[verifier::external_body]
pub fn vmove<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len(),
    ensures r == v@[i as int],
{ unimplemented!() }

/// Iterator::find on iter_mut: the first element that satisfies the predicate
#[verifier::external_body]
pub fn v_find_mut<'a, T, F: Fn(&T) -> bool>(v: &'a mut Vec<T>, f: F) -> (r: Option<&'a mut T>)
    requires forall|x: &T| f.requires((x,)),
    ensures
        match r {
            None => *final(v) == *old(v) && forall|i: int| 0 <= i < old(v)@.len() ==> f.ensures((&#[trigger] old(v)@[i],), false),
            Some(e) => exists|k: int| 0 <= k < old(v)@.len() && f.ensures((&#[trigger] old(v)@[k],), true)
                && (forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] old(v)@[i],), false))
                && *e == old(v)@[k] && final(v)@ == old(v)@.update(k, *final(e)),
        },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_find_ref<'a, T, F: Fn(&&T) -> bool>(v: &'a Vec<T>, f: F) -> (r: Option<&'a T>)
    requires forall|x: &&T| f.requires((x,)),
    ensures
        match r {
            None => forall|i: int| 0 <= i < v@.len() ==> f.ensures((&&#[trigger] v@[i],), false),
            Some(e) => exists|k: int| 0 <= k < v@.len() && f.ensures((&&#[trigger] v@[k],), true)
                && (forall|i: int| 0 <= i < k ==> f.ensures((&&#[trigger] v@[i],), false))
                && *e == v@[k],
        },
{ unimplemented!() }
/// v.iter().nth(k)
#[verifier::external_body]
pub fn v_vec_nth<'a, T>(v: &'a Vec<T>, k: usize) -> (r: Option<&'a T>)
    ensures r is Some <==> k < v@.len(), r is Some ==> *r->0 == v@[k as int] { unimplemented!() }

/// v.iter().position(f)
#[verifier::external_body]
pub fn v_vec_position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<usize>)
    requires forall|x: &T| f.requires((x,)),
    ensures match r {
        Some(k) => k < v@.len() && f.ensures((&v@[k as int],), true) && forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] v@[i],), false),
        None => forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false),
    } { unimplemented!() }
/// v.iter().filter(f).count()
#[verifier::external_body]
pub fn v_vec_count<T, F: Fn(&&T) -> bool>(v: &Vec<T>, f: F) -> (r: usize)
    requires forall|x: &&T| f.requires((x,)),
    ensures r <= v@.len(), r == 0 ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&&#[trigger] v@[i],), false),
        r == v@.len() ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&&#[trigger] v@[i],), true) { unimplemented!() }

pub trait VOptRef<T> {
    fn v_opt_as_ref(&self) -> Option<&T>;
}
impl<T> VOptRef<T> for Option<T> {
    #[verifier::external_body]
    fn v_opt_as_ref(&self) -> (r: Option<&T>) ensures r is Some <==> self is Some, r is Some ==> *r->0 == self->0 { unimplemented!() }
}

/// & | ^ on truth values
pub fn v_bor(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn v_band(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn v_bxor(a: bool, b: bool) -> (r: bool) ensures r == (a != b) { a != b }
/// v.retain(f)
#[verifier::external_body]
pub fn v_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: &T| f.requires((x,)),
    ensures
        final(v)@.len() <= old(v)@.len(),
        forall|j: int| 0 <= j < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[j]) && f.ensures((&final(v)@[j],), true),
        (forall|i: int| 0 <= i < old(v)@.len() ==> !f.ensures((&#[trigger] old(v)@[i],), false)) ==> final(v)@ == old(v)@,
        (forall|i: int| 0 <= i < old(v)@.len() ==> !f.ensures((&#[trigger] old(v)@[i],), true)) ==> final(v)@.len() == 0,
        final(v)@.len() == old(v)@.len() ==> final(v)@ == old(v)@,
{ unimplemented!() }
#[verifier::external_body]
pub fn v_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
#[verifier::external_body]
pub fn v_dedup<T>(v: &mut Vec<T>) ensures final(v)@.len() <= old(v)@.len(), old(v)@.len() > 0 ==> final(v)@.len() > 0 && final(v)@[0] == old(v)@[0] { unimplemented!() }
