// ---- prelude: vectors whose elements are pointed to. An element knows (as ghost) where it lies; growing beyond the capacity moves all of them.
pub trait VObj: Sized {
    spec fn s_addr(&self) -> VPtr<Self>;
    /// the same object at another place
    spec fn moved(a: Self, b: Self) -> bool;
}
pub open spec fn distinct<T: VObj>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).s_addr() != (#[trigger] s[j]).s_addr() }
pub open spec fn is_at<T: VObj>(s: Seq<T>, p: VPtr<T>, i: int) -> bool { 0 <= i < s.len() && s[i].s_addr() == p }
/// the element at an address
pub open spec fn at_addr<T: VObj>(s: Seq<T>, p: VPtr<T>) -> int { choose|i: int| is_at(s, p, i) }
pub proof fn at_is<T: VObj>(s: Seq<T>, p: VPtr<T>, i: int)
    requires distinct(s), is_at(s, p, i),
    ensures at_addr(s, p) == i,
{ let j = at_addr(s, p); assert(is_at(s, p, j)); if i < j { assert(s[i].s_addr() != s[j].s_addr()); } if j < i { assert(s[j].s_addr() != s[i].s_addr()); } }
pub uninterp spec fn cap<T>(v: Vec<T>) -> nat;
#[verifier::external_body]
pub fn v_capacity<T>(v: &Vec<T>) -> (r: usize) ensures r == cap(*v), r >= v@.len() { unimplemented!() }
#[verifier::external_body]
pub fn v_push_obj<T: VObj>(v: &mut Vec<T>, x: T)
    ensures final(v)@.len() == old(v)@.len() + 1, T::moved(x, final(v)@.last()),
        old(v)@.len() < cap(*old(v)) ==> forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i] || T::moved(old(v)@[i], final(v)@[i]),
        distinct(old(v)@) ==> distinct(final(v)@),
{ unimplemented!() }
/// &*p
#[verifier::external_body]
pub fn v_ptr<T: VObj>(v: &Vec<T>, p: VPtr<T>) -> (r: &T)
    requires distinct(v@), exists|i: int| is_at(v@, p, i),
    ensures *r == v@[at_addr(v@, p)], { unimplemented!() }
/// &mut *p
#[verifier::external_body]
pub fn v_ptr_mut<T: VObj>(v: &mut Vec<T>, p: VPtr<T>) -> (r: &mut T)
    requires distinct(old(v)@), exists|i: int| is_at(old(v)@, p, i),
    ensures *r == old(v)@[at_addr(old(v)@, p)], final(v)@ == old(v)@.update(at_addr(old(v)@, p), *final(r)), { unimplemented!() }
#[verifier::external_body]
pub fn v_last<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures r is Some <==> v@.len() > 0, r is Some ==> *r->0 == v@.last(), { unimplemented!() }
#[verifier::external_body]
pub fn v_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures match r { None => old(v)@.len() == 0 && *final(v) == *old(v), Some(e) => old(v)@.len() > 0 && *e == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(e)) }, { unimplemented!() }
