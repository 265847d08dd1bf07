// ---- specification of balances (C03)
/// sum of the entries of commodity c
pub open spec fn bal_sum(s: Seq<Amount>, c: VPtr<Commodity>) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { bal_sum(s.drop_last(), c) + (if s.last().commodity == c { qv(s.last().quantity) } else { 0real }) } }
/// at most one entry per commodity
pub open spec fn bal_wf(s: Seq<Amount>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).commodity != (#[trigger] s[j]).commodity }
/// b is a with the quantity d added to the entry of c (appended when there is none)
pub open spec fn bal_step(a: Seq<Amount>, b: Seq<Amount>, c: VPtr<Commodity>, d: real) -> bool {
    (exists|k: int| 0 <= k < a.len() && (#[trigger] a[k]).commodity == c && b.len() == a.len() && av(b[k]) == (qv(a[k].quantity) + d, c)
        && forall|i: int| 0 <= i < a.len() && i != k ==> #[trigger] b[i] == a[i])
    || ((forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).commodity != c) && b.len() == a.len() + 1 && av(b.last()) == (d, c)
        && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i])
}
pub proof fn bal_sum_upd(a: Seq<Amount>, b: Seq<Amount>, k: int, c: VPtr<Commodity>, d: real, e: VPtr<Commodity>)
    requires 0 <= k < a.len(), b.len() == a.len(), a[k].commodity == c, av(b[k]) == (qv(a[k].quantity) + d, c), forall|i: int| 0 <= i < a.len() && i != k ==> #[trigger] b[i] == a[i],
    ensures bal_sum(b, e) == bal_sum(a, e) + (if e == c { d } else { 0real }),
    decreases a.len(),
{
    if k == a.len() - 1 { assert(b.drop_last() =~= a.drop_last()); }
    else { assert(b.last() == a.last()); bal_sum_upd(a.drop_last(), b.drop_last(), k, c, d, e); }
}
pub proof fn bal_step_sum(a: Seq<Amount>, b: Seq<Amount>, c: VPtr<Commodity>, d: real)
    requires bal_step(a, b, c, d), bal_wf(a),
    ensures bal_wf(b), forall|e: VPtr<Commodity>| #[trigger] bal_sum(b, e) == bal_sum(a, e) + (if e == c { d } else { 0real }),
{
    if exists|k: int| 0 <= k < a.len() && (#[trigger] a[k]).commodity == c && b.len() == a.len() && av(b[k]) == (qv(a[k].quantity) + d, c)
        && forall|i: int| 0 <= i < a.len() && i != k ==> #[trigger] b[i] == a[i] {
        let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).commodity == c && b.len() == a.len() && av(b[k]) == (qv(a[k].quantity) + d, c)
            && forall|i: int| 0 <= i < a.len() && i != k ==> #[trigger] b[i] == a[i];
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).commodity != (#[trigger] b[j]).commodity by {
            assert(b[i].commodity == a[i].commodity); assert(b[j].commodity == a[j].commodity);
        }
        assert forall|e: VPtr<Commodity>| #[trigger] bal_sum(b, e) == bal_sum(a, e) + (if e == c { d } else { 0real }) by { bal_sum_upd(a, b, k, c, d, e); }
    } else {
        assert(b.drop_last() =~= a);
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).commodity != (#[trigger] b[j]).commodity by {
            assert(b[i] == a[i]);
            if j < a.len() { assert(b[j] == a[j]); } else { assert(b[j] == b.last()); assert(a[i].commodity != c); }
        }
    }
}
/// a well-formed balance: the only entry of c is the sum
pub proof fn bal_sum_entry(a: Seq<Amount>, k: int)
    requires bal_wf(a), 0 <= k < a.len(),
    ensures bal_sum(a, a[k].commodity) == qv(a[k].quantity),
    decreases a.len(),
{
    if k == a.len() - 1 { bal_sum_none(a.drop_last(), a[k].commodity); }
    else { assert(a.drop_last()[k] == a[k]); bal_sum_entry(a.drop_last(), k); assert(a.last().commodity != a[k].commodity); }
}
pub proof fn bal_sum_none(a: Seq<Amount>, c: VPtr<Commodity>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).commodity != c,
    ensures bal_sum(a, c) == 0real,
    decreases a.len(),
{ if a.len() > 0 { assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]).commodity != c by { assert(a.drop_last()[i] == a[i]); } bal_sum_none(a.drop_last(), c); } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Amount> for Balance {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: Amount) -> bool { true }
    open spec fn sub_assign_spec(&self, rhs: Amount) -> &Balance { arbitrary() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<Amount> for Balance {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Amount) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: Amount) -> &Balance { arbitrary() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<Balance> for Balance {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Balance) -> bool { bal_wf(self.amounts@) }
    open spec fn add_assign_spec(&self, rhs: Balance) -> &Balance { arbitrary() }
}
