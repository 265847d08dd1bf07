// ---- specification of quantities and amounts (C03)
pub open spec fn qv(q: Quantity) -> real { dv(q.0) }
pub open spec fn qneg(q: Quantity) -> bool { dneg(q.0) }
impl vstd::std_specs::ops::AddSpecImpl<Quantity> for Quantity {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Quantity) -> bool { true }
    open spec fn add_spec(self, rhs: Quantity) -> Quantity { arbitrary() }
}
impl vstd::std_specs::ops::MulSpecImpl<Quantity> for Quantity {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Quantity) -> bool { true }
    open spec fn mul_spec(self, rhs: Quantity) -> Quantity { arbitrary() }
}
impl vstd::std_specs::ops::DivSpecImpl<Quantity> for Quantity {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: Quantity) -> bool { qv(rhs) != 0real }
    open spec fn div_spec(self, rhs: Quantity) -> Quantity { arbitrary() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<Quantity> for Quantity {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Quantity) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: Quantity) -> &Quantity { arbitrary() }
}
impl vstd::std_specs::ops::SubAssignSpecImpl<Quantity> for Quantity {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: Quantity) -> bool { true }
    open spec fn sub_assign_spec(&self, rhs: Quantity) -> &Quantity { arbitrary() }
}
impl vstd::std_specs::ops::MulAssignSpecImpl<Quantity> for Quantity {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, rhs: Quantity) -> bool { true }
    open spec fn mul_assign_spec(&self, rhs: Quantity) -> &Quantity { arbitrary() }
}
impl PartialEq for Quantity {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Quantity {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { qv(*self) == qv(*o) }
}
impl PartialOrd for Quantity {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Quantity {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {
        if qv(*self) < qv(*o) { Some(core::cmp::Ordering::Less) } else if qv(*self) > qv(*o) { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
impl PartialEq for Amount {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Amount {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { qv(self.quantity) == qv(o.quantity) && self.commodity == o.commodity }
}
impl vstd::std_specs::ops::AddSpecImpl<Amount> for Amount {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Amount) -> bool { amt_op_req(self, rhs) }
    open spec fn add_spec(self, rhs: Amount) -> Amount { arbitrary() }
}
impl vstd::std_specs::ops::MulSpecImpl<Amount> for Amount {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Amount) -> bool { true }
    open spec fn mul_spec(self, rhs: Amount) -> Amount { arbitrary() }
}
impl vstd::std_specs::ops::DivSpecImpl<Amount> for Amount {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: Amount) -> bool { qv(rhs.quantity) != 0real }
    open spec fn div_spec(self, rhs: Amount) -> Amount { arbitrary() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<Amount> for Amount {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Amount) -> bool { amt_op_req(*self, rhs) }
    open spec fn add_assign_spec(&self, rhs: Amount) -> &Amount { arbitrary() }
}
impl vstd::std_specs::ops::SubAssignSpecImpl<Amount> for Amount {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: Amount) -> bool { amt_op_req(*self, rhs) }
    open spec fn sub_assign_spec(&self, rhs: Amount) -> &Amount { arbitrary() }
}
impl vstd::std_specs::ops::MulAssignSpecImpl<Amount> for Amount {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, rhs: Amount) -> bool { true }
    open spec fn mul_assign_spec(&self, rhs: Amount) -> &Amount { arbitrary() }
}

/// value and commodity of an amount: what the user sees
pub open spec fn av(a: Amount) -> (real, VPtr<Commodity>) { (qv(a.quantity), a.commodity) }
/// commodity of a product or quotient
pub open spec fn ccomb(a: VPtr<Commodity>, b: VPtr<Commodity>) -> VPtr<Commodity> { if a == nullp::<Commodity>() { b } else { a } }

/// the commodity behind a pointer. Commodities are interned (C06): equal commodities have equal addresses.
pub uninterp spec fn cderef(p: VPtr<Commodity>) -> Commodity;
pub uninterp spec fn ceq(a: Commodity, b: Commodity) -> bool;
pub mod ax_amt { use super::*;
pub broadcast axiom fn interned(p: VPtr<Commodity>, q: VPtr<Commodity>)
    ensures #[trigger] ceq(cderef(p), cderef(q)) <==> p == q;
pub broadcast proof fn cderef_inj(p: VPtr<Commodity>, q: VPtr<Commodity>)
    requires #[trigger] cderef(p) == #[trigger] cderef(q),
    ensures p == q,
{ interned(p, q); interned(p, p); }
}

impl PartialEq for Commodity {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Commodity {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { ceq(*self, *o) }
}
impl Amount {
    pub open spec fn s_get_commodity(&self) -> Option<&Commodity> {
        if self.commodity == nullp::<Commodity>() { None } else { Some(&cderef(self.commodity)) }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<i32> for Quantity {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: i32) -> Quantity { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<i32> for Amount {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: i32) -> Amount { arbitrary() }
}

impl Quantity {
    pub open spec fn s_is_zero(&self) -> bool { qv(*self) == 0real }
    pub open spec fn s_is_sign_positive(&self) -> bool { !qneg(*self) }
}
impl Amount { pub open spec fn s_is_zero(&self) -> bool { qv(self.quantity) == 0real } }
