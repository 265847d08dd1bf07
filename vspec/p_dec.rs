// ---- prelude: rust_decimal::Decimal as a dependency under an assumed contract. A decimal is viewed as the
// ---- mathematical number it denotes (dv); sums, differences, products and quotients are taken as exact (no
// ---- rounding at 28 digits, no overflow). The sign flag is kept apart from the value, as in the library.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Decimal { x: u128 }
pub uninterp spec fn dv(d: Decimal) -> real;
/// the sign flag
pub uninterp spec fn dneg(d: Decimal) -> bool;
pub mod ax_dec { use super::*;
pub broadcast axiom fn dec_sign(d: Decimal)
    ensures #[trigger] dneg(d) ==> dv(d) <= 0real, !dneg(d) ==> dv(d) >= 0real;
}
pub open spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
/// the text is a decimal number; its value
pub uninterp spec fn dec_ok(s: Seq<char>) -> bool;
pub uninterp spec fn dec_val(s: Seq<char>) -> real;
#[verifier::external_body]
pub struct DecError { x: u8 }

impl Decimal {
    #[verifier::external_body]
    pub exec const ZERO: Decimal ensures dv(Self::ZERO) == 0real { Decimal { x: 0 } }
    #[verifier::external_body]
    pub exec const ONE: Decimal ensures dv(Self::ONE) == 1real { Decimal { x: 1 } }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (dv(*self) == 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_positive(&self) -> (r: bool) ensures r == !dneg(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_negative(&self) -> (r: bool) ensures r == dneg(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_sign_negative(&mut self, b: bool)
        ensures dv(*final(self)) == (if b { 0real - rabs(dv(*old(self))) } else { rabs(dv(*old(self))) }), dneg(*final(self)) == b { unimplemented!() }
    #[verifier::external_body]
    pub fn set_sign_positive(&mut self, b: bool)
        ensures dv(*final(self)) == (if b { rabs(dv(*old(self))) } else { 0real - rabs(dv(*old(self))) }), dneg(*final(self)) == !b { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(&self) -> (r: Decimal) ensures dv(r) == rabs(dv(*self)), !dneg(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str_exact(s: &str) -> (r: Result<Decimal, DecError>)
        ensures r is Ok <==> dec_ok(s@), r is Ok ==> dv(r->Ok_0) == dec_val(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<Decimal, DecError>)
        ensures dec_ok(s@) ==> r is Ok && dv(r->Ok_0) == dec_val(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(v: i32) -> (r: Decimal) ensures dv(r) == v as int as real { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div(self, o: Decimal) -> (r: Option<Decimal>)
        ensures r is None <==> dv(o) == 0real, r is Some ==> dv(r->0) * dv(o) == dv(self) { unimplemented!() }
}
/// rounding and the like: nothing is known about the results, only that they depend on the number
pub uninterp spec fn dscale(d: Decimal) -> u32;
pub uninterp spec fn dmant(d: Decimal) -> i128;
pub uninterp spec fn dround(f: int, d: Decimal, n: int) -> Decimal;
impl Decimal {
    #[verifier::external_body]
    pub exec const ONE_HUNDRED: Decimal ensures dv(Self::ONE_HUNDRED) == 100real { Decimal { x: 1 } }
    #[verifier::external_body]
    pub exec const TEN: Decimal ensures dv(Self::TEN) == 10real { Decimal { x: 1 } }
    #[verifier::external_body]
    pub exec const TWO: Decimal ensures dv(Self::TWO) == 2real { Decimal { x: 1 } }
    #[verifier::external_body]
    pub exec const ONE_THOUSAND: Decimal ensures dv(Self::ONE_THOUSAND) == 1000real { Decimal { x: 1 } }
    #[verifier::external_body]
    pub exec const NEGATIVE_ONE: Decimal ensures dv(Self::NEGATIVE_ONE) == 0real - 1real { Decimal { x: 1 } }
    #[verifier::external_body]
    pub fn scale(&self) -> (r: u32) ensures r == dscale(*self), r <= 28 { unimplemented!() }
    #[verifier::external_body]
    pub fn mantissa(&self) -> (r: i128) ensures r == dmant(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn round_dp(&self, n: u32) -> (r: Decimal) ensures r == dround(0, *self, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn round(&self) -> (r: Decimal) ensures r == dround(0, *self, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn trunc(&self) -> (r: Decimal) ensures r == dround(1, *self, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn trunc_with_scale(&self, n: u32) -> (r: Decimal) ensures r == dround(1, *self, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn fract(&self) -> (r: Decimal) ensures r == dround(2, *self, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(&self) -> (r: Decimal) ensures r == dround(3, *self, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn ceil(&self) -> (r: Decimal) ensures r == dround(4, *self, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_integer(&self) -> (r: bool) ensures r == (dv(dround(2, *self, 0)) == 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn rescale(&mut self, n: u32) ensures *final(self) == dround(5, *old(self), n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn normalize(&self) -> (r: Decimal) ensures dv(r) == dv(*self), dv(*self) != 0real ==> dneg(r) == dneg(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: Decimal) -> (r: Option<Decimal>) ensures r is Some, dv(r->0) == dv(self) * dv(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, o: Decimal) -> (r: Option<Decimal>) ensures r is Some, dv(r->0) == dv(self) + dv(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: Decimal) -> (r: Option<Decimal>) ensures r is Some, dv(r->0) == dv(self) - dv(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Decimal) -> (r: Decimal) ensures r == (if dv(self) >= dv(o) { self } else { o }) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Decimal) -> (r: Decimal) ensures r == (if dv(self) >= dv(o) { o } else { self }) { unimplemented!() }
}
impl PartialEq for Decimal {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Decimal {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { dv(*self) == dv(*o) }
}
impl PartialOrd for Decimal {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Decimal {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {
        if dv(*self) < dv(*o) { Some(core::cmp::Ordering::Less) } else if dv(*self) > dv(*o) { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
pub uninterp spec fn dtext(d: Decimal) -> Seq<char>;
impl Decimal {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == dtext(*self) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Decimal> for Decimal {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Decimal) -> bool { true }
    open spec fn add_spec(self, rhs: Decimal) -> Decimal { arbitrary() }
}
impl Add<Decimal> for Decimal {
    type Output = Decimal;
    #[verifier::external_body]
    fn add(self, rhs: Decimal) -> (r: Decimal) ensures dv(r) == dv(self) + dv(rhs) { unimplemented!() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<Decimal> for Decimal {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Decimal) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: Decimal) -> &Decimal { arbitrary() }
}
impl AddAssign<Decimal> for Decimal {
    #[verifier::external_body]
    fn add_assign(&mut self, rhs: Decimal) ensures dv(*final(self)) == dv(*old(self)) + dv(rhs) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Decimal> for Decimal {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Decimal) -> bool { true }
    open spec fn sub_spec(self, rhs: Decimal) -> Decimal { arbitrary() }
}
impl Sub<Decimal> for Decimal {
    type Output = Decimal;
    #[verifier::external_body]
    fn sub(self, rhs: Decimal) -> (r: Decimal) ensures dv(r) == dv(self) - dv(rhs) { unimplemented!() }
}
impl vstd::std_specs::ops::SubAssignSpecImpl<Decimal> for Decimal {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: Decimal) -> bool { true }
    open spec fn sub_assign_spec(&self, rhs: Decimal) -> &Decimal { arbitrary() }
}
impl SubAssign<Decimal> for Decimal {
    #[verifier::external_body]
    fn sub_assign(&mut self, rhs: Decimal) ensures dv(*final(self)) == dv(*old(self)) - dv(rhs) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<Decimal> for Decimal {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Decimal) -> bool { true }
    open spec fn mul_spec(self, rhs: Decimal) -> Decimal { arbitrary() }
}
impl Mul<Decimal> for Decimal {
    type Output = Decimal;
    #[verifier::external_body]
    fn mul(self, rhs: Decimal) -> (r: Decimal) ensures dv(r) == dv(self) * dv(rhs) { unimplemented!() }
}
impl vstd::std_specs::ops::MulAssignSpecImpl<Decimal> for Decimal {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, rhs: Decimal) -> bool { true }
    open spec fn mul_assign_spec(&self, rhs: Decimal) -> &Decimal { arbitrary() }
}
impl MulAssign<Decimal> for Decimal {
    #[verifier::external_body]
    fn mul_assign(&mut self, rhs: Decimal) ensures dv(*final(self)) == dv(*old(self)) * dv(rhs) { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<Decimal> for Decimal {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: Decimal) -> bool { dv(rhs) != 0real }
    open spec fn div_spec(self, rhs: Decimal) -> Decimal { arbitrary() }
}
impl Div<Decimal> for Decimal {
    type Output = Decimal;
    #[verifier::external_body]
    fn div(self, rhs: Decimal) -> (r: Decimal) ensures dv(r) * dv(rhs) == dv(self) { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for Decimal {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Decimal { arbitrary() }
}
impl Neg for Decimal {
    type Output = Decimal;
    #[verifier::external_body]
    fn neg(self) -> (r: Decimal) ensures dv(r) == 0real - dv(self) { unimplemented!() }
}
pub proof fn abs_mul(a: real, b: real, c: real)
    requires a * b == c,
    ensures rabs(a) * rabs(b) == rabs(c),
{
    if a < 0real { assert((0real - a) * b == 0real - c) by (nonlinear_arith) requires a * b == c; }
    if b < 0real { assert(a * (0real - b) == 0real - c) by (nonlinear_arith) requires a * b == c; assert((0real - a) * (0real - b) == c) by (nonlinear_arith) requires a * b == c; }
    assert(a >= 0real && b >= 0real ==> a * b >= 0real) by (nonlinear_arith);
    assert(a <= 0real && b >= 0real ==> a * b <= 0real) by (nonlinear_arith);
    assert(a >= 0real && b <= 0real ==> a * b <= 0real) by (nonlinear_arith);
    assert(a <= 0real && b <= 0real ==> a * b >= 0real) by (nonlinear_arith);
}
/// a quotient: its magnitude, and when it is zero
pub proof fn quot_props(q: real, d: real, n: real)
    requires q * d == n, d != 0real,
    ensures rabs(q) * rabs(d) == rabs(n), q == 0real <==> n == 0real,
{
    abs_mul(q, d, n);
    assert(q == 0real <==> n == 0real) by (nonlinear_arith) requires q * d == n, d != 0real;
}

impl Decimal {
    pub open spec fn s_is_zero(&self) -> bool { dv(*self) == 0real }
    pub open spec fn s_is_sign_positive(&self) -> bool { !dneg(*self) }
    pub open spec fn s_is_sign_negative(&self) -> bool { dneg(*self) }
}
