verus! {

// ---- single-precision arithmetic (assumed: IEEE 754, round to nearest) ---------------------------
// Every operation is the exact one on real numbers, rounded. An operation whose exact result is out
// of range (or not a number) is a violated precondition.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F32 { v: f32 }
pub open spec fn of_int(n: int) -> real { n as real }
pub open spec fn whole(x: real) -> bool { exists|n: int| x == #[trigger] of_int(n) }
/// The nearest single-precision number.
pub uninterp spec fn rnd(x: real) -> real;
pub open spec fn in_range(x: real) -> bool { -1_000_000_000_000_000_000_000_000_000_000real <= x <= 1_000_000_000_000_000_000_000_000_000_000real }
pub axiom fn rnd_near(x: real)
    requires 1real <= x * 1_000_000_000_000real, in_range(x)
    ensures -x <= (rnd(x) - x) * 16777216real <= x;
pub axiom fn rnd_mono(x: real, y: real)
    requires x <= y
    ensures rnd(x) <= rnd(y);
pub axiom fn rnd_int(n: int)
    requires -16777216 <= n <= 16777216
    ensures rnd(n as real) == n as real;
impl F32 {
    pub uninterp spec fn r(self) -> real;
    /// The nearest integer (half away from zero).
    #[verifier::external_body]
    pub fn round(self) -> (r: F32)
        ensures whole(self.r()) ==> r.r() == self.r(), whole(r.r()), r.r() - self.r() <= 0.5real, self.r() - r.r() <= 0.5real
    { unimplemented!() }
}
pub trait VToF32: Sized { spec fn i(self) -> int; }
impl VToF32 for u64 { open spec fn i(self) -> int { self as int } }
impl VToF32 for usize { open spec fn i(self) -> int { self as int } }
impl VToF32 for u32 { open spec fn i(self) -> int { self as int } }
/// `n as f32`
#[verifier::external_body]
pub fn v_f32<T: VToF32>(n: T) -> (r: F32) ensures r.r() == rnd(n.i() as real) { unimplemented!() }
/// The literal n/d.
#[verifier::external_body]
pub fn v_f32_lit(n: u64, d: u64) -> (r: F32) requires d > 0 ensures r.r() == rnd(n as real / d as real) { unimplemented!() }
/// `x as usize`
#[verifier::external_body]
pub fn v_trunc(x: F32) -> (r: usize) ensures 0real <= x.r() < 1_000_000_000_000real ==> r as real <= x.r() < r as real + 1real { unimplemented!() }

impl vstd::std_specs::ops::DivSpecImpl<F32> for F32 {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: F32) -> bool { o.r() != 0real && in_range(self.r() / o.r()) }
    open spec fn div_spec(self, o: F32) -> F32 { arbitrary() }
}
impl core::ops::Div<F32> for F32 {
    type Output = F32;
    #[verifier::external_body]
    fn div(self, o: F32) -> (r: F32) ensures r.r() == rnd(self.r() / o.r()) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<F32> for F32 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: F32) -> bool { in_range(self.r() * o.r()) }
    open spec fn mul_spec(self, o: F32) -> F32 { arbitrary() }
}
impl core::ops::Mul<F32> for F32 {
    type Output = F32;
    #[verifier::external_body]
    fn mul(self, o: F32) -> (r: F32) ensures r.r() == rnd(self.r() * o.r()) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<F32> for F32 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: F32) -> bool { in_range(self.r() - o.r()) }
    open spec fn sub_spec(self, o: F32) -> F32 { arbitrary() }
}
impl core::ops::Sub<F32> for F32 {
    type Output = F32;
    #[verifier::external_body]
    fn sub(self, o: F32) -> (r: F32) ensures r.r() == rnd(self.r() - o.r()) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<F32> for F32 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: F32) -> bool { in_range(self.r() + o.r()) }
    open spec fn add_spec(self, o: F32) -> F32 { arbitrary() }
}
impl core::ops::Add<F32> for F32 {
    type Output = F32;
    #[verifier::external_body]
    fn add(self, o: F32) -> (r: F32) ensures r.r() == rnd(self.r() + o.r()) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for F32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F32) -> bool { self.r() == o.r() }
}
impl PartialEq for F32 {
    #[verifier::external_body]
    fn eq(&self, o: &F32) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F32 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F32) -> Option<core::cmp::Ordering> {
        if self.r() < o.r() { Some(core::cmp::Ordering::Less) } else if self.r() > o.r() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
impl PartialOrd for F32 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &F32) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}


// ---- numbers as text (assumed: std's formatting rounds to nearest) -------------------------------
pub open spec fn tenr(p: int) -> real { ten(p) as real }
/// k is x * 10^p, rounded.
pub open spec fn rounded_to(x: real, p: int, k: int) -> bool { of_int(k) - x * tenr(p) <= 0.5real && x * tenr(p) - of_int(k) <= 0.5real }
/// format!("{:.*}{}", places, x, s)
#[verifier::external_body]
pub fn v_fixed(places: usize, x: F32, s: &str) -> (r: String)
    requires 0real <= x.r(), places <= 2
    ensures exists|k: int| #[trigger] rounded_to(x.r(), places as int, k) && r@ == notation(places as int, k) + s@
{ unimplemented!() }
/// format!("{}", x) of a whole number
#[verifier::external_body]
pub fn v_whole(x: F32) -> (r: String)
    requires whole(x.r())
    ensures forall|n: int| x.r() == #[trigger] of_int(n) ==> r@ == notation(0, n)
{ unimplemented!() }

}
