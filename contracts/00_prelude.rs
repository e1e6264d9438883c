verus! {
/// Unknown (vacuity check).
pub uninterp spec fn vac(i: int) -> bool;

// ---- run-time checks of the code ---------------------------------------------
/// assert!(c): an obligation (the assertion never fires).
pub fn rt_assert(c: bool) requires c { }
/// assert!(c) where the code uses it to refuse its argument: control continues only if c.
#[verifier::external_body]
pub fn rt_refuse(c: bool) ensures c { assert!(c) }
#[verifier::external_body]
pub fn rt_panic() -> ! requires false { panic!() }

// ---- integers ------------------------------------------------------------------
pub trait VInt: Sized + Copy {
    spec fn val(self) -> int;
    spec fn lo() -> int;
    spec fn hi() -> int;
}
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub trait VEuclid: Sized {
    spec fn iv(self) -> int;
    spec fn of(x: int) -> Self;
    fn v_div_euclid(self, d: Self) -> (r: Self)
        requires d.iv() > 0
        ensures r.iv() == self.iv() / d.iv();
    fn v_rem_euclid(self, d: Self) -> (r: Self)
        requires d.iv() > 0
        ensures r.iv() == self.iv() % d.iv();
}
impl VEuclid for i32 {
    open spec fn iv(self) -> int { self as int }
    open spec fn of(x: int) -> i32 { x as i32 }
    #[verifier::external_body]
    fn v_div_euclid(self, d: i32) -> (r: i32) { self.div_euclid(d) }
    #[verifier::external_body]
    fn v_rem_euclid(self, d: i32) -> (r: i32) { self.rem_euclid(d) }
}
impl VEuclid for i64 {
    open spec fn iv(self) -> int { self as int }
    open spec fn of(x: int) -> i64 { x as i64 }
    #[verifier::external_body]
    fn v_div_euclid(self, d: i64) -> (r: i64) { self.div_euclid(d) }
    #[verifier::external_body]
    fn v_rem_euclid(self, d: i64) -> (r: i64) { self.rem_euclid(d) }
}
pub trait VSat: Sized {
    spec fn sv(self) -> int;
    fn v_saturating_add(self, d: Self) -> (r: Self) ensures r.sv() == sat_i32(self.sv() + d.sv());
}
impl VSat for i32 {
    open spec fn sv(self) -> int { self as int }
    #[verifier::external_body]
    fn v_saturating_add(self, d: i32) -> (r: i32) { self.saturating_add(d) }
}
pub open spec fn sat_i32(x: int) -> int { if x > 0x7fff_ffff { 0x7fff_ffff } else if x < -0x8000_0000 { -0x8000_0000 } else { x } }
pub trait VOrd: Sized {
    spec fn ov(self) -> int;
    fn vmin(self, o: Self) -> (r: Self) ensures r == (if self.ov() <= o.ov() { self } else { o });
    fn vmax(self, o: Self) -> (r: Self) ensures r == (if self.ov() >= o.ov() { self } else { o });
}
impl VOrd for i32 {
    open spec fn ov(self) -> int { self as int }
    fn vmin(self, o: i32) -> (r: i32) { if self <= o { self } else { o } }
    fn vmax(self, o: i32) -> (r: i32) { if self >= o { self } else { o } }
}
impl VOrd for u16 {
    open spec fn ov(self) -> int { self as int }
    fn vmin(self, o: u16) -> (r: u16) { if self <= o { self } else { o } }
    fn vmax(self, o: u16) -> (r: u16) { if self >= o { self } else { o } }
}
impl VOrd for usize {
    open spec fn ov(self) -> int { self as int }
    fn vmin(self, o: usize) -> (r: usize) { if self <= o { self } else { o } }
    fn vmax(self, o: usize) -> (r: usize) { if self >= o { self } else { o } }
}
impl VOrd for u8 {
    open spec fn ov(self) -> int { self as int }
    fn vmin(self, o: u8) -> (r: u8) { if self <= o { self } else { o } }
    fn vmax(self, o: u8) -> (r: u8) { if self >= o { self } else { o } }
}
impl VOrd for u32 {
    open spec fn ov(self) -> int { self as int }
    fn vmin(self, o: u32) -> (r: u32) { if self <= o { self } else { o } }
    fn vmax(self, o: u32) -> (r: u32) { if self >= o { self } else { o } }
}
impl VOrd for u64 {
    open spec fn ov(self) -> int { self as int }
    fn vmin(self, o: u64) -> (r: u64) { if self <= o { self } else { o } }
    fn vmax(self, o: u64) -> (r: u64) { if self >= o { self } else { o } }
}
impl VOrd for i64 {
    open spec fn ov(self) -> int { self as int }
    fn vmin(self, o: i64) -> (r: i64) { if self <= o { self } else { o } }
    fn vmax(self, o: i64) -> (r: i64) { if self >= o { self } else { o } }
}
impl VOrd for i16 {
    open spec fn ov(self) -> int { self as int }
    fn vmin(self, o: i16) -> (r: i16) { if self <= o { self } else { o } }
    fn vmax(self, o: i16) -> (r: i16) { if self >= o { self } else { o } }
}
/// std::cmp::min / max
pub fn min<T: VOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ov() <= b.ov() { a } else { b }) { a.vmin(b) }
pub fn max<T: VOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ov() >= b.ov() { a } else { b }) { a.vmax(b) }

}
