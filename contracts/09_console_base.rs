use vstd::std_specs::cmp::*;
verus! {

// ---- the console and the clock (assumed) -------------------------------------------------------
pub fn v_print() { }
/// Something shown.
#[verifier::external_body]
pub fn v_display<T>(x: &T) { unimplemented!() }
#[verifier::external_body]
pub fn v_due(now: Instant, last: Instant, every: Duration) -> bool { unimplemented!() }
/// The user typed this line.
pub uninterp spec fn typed_line(l: Seq<char>) -> bool;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub open spec fn lower_char(c: char) -> char { if is_upper(c) { ((c as u32) + 32) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lower_char(s[i])) }
pub open spec fn yes(l: Seq<char>) -> bool { lower(trimmed(l)) == "y"@ }
pub assume_specification[ str::eq_ignore_ascii_case ](s: &str, o: &str) -> (r: bool) ensures r == (lower(s@) =~= lower(o@));
pub proof fn lemma_yes(s: Seq<char>)
    ensures (lower(s) == "y"@) == (s == "y"@ || s == "Y"@), lower("y"@) == "y"@, lower("Y"@) == "y"@
{
    reveal_strlit("y"); reveal_strlit("Y");
    assert("y"@ =~= seq!['y']); assert("Y"@ =~= seq!['Y']);
    assert(lower("y"@) =~= "y"@); assert(lower("Y"@) =~= "y"@);
    if lower(s) == "y"@ {
        assert(lower(s).len() == 1 && lower(s)[0] == 'y');
        assert(s.len() == 1);
        if is_upper(s[0]) { assert(((s[0] as u32) + 32) as char == 'y'); assert(s[0] == 'Y'); assert(s =~= "Y"@); } else { assert(s =~= "y"@); }
    }
}
/// Lower-casing ASCII letters moves no white space.
#[verifier::external_body]
pub proof fn ax_trim_lower(s: Seq<char>) ensures trimmed(lower(s)) == lower(trimmed(s)) { }
#[verifier::external_body]
pub fn v_read_line(s: &mut String) ensures exists|l: Seq<char>| typed_line(l) && final(s)@ == #[trigger] (old(s)@ + l) { unimplemented!() }
pub assume_specification[ str::trim ](s: &str) -> (r: &str) ensures r@ == trimmed(s@);
pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String) ensures r@ == lower(s@);
pub broadcast axiom fn ax_obeys_str_ref<'a>() ensures #[trigger] <String as PartialEqSpec<&'a str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_str_ref<'a>(a: &String, b: &&'a str) ensures #[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast group group_str_ref { ax_obeys_str_ref, ax_eq_str_ref }

#[derive(Clone, Copy)]
pub struct Duration { pub d: u8 }
/// The whole seconds of a time.
pub open spec fn whole_secs(t: real) -> int { choose|s: int| #[trigger] of_int(s) <= t < of_int(s) + 1real }
impl Duration {
    /// Its length in seconds.
    pub uninterp spec fn t(self) -> real;
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> Duration { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == whole_secs(self.t()), r as real <= self.t() < r as real + 1real { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs_f32(&self) -> (r: F32) ensures r.r() == rnd(self.t()) { unimplemented!() }
    /// Panics if the number is negative or too large.
    #[verifier::external_body]
    pub fn from_secs_f32(x: F32) -> (r: Duration) requires 0real <= x.r() <= 10_000_000_000_000_000_000real ensures r.t() >= 0real { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Instant { pub t: u8 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
    /// Nothing runs longer than 10^12 seconds.
    #[verifier::external_body]
    pub fn duration_since(&self, o: Instant) -> (r: Duration) ensures 0real <= r.t() <= 1_000_000_000_000real { unimplemented!() }
}
pub assume_specification[ str::repeat ](s: &str, n: usize) -> (r: String) requires s@.len() * n <= isize::MAX ensures r@.len() == s@.len() * n;
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == sbytes(s@).len(), r <= isize::MAX;
/// `s.lines().collect::<Vec<_>>().join(sep)`
#[verifier::external_body]
pub fn v_join_lines(s: &String, sep: &String) -> (r: String) { unimplemented!() }
}
