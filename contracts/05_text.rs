use vstd::std_specs::cmp::*;
verus! {

// ---- text: positions in a str are byte offsets (assumed contracts on std) -----------------
pub open spec fn u8len(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x1_0000 { 3 } else { 4 } }
/// Byte offset of the i-th character.
pub open spec fn byte_off(s: Seq<char>, i: int) -> int
    decreases i
{
    if i <= 0 || i > s.len() { 0 } else { byte_off(s, i - 1) + u8len(s[i - 1]) }
}
pub proof fn lemma_byte_off(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures 0 <= byte_off(s, i), byte_off(s, i) + (j - i) <= byte_off(s, j)
    decreases j
{
    if j > i { lemma_byte_off(s, i, j - 1); }
    else if j > 0 { lemma_byte_off(s, j - 1, j - 1); }
}
/// Position of the first c (the length: none).
pub open spec fn char_at(s: Seq<char>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == c { 0 } else { 1 + char_at(s.skip(1), c) }
}
pub proof fn lemma_char_at(s: Seq<char>, c: char)
    ensures 0 <= char_at(s, c) <= s.len(), forall|i: int| 0 <= i < char_at(s, c) ==> #[trigger] s[i] != c, char_at(s, c) < s.len() ==> s[char_at(s, c)] == c
    decreases s.len()
{
    if s.len() == 0 || s[0] == c { } else {
        let t = s.skip(1);
        lemma_char_at(t, c);
        assert forall|i: int| 0 <= i < char_at(s, c) implies #[trigger] s[i] != c by { if i > 0 { assert(t[i - 1] != c); } }
    }
}
pub trait VText<'a>: Sized {
    spec fn tx(self) -> Seq<char>;
    fn v_find(self, c: char) -> (r: Option<usize>)
        ensures match r {
            Some(d) => char_at(self.tx(), c) < self.tx().len() && d == byte_off(self.tx(), char_at(self.tx(), c)) && d < usize::MAX - 4,
            None => char_at(self.tx(), c) == self.tx().len(),
        };
    /// Slicing panics off character boundaries.
    fn v_to(self, d: usize) -> (r: &'a str)
        requires exists|i: int| 0 <= i <= self.tx().len() && d == #[trigger] byte_off(self.tx(), i)
        ensures forall|i: int| 0 <= i <= self.tx().len() && d == #[trigger] byte_off(self.tx(), i) ==> r@ == self.tx().take(i);
    fn v_from(self, d: usize) -> (r: &'a str)
        requires exists|i: int| 0 <= i <= self.tx().len() && d == #[trigger] byte_off(self.tx(), i)
        ensures forall|i: int| 0 <= i <= self.tx().len() && d == #[trigger] byte_off(self.tx(), i) ==> r@ == self.tx().skip(i);
}
impl<'a> VText<'a> for &'a str {
    open spec fn tx(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_find(self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body]
    fn v_to(self, d: usize) -> (r: &'a str) { &self[..d] }
    #[verifier::external_body]
    fn v_from(self, d: usize) -> (r: &'a str) { &self[d..] }
}
// ---- prefixes and suffixes of text (assumed contracts on str) ---------------------------------
pub trait VPat { spec fn pv(self) -> Seq<char>; }
impl<'b> VPat for &'b str { open spec fn pv(self) -> Seq<char> { self@ } }
impl<'b> VPat for &'b String { open spec fn pv(self) -> Seq<char> { self@ } }
impl VPat for char { open spec fn pv(self) -> Seq<char> { seq![self] } }
pub trait VAffix {
    spec fn af(&self) -> Seq<char>;
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.pv().is_prefix_of(self.af());
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.pv().is_suffix_of(self.af());
}
impl VAffix for str {
    open spec fn af(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
}
pub trait VChars {
    spec fn cs(&self) -> Seq<char>;
    fn v_chars(&self) -> (r: Vec<char>) ensures r@ == self.cs();
}
impl VChars for str {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_chars(&self) -> (r: Vec<char>) { self.chars().collect() }
}
pub open spec fn is_lower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn is_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn is_num(c: char) -> bool { '0' <= c && c <= '9' }
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == is_lower(*c);
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == is_upper(*c);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == is_num(*c);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == (is_lower(*c) || is_upper(*c) || is_num(*c));
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == (is_lower(*c) || is_upper(*c));

// ---- equality of optional texts --------------------------------------------------------------
pub open spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub broadcast axiom fn ax_obeys_ostr()
    ensures #[trigger] <Option<String> as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_ostr(a: &Option<String>, b: &Option<String>)
    ensures #[trigger] <Option<String> as PartialEqSpec>::eq_spec(a, b) == (ostr(*a) == ostr(*b));
pub broadcast group group_ostr { ax_obeys_ostr, ax_eq_ostr }
/// String::new()
pub trait VToString { spec fn ts(&self) -> Seq<char>; fn v_to_string(&self) -> (r: String) ensures r@ == self.ts(); }
impl VToString for str {
    open spec fn ts(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { self.to_string() }
}
// ---- errors (anyhow) ----------------------------------------------------------------------------
#[verifier::external_body]
#[derive(Debug)]
pub struct AnyError { e: u8 }
pub type AnyResult<T> = Result<T, AnyError>;
impl VToString for AnyError {
    uninterp spec fn ts(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_any_error() -> AnyError { unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<SqliteError> for AnyError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: SqliteError) -> AnyError { arbitrary() }
}
impl From<SqliteError> for AnyError { #[verifier::external_body] fn from(e: SqliteError) -> (r: AnyError) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<DBError> for AnyError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: DBError) -> AnyError { arbitrary() }
}
impl From<DBError> for AnyError { #[verifier::external_body] fn from(e: DBError) -> (r: AnyError) { unimplemented!() } }
pub trait VContext<T>: Sized {
    spec fn okv(self) -> Option<T>;
    /// Keeps success, words failure.
    fn context(self, msg: &str) -> (r: AnyResult<T>) ensures match r { Ok(x) => self.okv() == Some(x), Err(_) => self.okv().is_none() };
}
impl<T, E> VContext<T> for Result<T, E> {
    open spec fn okv(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn context(self, msg: &str) -> (r: AnyResult<T>) { match self { Ok(x) => Ok(x), Err(_) => Err(v_any_error()) } }
}
pub trait VTranspose<T, E>: Sized {
    spec fn opr(self) -> Option<Result<T, E>>;
    fn v_transpose(self) -> (r: Result<Option<T>, E>)
        ensures match self.opr() { None => r == Ok::<Option<T>, E>(None), Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e) };
}
impl<T, E> VTranspose<T, E> for Option<Result<T, E>> {
    open spec fn opr(self) -> Option<Result<T, E>> { self }
    fn v_transpose(self) -> (r: Result<Option<T>, E>) { match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
}
pub trait VOptionStr {
    spec fn opts(&self) -> Option<String>;
    fn v_as_deref(&self) -> (r: Option<&str>)
        ensures match r { Some(x) => self.opts().is_some() && self.opts().unwrap()@ == x@, None => self.opts().is_none() };
}
impl VOptionStr for Option<String> {
    open spec fn opts(&self) -> Option<String> { *self }
    fn v_as_deref(&self) -> (r: Option<&str>) { match self { Some(x) => Some(x.as_str()), None => None } }
}

}
verus! {
// ---- sorting by keys computed beforehand (assumed: std sorts) ------------------------------
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n)
        && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j])
        && (forall|j: int| 0 <= j < n ==> #[trigger] p.contains(j))
}
pub open spec fn sorted_as<T>(new: Seq<T>, old: Seq<T>, keys: Seq<i64>, p: Seq<int>) -> bool {
    is_perm(p, old.len() as int) && new.len() == old.len() && (forall|i: int| 0 <= i < new.len() ==> #[trigger] new[i] == old[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < new.len() ==> keys[#[trigger] p[i]] <= keys[#[trigger] p[j]])
}
#[verifier::external_body]
pub fn v_sort_with<T>(v: &mut Vec<T>, keys: &Vec<i64>)
    requires old(v)@.len() == keys@.len()
    ensures exists|p: Seq<int>| #[trigger] sorted_as(final(v)@, old(v)@, keys@, p)
{ unimplemented!() }
}
