verus! {

// ---- byte strings -----------------------------------------------------------------------------
/// b"..."
pub fn v_bytes<'a, const N: usize>(a: &'a [u8; N]) -> (r: &'a [u8]) ensures r@ == a@ { a.as_slice() }
/// Position of the first c (the length: none).
pub open spec fn cut(s: Bytes, c: u8) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == c { 0 } else { 1 + cut(s.skip(1), c) }
}
pub proof fn lemma_cut(s: Bytes, c: u8)
    ensures 0 <= cut(s, c) <= s.len(), forall|i: int| 0 <= i < cut(s, c) ==> #[trigger] s[i] != c, cut(s, c) < s.len() ==> s[cut(s, c)] == c
    decreases s.len()
{
    if s.len() == 0 || s[0] == c { } else {
        let t = s.skip(1);
        lemma_cut(t, c);
        assert forall|i: int| 0 <= i < cut(s, c) implies #[trigger] s[i] != c by { if i > 0 { assert(t[i - 1] != c); } }
    }
}
/// The pieces between the c's.
pub open spec fn split(s: Bytes, c: u8) -> Seq<Bytes>
    decreases s.len()
    via split_dec
{
    if cut(s, c) >= s.len() { seq![s] } else { seq![s.take(cut(s, c))] + split(s.skip(cut(s, c) + 1), c) }
}
#[via_fn]
proof fn split_dec(s: Bytes, c: u8) { lemma_cut(s, c); }
/// At most n pieces: the last one is the rest.
pub open spec fn splitn(s: Bytes, n: int, c: u8) -> Seq<Bytes>
    decreases n
{
    if n <= 0 { seq![] } else if n == 1 || cut(s, c) >= s.len() { seq![s] } else { seq![s.take(cut(s, c))] + splitn(s.skip(cut(s, c) + 1), n - 1, c) }
}
pub open spec fn slices(v: Seq<&[u8]>) -> Seq<Bytes> { Seq::new(v.len(), |i: int| v[i]@) }
/// s.split(|x| x == c) (assumed)
#[verifier::external_body]
pub fn v_split<'a>(s: &'a [u8], c: u8) -> (r: Vec<&'a [u8]>) ensures slices(r@) == split(s@, c) { s.split(|x| *x == c).collect() }
/// s.splitn(n, |x| x == c) (assumed)
#[verifier::external_body]
pub struct VPieces<'a> { v: Vec<&'a [u8]> }
impl<'a> VPieces<'a> {
    /// What is still to come.
    pub uninterp spec fn view(&self) -> Seq<Bytes>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_splitn<'a>(s: &'a [u8], n: usize, c: u8) -> (r: VPieces<'a>) ensures r@ == splitn(s@, n as int, c) { unimplemented!() }

/// Position of the first a or b (the length: none).
pub open spec fn cut2(s: Bytes, a: u8, b: u8) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == a || s[0] == b { 0 } else { 1 + cut2(s.skip(1), a, b) }
}
/// s.split(|x| x == a || x == b): the first piece (assumed)
#[verifier::external_body]
pub fn v_split2<'a>(s: &'a [u8], a: u8, b: u8) -> (r: VPieces<'a>) ensures r@.len() > 0, r@[0] == s@.take(cut2(s@, a, b)) { unimplemented!() }

// ---- slices -------------------------------------------------------------------------------------
pub trait VSlice<'a>: Sized {
    spec fn el(self) -> Bytes;
    fn v_from(self, i: usize) -> (r: &'a [u8])
        requires i <= self.el().len()
        ensures r@ == self.el().skip(i as int);
    fn v_to(self, i: usize) -> (r: &'a [u8])
        requires i <= self.el().len()
        ensures r@ == self.el().take(i as int);
    fn v_range(self, i: usize, j: usize) -> (r: &'a [u8])
        requires i <= j <= self.el().len()
        ensures r@ == self.el().subrange(i as int, j as int);
}
impl<'a> VSlice<'a> for &'a [u8] {
    open spec fn el(self) -> Bytes { self@ }
    #[verifier::external_body]
    fn v_from(self, i: usize) -> (r: &'a [u8]) { &self[i..] }
    #[verifier::external_body]
    fn v_to(self, i: usize) -> (r: &'a [u8]) { &self[..i] }
    #[verifier::external_body]
    fn v_range(self, i: usize, j: usize) -> (r: &'a [u8]) { &self[i..j] }
}
impl<'a> VSlice<'a> for &'a Vec<u8> {
    open spec fn el(self) -> Bytes { self@ }
    #[verifier::external_body]
    fn v_from(self, i: usize) -> (r: &'a [u8]) { &self[i..] }
    #[verifier::external_body]
    fn v_to(self, i: usize) -> (r: &'a [u8]) { &self[..i] }
    #[verifier::external_body]
    fn v_range(self, i: usize, j: usize) -> (r: &'a [u8]) { &self[i..j] }
}
pub trait VStarts {
    spec fn st(&self) -> Bytes;
    fn v_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == p@.is_prefix_of(self.st());
}
impl VStarts for [u8] {
    open spec fn st(&self) -> Bytes { self@ }
    #[verifier::external_body]
    fn v_starts_with(&self, p: &[u8]) -> (r: bool) { self.starts_with(p) }
}

}
