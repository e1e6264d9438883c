verus! {

// ---- what the user is shown, and asked ------------------------------------------------------
/// Counts of blocks (to visit, visited, skipped), messages, and what the prompt will answer.
pub struct StatusV { pub total: nat, pub done: nat, pub failed: nat, pub log: Seq<Seq<char>>, pub answer: bool }
impl StatusV {
    pub open spec fn fresh(self) -> bool { self.done == 0 && self.failed == 0 && self.total == 0 }
    /// i of n blocks have been looked at.
    pub open spec fn counting(self, i: int, n: int) -> bool { self.done <= i && self.failed <= i && self.total == n }
}
// Channels and shared state, seen from the thread that runs the command (assumed: nobody else
// writes the counts, the other side holds its ends open, and no lock is poisoned).
pub struct Arc<T> { pub m: T }
pub struct Mutex<T> { pub v: T }
impl<T> Mutex<T> { pub fn new(v: T) -> (r: Self) ensures r.v == v { Mutex { v } } }
impl<T> Arc<Mutex<T>> {
    pub fn new(m: Mutex<T>) -> (r: Self) ensures r.m == m { Arc { m } }
    pub fn v_locked(&mut self) -> (r: &mut T) ensures *r == old(self).m.v, final(self).m.v == *final(r) { &mut self.m.v }
}
/// What holds of the shared state whenever the lock is free.
pub trait VKept: Sized { spec fn kept(self) -> bool; }
impl<T: VKept> Arc<Mutex<T>> {
    /// The client's handle: it only reads, and sees what the lock protects.
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: Self) requires self.m.v.kept() ensures r.m.v.kept() { unimplemented!() }
}
#[derive(PartialEq, Eq, Clone, Copy, vstd::prelude::Structural)]
pub enum RecvTimeoutError { Timeout, Disconnected }
pub mod mpsc {
    use super::*;
    pub use super::RecvTimeoutError;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { t: T }
    impl<T> Sender<T> {
        /// Everything sent so far.
        pub uninterp spec fn sent(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn send(&mut self, x: T) -> (r: Result<(), SendError>) ensures r.is_ok(), final(self).sent() == old(self).sent().push(x) { unimplemented!() }
    }
    impl<T> Sender<T> {
        #[verifier::external_body]
        pub fn v_clone(&self) -> (r: Self) { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { t: T }
    impl<T> Receiver<T> {
        /// What arrives next; nothing if the other side is gone.
        pub uninterp spec fn next(&self) -> Option<T>;
        #[verifier::external_body]
        pub fn recv(&mut self) -> (r: Result<T, SendError>) ensures old(self).next() matches Some(x) ==> r == Ok::<T, SendError>(x), old(self).next().is_none() ==> r.is_err() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.sent().len() == 0 { unimplemented!() }
    #[derive(Debug)]
    pub struct SendError { pub e: u8 }
    impl<T> Receiver<T> {
        #[verifier::external_body]
        pub fn recv_timeout(&self, d: Duration) -> (r: Result<T, RecvTimeoutError>) { unimplemented!() }
    }
}

// ---- text -------------------------------------------------------------------------------------
pub trait VShow: Sized {
    spec fn show(self) -> Seq<char>;
}
pub uninterp spec fn num_text(n: int) -> Seq<char>;
impl VShow for u64 { open spec fn show(self) -> Seq<char> { num_text(self as int) } }
impl VShow for String { open spec fn show(self) -> Seq<char> { self@ } }
impl<'a> VShow for &'a str { open spec fn show(self) -> Seq<char> { self@ } }
/// AsRef<str>
pub trait VStr: VShow { fn v_as_str(&self) -> (r: &str) ensures r@ == self.show(); }
impl VStr for String { fn v_as_str(&self) -> (r: &str) { self.as_str() } }
impl<'a> VStr for &'a str { fn v_as_str(&self) -> (r: &str) { *self } }
pub uninterp spec fn fmt1(lit: Seq<char>, a: Seq<char>) -> Seq<char>;
pub uninterp spec fn fmt2(lit: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn fmt3(lit: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn v_format3<A: VShow, B: VShow, C: VShow>(lit: &str, a: A, b: B, c: C) -> (r: String) ensures r@ == fmt3(lit@, a.show(), b.show(), c.show()) { unimplemented!() }
#[verifier::external_body]
pub fn v_format0(lit: &str) -> (r: String) ensures r@ == lit@ { unimplemented!() }
#[verifier::external_body]
pub fn v_format1<A: VShow>(lit: &str, a: A) -> (r: String) ensures r@ == fmt1(lit@, a.show()) { unimplemented!() }
#[verifier::external_body]
pub fn v_format2<A: VShow, B: VShow>(lit: &str, a: A, b: B) -> (r: String) ensures r@ == fmt2(lit@, a.show(), b.show()) { unimplemented!() }
/// k / 10^p in decimal notation, with p decimals (std's formatting).
pub uninterp spec fn notation(p: int, k: int) -> Seq<char>;
pub open spec fn ten(p: int) -> int { if p == 0 { 1 } else if p == 1 { 10 } else { 100 } }
pub open spec fn thousands(e: int) -> int { if e == 1 { 1000 } else if e == 2 { 1_000_000 } else if e == 3 { 1_000_000_000 } else { 1_000_000_000_000 } }
pub open spec fn suffix(e: int) -> Seq<char> { if e == 1 { "k"@ } else if e == 2 { "M"@ } else if e == 3 { "B"@ } else { "T"@ } }
/// k / 10^p thousands (millions, ...) are n, give or take 0.51 percent, and k has at least three digits.
pub open spec fn about(p: int, k: int, e: int, n: int) -> bool {
    0 <= p <= 2 && 1 <= e <= 4 && k >= 100 && (p > 0 ==> k <= 1000)
        && 10000 * (k * thousands(e) - n * ten(p)) <= 51 * n * ten(p) && 10000 * (n * ten(p) - k * thousands(e)) <= 51 * n * ten(p)
}
/// t shows the number n: exactly below 1000, else three digits of it and its magnitude.
#[verifier::opaque]
pub open spec fn shown(t: Seq<char>, n: int) -> bool {
    if n < 1000 { t == notation(0, n) } else { exists|p: int, k: int, e: int| #[trigger] about(p, k, e, n) && t == notation(p, k) + suffix(e) }
}
/// The message says n / a and b.
pub open spec fn says(msg: Seq<char>, n: int) -> bool { exists|lit: Seq<char>, t: Seq<char>| msg == #[trigger] fmt1(lit, t) && shown(t, n) }
pub open spec fn says2(msg: Seq<char>, a: int, b: int) -> bool {
    exists|lit: Seq<char>, s: Seq<char>, t: Seq<char>| msg == #[trigger] fmt2(lit, s, t) && shown(s, a) && shown(t, b)
}

pub broadcast proof fn says_fmt1(lit: Seq<char>, t: Seq<char>, n: int) requires #[trigger] shown(t, n) ensures says(#[trigger] fmt1(lit, t), n) { }
pub broadcast proof fn says_fmt2(lit: Seq<char>, s: Seq<char>, t: Seq<char>, a: int, b: int) requires #[trigger] shown(s, a), #[trigger] shown(t, b) ensures says2(#[trigger] fmt2(lit, s, t), a, b) { }
pub broadcast group group_says { says_fmt1, says_fmt2 }

/// The UTF-8 bytes of a text.
pub uninterp spec fn sbytes(s: Seq<char>) -> Bytes;
pub trait VAsBytes {
    spec fn chars(&self) -> Seq<char>;
    fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == sbytes(self.chars());
}
impl VAsBytes for String {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() }
}
#[verifier::external_body]
pub fn from_ref<T>(x: &T) -> (r: &[T]) ensures r@ == seq![*x] { std::slice::from_ref(x) }
#[verifier::external_body]
pub fn v_empty_slice<T>() -> (r: &'static [T]) ensures r@ == Seq::<T>::empty() { &[] }
// ---- bytes ---------------------------------------------------------------------------------------
pub open spec fn be16(n: u16) -> Bytes { seq![(n / 256) as u8, (n % 256) as u8] }
pub struct IoError { pub e: u8 }
impl core::fmt::Debug for IoError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub trait VExtend {
    spec fn ext_view(&self) -> Bytes;
    fn v_extend(&mut self, s: &[u8]) ensures final(self).ext_view() == old(self).ext_view() + s@;
}
impl VExtend for Vec<u8> {
    open spec fn ext_view(&self) -> Bytes { self@ }
    #[verifier::external_body]
    fn v_extend(&mut self, s: &[u8]) { self.extend_from_slice(s) }
}

// ---- substring search (memmem, assumed) -------------------------------------------------------
pub open spec fn occurs(h: Bytes, n: Bytes) -> bool { exists|i: int| 0 <= i && i + n.len() <= h.len() && #[trigger] h.subrange(i, i + n.len()) == n }
/// Where it occurs first.
pub open spec fn first_at(h: Bytes, n: Bytes) -> int { choose|i: int| at(h, n, i) && forall|j: int| 0 <= j < i ==> !#[trigger] at(h, n, j) }
pub open spec fn at(h: Bytes, n: Bytes, i: int) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) == n }
pub proof fn lemma_first_at(h: Bytes, n: Bytes)
    requires occurs(h, n)
    ensures at(h, n, first_at(h, n)), forall|j: int| 0 <= j < first_at(h, n) ==> !#[trigger] at(h, n, j)
{
    let k = choose|i: int| 0 <= i && i + n.len() <= h.len() && #[trigger] h.subrange(i, i + n.len()) == n;
    assert(at(h, n, k));
    lemma_first_from(h, n, 0, k);
}
proof fn lemma_first_from(h: Bytes, n: Bytes, i: int, k: int)
    requires 0 <= i <= k, at(h, n, k), forall|j: int| 0 <= j < i ==> !#[trigger] at(h, n, j)
    ensures exists|i: int| at(h, n, i) && forall|j: int| 0 <= j < i ==> !#[trigger] at(h, n, j)
    decreases k - i
{
    if at(h, n, i) { } else { lemma_first_from(h, n, i + 1, k); }
}
#[verifier::external_body]
pub struct TwoWaySearcher { s: u8 }
impl TwoWaySearcher {
    pub uninterp spec fn view(&self) -> Bytes;
    #[verifier::external_body]
    pub fn new(n: &[u8]) -> (r: Self) ensures r@ == n@ { unimplemented!() }
    #[verifier::external_body]
    pub fn search_in(&self, h: &[u8]) -> (r: Option<usize>) ensures r.is_some() == occurs(h@, self@), r matches Some(i) ==> i == first_at(h@, self@) { unimplemented!() }
}

/// A count of loop rounds does not reach 2^64 (assumed: memory is finite).
#[verifier::external_body]
pub fn v_no_wrap(i: usize) ensures i < usize::MAX { }

}
