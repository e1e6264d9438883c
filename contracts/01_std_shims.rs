use vstd::std_specs::cmp::*;
verus! {

pub type Bytes = Seq<u8>;

// ---- equality of byte strings and text (assumed: std's == compares contents) -------
pub broadcast axiom fn ax_eq_slice(a: &[u8], b: &[u8])
    ensures <[u8] as PartialEqSpec>::obeys_eq_spec(), #[trigger] <[u8] as PartialEqSpec>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_eq_vec(a: &Vec<u8>, b: &Vec<u8>)
    ensures <Vec<u8> as PartialEqSpec>::obeys_eq_spec(), #[trigger] <Vec<u8> as PartialEqSpec>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_eq_string(a: &String, b: &String)
    ensures <String as PartialEqSpec>::obeys_eq_spec(), #[trigger] <String as PartialEqSpec>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn ax_obeys_vec_slice()
    ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_vec_slice(a: &Vec<u8>, b: &[u8])
    ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
/// No vector or slice holds more than isize::MAX bytes (the allocator's limit).
pub broadcast axiom fn ax_vec_len(v: &Vec<u8>) ensures #[trigger] v@.len() <= isize::MAX;
pub broadcast axiom fn ax_slice_len(v: &[u8]) ensures #[trigger] v@.len() <= isize::MAX;
pub broadcast group group_eq { ax_vec_len, ax_slice_len, ax_eq_slice, ax_eq_vec, ax_eq_string, ax_obeys_vec_slice, ax_eq_vec_slice }

// ---- cloning (assumed: a clone equals its original) -----------------------------------
pub trait VClone: Sized {
    fn v_clone(&self) -> (r: Self) ensures r == *self;
}
impl<T: Clone> VClone for T {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: T) { self.clone() }
}
pub trait VToVec {
    spec fn elems(&self) -> Bytes;
    fn v_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.elems();
}
impl VToVec for [u8] {
    open spec fn elems(&self) -> Bytes { self@ }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
impl VToVec for Vec<u8> {
    open spec fn elems(&self) -> Bytes { self@ }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}

// ---- vectors ---------------------------------------------------------------------------
/// vec![x; n]
#[verifier::external_body]
pub fn v_vec_fill<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{ vec![x; n] }
pub trait VFill<T> {
    spec fn fill_view(&self) -> Seq<T>;
    fn v_fill(&mut self, x: T)
        ensures final(self).fill_view().len() == old(self).fill_view().len(),
            forall|i: int| 0 <= i < final(self).fill_view().len() ==> #[trigger] final(self).fill_view()[i] == x;
}
impl<T: Copy> VFill<T> for Vec<T> {
    open spec fn fill_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_fill(&mut self, x: T) { self.fill(x) }
}
pub trait VContains<T> {
    spec fn has_elem(&self, x: T) -> bool;
    fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.has_elem(*x);
}
impl VContains<u16> for Vec<u16> {
    open spec fn has_elem(&self, x: u16) -> bool { self@.contains(x) }
    #[verifier::external_body]
    fn v_contains(&self, x: &u16) -> (r: bool) { self.contains(x) }
}
pub trait VRemove<T> {
    spec fn rm_view(&self) -> Seq<T>;
    fn v_remove(&mut self, i: usize) -> (r: T)
        requires i < old(self).rm_view().len()
        ensures r == old(self).rm_view()[i as int], final(self).rm_view() == old(self).rm_view().remove(i as int);
}
impl<T> VRemove<T> for Vec<T> {
    open spec fn rm_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_remove(&mut self, i: usize) -> (r: T) { self.remove(i) }
}
/// a[i..j].clone_from_slice(&b[k..l])
#[verifier::external_body]
pub fn v_copy_range(dst: &mut Vec<u8>, a: usize, b: usize, src: &Vec<u8>, x: usize, y: usize)
    requires a <= b <= old(dst)@.len(), x <= y <= src@.len(), b - a == y - x
    ensures final(dst)@.len() == old(dst)@.len(),
        forall|i: int| 0 <= i < final(dst)@.len() ==> #[trigger] final(dst)@[i] ==
            (if a <= i < b { src@[i - a + x] } else { old(dst)@[i] })
{ dst[a..b].clone_from_slice(&src[x..y]) }

// ---- ordered and hash maps (assumed contracts on std) ----------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }
/// The keys in iteration order.
pub uninterp spec fn keys_of<K, V>(m: Map<K, V>) -> Seq<K>;
pub open spec fn keys_ok(m: Map<u16, u16>) -> bool { true }
pub open spec fn sorted16(s: Seq<u16>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub broadcast axiom fn ax_keys<V>(m: Map<u16, V>)
    ensures
        sorted16(#[trigger] keys_of(m)),
        keys_of(m).len() == m.dom().len(),
        forall|i: int| 0 <= i < keys_of(m).len() ==> m.dom().contains(#[trigger] keys_of(m)[i]),
        forall|k: u16| #[trigger] m.dom().contains(k) ==> keys_of(m).contains(k);
impl<V> BTreeMap<u16, V> {
    pub uninterp spec fn view(&self) -> Map<u16, V>;
    pub open spec fn keys(&self) -> Seq<u16> { keys_of(self@) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<u16, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u16, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_remove(&mut self, k: &u16) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &u16) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &u16) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<u16, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), r <= 65536 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<u16, V>::empty()), r == (self@.dom().len() == 0) { unimplemented!() }
    // iteration
    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize) ensures r == self.keys().len(), r == self@.dom().len(), r <= 65536 { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entry(&self, i: usize) -> (r: (&u16, &V))
        requires i < self.keys().len()
        ensures *r.0 == self.keys()[i as int], self@.dom().contains(*r.0), *r.1 == self@[*r.0]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_keys(&self) -> (r: Vec<u16>) ensures r@ == self.keys() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get_mut(&mut self, k: u16) -> (r: &mut V)
        requires old(self)@.dom().contains(k)
        ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_last(&self) -> (r: Option<(&u16, &V)>)
        ensures match r {
            Some(e) => self@.dom().contains(*e.0) && *e.1 == self@[*e.0] && forall|k: u16| #[trigger] self@.dom().contains(k) ==> k <= *e.0,
            None => forall|k: u16| !#[trigger] self@.dom().contains(k) }
    { unimplemented!() }
}
impl<V: Clone> Clone for BTreeMap<u16, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// What a hash map compares keys by.
pub trait VKey: Sized {
    type KV;
    spec fn kv(&self) -> Self::KV;
}
impl VKey for i64 { type KV = i64; open spec fn kv(&self) -> i64 { *self } }
impl VKey for Vec<u8> { type KV = Bytes; open spec fn kv(&self) -> Bytes { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
/// Iteration goes through the keys in some order, once each.
pub broadcast axiom fn ax_hkeys<K: VKey, V>(m: HashMap<K, V>)
    ensures
        (#[trigger] m.hkeys()).no_duplicates(), m.hkeys().len() == m@.dom().len(),
        forall|i: int| 0 <= i < m.hkeys().len() ==> m@.dom().contains(#[trigger] m.hkeys()[i]),
        forall|k: K::KV| #[trigger] m@.dom().contains(k) ==> m.hkeys().contains(k);
impl<K: VKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::KV, V>;
    pub uninterp spec fn hkeys(&self) -> Seq<K::KV>;
    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize) ensures r == self.hkeys().len(), r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entry(&self, i: usize) -> (r: (&K, &V))
        requires i < self.hkeys().len()
        ensures r.0.kv() == self.hkeys()[i as int], self@.dom().contains(r.0.kv()), *r.1 == self@[r.0.kv()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) requires may_alloc(n as int) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v),
            r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kv()),
            r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k.kv()) && *v == self@[k.kv()], None => !self@.dom().contains(k.kv()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k.kv()) && *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)),
            None => !old(self)@.dom().contains(k.kv()) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::KV, V>::empty()), r == (self@.dom().len() == 0) { unimplemented!() }
}

}
verus! {

// ---- room set aside -----------------------------------------------------------------------
pub uninterp spec fn cap<T>(v: Vec<T>) -> int;
#[verifier::external_body]
pub fn v_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty(), cap(r) >= n { unimplemented!() }
/// The same where the size comes from outside.
#[verifier::external_body]
pub fn v_allocate<T>(n: usize) -> (r: Vec<T>) requires may_alloc(n as int) ensures r@ == Seq::<T>::empty(), cap(r) >= n { unimplemented!() }
pub trait VSetLen<T> {
    spec fn room(&self) -> int;
    spec fn elements(&self) -> Seq<T>;
    unsafe fn v_set_len(&mut self, n: usize)
        requires n <= old(self).room()
        ensures final(self).elements().len() == n, final(self).room() == old(self).room(), forall|i: int| 0 <= i < n && i < old(self).elements().len() ==> final(self).elements()[i] == #[trigger] old(self).elements()[i];
}
impl<T> VSetLen<T> for Vec<T> {
    open spec fn room(&self) -> int { cap(*self) }
    open spec fn elements(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    unsafe fn v_set_len(&mut self, n: usize) { unimplemented!() }
}

// ---- double-ended queues -------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { m: std::collections::VecDeque<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, v: T) ensures final(self)@ == seq![v] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.remove(0),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(v) => old(self)@.len() > 0 && v == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.remove(old(self)@.len() - 1),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
}
/// The bound `std::hash::Hash` of generic code: keys that maps compare by value.
pub trait Hash: VKey { }
impl Hash for i64 { }


// ---- options ----------------------------------------------------------------------------------
pub trait VAsMut<T> {
    spec fn am_view(&self) -> Option<T>;
    fn v_as_mut(&mut self) -> (r: Option<&mut T>)
        ensures r.is_some() == old(self).am_view().is_some(), final(self).am_view().is_some() == old(self).am_view().is_some(),
            r matches Some(x) ==> *x == old(self).am_view().unwrap() && final(self).am_view() == Some(*final(x));
}
impl<T> VAsMut<T> for Option<T> {
    open spec fn am_view(&self) -> Option<T> { *self }
    fn v_as_mut(&mut self) -> (r: Option<&mut T>) { self.as_mut() }
}
pub trait VOption<T> {
    spec fn opt(&self) -> Option<T>;
    fn v_as_ref(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self.opt() == Some(*x), None => self.opt().is_none() };
}
impl<T> VOption<T> for Option<T> {
    open spec fn opt(&self) -> Option<T> { *self }
    fn v_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } }
}
pub trait VOptionVec {
    spec fn optv(&self) -> Option<Vec<u8>>;
    fn v_as_deref(&self) -> (r: Option<&[u8]>)
        ensures match r { Some(x) => self.optv().is_some() && self.optv().unwrap()@ == x@, None => self.optv().is_none() };
}
impl VOptionVec for Option<Vec<u8>> {
    open spec fn optv(&self) -> Option<Vec<u8>> { *self }
    fn v_as_deref(&self) -> (r: Option<&[u8]>) { match self { Some(x) => Some(x.as_slice()), None => None } }
}

}
