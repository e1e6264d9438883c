module node_data map_block/node_data.rs
struct NodeData clone

module node_timer map_block/node_timer.rs
struct NodeTimer clone
type NodeTimerList

module static_object map_block/static_object.rs
struct StaticObject clone
type StaticObjectList

module metadata map_block/metadata.rs
struct NodeMetadata clone
type NodeMetadataList

module name_id_map map_block/name_id_map.rs
struct NameIdMap clone
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
impl NameIdMap {
    /// id k is listed / its name
    #[verifier::inline]
    pub open spec fn has(self, k: u16) -> bool { self.0@.dom().contains(k) }
    #[verifier::inline]
    pub open spec fn name(self, k: u16) -> Bytes { self.0@[k]@ }
    pub open spec fn same(self, o: NameIdMap) -> bool {
        forall|k: u16| (#[trigger] self.has(k) == o.has(k)) && (self.has(k) ==> self.name(k) == o.name(k))
    }
    /// no id above m is listed
    pub open spec fn below(self, m: int) -> bool { forall|k: u16| #[trigger] self.has(k) ==> k <= m }
    /// The highest listed id (-1: none).
    pub open spec fn max_id(self) -> int {
        if exists|k: u16| #[trigger] self.has(k) { choose|m: int| 0 <= m <= 65535 && self.has(m as u16) && self.below(m) } else { -1 }
    }
    pub proof fn lemma_max_upto(self, n: int)
        requires 0 <= n <= 65536, forall|k: u16| #[trigger] self.has(k) ==> k < n, exists|k: u16| #[trigger] self.has(k)
        ensures exists|m: int| 0 <= m <= 65535 && self.has(m as u16) && self.below(m)
        decreases n
    {
        if n == 0 { }
        else if self.has((n - 1) as u16) { assert(self.below(n - 1)); }
        else { self.lemma_max_upto(n - 1); }
    }
    pub proof fn lemma_max(self)
        ensures -1 <= self.max_id() <= 65535, self.below(self.max_id()), self.max_id() >= 0 ==> self.has(self.max_id() as u16),
            forall|k: u16| #[trigger] self.has(k) ==> self.max_id() >= 0,
            forall|m: int| 0 <= m <= 65535 && self.has(m as u16) && #[trigger] self.below(m) ==> m == self.max_id(),
            forall|m: int| #[trigger] self.below(m) && self.max_id() >= 0 ==> self.max_id() <= m
    {
        if exists|k: u16| #[trigger] self.has(k) { self.lemma_max_upto(65536); }
    }
    pub open spec fn distinct(self) -> bool {
        forall|j: u16, k: u16| #[trigger] self.has(j) && #[trigger] self.has(k) && self.name(j) == self.name(k) ==> j == k
    }
}
>>>
fn NameIdMap::get_id
spec <<<
    ensures match r {
        Some(k) => self.has(k) && self.name(k) == name@ && forall|j: u16| j < k && #[trigger] self.has(j) ==> self.name(j) != name@,
        None => forall|j: u16| #[trigger] self.has(j) ==> self.name(j) != name@,
    }
>>>
loop 0 <<<
    invariant
        *__s0 == self.0,
        0 <= __i0 <= self.0.keys().len(),
        match __o0 {
            Some(k) => self.has(k) && self.name(k) == name@ && forall|j: u16| j < k && #[trigger] self.has(j) ==> self.name(j) != name@,
            None => forall|q: int| 0 <= q < __i0 ==> self.name(#[trigger] self.0.keys()[q]) != name@,
        }
    decreases self.0.keys().len() - __i0
>>>
loop 0 head <<<
    proof {
        assert forall|j: u16| self.has(j) && j < *__k0 implies exists|q: int| 0 <= q < __i0 - 1 && self.0.keys()[q] == j by {
            let q = choose|q: int| 0 <= q < self.0.keys().len() && self.0.keys()[q] == j;
            if q >= __i0 - 1 { }
        }
    }
>>>
loop 0 after <<<
    proof {
        assert forall|j: u16| __o0.is_none() && #[trigger] self.has(j) implies self.name(j) != name@ by {
            let q = choose|q: int| 0 <= q < self.0.keys().len() && self.0.keys()[q] == j;
            assert(self.0.keys()[q] == j);
        }
    }
>>>
fn NameIdMap::get_max_id
spec <<<
    ensures match r {
        Some(m) => self.has(m) && self.below(m as int) && m == self.max_id(),
        None => (forall|k: u16| !#[trigger] self.has(k)) && self.max_id() == -1,
    }
>>>
entry <<<
    proof { self.lemma_max(); }
>>>
fn NameIdMap::remove_shift
spec <<<
    requires id < 65535
    ensures
        forall|k: u16| k < id ==> #[trigger] final(self).has(k) == old(self).has(k),
        forall|k: u16| k < id && old(self).has(k) ==> #[trigger] final(self).name(k) == old(self).name(k),
        forall|k: u16| id <= k < 65535 ==> #[trigger] final(self).has(k) == old(self).has((k + 1) as u16),
        forall|k: u16| id <= k < 65535 && old(self).has((k + 1) as u16) ==> #[trigger] final(self).name(k) == old(self).name((k + 1) as u16),
        !final(self).has(65535)
>>>
loop 0 kind=incl <<<
    invariant
        id < 65535,
        __d0 ==> __c0 == (if __e0 > id { __e0 + 1 } else { id + 1 }),
        !__d0 ==> __c0 == __i0 && __i0 <= __e0,
        id + 1 <= __c0 <= 65536,
        forall|k: u16| k != id && #[trigger] old(self).has(k) ==> k <= __e0,
        // positions below the cursor are shifted, the rest not yet
        forall|k: u16| k < id ==> #[trigger] self.has(k) == old(self).has(k),
        forall|k: u16| k < id && old(self).has(k) ==> #[trigger] self.name(k) == old(self).name(k),
        forall|k: u16| id <= k && k + 1 < __c0 ==> #[trigger] self.has(k) == old(self).has((k + 1) as u16),
        forall|k: u16| id <= k && k + 1 < __c0 && old(self).has((k + 1) as u16) ==> #[trigger] self.name(k) == old(self).name((k + 1) as u16),
        forall|k: u16| __c0 <= k ==> #[trigger] self.has(k) == old(self).has(k),
        forall|k: u16| __c0 <= k && self.has(k) ==> #[trigger] self.name(k) == old(self).name(k),
        !self.has((__c0 - 1) as u16),
    decreases (if __d0 { 0 } else { 1 + __e0 - __i0 }) as int
>>>
loop 0 head <<<
    assert(k as int == __c0 - 1 && k > id);
>>>
loop 0 before <<<
    proof {
        assert forall|k: u16| k != id && #[trigger] old(self).has(k) implies k <= __e0 by { assert(self.has(k)); }
    }
>>>
loop 0 after <<<
    proof {
        if __c0 < 65536 && self.has(65535) { assert(old(self).has(65535)); }
        assert forall|k: u16| __c0 <= k implies !#[trigger] self.has(k) by {
            if self.has(k) { assert(old(self).has(k)); }
        }
        assert forall|k: u16| id <= k < 65535 implies #[trigger] self.has(k) == old(self).has((k + 1) as u16) by { }
    }
>>>
