module utils utils.rs
struct CacheMap reject=K
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
impl<K: Eq + Hash + Clone, V> CacheMap<K, V> {
    pub open spec fn view(&self) -> Map<K::KV, V> { self.map@ }
    /// The queue names every cached key (the oldest first) and is no longer than the capacity.
    pub open spec fn wf(&self) -> bool {
        self.cap >= 1 && self.key_queue@.len() <= self.cap
            && (forall|k: K::KV| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < self.key_queue@.len() && (#[trigger] self.key_queue@[i]).kv() == k)
    }
    /// The queue holds each cached key exactly once (true as long as no cached key is stored again).
    pub open spec fn exact(&self) -> bool {
        (forall|i: int| 0 <= i < self.key_queue@.len() ==> self@.dom().contains((#[trigger] self.key_queue@[i]).kv()))
            && (forall|i: int, j: int| 0 <= i < j < self.key_queue@.len() ==> (#[trigger] self.key_queue@[i]).kv() != (#[trigger] self.key_queue@[j]).kv())
    }
    /// Stored through the cache's life: the last value given for each key.
    pub open spec fn agrees(&self, hist: Map<K::KV, V>) -> bool {
        forall|k: K::KV| #[trigger] self@.dom().contains(k) ==> hist.dom().contains(k) && hist[k] == self@[k]
    }
}
/// Never stale or foreign: whatever was stored before, after storing (key, value) the cache agrees with the history extended by it.
pub proof fn lemma_agrees<K: Eq + Hash + Clone, V>(a: CacheMap<K, V>, b: CacheMap<K, V>, hist: Map<K::KV, V>, k: K::KV, v: V, gone: Option<K::KV>)
    requires a.agrees(hist), b@ == (match gone { Some(g) => a@.remove(g), None => a@ }).insert(k, v)
    ensures b.agrees(hist.insert(k, v))
{
}
>>>
fn CacheMap::with_capacity
spec <<<
    requires cap >= 1, may_alloc(cap as int)
    ensures r.wf(), r.exact(), r@ == Map::<K::KV, V>::empty(), r.cap == cap
>>>
fn CacheMap::insert
spec <<<
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).cap == old(self).cap,
        // below the capacity nothing is evicted, at the capacity the oldest key is
        final(self)@ == (if old(self).key_queue@.len() >= old(self).cap { old(self)@.remove(old(self).key_queue@[0].kv()) } else { old(self)@ }).insert(key.kv(), value),
        final(self).key_queue@ == (if old(self).key_queue@.len() >= old(self).cap { old(self).key_queue@.remove(0) } else { old(self).key_queue@ }).push(key),
        old(self).exact() && !old(self)@.dom().contains(key.kv()) ==> final(self).exact(),
>>>
entry <<<
    let ghost Q = self.key_queue@;
    let ghost M = self.map@;
    let ghost full = self.key_queue@.len() >= self.cap;
>>>
exit <<<
    proof {
        let q = self.key_queue@;
        assert(q[q.len() - 1] == key);
        assert forall|k: K::KV| #[trigger] self@.dom().contains(k) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).kv() == k by {
            if k == key.kv() { assert(q[q.len() - 1].kv() == k); }
            else {
                assert(old(self)@.dom().contains(k));
                let i = choose|i: int| 0 <= i < Q.len() && (#[trigger] Q[i]).kv() == k;
                if full {
                    assert(i != 0);
                    assert(q =~= Q.remove(0).push(key));
                    assert(q[i - 1].kv() == k);
                } else {
                    assert(q =~= Q.push(key));
                    assert(q[i].kv() == k);
                }
            }
        }
        if old(self).exact() && !M.dom().contains(key.kv()) {
            assert forall|i: int| 0 <= i < q.len() implies self@.dom().contains((#[trigger] q[i]).kv()) by {
                if i < q.len() - 1 {
                    if full { assert(q[i] == Q[i + 1]); assert(Q[0].kv() != Q[i + 1].kv()); } else { assert(q[i] == Q[i]); }
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).kv() != (#[trigger] q[j]).kv() by {
                let d: int = if full { 1 } else { 0 };
                assert(q[i] == Q[i + d] && M.dom().contains(Q[i + d].kv()));
                if j < q.len() - 1 { assert(q[j] == Q[j + d]); }
            }
        }
    }
>>>
fn CacheMap::get
spec <<<
    ensures match r { Some(v) => self@.dom().contains(key.kv()) && *v == self@[key.kv()], None => !self@.dom().contains(key.kv()) }
>>>

raw <<<
/// The 16-bit length prefixed name, as the name table stores it.
pub open spec fn lp(s: Bytes) -> Bytes { be16(s.len() as u16) + s }
pub open spec fn lps(o: Seq<Vec<u8>>, names: Seq<Bytes>) -> bool {
    o.len() <= names.len() && forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j])@ == lp(names[j])
}
pub open spec fn views(s: Seq<Vec<u8>>) -> Seq<Bytes> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn finders(o: Seq<TwoWaySearcher>, strs: Seq<Vec<u8>>) -> bool {
    o.len() <= strs.len() && forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j])@ == strs[j]@
}
/// The name filter: blocks up to version 28 must contain one of the names.
pub open spec fn name_hit(data: Bytes, names: Seq<Bytes>) -> bool {
    data.len() > 0 && data[0] <= 28 && names.len() > 0 ==> exists|j: int| 0 <= j < names.len() && occurs(data, lp(#[trigger] names[j]))
}
/// The area condition: inside / touching, or inverted: not inside / not touching.
pub open spec fn area_hit(area: Option<Area>, invert: bool, partial: bool, b: Vec3) -> bool {
    match area {
        None => true,
        Some(a) => if invert { if partial { !a.covers(b) } else { !a.meets(b) } } else { if partial { a.meets(b) } else { a.covers(b) } },
    }
}
pub open spec fn selected(m: Map<i64, Bytes>, names: Seq<Bytes>, area: Option<Area>, invert: bool, partial: bool, k: i64) -> bool {
    m.dom().contains(k) && area_hit(area, invert, partial, unkey(k as int)) && name_hit(m[k], names)
}
/// Keys of blocks only, areas the tool accepts.
pub open spec fn keys_in_range(m: Map<i64, Bytes>) -> bool { forall|k: i64| #[trigger] m.dom().contains(k) ==> key_ok(k as int) }
pub open spec fn area_ok(a: Option<Area>) -> bool { a matches Some(a) ==> a.valid() && a.within(-1000000, 1000000) }
>>>
fn query_keys own mutarg=status
spec <<<
    requires old(db).wf(), keys_in_range(old(db)@), area_ok(area), area.is_some() || !invert, old(status)@.fresh()
    ensures
        final(db).wf(), final(db)@ == old(db)@, final(db).held(old(db)),
        r@.no_duplicates(),
        forall|k: i64| #[trigger] r@.contains(k) == selected(old(db)@, views(search_strs@), area, invert, include_partial, k),
        final(status)@ == (StatusV { total: r@.len(), ..old(status)@ }),
>>>
entry <<<
    let ghost m = db@;
    let ghost names = views(search_strs@);
>>>
loop 0 <<<
    invariant
        views(__s0@) == names, 0 <= __i0 <= names.len(), __o0@.len() == __i0, lps(__o0@, names),
    decreases names.len() - __i0
>>>
loop 0 tail <<<
    proof { assert(__o0@[__i0 - 1]@ =~= lp(names[__i0 - 1])); }
>>>
loop 1 <<<
    invariant
        *__s1 == string16s, 0 <= __i1 <= string16s@.len(), __o1@.len() == __i1, finders(__o1@, string16s@),
    decreases string16s@.len() - __i1
>>>
loop 2 kind=rows <<<
    invariant
        keys_in_range(m), area_ok(area), m == db@, status@ == (StatusV { total: status@.total, ..old(status)@ }), old(status)@.fresh(),
        __t2.wf(), rows_ok(__t2.rows(), m), __i2 >= 0,
        data_searchers@.len() == names.len(),
        forall|j: int| 0 <= j < names.len() ==> (#[trigger] data_searchers@[j])@ == lp(names[j]),
        empty_area ==> invert, empty_area ==> forall|b: Vec3| area_hit(area, invert, include_partial, b),
        !empty_area ==> (block_area matches Some(a) ==> area.is_some() && a.valid() && forall|b: Vec3| (#[trigger] a.hasv(b) != invert) == area_hit(area, invert, include_partial, b)),
        !empty_area && block_area.is_none() ==> area.is_none(),
        keys@.no_duplicates(),
        // rows not yet seen are not listed, rows seen are listed as they deserve
        forall|k: i64| #[trigger] keys@.contains(k) ==> selected(m, names, area, invert, include_partial, k) && exists|j: int| 0 <= j < __t2.pos() && (#[trigger] __t2.rows()[j]).0 == k,
        forall|j: int| 0 <= j < __t2.pos() && selected(m, names, area, invert, include_partial, (#[trigger] __t2.rows()[j]).0) ==> keys@.contains(__t2.rows()[j].0),
    ensures __t2.pos() == __t2.rows().len()
    decreases __t2.rows().len() - __t2.pos()
>>>
loop 2 head <<<
    let ghost keys0 = keys@;
    let ghost n0 = __t2.pos() - 1;
    proof {
        assert(__t2.rows()[n0].0 == key);
        // not listed yet: rows have distinct keys
        assert(!keys0.contains(key));
    }
>>>
loop 2 tail <<<
    proof {
        assert(keys@ == keys0.push(key));
        assert(keys@[keys0.len() as int] == key);
        assert forall|k: i64| #[trigger] keys@.contains(k) == (keys0.contains(k) || k == key) by {
            if keys0.contains(k) {
                let i = choose|i: int| 0 <= i < keys0.len() && keys0[i] == k;
                assert(keys@[i] == k);
            }
        }
        assert(selected(m, names, area, invert, include_partial, key));
    }
>>>
loop 2 after <<<
    proof {
        assert forall|k: i64| selected(m, names, area, invert, include_partial, k) implies keys@.contains(k) by {
            let j = choose|j: int| 0 <= j < __t2.rows().len() && (#[trigger] __t2.rows()[j]).0 == k;
            assert(__t2.rows()[j].0 == k);
        }
    }
>>>
loop 3 <<<
    invariant
        *__s3 == data_searchers, 0 <= __i3 <= names.len(), data_searchers@.len() == names.len(),
        forall|j: int| 0 <= j < names.len() ==> (#[trigger] data_searchers@[j])@ == lp(names[j]),
        __o3 == exists|j: int| 0 <= j < __i3 && occurs(data@, lp(#[trigger] names[j])),
    decreases names.len() - __i3
>>>
loop 3 head <<<
    let ghost j0 = __i3 as int;
    assert(data_searchers@[j0]@ == lp(names[j0]));
>>>
fn to_bytes
spec <<<
    ensures r@ == sbytes(s@)
>>>
fn to_slice
spec <<<
    ensures r@ == (match *opt { Some(x) => seq![x], None => seq![] })
>>>
