module session instance.rs
struct InstBundle own
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
// ---- what a command starts from ----------------------------------------------------------------
/// Node ids leave room for the ids an edit adds (65535 is the format's limit).
pub open spec fn roomy(m: Map<i64, Bytes>) -> bool {
    forall|k: i64| #[trigger] m.dom().contains(k) ==> (dec(m[k]) matches Some(b) ==> b.ids_below(7000))
}
/// No block lists a name twice.
pub open spec fn distinct_names(m: Map<i64, Bytes>) -> bool {
    forall|k: i64| #[trigger] m.dom().contains(k) ==> (dec(m[k]) matches Some(b) ==> b.distinct())
}
impl InstBundle {
    pub open spec fn ready(&self) -> bool {
        self.db.wf() && self.status@.fresh() && keys_in_range(self.db@) && roomy(self.db@) && area_ok(self.args.area) && (self.args.area.is_some() || !self.args.invert)
    }
    /// The arguments are as given, nothing is permanent, the source map is as it was.
    pub open spec fn kept(&self, o: &InstBundle) -> bool {
        self.args == o.args && self.db.held(&o.db) && self.db.wf() && self.idb == o.idb && self.status@.answer == o.status@.answer
    }
    pub open spec fn same_session(&self, o: &InstBundle) -> bool { self.kept(o) && self.db@.dom() == o.db@.dom() }
}
// ---- walking over the selected blocks ------------------------------------------------------------
/// Sum of g over the first n keys.
pub open spec fn total(ks: Seq<i64>, g: spec_fn(i64) -> int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { total(ks, g, n - 1) + g(ks[n - 1]) }
}
pub proof fn lemma_total(ks: Seq<i64>, g: spec_fn(i64) -> int, n: int, m: int)
    requires 0 <= n <= ks.len(), forall|k: i64| 0 <= #[trigger] g(k) <= m
    ensures 0 <= total(ks, g, n) <= m * n
    decreases n
{
    if n > 0 { lemma_total(ks, g, n - 1, m); assert(m * n == m * (n - 1) + m) by (nonlinear_arith); assert(0 <= g(ks[n - 1]) <= m); }
    else { assert(m * n == 0) by (nonlinear_arith) requires n == 0; }
}
pub proof fn lemma_total_mono(ks: Seq<i64>, g: spec_fn(i64) -> int, n: int, z: int)
    requires 0 <= n <= z <= ks.len(), forall|k: i64| 0 <= #[trigger] g(k)
    ensures 0 <= total(ks, g, n) <= total(ks, g, z)
    decreases z
{
    if n < z { lemma_total_mono(ks, g, n, z - 1); }
    else if n > 0 { lemma_total_mono(ks, g, n - 1, n - 1); }
}
/// At most hi - lo different numbers from lo to hi.
pub proof fn lemma_pigeon(s: Seq<i64>, lo: int, hi: int)
    requires s.no_duplicates(), lo <= hi, forall|i: int| 0 <= i < s.len() ==> lo <= #[trigger] s[i] < hi
    ensures s.len() <= hi - lo
{
    let t = s.to_set();
    s.unique_seq_to_set();
    let r = Set::<int>::range(lo, hi);
    let u = t.map(|k: i64| k as int);
    vstd::set_lib::lemma_map_size(t, u, |k: i64| k as int);
    vstd::set_lib::lemma_int_range(lo, hi);
    assert(u.subset_of(vstd::set_lib::set_int_range(lo, hi)));
    vstd::set_lib::lemma_len_subset(u, vstd::set_lib::set_int_range(lo, hi));
}
pub proof fn lemma_key_count(ks: Seq<i64>)
    requires ks.no_duplicates(), forall|i: int| 0 <= i < ks.len() ==> key_ok(#[trigger] ks[i] as int)
    ensures ks.len() <= 0x10_0000_0000
{
    lemma_pigeon(ks, -0x8_0080_0800, 0x7_ff7f_f800);
}
/// The keys are exactly the blocks to visit.
pub open spec fn picks(ks: Seq<i64>, m: Map<i64, Bytes>, names: Seq<Bytes>, area: Option<Area>, invert: bool) -> bool {
    ks.no_duplicates() && forall|k: i64| #[trigger] ks.contains(k) == selected(m, names, area, invert, true, k)
}
pub open spec fn in_map(ks: Seq<i64>, m: Map<i64, Bytes>) -> bool { ks.no_duplicates() && forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i]) }
/// After i keys: those have their result, the others are as they were.
pub open spec fn progress(m: Map<i64, Bytes>, w: Map<i64, Bytes>, ks: Seq<i64>, i: int, rel: spec_fn(i64, Bytes, Bytes) -> bool) -> bool {
    &&& w.dom() == m.dom()
    &&& in_map(ks, m)
    &&& 0 <= i <= ks.len()
    &&& forall|j: int| 0 <= j < i ==> rel(#[trigger] ks[j], m[ks[j]], w[ks[j]])
    &&& forall|j: int| i <= j < ks.len() ==> #[trigger] w[ks[j]] == m[ks[j]]
    &&& forall|k: i64| m.dom().contains(k) && !ks.contains(k) ==> #[trigger] w[k] == m[k]
}
pub proof fn lemma_progress_start(m: Map<i64, Bytes>, ks: Seq<i64>, names: Seq<Bytes>, area: Option<Area>, invert: bool, rel: spec_fn(i64, Bytes, Bytes) -> bool)
    requires picks(ks, m, names, area, invert), keys_in_range(m)
    ensures progress(m, m, ks, 0, rel), ks.len() <= 0x10_0000_0000,
        forall|g: spec_fn(i64) -> int| #[trigger] total(ks, g, 0) == 0
{
    assert forall|i: int| 0 <= i < ks.len() implies m.dom().contains(#[trigger] ks[i]) by { assert(ks.contains(ks[i])); }
    lemma_key_count(ks);
}
/// One more key: left alone, or given new data.
pub proof fn lemma_progress(m: Map<i64, Bytes>, w: Map<i64, Bytes>, ks: Seq<i64>, i: int, rel: spec_fn(i64, Bytes, Bytes) -> bool)
    requires progress(m, w, ks, i, rel), i < ks.len()
    ensures
        w.dom().contains(ks[i]), w[ks[i]] == m[ks[i]], m.dom().contains(ks[i]),
        forall|d: Bytes| (#[trigger] w.insert(ks[i], d)).dom() == m.dom(),
        rel(ks[i], m[ks[i]], m[ks[i]]) ==> progress(m, w, ks, i + 1, rel),
        forall|d: Bytes| rel(ks[i], m[ks[i]], d) ==> progress(m, #[trigger] w.insert(ks[i], d), ks, i + 1, rel),
{
    assert(w[ks[i]] == m[ks[i]]);
    assert forall|d: Bytes| (#[trigger] w.insert(ks[i], d)).dom() == m.dom() by { assert(w.insert(ks[i], d).dom() =~= m.dom()); }
    assert forall|d: Bytes| rel(ks[i], m[ks[i]], d) implies progress(m, #[trigger] w.insert(ks[i], d), ks, i + 1, rel) by {
        let w2 = w.insert(ks[i], d);
        assert(w2.dom() =~= m.dom());
        assert forall|j: int| 0 <= j < i + 1 implies rel(#[trigger] ks[j], m[ks[j]], w2[ks[j]]) by { if j < i { assert(ks[j] != ks[i]); } }
        assert forall|j: int| i + 1 <= j < ks.len() implies #[trigger] w2[ks[j]] == m[ks[j]] by { assert(ks[j] != ks[i]); assert(w[ks[j]] == m[ks[j]]); }
        assert forall|k: i64| m.dom().contains(k) && !ks.contains(k) implies #[trigger] w2[k] == m[k] by { assert(k != ks[i]); assert(w[k] == m[k]); }
    }
}
/// When all keys are done, every block has its result, provided blocks not visited may stay.
pub proof fn lemma_progress_end(m: Map<i64, Bytes>, w: Map<i64, Bytes>, ks: Seq<i64>, rel: spec_fn(i64, Bytes, Bytes) -> bool)
    requires progress(m, w, ks, ks.len() as int, rel),
        forall|k: i64| m.dom().contains(k) && !#[trigger] ks.contains(k) ==> rel(k, m[k], m[k])
    ensures forall|k: i64| #[trigger] m.dom().contains(k) ==> rel(k, m[k], w[k])
{
    assert forall|k: i64| #[trigger] m.dom().contains(k) implies rel(k, m[k], w[k]) by {
        if ks.contains(k) {
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
            assert(rel(ks[j], m[ks[j]], w[ks[j]]));
        } else { assert(w[k] == m[k]); }
    }
}
/// How many of the keys hold undecodable blocks.
pub open spec fn bad(m: Map<i64, Bytes>) -> spec_fn(i64) -> int { |k: i64| if dec(m[k]).is_none() { 1int } else { 0 } }
/// The reports: the blocks that had to be read and could not be, and a message with the sum of g over all blocks.
pub open spec fn reported(a: StatusV, b: StatusV, m: Map<i64, Bytes>, names: Seq<Bytes>, area: Option<Area>, invert: bool, g: spec_fn(i64) -> int) -> bool {
    exists|ks: Seq<i64>| #[trigger] picks(ks, m, names, area, invert) && report_of(a, b, m, ks, g)
}
pub open spec fn report_of(a: StatusV, b: StatusV, m: Map<i64, Bytes>, ks: Seq<i64>, g: spec_fn(i64) -> int) -> bool {
    b.failed == a.failed + total(ks, bad(m), ks.len() as int) && b.log.len() == a.log.len() + 1 && says(b.log.last(), total(ks, g, ks.len() as int))
}
/// A readable block that is not visited is outside the area, or lacks the (only) name asked for.
pub proof fn lemma_unpicked(ks: Seq<i64>, m: Map<i64, Bytes>, name: Bytes, area: Option<Area>, invert: bool, k: i64)
    requires picks(ks, m, seq![name], area, invert), m.dom().contains(k), !ks.contains(k), dec(m[k]).is_some()
    ensures !area_hit(area, invert, true, unkey(k as int)) || !dec(m[k]).unwrap().has_name(name)
{
    let b = dec(m[k]).unwrap();
    lemma_names_stored(m[k], b, name);
    if area_hit(area, invert, true, unkey(k as int)) && b.has_name(name) {
        assert(name_hit(m[k], seq![name])) by { assert(seq![name][0] == name); assert(lp(name) == be16(name.len() as u16) + name); }
    }
}
/// A list without repetitions is as long as the set it lists.
pub proof fn lemma_seq_set(s: Seq<u16>, d: Set<u16>)
    requires s.no_duplicates(), forall|k: u16| #[trigger] s.contains(k) == d.contains(k)
    ensures s.len() == d.len()
{
    s.unique_seq_to_set();
    assert(s.to_set() =~= d);
}
/// Fewer than 4096 different positions.
pub proof fn lemma_small_set(d: Set<u16>, m: int)
    requires forall|k: u16| #[trigger] d.contains(k) ==> k < m, 0 <= m <= 65535
    ensures d.len() <= m
    decreases m
{
    if m == 0 { assert(d =~= Set::empty()); }
    else { lemma_small_set(d.remove((m - 1) as u16), m - 1); }
}
/// The elements from position i on that are kept, in their order.
pub open spec fn sieve<T>(s: Seq<T>, keep: spec_fn(T) -> bool, i: int) -> Seq<T>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { Seq::empty() } else if keep(s[i]) { seq![s[i]] + sieve(s, keep, i + 1) } else { sieve(s, keep, i + 1) }
}
pub proof fn lemma_sieve<T>(s: Seq<T>, keep: spec_fn(T) -> bool, i: int)
    requires 0 <= i <= s.len()
    ensures sieve(s, keep, i).len() <= s.len() - i,
        forall|j: int| 0 <= j < sieve(s, keep, i).len() ==> s.contains(#[trigger] sieve(s, keep, i)[j]),
        forall|j: int| 0 <= j < sieve(s, keep, i).len() ==> keep(#[trigger] sieve(s, keep, i)[j]),
        sieve(s, keep, i).len() == s.len() - i ==> forall|j: int| i <= j < s.len() ==> keep(#[trigger] s[j]),
    decreases s.len() - i
{
    if i < s.len() {
        lemma_sieve(s, keep, i + 1);
        let r = sieve(s, keep, i + 1);
        if keep(s[i]) {
            let q = sieve(s, keep, i);
            assert forall|j: int| 0 <= j < q.len() implies s.contains(#[trigger] q[j]) && keep(q[j]) by { if j > 0 { assert(q[j] == r[j - 1]); } }
        }
    }
}
/// Removing element i of (the first i + 1 elements, then r).
pub proof fn lemma_sieve_step<T>(s: Seq<T>, keep: spec_fn(T) -> bool, i: int)
    requires 0 <= i < s.len()
    ensures
        (s.subrange(0, i + 1) + sieve(s, keep, i + 1)).len() > i,
        (s.subrange(0, i + 1) + sieve(s, keep, i + 1))[i] == s[i],
        keep(s[i]) ==> s.subrange(0, i + 1) + sieve(s, keep, i + 1) == s.subrange(0, i) + sieve(s, keep, i),
        !keep(s[i]) ==> (s.subrange(0, i + 1) + sieve(s, keep, i + 1)).remove(i) == s.subrange(0, i) + sieve(s, keep, i),
{
    let a = s.subrange(0, i + 1) + sieve(s, keep, i + 1);
    let b = s.subrange(0, i) + sieve(s, keep, i);
    if keep(s[i]) { assert(a =~= b); } else { assert(a.remove(i) =~= b); }
}
>>>
