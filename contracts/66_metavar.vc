module set_meta_var commands/set_meta_var.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, group_says};
/// The texts of a list of arguments.
pub open spec fn texts(v: Seq<String>) -> Seq<Bytes> { Seq::new(v.len(), |i: int| sbytes(v[i]@)) }
/// Selected nodes, with one of the names if any are given.
pub open spec fn list_at(area: Option<Area>, invert: bool, pos: Vec3, b: BlockV, names: Seq<Bytes>) -> spec_fn(int) -> bool {
    |i: int| sel(area, invert, pos, i) && (names.len() > 0 ==> names.contains(b.node(i)))
}
pub open spec fn concerns_any(b: BlockV, names: Seq<Bytes>) -> bool { names.len() > 0 ==> exists|j: int| 0 <= j < names.len() && b.has_name(#[trigger] names[j]) }
/// The variable's new value (or none: deleted), where it exists.
pub open spec fn var_set(v: MetaV, key: Bytes, val: Option<Bytes>) -> MetaV {
    if !v.vars.dom().contains(key) { v } else {
        match val {
            Some(x) => MetaV { vars: v.vars.insert(key, (x, v.vars[key].1)), ..v },
            None => MetaV { vars: v.vars.remove(key), ..v },
        }
    }
}
pub open spec fn vars_set(m: Map<u16, MetaV>, f: spec_fn(int) -> bool, key: Bytes, val: Option<Bytes>) -> Map<u16, MetaV> {
    m.map_entries(|k: u16, v: MetaV| if f(k as int) { var_set(v, key, val) } else { v })
}
/// The chosen positions that have the variable.
pub open spec fn var_hit(m: Map<u16, MetaV>, f: spec_fn(int) -> bool, key: Bytes) -> spec_fn(int) -> bool {
    |i: int| 0 <= i <= 65535 && m.dom().contains(i as u16) && f(i) && m[i as u16].vars.dom().contains(key)
}
pub open spec fn var_rel(area: Option<Area>, invert: bool, names: Seq<Bytes>, key: Bytes, val: Option<Bytes>) -> spec_fn(i64, Bytes, Bytes) -> bool {
    |k: i64, old: Bytes, new: Bytes| match dec(old) {
        None => new == old,
        Some(b) => if !concerns_any(b, names) || !area_hit(area, invert, true, unkey(k as int)) || cnt(var_hit(b.meta, list_at(area, invert, unkey(k as int), b, names), key), 4096) == 0 { new == old } else {
            dec(new) == Some(BlockV { meta: norm_meta(b.version, vars_set(b.meta, list_at(area, invert, unkey(k as int), b, names), key, val)), ..b })
        },
    }
}
pub open spec fn var_count(m: Map<i64, Bytes>, area: Option<Area>, invert: bool, names: Seq<Bytes>, key: Bytes) -> spec_fn(i64) -> int {
    |k: i64| match dec(m[k]) {
        Some(b) => if concerns_any(b, names) { cnt(var_hit(b.meta, list_at(area, invert, unkey(k as int), b, names), key), 4096) } else { 0 },
        None => 0,
    }
}
pub open spec fn var_val(a: InstArgs) -> Option<Bytes> { if a.delete { None } else { match a.value { Some(s) => Some(sbytes(s@)), None => Some(sbytes(Seq::empty())) } } }
/// The ids found are those of the names asked for.
pub open spec fn ids_of(ids: Seq<u16>, B: MapBlock, names: Seq<Bytes>, n: int) -> bool {
    (forall|k: u16| #[trigger] ids.contains(k) ==> B.nimap.has(k) && exists|j: int| 0 <= j < n && #[trigger] names[j] == B.nimap.name(k))
        && forall|j: int, k: u16| 0 <= j < n && #[trigger] B.nimap.has(k) && B.nimap.name(k) == #[trigger] names[j] ==> ids.contains(k)
}
pub proof fn lemma_ids_of(ids: Seq<u16>, B: MapBlock, names: Seq<Bytes>)
    requires B.wf_nodes(), ids_of(ids, B, names, names.len() as int)
    ensures
        (names.len() > 0 && ids.len() == 0) == !concerns_any(B@, names), names.len() == 0 ==> ids.len() == 0,
        forall|i: int| 0 <= i < 4096 ==> names.contains(#[trigger] B@.node(i)) == ids.contains(B.node_data.nodes@[i]),
{
    lemma_view(B);
    if names.len() == 0 { if ids.len() > 0 { assert(ids.contains(ids[0])); } }
    if ids.len() > 0 && names.len() > 0 {
        let k = ids[0];
        assert(ids.contains(k));
        let j = choose|j: int| 0 <= j < names.len() && #[trigger] names[j] == B.nimap.name(k);
        assert(B@.names.dom().contains(k) && B@.names[k] == names[j]);
        assert(B@.has_name(names[j]));
    }
    if names.len() > 0 && concerns_any(B@, names) {
        let j = choose|j: int| 0 <= j < names.len() && B@.has_name(#[trigger] names[j]);
        let k = choose|k: u16| #[trigger] B@.names.dom().contains(k) && B@.names[k] == names[j];
        assert(B.nimap.has(k) && B.nimap.name(k) == names[j]);
        assert(ids.contains(k));
    }
    assert forall|i: int| 0 <= i < 4096 implies names.contains(#[trigger] B@.node(i)) == ids.contains(B.node_data.nodes@[i]) by {
        let k = B.node_data.nodes@[i];
        assert(B.nimap.has(k));
        assert(B@.node(i) == B.nimap.name(k));
        if names.contains(B@.node(i)) { let j = choose|j: int| 0 <= j < names.len() && names[j] == B@.node(i); assert(ids.contains(k)); }
        if ids.contains(k) { let j = choose|j: int| 0 <= j < names.len() && #[trigger] names[j] == B.nimap.name(k); }
    }
}
/// No key between two neighbours of the sorted key list.
pub proof fn lemma_gap<V>(m: Map<u16, V>, i: int, p: int)
    requires 0 <= i <= keys_of(m).len(), 0 <= p <= 65535, i > 0 ==> keys_of(m)[i - 1] < p, i < keys_of(m).len() ==> p < keys_of(m)[i]
    ensures !m.dom().contains(p as u16)
{
    if m.dom().contains(p as u16) {
        let ks = keys_of(m);
        assert(ks.contains(p as u16));
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == p as u16;
        if j < i - 1 { assert(ks[j] < ks[i - 1]); }
        if j > i { assert(ks[i] < ks[j]); }
    }
}
pub proof fn lemma_cnt_gap(f: spec_fn(int) -> bool, a: int, b: int)
    requires 0 <= a <= b, forall|i: int| a <= i < b ==> !#[trigger] f(i)
    ensures cnt(f, a) == cnt(f, b)
    decreases b - a
{
    reveal(cnt);
    if a < b { lemma_cnt_gap(f, a, b - 1); assert(!f(b - 1)); }
}
/// Counting over the sorted keys: nothing between the last key seen and the next.
pub proof fn lemma_cnt_keys<V>(m: Map<u16, V>, f: spec_fn(int) -> bool, i: int)
    requires 0 <= i <= keys_of(m).len(), forall|p: int| 0 <= p <= 65535 && #[trigger] f(p) ==> m.dom().contains(p as u16), forall|k: u16| #[trigger] m.dom().contains(k) ==> k < 4096
    ensures
        i < keys_of(m).len() ==> cnt(f, next_pos(m, i)) == cnt(f, keys_of(m)[i] as int) && next_pos(m, i) <= keys_of(m)[i] < 4096 && next_pos(m, i + 1) == keys_of(m)[i] + 1,
        i == keys_of(m).len() ==> cnt(f, next_pos(m, i)) == cnt(f, 4096),
{
    let ks = keys_of(m);
    if i > 0 { assert(m.dom().contains(ks[i - 1])); }
    let b = if i < ks.len() { assert(m.dom().contains(ks[i])); if i > 0 { assert(ks[i - 1] < ks[i]); } ks[i] as int } else { 4096 };
    assert forall|p: int| next_pos(m, i) <= p < b implies !#[trigger] f(p) by { lemma_gap(m, i, p); }
    lemma_cnt_gap(f, next_pos(m, i), b);
}
pub open spec fn next_pos<V>(m: Map<u16, V>, i: int) -> int { if i > 0 { keys_of(m)[i - 1] + 1 } else { 0 } }
/// The first i keys changed by h, the others not.
pub open spec fn metas_done(B: MapBlock, C: Map<u16, NodeMetadata>, h: spec_fn(u16, MetaV) -> MetaV, i: int) -> bool {
    C.dom() == B.metadata@.dom()
        && (forall|j: int| 0 <= j < i ==> C[#[trigger] keys_of(B.metadata@)[j]]@ == h(keys_of(B.metadata@)[j], B.metadata@[keys_of(B.metadata@)[j]]@))
        && (forall|j: int| i <= j < keys_of(B.metadata@).len() ==> C[#[trigger] keys_of(B.metadata@)[j]] == B.metadata@[keys_of(B.metadata@)[j]])
}
pub proof fn lemma_metas_step(B: MapBlock, C: Map<u16, NodeMetadata>, h: spec_fn(u16, MetaV) -> MetaV, i: int)
    requires metas_done(B, C, h, i), 0 <= i < keys_of(B.metadata@).len()
    ensures
        C.dom().contains(keys_of(B.metadata@)[i]), C[keys_of(B.metadata@)[i]] == B.metadata@[keys_of(B.metadata@)[i]], B.metadata@.dom().contains(keys_of(B.metadata@)[i]),
        forall|d: NodeMetadata| d@ == h(keys_of(B.metadata@)[i], B.metadata@[keys_of(B.metadata@)[i]]@) ==> metas_done(B, #[trigger] C.insert(keys_of(B.metadata@)[i], d), h, i + 1),
        B.metadata@[keys_of(B.metadata@)[i]]@ == h(keys_of(B.metadata@)[i], B.metadata@[keys_of(B.metadata@)[i]]@) ==> metas_done(B, C, h, i + 1),
{
    let ks = keys_of(B.metadata@);
    assert(C[ks[i]] == B.metadata@[ks[i]]);
    assert forall|d: NodeMetadata| d@ == h(ks[i], B.metadata@[ks[i]]@) implies metas_done(B, #[trigger] C.insert(ks[i], d), h, i + 1) by {
        let D = C.insert(ks[i], d);
        assert(D.dom() =~= C.dom());
        assert forall|j: int| 0 <= j < i + 1 implies D[#[trigger] ks[j]]@ == h(ks[j], B.metadata@[ks[j]]@) by { if j < i { assert(ks[j] < ks[i]); } }
        assert forall|j: int| i + 1 <= j < ks.len() implies D[#[trigger] ks[j]] == B.metadata@[ks[j]] by { assert(ks[i] < ks[j]); assert(C[ks[j]] == B.metadata@[ks[j]]); }
    }
}
pub proof fn lemma_metas_end(B: MapBlock, C: MapBlock, h: spec_fn(u16, MetaV) -> MetaV)
    requires metas_done(B, C.metadata@, h, keys_of(B.metadata@).len() as int)
    ensures C@.meta == B@.meta.map_entries(h)
{
    let r = B@.meta.map_entries(h);
    assert(C@.meta.dom() =~= r.dom());
    assert forall|k: u16| #[trigger] r.dom().contains(k) implies C@.meta[k] == r[k] by {
        let ks = keys_of(B.metadata@);
        assert(B.metadata@.dom().contains(k));
        assert(ks.contains(k));
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
        assert(C.metadata@[ks[j]]@ == h(ks[j], B.metadata@[ks[j]]@));
    }
    assert(C@.meta =~= r);
}
/// What setting the variable does to the whole block.
pub proof fn lemma_vars_set(B: MapBlock, C: MapBlock, f: spec_fn(int) -> bool, key: Bytes, val: Option<Bytes>)
    requires B.wf(), B@.storable(), C == (MapBlock { metadata: C.metadata, ..B }), C@.meta == vars_set(B@.meta, f, key, val), val matches Some(v) ==> v.len() <= u32::MAX
    ensures C.wf(), C@.storable(), C@.norm() == (BlockV { meta: norm_meta(B@.version, vars_set(B@.meta, f, key, val)), ..B@ })
{
    assert(C@.objs == B@.objs);
    assert forall|k: u16| #[trigger] C.metadata@.dom().contains(k) implies k < 4096 by { assert(C@.meta.dom().contains(k)); assert(B@.meta.dom().contains(k)); assert(B.metadata@.dom().contains(k)); }
    assert forall|k: u16| #[trigger] C@.meta.dom().contains(k) implies C@.meta[k].storable() by {
        assert(B@.meta.dom().contains(k));
        let v = B@.meta[k]; let w = C@.meta[k];
        assert(v.storable());
        if v.vars.dom().contains(key) {
            assert(v.vars.dom().insert(key) =~= v.vars.dom());
            assert forall|q: Bytes| #[trigger] w.vars.dom().contains(q) implies q.len() <= u16::MAX && w.vars[q].0.len() <= u32::MAX by { assert(v.vars.dom().contains(q)); }
            assert(w.vars.dom() =~= v.vars.dom() || w.vars.dom() =~= v.vars.dom().remove(key));
        }
    }
}
/// A readable block that is not visited is outside the area, or has none of the names.
pub proof fn lemma_unpicked_any(ks: Seq<i64>, m: Map<i64, Bytes>, names: Seq<Bytes>, area: Option<Area>, invert: bool, k: i64)
    requires picks(ks, m, names, area, invert), m.dom().contains(k), !ks.contains(k), dec(m[k]).is_some()
    ensures !area_hit(area, invert, true, unkey(k as int)) || !concerns_any(dec(m[k]).unwrap(), names)
{
    let b = dec(m[k]).unwrap();
    if area_hit(area, invert, true, unkey(k as int)) && concerns_any(b, names) && names.len() > 0 {
        let j = choose|j: int| 0 <= j < names.len() && b.has_name(#[trigger] names[j]);
        lemma_names_stored(m[k], b, names[j]);
        assert(name_hit(m[k], names)) by { assert(lp(names[j]) == be16(names[j].len() as u16) + names[j]); }
    }
}
>>>
fn set_meta_var rlimit=100 spinoff_prover own
spec <<<
    requires old(inst).ready(), distinct_names(old(inst).db@), old(inst).args.key.is_some(),
        var_val(old(inst).args) matches Some(v) ==> v.len() <= u32::MAX
    ensures
        final(inst).same_session(old(inst)),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            var_rel(old(inst).args.area, old(inst).args.invert, texts(old(inst).args.nodes@), sbytes(old(inst).args.key.unwrap()@), var_val(old(inst).args))(k, old(inst).db@[k], final(inst).db@[k]),
        reported(old(inst).status@, final(inst).status@, old(inst).db@, texts(old(inst).args.nodes@), old(inst).args.area, old(inst).args.invert,
            var_count(old(inst).db@, old(inst).args.area, old(inst).args.invert, texts(old(inst).args.nodes@), sbytes(old(inst).args.key.unwrap()@))),
>>>
entry <<<
    hide(total); hide(progress); hide(in_map); hide(norm_meta); hide(picks); hide(concerns_any); hide(BlockV::storable); hide(cnt); hide(metas_done); hide(ids_of);
    let ghost m = inst.db@;
    let ghost on = texts(inst.args.nodes@);
    let ghost K = sbytes(inst.args.key.unwrap()@);
    let ghost V = var_val(inst.args);
    let ghost area = inst.args.area;
    let ghost invert = inst.args.invert;
    let ghost rel = var_rel(area, invert, on, K, V);
    let ghost g = var_count(m, area, invert, on, K);
    let ghost mut KS: Seq<i64> = seq![];
>>>
loop 0 <<<
    invariant
        *__s0 == inst.args.nodes, inst.args == old(inst).args, on == texts(inst.args.nodes@), 0 <= __i0 <= on.len(), __o0@.len() == __i0,
        views(__o0@) =~= on.subrange(0, __i0 as int),
    decreases on.len() - __i0
>>>
call query_keys 0 after <<<
    proof {
        reveal(picks);
        KS = keys@;
        assert(on.subrange(0, on.len() as int) =~= on);
        assert(views(nodes@) =~= on);
        lemma_progress_start(m, keys@, on, area, invert, rel);
    }
>>>
loop 1 <<<
    invariant
        inst.same_session(old(inst)), inst.args == old(inst).args, area == inst.args.area, invert == inst.args.invert, area_ok(area), area.is_some() || !invert,
        views(nodes@) == on, key@ == K, V == var_val(inst.args), !inst.args.delete ==> V == Some(value@), V matches Some(v) ==> v.len() <= u32::MAX,
        m == old(inst).db@, keys_in_range(m), roomy(m), distinct_names(m), KS == __s1@,
        rel == var_rel(area, invert, on, K, V), g == var_count(m, area, invert, on, K),
        __s1.len() <= 0x10_0000_0000, picks(__s1@, m, on, area, invert),
        0 <= __i1 <= __s1.len(),
        progress(m, inst.db@, __s1@, __i1 as int, rel),
        count == total(__s1@, g, __i1 as int), count <= 4096 * __i1,
        inst.status@.failed == old(inst).status@.failed + total(__s1@, bad(m), __i1 as int), inst.status@.log == old(inst).status@.log,
        inst.status@.counting(__i1 as int, __s1.len() as int),
    decreases __s1.len() - __i1
>>>
loop 1 head <<<
    let ghost kk = __s1@[__i1 - 1];
    proof {
        reveal(total); reveal(picks);
        lemma_progress(m, inst.db@, __s1@, __i1 - 1, rel);
        assert(__s1@.contains(kk));
        lemma_unpack_pack(kk as int);
    }
    let ghost b = unkey(kk as int);
    let ghost mut f: spec_fn(int) -> bool = |i: int| true;
    let ghost mut hit: spec_fn(int) -> bool = |i: int| true;
    let ghost mut h: spec_fn(u16, MetaV) -> MetaV = |k: u16, v: MetaV| v;
>>>
call deserialize 0 after <<<
    let ghost B = block;
    let ghost count0 = count as int;
    proof {
        reveal(ids_of);
        f = list_at(area, invert, b, B@, on);
        hit = var_hit(B@.meta, f, K);
        h = |k: u16, v: MetaV| if f(k as int) { var_set(v, K, V) } else { v };
        lemma_view(B);
        lemma_cnt_range(hit, 4096);
        assert(keys_of(B.metadata@) == B.metadata.keys());
    }
>>>
loop 2 <<<
    invariant
        *__s2 == nodes, views(nodes@) == on, block == B, B.wf(), B@.distinct(), 0 <= __i2 <= nodes@.len(), ids_of(__o2@, B, on, __i2 as int),
    decreases nodes@.len() - __i2
>>>
loop 2 head <<<
    let ghost I0 = __o2@;
    let ghost j0 = __i2 as int;
    assert(nodes@[j0]@ == on[j0]);
>>>
loop 2 tail <<<
    proof {
        reveal(ids_of);
        lemma_view(B);
        match __y {
            Some(z) => {
                assert(__o2@ =~= I0.push(z));
                assert(__o2@[I0.len() as int] == z);
                assert forall|k: u16| #[trigger] __o2@.contains(k) == (I0.contains(k) || k == z) by {
                    if I0.contains(k) { let i = choose|i: int| 0 <= i < I0.len() && I0[i] == k; assert(__o2@[i] == k); }
                }
                assert(B@.names.dom().contains(z));
                assert forall|j: int, k: u16| 0 <= j < j0 + 1 && #[trigger] B.nimap.has(k) && B.nimap.name(k) == #[trigger] on[j] implies __o2@.contains(k) by {
                    if j == j0 { assert(B@.names.dom().contains(k)); }
                }
            }
            None => { }
        }
    }
>>>
loop 2 after <<<
    proof { lemma_ids_of(__o2@, B, on); }
>>>
loop 3 before <<<
    proof { reveal(metas_done); reveal(cnt); }
>>>
loop 3 <<<
    invariant
        __s3@ == keys_of(B.metadata@), 0 <= __i3 <= __s3@.len(), block == (MapBlock { metadata: block.metadata, ..B }), B.wf(), B@.storable(),
        metas_done(B, block.metadata@, h, __i3 as int), b.in_key_range(),
        inst.args == old(inst).args, inst.args.area == area, inst.args.invert == invert, f == list_at(area, invert, b, B@, on), hit == var_hit(B@.meta, f, K),
        h == (|k: u16, v: MetaV| if f(k as int) { var_set(v, K, V) } else { v }), key@ == K, V == var_val(inst.args), !inst.args.delete ==> V == Some(value@),
        block_corner.x == 16 * b.x, block_corner.y == 16 * b.y, block_corner.z == 16 * b.z,
        node_ids@.len() == 0 <==> on.len() == 0,
        forall|i: int| 0 <= i < 4096 ==> on.contains(#[trigger] B@.node(i)) == node_ids@.contains(B.node_data.nodes@[i]),
        count == count0 + cnt(hit, next_pos(B.metadata@, __i3 as int)), count0 <= 4096 * 0x10_0000_0000, modified == (count > count0), count >= count0,
    decreases __s3@.len() - __i3
>>>
loop 3 head <<<
    proof {
        assert(__s3@[__i3 - 1] == idx);
        lemma_metas_step(B, block.metadata@, h, __i3 - 1);
        assert(B@.meta[idx] == B.metadata@[idx]@);
        assert forall|p: int| 0 <= p <= 65535 && #[trigger] hit(p) implies B.metadata@.dom().contains(p as u16) by { }
        lemma_cnt_keys(B.metadata@, hit, __i3 - 1);
        lemma_cnt_range(hit, idx as int);
        reveal(cnt);
        assert(B@.node(idx as int) == B@.node(idx as int));
    }
>>>
loop 3 tail <<<
    proof {
        let v = B.metadata@[idx];
        let d = block.metadata@[idx];
        assert(f(idx as int));
        assert(h(idx, v@) == var_set(v@, K, V));
        assert(d.inv == v.inv);
        assert(v@.vars.dom().contains(K) == v.vars@.dom().contains(K));
        assert(d@.vars =~= var_set(v@, K, V).vars);
        assert(d@ == h(idx, v@));
    }
>>>
loop 3 after <<<
    proof {
        assert forall|p: int| 0 <= p <= 65535 && #[trigger] hit(p) implies B.metadata@.dom().contains(p as u16) by { }
        lemma_cnt_keys(B.metadata@, hit, __s3@.len() as int);
        lemma_metas_end(B, block, h);
        lemma_vars_set(B, block, f, K, V);
    }
>>>
loop 1 after <<<
    proof {
        reveal(concerns_any);
        assert forall|k: i64| m.dom().contains(k) && !#[trigger] KS.contains(k) implies rel(k, m[k], m[k]) by {
            if dec(m[k]).is_some() { lemma_unpicked_any(KS, m, on, area, invert, k); }
        }
        lemma_progress_end(m, inst.db@, KS, rel);
    }
>>>
exit <<<
    proof {
        assert(count == total(KS, g, KS.len() as int));
        assert(says(inst.status@.log.last(), total(KS, g, KS.len() as int)));
        assert(picks(KS, m, on, inst.args.area, inst.args.invert));
    }
>>>
