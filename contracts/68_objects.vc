module static_object_data map_block/static_object.rs
struct LuaEntityData
raw <<<
/// A standard entity's name and data, if the stored object has the supported form.
pub struct EntV { pub name: Bytes, pub data: Bytes }
pub open spec fn n16(s: Bytes, i: int) -> int { s[i] * 0x100 + s[i + 1] }
pub open spec fn n32(s: Bytes, i: int) -> int { s[i] * 0x100_0000 + s[i + 1] * 0x1_0000 + s[i + 2] * 0x100 + s[i + 3] }
pub open spec fn ent(o: ObjV) -> Option<EntV> {
    let d = o.data;
    if o.ty != 7 || d.len() < 3 || d[0] != 1 { None } else {
        let n = n16(d, 1);
        if d.len() < 7 + n { None } else {
            let m = n32(d, 3 + n);
            if d.len() < 7 + n + m { None } else { Some(EntV { name: d.subrange(3, 3 + n), data: d.subrange(7 + n, 7 + n + m) }) }
        }
    }
}
impl LuaEntityData {
    pub open spec fn view(&self) -> EntV { EntV { name: self.name@, data: self.data@ } }
}
/// The same, read front to back.
pub proof fn lemma_ent(o: ObjV)
    ensures
        o.ty == 7 ==> ent(o) == (match p_u8(o.data) { None => None, Some((v, a)) => if v != 1 { None } else { match p_s16(a) { None => None, Some((n, b)) =>
            match p_s32(b) { None => None, Some((x, _)) => Some(EntV { name: n, data: x }) } } } }),
{
    let d = o.data;
    match p_u8(d) { None => { }, Some((_, a)) => { match p_s16(a) { None => { }, Some((n, b)) => {
        let k = n.len() as int;
        assert(a.skip(2) =~= d.skip(3));
        assert(n =~= d.subrange(3, 3 + k));
        assert(b =~= d.skip(3 + k));
        match p_s32(b) { None => { }, Some((x, _)) => { assert(x =~= d.subrange(7 + k, 7 + k + x.len() as int)); } }
    } } } }
}
/// Stored objects are not compressed up to version 28: an entity's name is in the data.
pub proof fn lemma_ent_stored(o: ObjV)
    ensures ent(o) matches Some(e) ==> occurs(o.data, enc_s16(e.name)) && e.name.len() <= 65535
{
    if ent(o).is_some() {
        let d = o.data;
        let n = n16(d, 1);
        assert(d.subrange(1, 1 + (n + 2)) =~= enc_s16(d.subrange(3, 3 + n))) by { lemma_be16(d[1], d[2]); }
    }
}
pub proof fn lemma_objs_stored(s: Bytes, b: BlockV, i: int)
    requires dec(s) == Some(b), 0 <= i < b.objs.len(), ent(b.objs[i]).is_some()
    ensures s.len() > 0 && s[0] == b.version, b.version <= 28 ==> occurs(s, be16(ent(b.objs[i]).unwrap().name.len() as u16) + ent(b.objs[i]).unwrap().name)
{
    let e = ent(b.objs[i]).unwrap();
    lemma_ent_stored(b.objs[i]);
    lemma_stored_first(s, b);
    if b.version <= 28 { lemma_obj_stored(s, b, i); lemma_occurs_in(s, b.objs[i].data, enc_s16(e.name)); }
}
>>>
fn LuaEntityData::deserialize
spec <<<
    ensures match r { Ok(e) => ent(src@) == Some(e@), Err(_) => ent(src@).is_none() }
>>>
entry <<<
    broadcast use crate::codec_base::group_kin;
    proof { assert(src.data@.skip(0) =~= src.data@); lemma_ent(src@); }
>>>


module delete_objects commands/delete_objects.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, group_says};
/// "__builtin:item"
pub open spec fn item_ent() -> Bytes { seq![95u8, 95, 98, 117, 105, 108, 116, 105, 110, 58, 105, 116, 101, 109] }
/// itemstring="
pub open spec fn pat_new() -> Bytes { seq![105u8, 116, 101, 109, 115, 116, 114, 105, 110, 103, 61, 34] }
/// ["itemstring"] = "
pub open spec fn pat_old() -> Bytes { seq![91u8, 34, 105, 116, 101, 109, 115, 116, 114, 105, 110, 103, 34, 93, 32, 61, 32, 34] }
/// "return"
pub open spec fn ret_word() -> Bytes { seq![114u8, 101, 116, 117, 114, 110] }
/// Where the item's name starts in an item entity's data.
pub open spec fn item_start(d: Bytes) -> Option<int> {
    if occurs(d, pat_new()) { Some(first_at(d, pat_new()) + 12) }
    else if occurs(d, pat_old()) { Some(first_at(d, pat_old()) + 18) }
    else { None }
}
/// The item's name: the whole data, or in a table the itemstring up to a space or quote.
pub open spec fn item_name(d: Bytes) -> Bytes {
    if ret_word().is_prefix_of(d) {
        match item_start(d) { Some(i) => d.skip(i).take(cut2(d.skip(i), 32, 34)), None => seq![] }
    } else { d }
}
/// The nearest node.
pub open spec fn nearest(v: i32) -> i32 { (sat_i32(v + 5000) / 10000) as i32 }
pub open spec fn obj_node(p: Vec3) -> Vec3 { Vec3 { x: nearest(p.x), y: nearest(p.y), z: nearest(p.z) } }
/// Which objects go.
pub open spec fn doomed(o: ObjV, area: Option<Area>, invert: bool, name: Option<Bytes>, items: Seq<Bytes>) -> bool {
    (area matches Some(a) ==> a.hasv(obj_node(o.pos)) != invert)
        && (name matches Some(n) ==> (ent(o) matches Some(e) && e.name == n && (items.len() > 0 ==> items.contains(item_name(e.data)))))
}
pub open spec fn stays(area: Option<Area>, invert: bool, name: Option<Bytes>, items: Seq<Bytes>) -> spec_fn(ObjV) -> bool {
    |o: ObjV| !doomed(o, area, invert, name, items)
}
pub open spec fn stays_x(area: Option<Area>, invert: bool, name: Option<Bytes>, items: Seq<Bytes>) -> spec_fn(StaticObject) -> bool {
    |o: StaticObject| !doomed(o@, area, invert, name, items)
}
pub open spec fn objs_left(b: BlockV, area: Option<Area>, invert: bool, name: Option<Bytes>, items: Seq<Bytes>) -> Seq<ObjV> { sieve(b.objs, stays(area, invert, name, items), 0) }
pub open spec fn want_name(a: InstArgs) -> Option<Bytes> { if a.items.is_some() { Some(item_ent()) } else { opt_bytes(a.object) } }
pub open spec fn want_items(a: InstArgs) -> Seq<Bytes> { match a.items { Some(v) => texts(v@), None => seq![] } }
pub open spec fn obj_rel(area: Option<Area>, invert: bool, name: Option<Bytes>, items: Seq<Bytes>) -> spec_fn(i64, Bytes, Bytes) -> bool {
    |k: i64, old: Bytes, new: Bytes| match dec(old) {
        None => new == old,
        Some(b) => if !area_hit(area, invert, true, unkey(k as int)) || objs_left(b, area, invert, name, items).len() == b.objs.len() { new == old } else {
            dec(new) == Some(BlockV { objs: objs_left(b, area, invert, name, items), ..b.norm() })
        },
    }
}
pub open spec fn obj_count(m: Map<i64, Bytes>, area: Option<Area>, invert: bool, name: Option<Bytes>, items: Seq<Bytes>) -> spec_fn(i64) -> int {
    |k: i64| match dec(m[k]) {
        Some(b) => b.objs.len() - objs_left(b, area, invert, name, items).len(),
        None => 0,
    }
}
pub proof fn lemma_sieve_view(s: Seq<StaticObject>, area: Option<Area>, invert: bool, name: Option<Bytes>, items: Seq<Bytes>, i: int)
    requires 0 <= i <= s.len()
    ensures sieve(objs_view(s), stays(area, invert, name, items), i) == objs_view(sieve(s, stays_x(area, invert, name, items), i))
    decreases s.len() - i
{
    let (p, q) = (stays(area, invert, name, items), stays_x(area, invert, name, items));
    if i < s.len() {
        lemma_sieve_view(s, area, invert, name, items, i + 1);
        assert(p(objs_view(s)[i]) == q(s[i]));
    }
    assert(sieve(objs_view(s), p, i) =~= objs_view(sieve(s, q, i)));
}
/// If nothing goes, all is left.
pub proof fn lemma_all_stay<T>(s: Seq<T>, keep: spec_fn(T) -> bool, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < s.len() ==> keep(#[trigger] s[j])
    ensures sieve(s, keep, i).len() == s.len() - i
    decreases s.len() - i
{
    if i < s.len() { lemma_all_stay(s, keep, i + 1); }
}
pub proof fn lemma_objs_left(B: MapBlock, C: MapBlock, area: Option<Area>, invert: bool, name: Option<Bytes>, items: Seq<Bytes>)
    requires B.wf(), B@.storable(), C == (MapBlock { static_objects: C.static_objects, ..B }), C.static_objects@ == sieve(B.static_objects@, stays_x(area, invert, name, items), 0)
    ensures C.wf(), C@.storable(), C@.norm() == (BlockV { objs: objs_left(B@, area, invert, name, items), ..B@.norm() })
{
    lemma_sieve_view(B.static_objects@, area, invert, name, items, 0);
    lemma_sieve(B@.objs, stays(area, invert, name, items), 0);
    assert(C@.objs == objs_left(B@, area, invert, name, items));
    assert(C@.meta == B@.meta);
    assert forall|i: int| 0 <= i < C@.objs.len() implies (#[trigger] C@.objs[i]).data.len() <= 65535 by {
        let j = choose|j: int| 0 <= j < B@.objs.len() && B@.objs[j] == C@.objs[i];
        assert(B@.objs[j].data.len() <= 65535);
    }
}
/// A readable block that is not visited: outside the area, or without an object that goes.
pub proof fn lemma_unpicked_obj(ks: Seq<i64>, m: Map<i64, Bytes>, area: Option<Area>, invert: bool, name: Option<Bytes>, items: Seq<Bytes>, k: i64)
    requires picks(ks, m, opt_seq(name), area, invert), m.dom().contains(k), !ks.contains(k), dec(m[k]).is_some()
    ensures !area_hit(area, invert, true, unkey(k as int)) || objs_left(dec(m[k]).unwrap(), area, invert, name, items).len() == dec(m[k]).unwrap().objs.len()
{
    let b = dec(m[k]).unwrap();
    if area_hit(area, invert, true, unkey(k as int)) {
        assert forall|j: int| 0 <= j < b.objs.len() implies stays(area, invert, name, items)(#[trigger] b.objs[j]) by {
            if doomed(b.objs[j], area, invert, name, items) && name.is_some() {
                lemma_objs_stored(m[k], b, j);
                assert(name_hit(m[k], opt_seq(name))) by { assert(seq![name.unwrap()][0] == name.unwrap()); assert(lp(name.unwrap()) == be16(name.unwrap().len() as u16) + name.unwrap()); }
            }
        }
        lemma_all_stay(b.objs, stays(area, invert, name, items), 0);
    }
}
>>>
fn get_item_name_start
spec <<<
    ensures match r { Some(i) => item_start(data@) == Some(i as int) && i <= data@.len(), None => item_start(data@).is_none() }
>>>
entry <<<
    proof {
        assert([105u8, 116, 101, 109, 115, 116, 114, 105, 110, 103, 61, 34]@ =~= pat_new()); assert([91u8, 34, 105, 116, 101, 109, 115, 116, 114, 105, 110, 103, 34, 93, 32, 61, 32, 34]@ =~= pat_old());
        assert(data.len() == data@.len());
        if occurs(data@, pat_new()) { lemma_first_at(data@, pat_new()); }
        if occurs(data@, pat_old()) { lemma_first_at(data@, pat_old()); }
    }
>>>
fn get_item_name
spec <<<
    ensures r@ == item_name(data@)
>>>
entry <<<
    proof { assert([114u8, 101, 116, 117, 114, 110]@ =~= ret_word()); }
>>>
fn can_delete vecmap=obj.f_pos
spec <<<
    ensures r == doomed(obj@, *area, invert, (match *obj_name { Some(n) => Some(n@), None => None }), views(item_names@))
>>>
loop 0 <<<
    invariant
        __s0@ == item_names@, 0 <= __i0 <= __s0@.len(),
        __o0 == views(__s0@).take(__i0 as int).contains(item_name@),
    decreases __s0@.len() - __i0
>>>
loop 0 before <<<
    proof { assert(views(__s0@).take(0) =~= seq![]); }
>>>
loop 0 tail <<<
    proof {
        let v = views(__s0@);
        assert(v.take(__i0 as int) =~= v.take(__i0 - 1).push(v[__i0 - 1]));
        assert(v.take(__i0 as int).last() == v[__i0 - 1]);
        if v.take(__i0 as int).contains(item_name@) && v[__i0 - 1] != item_name@ {
            let j = choose|j: int| 0 <= j < __i0 && v.take(__i0 as int)[j] == item_name@;
            assert(v.take(__i0 - 1)[j] == item_name@);
        }
    }
>>>
loop 0 after <<<
    proof {
        let v = views(__s0@);
        assert(v.take(v.len() as int) =~= v);
        if __o0 {
            let j = choose|j: int| 0 <= j < __i0 && v.take(__i0 as int)[j] == item_name@;
            assert(v[j] == item_name@);
        }
    }
>>>
fn delete_objects rlimit=100 spinoff_prover own
spec <<<
    requires old(inst).ready(),
    ensures
        final(inst).same_session(old(inst)),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            obj_rel(old(inst).args.area, old(inst).args.invert, want_name(old(inst).args), want_items(old(inst).args))(k, old(inst).db@[k], final(inst).db@[k]),
        reported(old(inst).status@, final(inst).status@, old(inst).db@, opt_seq(want_name(old(inst).args)), old(inst).args.area, old(inst).args.invert,
            obj_count(old(inst).db@, old(inst).args.area, old(inst).args.invert, want_name(old(inst).args), want_items(old(inst).args))),
>>>
entry <<<
    hide(total); hide(progress); hide(in_map); hide(picks); hide(sieve); hide(doomed);
    let ghost m = inst.db@;
    let ghost on = want_name(inst.args);
    let ghost its = want_items(inst.args);
    let ghost area = inst.args.area;
    let ghost invert = inst.args.invert;
    let ghost rel = obj_rel(area, invert, on, its);
    let ghost g = obj_count(m, area, invert, on, its);
    let ghost mut KS: Seq<i64> = seq![];
    proof { assert([95u8, 95, 98, 117, 105, 108, 116, 105, 110, 58, 105, 116, 101, 109]@ =~= item_ent()); }
>>>
loop 0 <<<
    invariant
        its == texts(__s0@), 0 <= __i0 <= its.len(), __o0@.len() == __i0,
        views(__o0@) =~= its.subrange(0, __i0 as int),
    decreases its.len() - __i0
>>>
call query_keys 0 after <<<
    proof {
        reveal(picks);
        KS = keys@;
        assert(its.subrange(0, its.len() as int) =~= its);
        assert(views(item_names@) =~= its);
        if obj_name.is_some() { assert(views(seq![obj_name.unwrap()]) =~= seq![obj_name.unwrap()@]); } else { assert(views(Seq::<Vec<u8>>::empty()) =~= Seq::<Bytes>::empty()); }
        lemma_progress_start(m, keys@, opt_seq(on), area, invert, rel);
    }
>>>
loop 1 <<<
    invariant
        inst.same_session(old(inst)), inst.args == old(inst).args, area == inst.args.area, invert == inst.args.invert, area_ok(area), area.is_some() || !invert,
        on == (match obj_name { Some(n) => Some(n@), None => None }), on == want_name(inst.args), its == want_items(inst.args), views(item_names@) == its,
        m == old(inst).db@, keys_in_range(m), roomy(m), KS == __s1@,
        rel == obj_rel(area, invert, on, its), g == obj_count(m, area, invert, on, its),
        __s1.len() <= 0x10_0000_0000, picks(__s1@, m, opt_seq(on), area, invert),
        0 <= __i1 <= __s1.len(),
        progress(m, inst.db@, __s1@, __i1 as int, rel),
        count == total(__s1@, g, __i1 as int), count <= 65535 * __i1,
        inst.status@.failed == old(inst).status@.failed + total(__s1@, bad(m), __i1 as int), inst.status@.log == old(inst).status@.log,
        inst.status@.counting(__i1 as int, __s1.len() as int),
    decreases __s1.len() - __i1
>>>
loop 1 head <<<
    let ghost kk = __s1@[__i1 - 1];
    proof {
        reveal(total); reveal(picks);
        lemma_progress(m, inst.db@, __s1@, __i1 - 1, rel);
        assert(__s1@.contains(kk));
    }
>>>
call deserialize 0 after <<<
    let ghost B = block;
    let ghost T0 = block.static_objects@;
    let ghost st = stays_x(area, invert, on, its);
    let ghost count0 = count as int;
    proof {
        lemma_sieve(T0, st, 0);
        assert(B@.objs.len() == T0.len());
    }
>>>
loop 2 <<<
    invariant
        block == (MapBlock { static_objects: block.static_objects, ..B }), B.wf(), 0 <= __i2 <= T0.len(), __e2 == 0, T0 == B.static_objects@, T0.len() <= 65535,
        inst.args.area == area, inst.args.invert == invert, on == (match obj_name { Some(n) => Some(n@), None => None }), views(item_names@) == its,
        st == stays_x(area, invert, on, its),
        block.static_objects@ == T0.subrange(0, __i2 as int) + sieve(T0, st, __i2 as int),
        count + block.static_objects@.len() == count0 + T0.len(), count0 <= 65535 * 0x10_0000_0000, modified == (block.static_objects@.len() < T0.len()),
    decreases __i2
>>>
loop 2 head <<<
    proof {
        lemma_sieve_step(T0, st, i as int);
        lemma_sieve(T0, st, i + 1);
    }
>>>
loop 2 before <<<
    proof { reveal(sieve); assert(T0.subrange(0, T0.len() as int) =~= T0); assert(sieve(T0, st, T0.len() as int) =~= seq![]); assert(T0 + seq![] =~= T0); }
>>>
loop 2 after <<<
    proof {
        assert(T0.subrange(0, 0) + sieve(T0, st, 0) =~= sieve(T0, st, 0));
        lemma_objs_left(B, block, area, invert, on, its);
        lemma_sieve_view(T0, area, invert, on, its, 0);
    }
>>>
loop 1 after <<<
    proof {
        assert forall|k: i64| m.dom().contains(k) && !#[trigger] KS.contains(k) implies rel(k, m[k], m[k]) by {
            if dec(m[k]).is_some() { lemma_unpicked_obj(KS, m, area, invert, on, its, k); }
        }
        lemma_progress_end(m, inst.db@, KS, rel);
    }
>>>
exit <<<
    proof {
        assert(count == total(KS, g, KS.len() as int));
        assert(says(inst.status@.log.last(), total(KS, g, KS.len() as int)));
        assert(picks(KS, m, opt_seq(on), inst.args.area, inst.args.invert));
    }
>>>
