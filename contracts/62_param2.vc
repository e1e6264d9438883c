module set_param2 commands/set_param2.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, group_says};
/// A node of the part (inverted: outside of it) with the id asked for.
pub open spec fn phits(o: Area, invert: bool, id: Option<u16>, N: Seq<u16>) -> spec_fn(int) -> bool {
    |i: int| inbox(o, i) != invert && (id matches Some(n) ==> N[i] == n)
}
/// Selected nodes, of the given name if there is one.
pub open spec fn opt_at(area: Option<Area>, invert: bool, pos: Vec3, b: BlockV, name: Option<Bytes>) -> spec_fn(int) -> bool {
    |i: int| sel(area, invert, pos, i) && (name matches Some(n) ==> b.node(i) == n)
}
pub open spec fn concerns(b: BlockV, name: Option<Bytes>) -> bool { name matches Some(n) ==> b.has_name(n) }
pub open spec fn opt_count(m: Map<i64, Bytes>, area: Option<Area>, invert: bool, name: Option<Bytes>) -> spec_fn(i64) -> int {
    |k: i64| match dec(m[k]) {
        Some(b) => if concerns(b, name) { cnt(opt_at(area, invert, unkey(k as int), b, name), 4096) } else { 0 },
        None => 0,
    }
}
/// Result of setting param2 for one block.
pub open spec fn param2_rel(area: Option<Area>, invert: bool, name: Option<Bytes>, val: u8) -> spec_fn(i64, Bytes, Bytes) -> bool {
    |k: i64, old: Bytes, new: Bytes| match dec(old) {
        None => new == old,
        Some(b) => if !concerns(b, name) || !area_hit(area, invert, true, unkey(k as int)) { new == old } else {
            dec(new) matches Some(c) && param2_set(area, invert, name, val, unkey(k as int), b, c)
        },
    }
}
pub open spec fn param2_set(area: Option<Area>, invert: bool, name: Option<Bytes>, val: u8, pos: Vec3, b: BlockV, c: BlockV) -> bool {
    c.same_rest(b) && c.nodes == b.nodes && c.names == b.names && c.p1 == b.p1 && c.meta == norm_meta(b.version, b.meta) && c.p2.len() == 4096
        && forall|i: int| 0 <= i < 4096 ==> #[trigger] c.p2[i] == (if opt_at(area, invert, pos, b, name)(i) { val } else { b.p2[i] })
}
pub open spec fn opt_bytes(n: Option<String>) -> Option<Bytes> { match n { Some(s) => Some(sbytes(s@)), None => None } }
pub open spec fn opt_seq(n: Option<Bytes>) -> Seq<Bytes> { match n { Some(s) => seq![s], None => seq![] } }
pub proof fn lemma_p2_rest(B: MapBlock, C: MapBlock)
    requires
        B.wf(), B@.storable(), C.same_frame(B), C.metadata == B.metadata, C.nimap == B.nimap,
        C.node_data.nodes == B.node_data.nodes, C.node_data.param1 == B.node_data.param1, C.node_data.param2@.len() == 4096,
    ensures C.wf(), C@.storable(), C@.norm().same_rest(B@), C@.norm().nodes == B@.nodes, C@.norm().names == B@.names,
        C@.norm().p1 == B@.p1, C@.norm().p2 == C@.p2, C@.norm().meta == norm_meta(B@.version, B@.meta)
{
    assert(C@.meta == B@.meta); assert(C@.objs == B@.objs); assert(C@.timers == B@.timers); assert(C@.names == B@.names);
}
/// The node with the id are the nodes with the name.
pub proof fn lemma_id_name(B: MapBlock, name: Option<Bytes>, id: Option<u16>, i: int)
    requires B.wf_nodes(), B@.distinct(), name.is_some() == id.is_some(), name.is_some() ==> B.nimap.has(id.unwrap()) && B.nimap.name(id.unwrap()) == name.unwrap(), 0 <= i < 4096
    ensures (name matches Some(n) ==> B@.node(i) == n) == (id matches Some(k) ==> B.node_data.nodes@[i] == k)
{
    lemma_view(B);
    assert(B@.names.dom().contains(B@.nodes[i]));
    if id.is_some() { assert(B@.names.dom().contains(id.unwrap())); }
}
pub proof fn lemma_p2_part(area: Option<Area>, invert: bool, b: Vec3, B: MapBlock, name: Option<Bytes>, id: Option<u16>, part: Area)
    requires B.wf_nodes(), B@.distinct(), name.is_some() == id.is_some(), name.is_some() ==> B.nimap.has(id.unwrap()) && B.nimap.name(id.unwrap()) == name.unwrap(),
        area.is_some(), is_part(part, area.unwrap(), b)
    ensures
        forall|i: int| 0 <= i < 4096 ==> #[trigger] opt_at(area, invert, b, B@, name)(i) == phits(part, invert, id, B.node_data.nodes@)(i),
        cnt(opt_at(area, invert, b, B@, name), 4096) == cnt(phits(part, invert, id, B.node_data.nodes@), 4096)
{
    hide(inbox); hide(sel);
    lemma_part(area.unwrap(), invert, b, part);
    let f = opt_at(area, invert, b, B@, name);
    let g = phits(part, invert, id, B.node_data.nodes@);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] f(i) == g(i) by {
        lemma_id_name(B, name, id, i);
        assert(sel(area, invert, b, i) == (inbox(part, i) != invert));
    }
    lemma_cnt_same(f, g, 4096);
}
pub open spec fn ids_at(id: u16, N: Seq<u16>) -> spec_fn(int) -> bool { |i: int| N[i] == id }
pub proof fn lemma_p2_whole(area: Option<Area>, invert: bool, b: Vec3, B: MapBlock, name: Option<Bytes>, id: Option<u16>)
    requires B.wf_nodes(), B@.distinct(), name.is_some() == id.is_some(), name.is_some() ==> B.nimap.has(id.unwrap()) && B.nimap.name(id.unwrap()) == name.unwrap(),
        area_hit(area, invert, true, b), area_ok(area), area matches Some(a) ==> a.covers(b) == a.meets(b), area.is_some() || !invert
    ensures
        forall|i: int| 0 <= i < 4096 ==> #[trigger] opt_at(area, invert, b, B@, name)(i) == (id matches Some(k) ==> B.node_data.nodes@[i] == k),
        id.is_none() ==> cnt(opt_at(area, invert, b, B@, name), 4096) == 4096,
        id.is_some() ==> cnt(opt_at(area, invert, b, B@, name), 4096) == cnt(ids_at(id.unwrap(), B.node_data.nodes@), 4096),
{
    hide(sel);
    lemma_whole(area, invert, b);
    let f = opt_at(area, invert, b, B@, name);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] f(i) == (id matches Some(k) ==> B.node_data.nodes@[i] == k) by {
        lemma_id_name(B, name, id, i);
        assert(sel(area, invert, b, i));
    }
    if id.is_none() { lemma_cnt_all(f, 4096); } else { lemma_cnt_same(f, ids_at(id.unwrap(), B.node_data.nodes@), 4096); }
}
>>>
fn set_param2_partial rlimit=100 spinoff_prover
spec <<<
    requires area.valid(), area.within(0, 15), old(block).node_data.nodes@.len() == 4096, old(block).node_data.param2@.len() == 4096
    ensures
        *final(block) == (MapBlock { node_data: NodeData { param2: final(block).node_data.param2, ..old(block).node_data }, ..*old(block) }),
        final(block).node_data.param2@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] final(block).node_data.param2@[i] ==
            (if phits(area, invert, node_id, old(block).node_data.nodes@)(i) { val } else { old(block).node_data.param2@[i] }),
        r == cnt(phits(area, invert, node_id, old(block).node_data.nodes@), 4096),
>>>
entry <<<
    hide(inbox);
    let ghost ND = block.node_data;
    let ghost N = block.node_data.nodes@;
    let ghost P2 = block.node_data.param2@;
    let ghost h = phits(area, invert, node_id, N);
    let ghost mut P: int = 0;
    proof { lemma_box_ends(area); lemma_volume(area); }
>>>
loop 0 <<<
    invariant_except_break
        P == __t0.idx,
    invariant
        invert, node_id == Some(id), h == phits(area, invert, node_id, N), __t0.wf(), __t0.area == area, N == nd.nodes@, N.len() == 4096, P2.len() == 4096,
        *nd == (NodeData { param2: nd.param2, ..ND }), nd.param2@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nd.param2@[i] == (if h(i) && i < __t0.idx { val } else { P2[i] }),
        0 <= P <= 4096, count == cnt(h, P), count <= P,
    ensures __t0.idx == 4096, forall|j: int| P <= j < 4096 ==> #[trigger] inbox(area, j),
    decreases 4096 - __t0.idx
>>>
loop 0 head <<<
    proof { lemma_cnt_none(h, P, idx as int); }
>>>
loop 0 tail <<<
    proof { P = __t0.idx as int; }
>>>
loop 0 after <<<
    proof { lemma_cnt_none(h, P, 4096); }
>>>
loop 1 <<<
    invariant
        invert, node_id.is_none(), h == phits(area, invert, node_id, N), __t1.wf(), __t1.area == area, N == nd.nodes@, N.len() == 4096, P2.len() == 4096,
        *nd == (NodeData { param2: nd.param2, ..ND }), nd.param2@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nd.param2@[i] == (if h(i) && i < __t1.idx { val } else { P2[i] }),
    ensures __t1.idx == 4096
    decreases 4096 - __t1.idx
>>>
loop 1 after <<<
    proof {
        let n = |i: int| inbox(area, i);
        assert forall|j: int| 0 <= j < 4096 implies #[trigger] h(j) == !n(j) by { }
        lemma_cnt_not(h, n, 4096);
    }
>>>
loop 2 before <<<
    proof { lemma_cnt_none(h, 0, 256 * area.min.z); }
>>>
loop 2 <<<
    invariant
        !invert, no_node == node_id.is_none(), node_id matches Some(n) ==> n == id, h == phits(area, invert, node_id, N),
        N == nd.nodes@, N.len() == 4096, P2.len() == 4096,
        *nd == (NodeData { param2: nd.param2, ..ND }), nd.param2@.len() == 4096,
        area.valid(), area.within(0, 15), __e2 == area.max.z, area.min.z <= __i2 <= area.max.z + 1,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nd.param2@[i] == (if h(i) && i < 256 * __i2 { val } else { P2[i] }),
        count == cnt(h, 256 * __i2), count <= 256 * __i2,
    decreases __e2 - __i2 + 1
>>>
loop 2 head <<<
    proof { lemma_layers_of(area, z as int); lemma_cnt_none(h, 256 * z, 256 * z + 16 * area.min.y); }
>>>
loop 2 tail <<<
    proof { lemma_cnt_none(h, 256 * z + 16 * (area.max.y + 1), 256 * (z + 1)); }
>>>
loop 3 <<<
    invariant
        !invert, no_node == node_id.is_none(), node_id matches Some(n) ==> n == id, h == phits(area, invert, node_id, N),
        N == nd.nodes@, N.len() == 4096, P2.len() == 4096,
        *nd == (NodeData { param2: nd.param2, ..ND }), nd.param2@.len() == 4096,
        area.valid(), area.within(0, 15), area.min.z <= z <= area.max.z, z_start == 256 * z, __e3 == area.max.y, area.min.y <= __i3 <= area.max.y + 1,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nd.param2@[i] == (if h(i) && i < 256 * z + 16 * __i3 { val } else { P2[i] }),
        count == cnt(h, 256 * z + 16 * __i3), count <= 256 * z + 16 * __i3,
    decreases __e3 - __i3 + 1
>>>
loop 3 head <<<
    proof { lemma_rows_of(area, y as int, z as int); lemma_cnt_none(h, 256 * z + 16 * y, 256 * z + 16 * y + area.min.x); }
>>>
loop 3 tail <<<
    proof { lemma_cnt_none(h, 256 * z + 16 * y + area.max.x + 1, 256 * z + 16 * (y + 1)); }
>>>
loop 4 <<<
    invariant
        !invert, no_node == node_id.is_none(), node_id matches Some(n) ==> n == id, h == phits(area, invert, node_id, N),
        N == nd.nodes@, N.len() == 4096, P2.len() == 4096,
        *nd == (NodeData { param2: nd.param2, ..ND }), nd.param2@.len() == 4096,
        area.valid(), area.within(0, 15), area.min.z <= z <= area.max.z, area.min.y <= y <= area.max.y, zy_start == 256 * z + 16 * y,
        __e4 == area.max.x, area.min.x <= __i4 <= area.max.x + 1,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nd.param2@[i] == (if h(i) && i < 256 * z + 16 * y + __i4 { val } else { P2[i] }),
        count == cnt(h, 256 * z + 16 * y + __i4), count <= 256 * z + 16 * y + __i4,
    decreases __e4 - __i4 + 1
>>>
loop 4 head <<<
    proof { lemma_in_box(area, x as int, y as int, z as int); }
>>>
loop 2 after <<<
    proof { lemma_cnt_none(h, 256 * (area.max.z + 1), 4096); }
>>>
fn set_param2 rlimit=100 spinoff_prover own
spec <<<
    requires old(inst).ready(), distinct_names(old(inst).db@), old(inst).args.param2.is_some(),
    ensures
        final(inst).same_session(old(inst)),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            param2_rel(old(inst).args.area, old(inst).args.invert, opt_bytes(old(inst).args.node), old(inst).args.param2.unwrap())(k, old(inst).db@[k], final(inst).db@[k]),
        reported(old(inst).status@, final(inst).status@, old(inst).db@, opt_seq(opt_bytes(old(inst).args.node)), old(inst).args.area, old(inst).args.invert,
            opt_count(old(inst).db@, old(inst).args.area, old(inst).args.invert, opt_bytes(old(inst).args.node))),
>>>
entry <<<
    hide(sel); hide(total); hide(progress); hide(in_map); hide(norm_meta); hide(cnt); hide(picks);
    let ghost m = inst.db@;
    let ghost on = opt_bytes(inst.args.node);
    let ghost area = inst.args.area;
    let ghost invert = inst.args.invert;
    let ghost rel = param2_rel(area, invert, on, inst.args.param2.unwrap());
    let ghost g = opt_count(m, area, invert, on);
    let ghost mut KS: Seq<i64> = seq![];
    let ghost mut PT: Area = arbitrary();
>>>
call query_keys 0 after <<<
    proof {
        reveal(picks);
        KS = keys@;
        if node.is_some() { assert(views(seq![node.unwrap()]) =~= seq![node.unwrap()@]); } else { assert(views(Seq::<Vec<u8>>::empty()) =~= Seq::<Bytes>::empty()); }
        lemma_progress_start(m, keys@, opt_seq(on), area, invert, rel);
    }
>>>
loop 0 <<<
    invariant
        inst.same_session(old(inst)), inst.args == old(inst).args, area == inst.args.area, invert == inst.args.invert, area_ok(area), area.is_some() || !invert,
        node.is_some() == on.is_some(), node matches Some(n) ==> n@ == on.unwrap(), on == opt_bytes(inst.args.node),
        m == old(inst).db@, keys_in_range(m), roomy(m), distinct_names(m), KS == __s0@,
        rel == param2_rel(area, invert, on, param2_val), g == opt_count(m, area, invert, on),
        __s0.len() <= 0x10_0000_0000, picks(__s0@, m, opt_seq(on), area, invert),
        0 <= __i0 <= __s0.len(),
        progress(m, inst.db@, __s0@, __i0 as int, rel),
        count == total(__s0@, g, __i0 as int), count <= 4096 * __i0,
        inst.status@.failed == old(inst).status@.failed + total(__s0@, bad(m), __i0 as int), inst.status@.log == old(inst).status@.log,
        inst.status@.counting(__i0 as int, __s0.len() as int),
    decreases __s0.len() - __i0
>>>
loop 0 head <<<
    let ghost kk = __s0@[__i0 - 1];
    proof {
        reveal(total); reveal(picks);
        lemma_progress(m, inst.db@, __s0@, __i0 - 1, rel);
        assert(__s0@.contains(kk));
        lemma_unpack_pack(kk as int);
    }
    let ghost b = unkey(kk as int);
    let ghost count0 = count as int;
>>>
call deserialize 0 after <<<
    let ghost B = block;
    proof {
        lemma_view(B);
        lemma_cnt_range(opt_at(area, invert, b, B@, on), 4096);
        if on.is_some() && B@.has_name(on.unwrap()) {
            let k = choose|k: u16| #[trigger] B@.names.dom().contains(k) && B@.names[k] == on.unwrap();
            assert(B.nimap.has(k) && B.nimap.name(k) == on.unwrap());
        }
    }
>>>
loop 1 before <<<
    proof {
        lemma_p2_whole(area, invert, b, B, on, node_id);
        reveal(cnt);
    }
>>>
loop 1 head <<<
    proof { reveal(cnt); }
>>>
loop 1 <<<
    invariant
        0 <= __i1 <= 4096, __e1 == 4096, *nd == (NodeData { param2: nd.param2, ..B.node_data }), nd.param2@.len() == 4096, nd.nodes@.len() == 4096,
        B.node_data.param2@.len() == 4096, nd.nodes == B.node_data.nodes,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nd.param2@[i] == (if i < __i1 && B.node_data.nodes@[i] == nid { param2_val } else { B.node_data.param2@[i] }),
        count == count0 + cnt(ids_at(nid, B.node_data.nodes@), __i1 as int), count <= count0 + __i1, 0 <= count0 <= 4096 * 0x10_0000_0000,
    decreases 4096 - __i1
>>>
call fill 0 before <<<
    proof { lemma_p2_whole(area, invert, b, B, on, node_id); }
>>>
call set_param2_partial 0 before <<<
    proof { lemma_p2_part(inst.args.area, invert, b, B, on, node_id, block_part); }
>>>
call serialize 0 before <<<
    proof { lemma_p2_rest(B, block); }
>>>
loop 0 after <<<
    proof {
        assert forall|k: i64| m.dom().contains(k) && !#[trigger] KS.contains(k) implies rel(k, m[k], m[k]) by {
            if dec(m[k]).is_some() { if on.is_some() { lemma_unpicked(KS, m, on.unwrap(), area, invert, k); } else { reveal(picks); } }
        }
        lemma_progress_end(m, inst.db@, KS, rel);
    }
>>>
exit <<<
    proof {
        assert(count == total(KS, g, KS.len() as int));
        assert(says(inst.status@.log.last(), total(KS, g, KS.len() as int)));
        assert(picks(KS, m, opt_seq(on), inst.args.area, inst.args.invert));
    }
>>>
