module fill commands/fill.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, group_says};
/// Node selection, and the result of a fill for one block.
pub open spec fn fill_rel(area: Option<Area>, invert: bool, name: Bytes) -> spec_fn(i64, Bytes, Bytes) -> bool {
    |k: i64, old: Bytes, new: Bytes| match dec(old) {
        None => new == old,
        Some(b) => if !b.generated() || !area_hit(area, invert, true, unkey(k as int)) { new == old } else {
            dec(new) matches Some(c) && filled(area, invert, name, unkey(k as int), b, c)
        },
    }
}
pub open spec fn filled(area: Option<Area>, invert: bool, name: Bytes, pos: Vec3, b: BlockV, c: BlockV) -> bool {
    c.same_rest(b) && c.p1 == b.p1 && c.p2 == b.p2 && c.meta == norm_meta(b.version, b.meta)
        && forall|i: int| 0 <= i < 4096 ==> #[trigger] c.node(i) == (if sel(area, invert, pos, i) { name } else { b.node(i) })
}
pub open spec fn fill_count(m: Map<i64, Bytes>, area: Option<Area>, invert: bool) -> spec_fn(i64) -> int {
    |k: i64| match dec(m[k]) {
        Some(b) => if b.generated() && area_hit(area, invert, true, unkey(k as int)) { cnt(|i: int| sel(area, invert, unkey(k as int), i), 4096) } else { 0 },
        None => 0,
    }
}
/// A block that differs from B only in nodes and names keeps what it needs to be written, and its other parts.
pub proof fn lemma_rest(B: MapBlock, C: MapBlock)
    requires
        B.wf(), B@.storable(), C.same_frame(B), C.metadata == B.metadata, C.node_data.param1 == B.node_data.param1, C.node_data.param2 == B.node_data.param2,
        C.wf_nodes(), forall|k: u16| #[trigger] C@.names.dom().contains(k) ==> C@.names[k].len() <= 65535, C@.names.dom().len() <= 65535,
    ensures C.wf(), C@.storable(), C@.norm().same_rest(B@), C@.norm().p1 == B@.p1, C@.norm().p2 == B@.p2, C@.norm().meta == norm_meta(B@.version, B@.meta),
        C@.norm().nodes == C@.nodes, C@.norm().names == C@.names
{
    assert(C@.meta == B@.meta); assert(C@.objs == B@.objs); assert(C@.timers == B@.timers);
    assert(C@.version == B@.version);
}
/// Result for a block filled in part: B the block before, S with the name present, F with the ids set, C renumbered.
pub proof fn lemma_filled_part(area: Option<Area>, invert: bool, name: Bytes, b: Vec3, B: MapBlock, id: u16, F: MapBlock, C: MapBlock, part: Area)
    requires
        B.wf(), B@.storable(), F.wf_nodes(), C.wf_nodes(), area.is_some(), is_part(part, area.unwrap(), b), name.len() <= 65535,
        F.same_frame(B), F.metadata == B.metadata, F.node_data.param1 == B.node_data.param1, F.node_data.param2 == B.node_data.param2,
        C.same_frame(F), C.metadata == F.metadata, C.node_data.param1 == F.node_data.param1, C.node_data.param2 == F.node_data.param2,
        forall|k: u16| #[trigger] B.nimap.has(k) ==> F.nimap.has(k) && F.nimap.name(k) == B.nimap.name(k),
        F.nimap.has(id), F.nimap.name(id) == name,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] F.node_data.nodes@[i] == (if inbox(part, i) != invert { id } else { B.node_data.nodes@[i] }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] C.node(i) == F.node(i),
        forall|k: u16| #[trigger] C.nimap.has(k) ==> C.node_data.nodes@.contains(k) && k < 7001,
    ensures C.wf(), C@.storable(), filled(area, invert, name, b, B@, C@.norm())
{
    hide(inbox); hide(sel); hide(norm_meta);
    lemma_view(B); lemma_view(C);
    lemma_part(area.unwrap(), invert, b, part);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] C@.norm().node(i) == (if sel(area, invert, b, i) { name } else { B@.node(i) }) by {
        assert(C@.norm().node(i) == C@.node(i));
        assert(C@.node(i) == C.node(i)); assert(C.node(i) == F.node(i)); assert(B@.node(i) == B.node(i));
        assert(sel(area, invert, b, i) == (inbox(part, i) != invert));
        assert(F.node_data.nodes@[i] == F.node_data.nodes@[i]);
        assert(B.nimap.has(B.node_data.nodes@[i]));
    }
    assert forall|k: u16| #[trigger] C@.names.dom().contains(k) implies C@.names[k].len() <= 65535 by {
        assert(C.nimap.has(k));
        let i = choose|i: int| 0 <= i < C.node_data.nodes@.len() && C.node_data.nodes@[i] == k;
        assert(C@.names[k] == C.node(i)); assert(C.node(i) == F.node(i)); assert(F.node_data.nodes@[i] == F.node_data.nodes@[i]);
        assert(B.nimap.has(B.node_data.nodes@[i]));
        assert(B@.names[B.node_data.nodes@[i]] == B.node(i));
    }
    assert forall|k: u16| #[trigger] C@.names.dom().contains(k) implies k < 7001 by { assert(C.nimap.has(k)); }
    lemma_names(C@.names, 7001);
    lemma_rest(B, C);
}
pub proof fn lemma_filled_whole(area: Option<Area>, invert: bool, name: Bytes, b: Vec3, B: MapBlock, C: MapBlock)
    requires
        B.wf(), B@.storable(), area_hit(area, invert, true, b), area_ok(area), area.is_some(), area.unwrap().covers(b) == area.unwrap().meets(b), name.len() <= 65535,
        C.same_frame(B), C.metadata == B.metadata, C.node_data.param1 == B.node_data.param1, C.node_data.param2 == B.node_data.param2,
        C.node_data.nodes@.len() == 4096, forall|i: int| 0 <= i < 4096 ==> #[trigger] C.node_data.nodes@[i] == 0,
        forall|k: u16| #[trigger] C.nimap.has(k) == (k == 0), C.nimap.name(0) == name,
    ensures C.wf(), C@.storable(), filled(area, invert, name, b, B@, C@.norm())
{
    hide(inbox); hide(sel); hide(norm_meta);
    lemma_view(B); lemma_view(C);
    lemma_whole(area, invert, b);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] C@.norm().node(i) == (if sel(area, invert, b, i) { name } else { B@.node(i) }) by {
        assert(C@.norm().node(i) == C@.node(i));
        assert(C@.node(i) == C.node(i)); assert(sel(area, invert, b, i)); assert(C.node_data.nodes@[i] == 0);
    }
    assert forall|k: u16| #[trigger] C@.names.dom().contains(k) implies k < 1 by { assert(C.nimap.has(k)); }
    lemma_names(C@.names, 1);
    lemma_rest(B, C);
}
/// The number of selected nodes of a block.
pub proof fn lemma_part_count(area: Option<Area>, invert: bool, b: Vec3, part: Area)
    requires area.is_some(), is_part(part, area.unwrap(), b)
    ensures cnt(|i: int| sel(area, invert, b, i), 4096) == (if invert { 4096 - part.vol() } else { part.vol() }), 0 <= part.vol() <= 4096
{
    hide(inbox); hide(sel);
    lemma_part(area.unwrap(), invert, b, part);
    let s = |i: int| sel(area, invert, b, i);
    let n = |i: int| inbox(part, i);
    lemma_volume(part);
    if invert {
        assert forall|j: int| 0 <= j < 4096 implies #[trigger] s(j) == !n(j) by { assert(sel(area, invert, b, j) == (inbox(part, j) != invert)); }
        lemma_cnt_not(s, n, 4096);
    } else {
        assert forall|j: int| 0 <= j < 4096 implies #[trigger] s(j) == n(j) by { assert(sel(area, invert, b, j) == (inbox(part, j) != invert)); }
        lemma_cnt_same(s, n, 4096);
    }
}
pub proof fn lemma_whole_count(area: Option<Area>, invert: bool, b: Vec3)
    requires area_hit(area, invert, true, b), area_ok(area), area matches Some(a) ==> a.covers(b) == a.meets(b), area.is_some() || !invert
    ensures cnt(|i: int| sel(area, invert, b, i), 4096) == 4096
{
    hide(sel);
    lemma_whole(area, invert, b);
    let s = |i: int| sel(area, invert, b, i);
    assert forall|j: int| 0 <= j < 4096 implies #[trigger] s(j) by { assert(sel(area, invert, b, j)); }
    lemma_cnt_all(s, 4096);
}
>>>
fn fill_area
spec <<<
    requires area.valid(), area.within(0, 15), old(block).node_data.nodes@.len() == 4096
    ensures
        *final(block) == (MapBlock { node_data: NodeData { nodes: final(block).node_data.nodes, ..old(block).node_data }, ..*old(block) }),
        final(block).node_data.nodes@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] final(block).node_data.nodes@[i] ==
            (if inbox(area, i) != invert { id } else { old(block).node_data.nodes@[i] }),
>>>
entry <<<
    hide(inbox);
    let ghost B = *block;
    let ghost N = block.node_data.nodes@;
    proof { lemma_box_ends(area); }
>>>
loop 0 <<<
    invariant
        __t0.wf(), __t0.area == area,
        *block == (MapBlock { node_data: NodeData { nodes: block.node_data.nodes, ..B.node_data }, ..B }),
        block.node_data.nodes@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] block.node_data.nodes@[i] == (if !inbox(area, i) && i < __t0.idx { id } else { N[i] }),
    ensures __t0.idx == 4096
    decreases 4096 - __t0.idx
>>>
loop 1 <<<
    invariant
        area.valid(), area.within(0, 15), __e1 == area.max.z, area.min.z <= __i1 <= area.max.z + 1,
        *block == (MapBlock { node_data: NodeData { nodes: block.node_data.nodes, ..B.node_data }, ..B }),
        block.node_data.nodes@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] block.node_data.nodes@[i] == (if inbox(area, i) && i < 256 * __i1 { id } else { N[i] }),
    decreases __e1 - __i1 + 1
>>>
loop 1 head <<<
    proof { lemma_layers_of(area, z as int); }
>>>
loop 2 <<<
    invariant
        area.valid(), area.within(0, 15), area.min.z <= z <= area.max.z, z_start == 256 * z, __e2 == area.max.y, area.min.y <= __i2 <= area.max.y + 1,
        *block == (MapBlock { node_data: NodeData { nodes: block.node_data.nodes, ..B.node_data }, ..B }),
        block.node_data.nodes@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] block.node_data.nodes@[i] == (if inbox(area, i) && i < 256 * z + 16 * __i2 { id } else { N[i] }),
    decreases __e2 - __i2 + 1
>>>
loop 2 head <<<
    proof { lemma_rows_of(area, y as int, z as int); }
>>>
loop 3 <<<
    invariant
        area.valid(), area.within(0, 15), area.min.z <= z <= area.max.z, area.min.y <= y <= area.max.y, zy_start == 256 * z + 16 * y,
        __e3 == area.max.x, area.min.x <= __i3 <= area.max.x + 1,
        *block == (MapBlock { node_data: NodeData { nodes: block.node_data.nodes, ..B.node_data }, ..B }),
        block.node_data.nodes@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] block.node_data.nodes@[i] == (if inbox(area, i) && i < 256 * z + 16 * y + __i3 { id } else { N[i] }),
    decreases __e3 - __i3 + 1
>>>
loop 3 head <<<
    proof { lemma_in_box(area, x as int, y as int, z as int); }
>>>
fn fill rlimit=100 spinoff_prover own
spec <<<
    requires old(inst).ready(), old(inst).args.area.is_some(), old(inst).args.new_node.is_some(),
        sbytes(old(inst).args.new_node.unwrap()@).len() <= 65535
    ensures
        final(inst).same_session(old(inst)),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            fill_rel(old(inst).args.area, old(inst).args.invert, sbytes(old(inst).args.new_node.unwrap()@))(k, old(inst).db@[k], final(inst).db@[k]),
        reported(old(inst).status@, final(inst).status@, old(inst).db@, seq![], old(inst).args.area, old(inst).args.invert,
            fill_count(old(inst).db@, old(inst).args.area, old(inst).args.invert)),
>>>
entry <<<
    hide(inbox); hide(sel); hide(total); hide(progress); hide(in_map); hide(norm_meta);
    let ghost m = inst.db@;
    let ghost rel = fill_rel(inst.args.area, inst.args.invert, sbytes(inst.args.new_node.unwrap()@));
    let ghost g = fill_count(m, inst.args.area, inst.args.invert);
    let ghost mut KS: Seq<i64> = seq![];
    proof { assert(views(Seq::<Vec<u8>>::empty()) =~= Seq::<Bytes>::empty()); }
>>>
call query_keys 0 after <<<
    proof { KS = keys@; lemma_progress_start(m, keys@, seq![], inst.args.area, inst.args.invert, rel); }
>>>
loop 0 <<<
    invariant
        inst.same_session(old(inst)), area_ok(Some(area)), inst.args.area == Some(area), node@ == sbytes(inst.args.new_node.unwrap()@), node@.len() <= 65535,
        m == old(inst).db@, keys_in_range(m), roomy(m), KS == __s0@,
        rel == fill_rel(inst.args.area, inst.args.invert, node@), g == fill_count(m, inst.args.area, inst.args.invert),
        __s0.len() <= 0x10_0000_0000, picks(__s0@, m, seq![], inst.args.area, inst.args.invert),
        0 <= __i0 <= __s0.len(),
        progress(m, inst.db@, __s0@, __i0 as int, rel),
        count == total(__s0@, g, __i0 as int), count <= 4096 * __i0,
        inst.status@.failed == old(inst).status@.failed + total(__s0@, bad(m), __i0 as int), inst.status@.log == old(inst).status@.log,
        inst.status@.counting(__i0 as int, __s0.len() as int),
    decreases __s0.len() - __i0
>>>
loop 0 head <<<
    let ghost kk = __s0@[__i0 - 1];
    proof {
        reveal(total);
        lemma_progress(m, inst.db@, __s0@, __i0 - 1, rel);
        assert(__s0@.contains(kk));
        lemma_unpack_pack(kk as int);
    }
    let ghost b = unkey(kk as int);
>>>
call deserialize 0 after <<<
    let ghost B = block;
    let ghost mut id: u16 = 0;
    let ghost mut F = block;
    proof {
        lemma_view(B);
        B.nimap.lemma_max();
        assert(B.nimap.has(B.node_data.nodes@[0]));
        assert forall|k: u16| #[trigger] B.nimap.has(k) implies k < 7000 by { assert(B@.names.dom().contains(k)); }
    }
>>>
call clean_name_id_map 0 before <<<
    proof {
        id = fill_id; F = block;
        block.nimap.lemma_max();
        assert(block.nimap.below(7000));
        assert forall|i: int| 0 <= i < 4096 implies block.nimap.has(#[trigger] block.node_data.nodes@[i]) by { assert(B.nimap.has(B.node_data.nodes@[i])); }
    }
>>>
call clean_name_id_map 0 after <<<
    proof {
        lemma_filled_part(inst.args.area, inst.args.invert, node@, b, B, id, F, block, block_part);
        lemma_part_count(inst.args.area, inst.args.invert, b, block_part);
    }
>>>
call serialize 0 before <<<
    proof {
        if area.covers(b) == area.meets(b) {
            lemma_filled_whole(inst.args.area, inst.args.invert, node@, b, B, block);
            lemma_whole_count(inst.args.area, inst.args.invert, b);
        }
    }
>>>
loop 0 after <<<
    proof { lemma_progress_end(m, inst.db@, KS, rel); }
>>>
exit <<<
    proof {
        assert(count == total(KS, g, KS.len() as int));
        assert(says(inst.status@.log.last(), total(KS, g, KS.len() as int)));
        assert(picks(KS, m, seq![], inst.args.area, inst.args.invert));
    }
>>>
