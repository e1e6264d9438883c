module select spatial/mod.rs
raw <<<
/// Node i of block b is selected by the area argument (inverted: by not being in it).
pub open spec fn sel(area: Option<Area>, invert: bool, b: Vec3, i: int) -> bool {
    match area {
        None => true,
        Some(a) => a.has(16 * b.x + i % 16, 16 * b.y + (i / 16) % 16, 16 * b.z + i / 256) != invert,
    }
}
/// A visited block that is not partly inside is selected whole.
pub proof fn lemma_whole(area: Option<Area>, invert: bool, b: Vec3)
    requires area_hit(area, invert, true, b), area_ok(area), area matches Some(a) ==> a.covers(b) == a.meets(b), area.is_some() || !invert
    ensures forall|i: int| 0 <= i < 4096 ==> #[trigger] sel(area, invert, b, i)
{
    if let Some(a) = area {
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] sel(area, invert, b, i) by {
            let (x, y, z) = (16 * b.x + i % 16, 16 * b.y + (i / 16) % 16, 16 * b.z + i / 256);
            assert(in_block(b, x, y, z));
            if invert { assert(!a.covers(b)); assert(!a.meets(b)); assert(!a.has(x, y, z)); }
            else { assert(a.covers(b)); assert(a.has(x, y, z)); }
        }
    }
}
/// The part of the block inside the area.
pub open spec fn is_part(o: Area, a: Area, b: Vec3) -> bool {
    o.valid() && o.within(0, 15) && forall|x: int, y: int, z: int| #[trigger] o.has(x, y, z) ==
        (0 <= x <= 15 && 0 <= y <= 15 && 0 <= z <= 15 && a.has(x + 16 * b.x, y + 16 * b.y, z + 16 * b.z))
}
pub proof fn lemma_part(a: Area, invert: bool, b: Vec3, o: Area)
    requires is_part(o, a, b)
    ensures forall|i: int| 0 <= i < 4096 ==> #[trigger] inbox(o, i) == (sel(Some(a), invert, b, i) != invert),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] sel(Some(a), invert, b, i) == (inbox(o, i) != invert)
{
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] inbox(o, i) == (sel(Some(a), invert, b, i) != invert) by {
        let (x, y, z) = (i % 16, (i / 16) % 16, i / 256);
        assert(o.has(x, y, z) == a.has(x + 16 * b.x, y + 16 * b.y, z + 16 * b.z));
    }
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] sel(Some(a), invert, b, i) == (inbox(o, i) != invert) by {
        assert(inbox(o, i) == (sel(Some(a), invert, b, i) != invert));
    }
}
>>>
module replace_nodes commands/replace_nodes.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, group_says};
/// Index of the next position the iterator yields.
pub open spec fn next_idx(t: AreaIterator) -> int { pos_idx(t.pos) }
/// No index of the box lies between a position and the next one.
pub proof fn lemma_next(a: Area, p: Vec3)
    requires a.valid(), a.within(0, 15), a.hasv(p)
    ensures inbox(a, pos_idx(p)), 0 <= pos_idx(p) < 4096, pos_idx(p) < pos_idx(succ(a, p)),
        forall|i: int| pos_idx(p) < i < pos_idx(succ(a, p)) && i < 4096 ==> !#[trigger] inbox(a, i),
{
    lemma_in_box(a, p.x as int, p.y as int, p.z as int);
    assert(p.x + 16 * p.y + 256 * p.z == pos_idx(p));
    assert forall|i: int| pos_idx(p) < i < pos_idx(succ(a, p)) && i < 4096 implies !#[trigger] inbox(a, i) by {
        if inbox(a, i) {
            lemma_digits(i);
            let (u, v, w) = (i % 16, (i / 16) % 16, i / 256);
            let (y, z) = (p.y as int, p.z as int);
            if p.x < a.max.x { }
            else {
                lemma_row_cmp(a, u, v, w, y, z);
                assert(!(i < 256 * z + 16 * (y + 1)));
                if p.y < a.max.y { lemma_row_cmp(a, u, v, w, y + 1, z); }
                else { lemma_row_cmp(a, u, v, w, a.min.y as int, z + 1); }
            }
        }
    }
}
/// n is o without id, the higher ids moved down by one.
pub open spec fn without(o: NameIdMap, n: NameIdMap, id: u16) -> bool {
    &&& forall|k: u16| k < id ==> #[trigger] n.has(k) == o.has(k)
    &&& forall|k: u16| k < id && o.has(k) ==> #[trigger] n.name(k) == o.name(k)
    &&& forall|k: u16| id <= k < 65535 ==> #[trigger] n.has(k) == o.has((k + 1) as u16)
    &&& forall|k: u16| id <= k < 65535 && o.has((k + 1) as u16) ==> #[trigger] n.name(k) == o.name((k + 1) as u16)
    &&& !n.has(65535)
}
pub open spec fn down(k: u16, id: u16) -> u16 { if k > id { (k - 1) as u16 } else { k } }
pub proof fn lemma_without(o: NameIdMap, n: NameIdMap, id: u16, m: int)
    requires without(o, n, id), o.distinct(), o.below(m), id < 65535, o.has(id)
    ensures n.distinct(), n.below(m),
        forall|k: u16| #[trigger] o.has(k) && k != id ==> n.has(down(k, id)) && n.name(down(k, id)) == o.name(k),
{
    assert forall|k: u16| #[trigger] o.has(k) && k != id implies n.has(down(k, id)) && n.name(down(k, id)) == o.name(k) by {
        if k > id { let j = (k - 1) as u16; assert((j + 1) as u16 == k); }
    }
    assert forall|j: u16, k: u16| #[trigger] n.has(j) && #[trigger] n.has(k) && n.name(j) == n.name(k) implies j == k by {
        let j2 = if j < id { j } else { (j + 1) as u16 };
        let k2 = if k < id { k } else { (k + 1) as u16 };
        assert(o.has(j2) && o.has(k2));
        assert(o.name(j2) == n.name(j)); assert(o.name(k2) == n.name(k));
    }
    assert forall|k: u16| #[trigger] n.has(k) implies k <= m by {
        if k >= id { assert(o.has((k + 1) as u16)); } else { assert(o.has(k)); }
    }
}
pub open spec fn hits(B: MapBlock, old_id: u16, o: Area, invert: bool) -> spec_fn(int) -> bool {
    |i: int| inbox(o, i) != invert && B.node_data.nodes@[i] == old_id
}
pub open spec fn all_of(N: Seq<u16>, old_id: u16) -> spec_fn(int) -> bool { |i: int| N[i] == old_id }
/// The name node i should have.
pub open spec fn want(area: Option<Area>, invert: bool, b: Vec3, B: MapBlock, old_id: u16, new_node: Bytes, i: int) -> Bytes {
    if sel(area, invert, b, i) && B.node(i) == B.nimap.name(old_id) { new_node } else { B.node(i) }
}
pub open spec fn renamed(area: Option<Area>, invert: bool, b: Vec3, B: MapBlock, name: Bytes) -> spec_fn(int) -> bool {
    |i: int| sel(area, invert, b, i) && B.node(i) == name
}
/// Result of a replacement for one block.
pub open spec fn replace_rel(area: Option<Area>, invert: bool, old_name: Bytes, new_name: Bytes) -> spec_fn(i64, Bytes, Bytes) -> bool {
    |k: i64, old: Bytes, new: Bytes| match dec(old) {
        None => new == old,
        Some(b) => if !b.has_name(old_name) || !area_hit(area, invert, true, unkey(k as int)) { new == old } else {
            dec(new) matches Some(c) && replaced_in(area, invert, old_name, new_name, unkey(k as int), b, c)
        },
    }
}
pub open spec fn replaced_in(area: Option<Area>, invert: bool, old_name: Bytes, new_name: Bytes, pos: Vec3, b: BlockV, c: BlockV) -> bool {
    c.same_rest(b) && c.p1 == b.p1 && c.p2 == b.p2 && c.meta == norm_meta(b.version, b.meta) && c.distinct()
        && forall|i: int| 0 <= i < 4096 ==> #[trigger] c.node(i) == (if sel(area, invert, pos, i) && b.node(i) == old_name { new_name } else { b.node(i) })
}
pub open spec fn name_at(area: Option<Area>, invert: bool, pos: Vec3, b: BlockV, name: Bytes) -> spec_fn(int) -> bool {
    |i: int| sel(area, invert, pos, i) && b.node(i) == name
}
/// Selected nodes with the name.
pub open spec fn name_count(m: Map<i64, Bytes>, area: Option<Area>, invert: bool, name: Bytes) -> spec_fn(i64) -> int {
    |k: i64| match dec(m[k]) {
        Some(b) => if b.has_name(name) { cnt(name_at(area, invert, unkey(k as int), b, name), 4096) } else { 0 },
        None => 0,
    }
}
pub proof fn lemma_replaced(area: Option<Area>, invert: bool, old_name: Bytes, new_name: Bytes, b: Vec3, B: MapBlock, C: MapBlock)
    requires
        B.wf(), B@.storable(), C.wf_nodes(), C.same_frame(B), C.metadata == B.metadata,
        C.node_data.param1 == B.node_data.param1, C.node_data.param2 == B.node_data.param2,
        C.nimap.distinct(), C.nimap.below(7001), new_name.len() <= 65535,
        forall|k: u16| #[trigger] C.nimap.has(k) ==> C.nimap.name(k) == new_name || exists|j: u16| #[trigger] B.nimap.has(j) && B.nimap.name(j) == C.nimap.name(k),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] C.node(i) == (if sel(area, invert, b, i) && B.node(i) == old_name { new_name } else { B.node(i) }),
    ensures C.wf(), C@.storable(), replaced_in(area, invert, old_name, new_name, b, B@, C@.norm())
{
    hide(sel); hide(norm_meta);
    lemma_view(B); lemma_view(C);
    assert forall|k: u16| #[trigger] C@.names.dom().contains(k) implies C@.names[k].len() <= 65535 by {
        assert(C.nimap.has(k));
        if C.nimap.name(k) != new_name {
            let j = choose|j: u16| #[trigger] B.nimap.has(j) && B.nimap.name(j) == C.nimap.name(k);
            assert(B@.names[j] == C@.names[k]);
        }
    }
    assert forall|k: u16| #[trigger] C@.names.dom().contains(k) implies k < 7002 by { assert(C.nimap.has(k)); }
    lemma_names(C@.names, 7002);
    lemma_rest(B, C);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] C@.norm().node(i) == (if sel(area, invert, b, i) && B@.node(i) == old_name { new_name } else { B@.node(i) }) by {
        assert(C@.norm().node(i) == C@.node(i)); assert(C@.node(i) == C.node(i)); assert(B@.node(i) == B.node(i));
    }
    assert(C@.norm().distinct()) by {
        assert forall|j: u16, k: u16| #[trigger] C@.names.dom().contains(j) && #[trigger] C@.names.dom().contains(k) && C@.names[j] == C@.names[k] implies j == k by {
            assert(C.nimap.has(j)); assert(C.nimap.has(k));
        }
    }
}
pub proof fn lemma_name_count(area: Option<Area>, invert: bool, b: Vec3, B: MapBlock, name: Bytes)
    requires B.wf_nodes()
    ensures cnt(name_at(area, invert, b, B@, name), 4096) == cnt(renamed(area, invert, b, B, name), 4096)
{
    lemma_view(B);
    let f = name_at(area, invert, b, B@, name);
    let g = renamed(area, invert, b, B, name);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] f(i) == g(i) by { assert(B@.node(i) == B.node(i)); }
    lemma_cnt_same(f, g, 4096);
}
>>>
fn do_replace rlimit=200 spinoff_prover
spec <<<
    requires
        old(block).wf_nodes(), key_ok(key as int), area_ok(area), area.is_some() || !invert,
        area_hit(area, invert, true, unkey(key as int)),
        old(block).nimap.has(old_id), old(block).nimap.distinct(), old(block).nimap.name(old_id) != new_node@,
        old(block).nimap.max_id() < 65535,
    ensures
        final(block).wf_nodes(), final(block).same_frame(*old(block)), final(block).metadata == old(block).metadata,
        final(block).node_data.param1 == old(block).node_data.param1, final(block).node_data.param2 == old(block).node_data.param2,
        final(block).nimap.distinct(), final(block).nimap.below(old(block).nimap.max_id() + 1),
        forall|k: u16| #[trigger] final(block).nimap.has(k) ==> final(block).nimap.name(k) == new_node@
            || exists|j: u16| #[trigger] old(block).nimap.has(j) && old(block).nimap.name(j) == final(block).nimap.name(k),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] final(block).node(i) ==
            (if sel(area, invert, unkey(key as int), i) && old(block).node(i) == old(block).nimap.name(old_id) { new_node@ } else { old(block).node(i) }),
        r == cnt(renamed(area, invert, unkey(key as int), *old(block), old(block).nimap.name(old_id)), 4096),
>>>
entry <<<
    hide(inbox); hide(sel); hide(lin);
    let ghost B = *block;
    let ghost N = B.node_data.nodes@;
    let ghost m = B.nimap.max_id();
    let ghost b = unkey(key as int);
    let ghost mut NM = B.nimap;
    let ghost mut M = N;
    let ghost mut A: Area = arbitrary();
    let ghost mut P: int = 0;
    proof { B.nimap.lemma_max(); lemma_unpack_pack(key as int); }
>>>
loop 0 before <<<
    proof { A = node_area; }
>>>
loop 0 <<<
    invariant_except_break
        P == __t0.idx,
    invariant
        __t0.wf(), __t0.area == node_area, A == node_area, N.len() == 4096, nodes@.len() == 4096, new_id as int <= m + 1,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nodes@[i] == (if !inbox(node_area, i) && i < __t0.idx && N[i] == old_id { new_id } else { N[i] }),
        0 <= P <= 4096, replaced == cnt(hits(B, old_id, node_area, true), P), replaced <= P,
        B.node_data.nodes@ == N,
    ensures __t0.idx == 4096, forall|j: int| P <= j < 4096 ==> #[trigger] inbox(node_area, j),
    decreases 4096 - __t0.idx
>>>
loop 0 head <<<
    proof { lemma_cnt_none(hits(B, old_id, node_area, true), P, idx as int); }
>>>
loop 0 tail <<<
    proof { P = __t0.idx as int; }
>>>
loop 0 after <<<
    proof { lemma_cnt_none(hits(B, old_id, node_area, true), P, 4096); }
>>>
loop 1 before <<<
    proof { A = node_area; lemma_before_first(node_area); lemma_cnt_none(hits(B, old_id, node_area, false), 0, pos_idx(node_area.min)); }
>>>
loop 1 kind=into <<<
    invariant
        __t1.wf(), __t1.area() == node_area, A == node_area, node_area.valid(), node_area.within(0, 15), N.len() == 4096, nodes@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nodes@[i] == (if inbox(node_area, i) && i < next_idx(__t1) && N[i] == old_id { new_id } else { N[i] }),
        replaced == cnt(hits(B, old_id, node_area, false), imin(next_idx(__t1), 4096)), replaced <= imin(next_idx(__t1), 4096),
        B.node_data.nodes@ == N, 0 <= next_idx(__t1),
    ensures next_idx(__t1) >= 256 * (node_area.max.z + 1)
    decreases node_area.vol() - __t1.done()
>>>
loop 1 tail <<<
    proof {
        let h = hits(B, old_id, node_area, false);
        let k = pos_idx(pos);
        assert(h(k) == (inbox(node_area, k) && N[k] == old_id));
        lemma_cnt_none(h, k + 1, imin(next_idx(__t1), 4096));
    }
>>>
loop 1 head <<<
    proof { lemma_next(node_area, pos); assert(pos.x + 16 * (pos.y + 16 * pos.z) == pos_idx(pos)); }
>>>
loop 1 after <<<
    proof {
        lemma_box_ends(node_area);
        lemma_cnt_none(hits(B, old_id, node_area, false), imin(next_idx(__t1), 4096), 4096);
    }
>>>
call contains 0 before <<<
    proof {
        M = nodes@; NM = block.nimap;
        let a = area.unwrap();
        lemma_part(a, invert, b, A);
        let h = hits(B, old_id, A, invert);
        lemma_cnt_pos(h, 4096);
        assert forall|i: int| 0 <= i < 4096 implies NM.has(#[trigger] M[i]) && NM.name(M[i]) == want(area, invert, b, B, old_id, new_node@, i) by {
            assert(B.nimap.has(B.node_data.nodes@[i]));
            assert(h(i) == (inbox(A, i) != invert && N[i] == old_id));
            assert(sel(Some(a), invert, b, i) == (inbox(A, i) != invert));
            assert(M[i] == (if h(i) { new_id } else { N[i] }));
        }
        assert(NM.below(m + 1));
    }
>>>
call remove_shift 0 after <<<
    proof { lemma_without(NM, block.nimap, old_id, m + 1); }
>>>
call remove_shift 1 after <<<
    proof {
        lemma_without(B.nimap, block.nimap, old_id, m);
        assert(B.nimap.has(new_id));
        assert(block.nimap.has(down(new_id, old_id)) && block.nimap.name(down(new_id, old_id)) == new_node@);
    }
>>>
loop 2 kind=mutvec <<<
    invariant
        nodes@.len() == 4096, M.len() == 4096, 0 <= __i2 <= 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nodes@[i] == (if i < __i2 { down(M[i], old_id) } else { M[i] }),
    decreases 4096 - __i2
>>>
loop 3 kind=mutvec <<<
    invariant
        nodes@.len() == 4096, N.len() == 4096, 0 <= __i3 <= 4096,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] nodes@[i] == (if i < __i3 { if N[i] == old_id { new_id } else { down(N[i], old_id) } } else { N[i] }),
        replaced == cnt(all_of(N, old_id), __i3 as int), replaced <= __i3,
    decreases 4096 - __i3
>>>
loop 4 kind=mutvec <<<
    invariant
        nodes@.len() == 4096, N == nodes@, 0 <= __i4 <= 4096,
        replaced == cnt(all_of(N, old_id), __i4 as int), replaced <= __i4,
    decreases 4096 - __i4
>>>
exit <<<
    proof {
        let name = B.nimap.name(old_id);
        let h = renamed(area, invert, b, B, name);
        assert forall|i: int| 0 <= i < 4096 implies (#[trigger] N[i] == old_id) == (B.node(i) == name) by { assert(B.nimap.has(B.node_data.nodes@[i])); }
        if area.is_some() && area.unwrap().covers(b) != area.unwrap().meets(b) {
            let a = area.unwrap();
            lemma_part(a, invert, b, A);
            let g = hits(B, old_id, A, invert);
            assert forall|i: int| 0 <= i < 4096 implies #[trigger] g(i) == h(i) by { assert(N[i] == N[i]); assert(sel(Some(a), invert, b, i) == (inbox(A, i) != invert)); }
            lemma_cnt_same(g, h, 4096);
            assert forall|i: int| 0 <= i < 4096 implies block.nimap.has(#[trigger] block.node_data.nodes@[i]) && block.node(i) == want(area, invert, b, B, old_id, new_node@, i) by {
                assert(NM.has(M[i]));
            }
        } else {
            lemma_whole(area, invert, b);
            let g = all_of(N, old_id);
            assert forall|i: int| 0 <= i < 4096 implies #[trigger] g(i) == h(i) by { assert(N[i] == N[i]); assert(sel(area, invert, b, i)); }
            lemma_cnt_same(g, h, 4096);
            assert forall|i: int| 0 <= i < 4096 implies block.nimap.has(#[trigger] block.node_data.nodes@[i]) && block.node(i) == want(area, invert, b, B, old_id, new_node@, i) by {
                assert(B.nimap.has(B.node_data.nodes@[i])); assert(N[i] == N[i]); assert(sel(area, invert, b, i));
            }
        }
    }
>>>

fn replace_nodes rlimit=100 spinoff_prover own
spec <<<
    requires old(inst).ready(), distinct_names(old(inst).db@), old(inst).args.node.is_some(), old(inst).args.new_node.is_some(),
        sbytes(old(inst).args.node.unwrap()@) != sbytes(old(inst).args.new_node.unwrap()@),
        sbytes(old(inst).args.new_node.unwrap()@).len() <= 65535,
    ensures
        final(inst).same_session(old(inst)),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            replace_rel(old(inst).args.area, old(inst).args.invert, sbytes(old(inst).args.node.unwrap()@), sbytes(old(inst).args.new_node.unwrap()@))(k, old(inst).db@[k], final(inst).db@[k]),
        reported(old(inst).status@, final(inst).status@, old(inst).db@, seq![sbytes(old(inst).args.node.unwrap()@)], old(inst).args.area, old(inst).args.invert,
            name_count(old(inst).db@, old(inst).args.area, old(inst).args.invert, sbytes(old(inst).args.node.unwrap()@))),
>>>
entry <<<
    hide(sel); hide(total); hide(progress); hide(in_map); hide(norm_meta); hide(cnt); hide(picks);
    let ghost m = inst.db@;
    let ghost on = sbytes(inst.args.node.unwrap()@);
    let ghost nn = sbytes(inst.args.new_node.unwrap()@);
    let ghost rel = replace_rel(inst.args.area, inst.args.invert, on, nn);
    let ghost g = name_count(m, inst.args.area, inst.args.invert, on);
    let ghost mut KS: Seq<i64> = seq![];
>>>
call query_keys 0 after <<<
    proof {
        reveal(picks);
        KS = keys@;
        assert(views(seq![old_node]) =~= seq![on]);
        lemma_progress_start(m, keys@, seq![on], inst.args.area, inst.args.invert, rel);
    }
>>>
loop 0 <<<
    invariant
        inst.same_session(old(inst)), inst.args == old(inst).args, area_ok(inst.args.area), inst.args.area.is_some() || !inst.args.invert,
        old_node@ == on, new_node@ == nn, on != nn, nn.len() <= 65535,
        m == old(inst).db@, keys_in_range(m), roomy(m), distinct_names(m), KS == __s0@,
        rel == replace_rel(inst.args.area, inst.args.invert, on, nn), g == name_count(m, inst.args.area, inst.args.invert, on),
        __s0.len() <= 0x10_0000_0000, picks(__s0@, m, seq![on], inst.args.area, inst.args.invert),
        0 <= __i0 <= __s0.len(),
        progress(m, inst.db@, __s0@, __i0 as int, rel),
        count == total(__s0@, g, __i0 as int), count <= 4096 * __i0,
        inst.status@.failed == old(inst).status@.failed + total(__s0@, bad(m), __i0 as int), inst.status@.log == old(inst).status@.log,
        inst.status@.counting(__i0 as int, __s0.len() as int),
    decreases __s0.len() - __i0
>>>
loop 0 head <<<
    let ghost kk = __s0@[__i0 - 1];
    proof {
        reveal(total); reveal(picks);
        lemma_progress(m, inst.db@, __s0@, __i0 - 1, rel);
        assert(__s0@.contains(kk));
        lemma_unpack_pack(kk as int);
    }
    let ghost b = unkey(kk as int);
>>>
call deserialize 0 after <<<
    let ghost B = block;
    proof {
        lemma_view(B);
        B.nimap.lemma_max();
        assert(B.nimap.has(B.node_data.nodes@[0]));
        assert forall|k: u16| #[trigger] B.nimap.has(k) implies k < 7000 by { assert(B@.names.dom().contains(k)); }
        assert(B.nimap.distinct()) by {
            assert forall|j: u16, k: u16| #[trigger] B.nimap.has(j) && #[trigger] B.nimap.has(k) && B.nimap.name(j) == B.nimap.name(k) implies j == k by {
                assert(B@.names.dom().contains(j)); assert(B@.names.dom().contains(k));
            }
        }
        lemma_name_count(inst.args.area, inst.args.invert, b, B, on);
        lemma_cnt_range(name_at(inst.args.area, inst.args.invert, b, B@, on), 4096);
    }
>>>
call do_replace 0 before <<<
    proof { assert(B@.names.dom().contains(old_id) && B@.names[old_id] == on); }
>>>
call serialize 0 before <<<
    proof {
        lemma_replaced(inst.args.area, inst.args.invert, on, nn, b, B, block);
    }
>>>
loop 0 after <<<
    proof {
        assert forall|k: i64| m.dom().contains(k) && !#[trigger] KS.contains(k) implies rel(k, m[k], m[k]) by {
            if dec(m[k]).is_some() { lemma_unpicked(KS, m, on, inst.args.area, inst.args.invert, k); }
        }
        lemma_progress_end(m, inst.db@, KS, rel);
    }
>>>
exit <<<
    proof {
        assert(count == total(KS, g, KS.len() as int));
        assert(says(inst.status@.log.last(), total(KS, g, KS.len() as int)));
        assert(picks(KS, m, seq![on], inst.args.area, inst.args.invert));
    }
>>>
