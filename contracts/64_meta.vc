module delete_meta commands/delete_meta.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, group_says};
/// The metadata positions chosen by f.
pub open spec fn chosen(m: Map<u16, MetaV>, f: spec_fn(int) -> bool) -> Set<u16> { m.dom().filter(|k: u16| f(k as int)) }
/// The metadata that is left.
pub open spec fn left(m: Map<u16, MetaV>, f: spec_fn(int) -> bool) -> Map<u16, MetaV> { m.restrict(m.dom().filter(|k: u16| !f(k as int))) }
pub open spec fn meta_rel(area: Option<Area>, invert: bool, name: Option<Bytes>) -> spec_fn(i64, Bytes, Bytes) -> bool {
    |k: i64, old: Bytes, new: Bytes| match dec(old) {
        None => new == old,
        Some(b) => if !concerns(b, name) || !area_hit(area, invert, true, unkey(k as int)) || chosen(b.meta, opt_at(area, invert, unkey(k as int), b, name)).len() == 0 { new == old } else {
            dec(new) matches Some(c) && c.same_rest(b) && c.same_nodes(b) && c.meta == norm_meta(b.version, left(b.meta, opt_at(area, invert, unkey(k as int), b, name)))
        },
    }
}
pub open spec fn meta_count(m: Map<i64, Bytes>, area: Option<Area>, invert: bool, name: Option<Bytes>) -> spec_fn(i64) -> int {
    |k: i64| match dec(m[k]) {
        Some(b) => if concerns(b, name) { chosen(b.meta, opt_at(area, invert, unkey(k as int), b, name)).len() as int } else { 0 },
        None => 0,
    }
}
pub open spec fn meta_kept(B: MapBlock, C: MapBlock, f: spec_fn(int) -> bool) -> bool {
    (forall|k: u16| #[trigger] C.metadata@.dom().contains(k) == (B.metadata@.dom().contains(k) && !f(k as int)))
        && (forall|k: u16| C.metadata@.dom().contains(k) ==> #[trigger] C.metadata@[k] == B.metadata@[k])
}
pub proof fn lemma_meta_left(B: MapBlock, C: MapBlock, f: spec_fn(int) -> bool)
    requires B.wf(), B@.storable(), C == (MapBlock { metadata: C.metadata, ..B }), meta_kept(B, C, f)
    ensures C.wf(), C@.storable(), C@.norm().same_rest(B@), C@.norm().same_nodes(B@), C@.norm().meta == norm_meta(B@.version, left(B@.meta, f))
{
    assert(C@.meta =~= left(B@.meta, f));
    assert forall|k: u16| #[trigger] C@.meta.dom().contains(k) implies C@.meta[k].storable() by { assert(B@.meta.dom().contains(k)); assert(C@.meta[k] == B@.meta[k]); }
}
>>>
fn delete_metadata rlimit=100 spinoff_prover own
spec <<<
    requires old(inst).ready(), distinct_names(old(inst).db@),
    ensures
        final(inst).same_session(old(inst)),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            meta_rel(old(inst).args.area, old(inst).args.invert, opt_bytes(old(inst).args.node))(k, old(inst).db@[k], final(inst).db@[k]),
        reported(old(inst).status@, final(inst).status@, old(inst).db@, opt_seq(opt_bytes(old(inst).args.node)), old(inst).args.area, old(inst).args.invert,
            meta_count(old(inst).db@, old(inst).args.area, old(inst).args.invert, opt_bytes(old(inst).args.node))),
>>>
entry <<<
    hide(total); hide(progress); hide(in_map); hide(norm_meta); hide(picks); hide(left); hide(concerns); hide(BlockV::storable);
    let ghost m = inst.db@;
    let ghost on = opt_bytes(inst.args.node);
    let ghost area = inst.args.area;
    let ghost invert = inst.args.invert;
    let ghost rel = meta_rel(area, invert, on);
    let ghost g = meta_count(m, area, invert, on);
    let ghost mut KS: Seq<i64> = seq![];
>>>
call query_keys 0 after <<<
    proof {
        reveal(picks);
        KS = keys@;
        if node.is_some() { assert(views(seq![node.unwrap()]) =~= seq![node.unwrap()@]); } else { assert(views(Seq::<Vec<u8>>::empty()) =~= Seq::<Bytes>::empty()); }
        lemma_progress_start(m, keys@, opt_seq(on), area, invert, rel);
    }
>>>
loop 0 <<<
    invariant
        inst.same_session(old(inst)), inst.args == old(inst).args, area == inst.args.area, invert == inst.args.invert, area_ok(area), area.is_some() || !invert,
        node.is_some() == on.is_some(), node matches Some(n) ==> n@ == on.unwrap(), on == opt_bytes(inst.args.node),
        m == old(inst).db@, keys_in_range(m), roomy(m), distinct_names(m), KS == __s0@,
        rel == meta_rel(area, invert, on), g == meta_count(m, area, invert, on),
        __s0.len() <= 0x10_0000_0000, picks(__s0@, m, opt_seq(on), area, invert),
        0 <= __i0 <= __s0.len(),
        progress(m, inst.db@, __s0@, __i0 as int, rel),
        count == total(__s0@, g, __i0 as int), count <= 4096 * __i0,
        inst.status@.failed == old(inst).status@.failed + total(__s0@, bad(m), __i0 as int), inst.status@.log == old(inst).status@.log,
        inst.status@.counting(__i0 as int, __s0.len() as int),
    decreases __s0.len() - __i0
>>>
loop 0 head <<<
    let ghost kk = __s0@[__i0 - 1];
    proof {
        reveal(total); reveal(picks);
        lemma_progress(m, inst.db@, __s0@, __i0 - 1, rel);
        assert(__s0@.contains(kk));
        lemma_unpack_pack(kk as int);
    }
    let ghost b = unkey(kk as int);
    let ghost mut f: spec_fn(int) -> bool = |i: int| true;
>>>
call deserialize 0 after <<<
    let ghost B = block;
    proof {
        reveal(concerns);
        f = opt_at(area, invert, b, B@, on);
        lemma_view(B);
        if on.is_some() && B@.has_name(on.unwrap()) {
            let k = choose|k: u16| #[trigger] B@.names.dom().contains(k) && B@.names[k] == on.unwrap();
            assert(B.nimap.has(k) && B.nimap.name(k) == on.unwrap());
        }
        lemma_small_set(chosen(B@.meta, f), 4096);
    }
>>>
loop 1 <<<
    invariant
        *__s1 == B.metadata, block == B, B.wf(), B@.distinct(), 0 <= __i1 <= __s1.keys().len(), b.in_key_range(),
        inst.args.area == area, inst.args.invert == invert, f == opt_at(area, invert, b, B@, on), block_corner.x == 16 * b.x, block_corner.y == 16 * b.y, block_corner.z == 16 * b.z,
        on.is_some() == node_id.is_some(), on.is_some() ==> B.nimap.has(node_id.unwrap()) && B.nimap.name(node_id.unwrap()) == on.unwrap(),
        to_delete@.no_duplicates(),
        forall|k: u16| #[trigger] to_delete@.contains(k) ==> f(k as int) && exists|j: int| 0 <= j < __i1 && #[trigger] __s1.keys()[j] == k,
        forall|j: int| 0 <= j < __i1 && f(#[trigger] __s1.keys()[j] as int) ==> to_delete@.contains(__s1.keys()[j]),
    decreases __s1.keys().len() - __i1
>>>
loop 1 head <<<
    let ghost T = to_delete@;
    proof {
        assert(__s1.keys()[__i1 - 1] == idx);
        assert(idx < 4096);
        lemma_id_name(B, on, node_id, idx as int);
        assert(!T.contains(idx)) by {
            if T.contains(idx) { let j = choose|j: int| 0 <= j < __i1 - 1 && #[trigger] __s1.keys()[j] == idx; assert(__s1.keys()[j] < __s1.keys()[__i1 - 1]); }
        }
    }
>>>
loop 1 tail <<<
    proof {
        let U = to_delete@;
        if U.len() != T.len() {
            assert(U =~= T.push(idx));
            assert(U[T.len() as int] == idx);
            assert forall|k: u16| #[trigger] U.contains(k) == (T.contains(k) || k == idx) by {
                if T.contains(k) { let i = choose|i: int| 0 <= i < T.len() && T[i] == k; assert(U[i] == k); }
            }
        }
    }
>>>
loop 1 after <<<
    proof {
        assert forall|k: u16| #[trigger] to_delete@.contains(k) == chosen(B@.meta, f).contains(k) by {
            if chosen(B@.meta, f).contains(k) { assert(B.metadata@.dom().contains(k)); assert(B.metadata.keys().contains(k)); }
        }
        lemma_seq_set(to_delete@, chosen(B@.meta, f));
    }
>>>
loop 2 <<<
    invariant
        *__s2 == to_delete, 0 <= __i2 <= to_delete@.len(), block == (MapBlock { metadata: block.metadata, ..B }),
        forall|k: u16| #[trigger] block.metadata@.dom().contains(k) == (B.metadata@.dom().contains(k) && !to_delete@.subrange(0, __i2 as int).contains(k)),
        forall|k: u16| block.metadata@.dom().contains(k) ==> #[trigger] block.metadata@[k] == B.metadata@[k],
    decreases to_delete@.len() - __i2
>>>
loop 2 tail <<<
    proof {
        let t0 = to_delete@.subrange(0, __i2 - 1);
        let t = to_delete@.subrange(0, __i2 as int);
        assert(t =~= t0.push(*idx));
        assert(t[__i2 - 1] == *idx);
        assert forall|k: u16| #[trigger] t.contains(k) == (t0.contains(k) || k == *idx) by {
            if t0.contains(k) { let i = choose|i: int| 0 <= i < t0.len() && t0[i] == k; assert(t[i] == k); }
        }
    }
>>>
loop 2 after <<<
    proof {
        assert(to_delete@.subrange(0, to_delete@.len() as int) =~= to_delete@);
        assert forall|k: u16| #[trigger] block.metadata@.dom().contains(k) == (B.metadata@.dom().contains(k) && !f(k as int)) by {
            assert(to_delete@.contains(k) == chosen(B@.meta, f).contains(k));
        }
        lemma_meta_left(B, block, f);
    }
>>>
loop 0 after <<<
    proof {
        reveal(concerns);
        assert forall|k: i64| m.dom().contains(k) && !#[trigger] KS.contains(k) implies rel(k, m[k], m[k]) by {
            if dec(m[k]).is_some() { if on.is_some() { lemma_unpicked(KS, m, on.unwrap(), area, invert, k); } else { reveal(picks); } }
        }
        lemma_progress_end(m, inst.db@, KS, rel);
    }
>>>
exit <<<
    proof {
        assert(count == total(KS, g, KS.len() as int));
        assert(says(inst.status@.log.last(), total(KS, g, KS.len() as int)));
        assert(picks(KS, m, opt_seq(on), inst.args.area, inst.args.invert));
    }
>>>
