module delete_timers commands/delete_timers.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, group_says};
/// Timers that are not on a chosen node.
pub open spec fn spared(f: spec_fn(int) -> bool) -> spec_fn(NodeTimer) -> bool { |t: NodeTimer| !f(t.pos as int) }
pub open spec fn timers_left(b: BlockV, f: spec_fn(int) -> bool) -> Seq<NodeTimer> { sieve(b.timers, spared(f), 0) }
pub open spec fn timer_rel(area: Option<Area>, invert: bool, name: Option<Bytes>) -> spec_fn(i64, Bytes, Bytes) -> bool {
    |k: i64, old: Bytes, new: Bytes| match dec(old) {
        None => new == old,
        Some(b) => if !concerns(b, name) || !area_hit(area, invert, true, unkey(k as int)) || timers_left(b, opt_at(area, invert, unkey(k as int), b, name)).len() == b.timers.len() { new == old } else {
            dec(new) == Some(BlockV { timers: timers_left(b, opt_at(area, invert, unkey(k as int), b, name)), ..b.norm() })
        },
    }
}
pub open spec fn timer_count(m: Map<i64, Bytes>, area: Option<Area>, invert: bool, name: Option<Bytes>) -> spec_fn(i64) -> int {
    |k: i64| match dec(m[k]) {
        Some(b) => if concerns(b, name) { b.timers.len() - timers_left(b, opt_at(area, invert, unkey(k as int), b, name)).len() } else { 0 },
        None => 0,
    }
}
pub proof fn lemma_timers_left(B: MapBlock, C: MapBlock, f: spec_fn(int) -> bool)
    requires B.wf(), B@.storable(), C == (MapBlock { node_timers: C.node_timers, ..B }), C.node_timers@ == timers_left(B@, f)
    ensures C.wf(), C@.storable(), C@.norm() == (BlockV { timers: timers_left(B@, f), ..B@.norm() })
{
    lemma_sieve(B@.timers, spared(f), 0);
    assert(C@.meta == B@.meta); assert(C@.objs == B@.objs);
    assert forall|i: int| 0 <= i < C.node_timers@.len() implies (#[trigger] C.node_timers@[i]).pos < 4096 by {
        let j = choose|j: int| 0 <= j < B@.timers.len() && B@.timers[j] == C.node_timers@[i];
        assert(B.node_timers@[j].pos < 4096);
    }
}
>>>
fn delete_timers rlimit=100 spinoff_prover own
spec <<<
    requires old(inst).ready(), distinct_names(old(inst).db@),
    ensures
        final(inst).same_session(old(inst)),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            timer_rel(old(inst).args.area, old(inst).args.invert, opt_bytes(old(inst).args.node))(k, old(inst).db@[k], final(inst).db@[k]),
        reported(old(inst).status@, final(inst).status@, old(inst).db@, opt_seq(opt_bytes(old(inst).args.node)), old(inst).args.area, old(inst).args.invert,
            timer_count(old(inst).db@, old(inst).args.area, old(inst).args.invert, opt_bytes(old(inst).args.node))),
>>>
entry <<<
    hide(total); hide(progress); hide(in_map); hide(picks); hide(concerns); hide(sieve);
    let ghost m = inst.db@;
    let ghost on = opt_bytes(inst.args.node);
    let ghost area = inst.args.area;
    let ghost invert = inst.args.invert;
    let ghost rel = timer_rel(area, invert, on);
    let ghost g = timer_count(m, area, invert, on);
    let ghost mut KS: Seq<i64> = seq![];
>>>
call query_keys 0 after <<<
    proof {
        reveal(picks);
        KS = keys@;
        if node.is_some() { assert(views(seq![node.unwrap()]) =~= seq![node.unwrap()@]); } else { assert(views(Seq::<Vec<u8>>::empty()) =~= Seq::<Bytes>::empty()); }
        lemma_progress_start(m, keys@, opt_seq(on), area, invert, rel);
    }
>>>
loop 0 <<<
    invariant
        inst.same_session(old(inst)), inst.args == old(inst).args, area == inst.args.area, invert == inst.args.invert, area_ok(area), area.is_some() || !invert,
        node.is_some() == on.is_some(), node matches Some(n) ==> n@ == on.unwrap(), on == opt_bytes(inst.args.node),
        m == old(inst).db@, keys_in_range(m), roomy(m), distinct_names(m), KS == __s0@,
        rel == timer_rel(area, invert, on), g == timer_count(m, area, invert, on),
        __s0.len() <= 0x10_0000_0000, picks(__s0@, m, opt_seq(on), area, invert),
        0 <= __i0 <= __s0.len(),
        progress(m, inst.db@, __s0@, __i0 as int, rel),
        count == total(__s0@, g, __i0 as int), count <= 65535 * __i0,
        inst.status@.failed == old(inst).status@.failed + total(__s0@, bad(m), __i0 as int), inst.status@.log == old(inst).status@.log,
        inst.status@.counting(__i0 as int, __s0.len() as int),
    decreases __s0.len() - __i0
>>>
loop 0 head <<<
    let ghost kk = __s0@[__i0 - 1];
    proof {
        reveal(total); reveal(picks);
        lemma_progress(m, inst.db@, __s0@, __i0 - 1, rel);
        assert(__s0@.contains(kk));
        lemma_unpack_pack(kk as int);
    }
    let ghost b = unkey(kk as int);
    let ghost mut f: spec_fn(int) -> bool = |i: int| true;
>>>
call deserialize 0 after <<<
    let ghost B = block;
    let ghost T0 = block.node_timers@;
    let ghost count0 = count as int;
    proof {
        reveal(concerns);
        f = opt_at(area, invert, b, B@, on);
        lemma_view(B);
        if on.is_some() && B@.has_name(on.unwrap()) {
            let k = choose|k: u16| #[trigger] B@.names.dom().contains(k) && B@.names[k] == on.unwrap();
            assert(B.nimap.has(k) && B.nimap.name(k) == on.unwrap());
        }
        lemma_sieve(T0, spared(f), 0);
    }
>>>
loop 1 <<<
    invariant
        block == (MapBlock { node_timers: block.node_timers, ..B }), B.wf(), B@.distinct(), b.in_key_range(), 0 <= __i1 <= T0.len(), __e1 == 0, T0 == B.node_timers@, T0.len() <= 65535,
        inst.args.area == area, inst.args.invert == invert, f == opt_at(area, invert, b, B@, on), block_corner.x == 16 * b.x, block_corner.y == 16 * b.y, block_corner.z == 16 * b.z,
        on.is_some() == node_id.is_some(), on.is_some() ==> B.nimap.has(node_id.unwrap()) && B.nimap.name(node_id.unwrap()) == on.unwrap(),
        block.node_timers@ == T0.subrange(0, __i1 as int) + sieve(T0, spared(f), __i1 as int),
        count + block.node_timers@.len() == count0 + T0.len(), count0 <= 65535 * 0x10_0000_0000, modified == (block.node_timers@.len() < T0.len()),
    decreases __i1
>>>
loop 1 head <<<
    proof {
        lemma_sieve_step(T0, spared(f), i as int);
        lemma_sieve(T0, spared(f), i + 1);
        lemma_id_name(B, on, node_id, T0[i as int].pos as int);
    }
>>>
loop 1 before <<<
    proof { reveal(sieve); assert(T0.subrange(0, T0.len() as int) =~= T0); assert(sieve(T0, spared(f), T0.len() as int) =~= seq![]); assert(T0 + seq![] =~= T0); }
>>>
loop 1 after <<<
    proof {
        assert(T0.subrange(0, 0) + timers_left(B@, f) =~= timers_left(B@, f));
        lemma_timers_left(B, block, f);
    }
>>>
loop 0 after <<<
    proof {
        reveal(concerns);
        assert forall|k: i64| m.dom().contains(k) && !#[trigger] KS.contains(k) implies rel(k, m[k], m[k]) by {
            if dec(m[k]).is_some() { if on.is_some() { lemma_unpicked(KS, m, on.unwrap(), area, invert, k); } else { reveal(picks); } }
        }
        lemma_progress_end(m, inst.db@, KS, rel);
    }
>>>
exit <<<
    proof {
        assert(count == total(KS, g, KS.len() as int));
        assert(says(inst.status@.log.last(), total(KS, g, KS.len() as int)));
        assert(picks(KS, m, opt_seq(on), inst.args.area, inst.args.invert));
    }
>>>
