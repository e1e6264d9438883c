module delete_blocks commands/delete_blocks.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
>>>
fn delete_blocks own
spec <<<
    requires old(inst).db.wf(), old(inst).status@.fresh(), keys_in_range(old(inst).db@), area_ok(old(inst).args.area), old(inst).args.area.is_some() || !old(inst).args.invert
    ensures
        final(inst).kept(old(inst)), final(inst).status@.failed == 0, final(inst).status@.log == old(inst).status@.log,
        // exactly the blocks wholly inside (outside) are gone
        forall|k: i64| #[trigger] final(inst).db@.dom().contains(k) == (old(inst).db@.dom().contains(k) && !area_hit(old(inst).args.area, old(inst).args.invert, false, unkey(k as int))),
        forall|k: i64| final(inst).db@.dom().contains(k) ==> #[trigger] final(inst).db@[k] == old(inst).db@[k],
>>>
entry <<<
    let ghost m = inst.db@;
    let ghost a = inst.args.area;
    let ghost inv = inst.args.invert;
    let ghost mut KS: Seq<i64> = seq![];
    proof { assert(views(Seq::<Vec<u8>>::empty()) =~= Seq::<Bytes>::empty()); }
>>>
call query_keys 0 after <<<
    proof { KS = keys@; }
>>>
loop 0 <<<
    invariant
        inst.kept(old(inst)), inst.status@.failed == 0, inst.status@.log == old(inst).status@.log, inst.status@.counting(__i0 as int, __s0.len() as int), KS == __s0@, m == old(inst).db@,
        0 <= __i0 <= __s0.len(),
        forall|k: i64| #[trigger] inst.db@.dom().contains(k) == (m.dom().contains(k) && !KS.subrange(0, __i0 as int).contains(k)),
        forall|k: i64| inst.db@.dom().contains(k) ==> #[trigger] inst.db@[k] == m[k],
    decreases __s0.len() - __i0
>>>
loop 0 tail <<<
    proof {
        let t = KS.subrange(0, __i0 as int);
        assert(t =~= KS.subrange(0, __i0 - 1).push(KS[__i0 - 1]));
        assert forall|k: i64| #[trigger] t.contains(k) == (KS.subrange(0, __i0 - 1).contains(k) || k == key) by {
            if KS.subrange(0, __i0 - 1).contains(k) {
                let i = choose|i: int| 0 <= i < __i0 - 1 && #[trigger] KS.subrange(0, __i0 - 1)[i] == k;
                assert(t[i] == k);
            }
            assert(t[__i0 - 1] == key);
        }
    }
>>>
loop 0 after <<<
    proof { assert(KS.subrange(0, KS.len() as int) =~= KS); }
>>>
module vacuum commands/vacuum.rs
fn vacuum own
spec <<<
    requires old(inst).db.wf()
    ensures
        // no block is changed
        final(inst).db@ == old(inst).db@, final(inst).db.wf(), final(inst).db.conn@.ro == old(inst).db.conn@.ro, final(inst).status@.answer == old(inst).status@.answer, final(inst).args == old(inst).args, final(inst).idb == old(inst).idb,
        final(inst).db.disk() == old(inst).db.disk() || final(inst).db.disk() == old(inst).db@,
>>>
