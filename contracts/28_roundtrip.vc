module roundtrip map_block/mod.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
// ---- reading what was written ------------------------------------------------------------------
pub proof fn rt_u8(x: u8, post: Bytes) ensures p_u8(seq![x] + post) == Some((x, post)) { assert((seq![x] + post).skip(1) =~= post); }
pub proof fn rt_u16(n: u16, post: Bytes) ensures p_u16(be16(n) + post) == Some((n, post))
{
    let s = be16(n) + post;
    assert(s.skip(2) =~= post);
    assert(s[0] == (n / 256) as u8 && s[1] == (n % 256) as u8);
}
pub proof fn rt_u32(n: u32, post: Bytes) ensures p_u32(be32(n) + post) == Some((n, post))
{
    let s = be32(n) + post;
    assert(s.skip(4) =~= post);
    assert(s[0] == (n / 0x100_0000) as u8 && s[1] == (n / 0x1_0000 % 0x100) as u8 && s[2] == (n / 0x100 % 0x100) as u8 && s[3] == (n % 0x100) as u8);
}
pub proof fn rt_i32(n: i32, post: Bytes) ensures p_i32(bei32(n) + post) == Some((n, post)) { rt_u32(if n >= 0 { n as u32 } else { (n + 0x1_0000_0000) as u32 }, post); }
pub proof fn rt_n(d: Bytes, post: Bytes) ensures p_n(d + post, d.len() as int) == Some((d, post)) { assert((d + post).take(d.len() as int) =~= d); assert((d + post).skip(d.len() as int) =~= post); }
pub proof fn rt_s16(d: Bytes, post: Bytes) requires d.len() <= 65535 ensures p_s16(enc_s16(d) + post) == Some((d, post))
{
    rt_n(d, post); rt_u16(d.len() as u16, d + post);
    assert(enc_s16(d) + post =~= be16(d.len() as u16) + (d + post));
}
pub proof fn rt_s32(d: Bytes, post: Bytes) requires d.len() <= u32::MAX ensures p_s32(enc_s32(d) + post) == Some((d, post))
{
    rt_n(d, post); rt_u32(d.len() as u32, d + post);
    assert(enc_s32(d) + post =~= be32(d.len() as u32) + (d + post));
}
// names
pub open spec fn names_of(m: Map<u16, Vec<u8>>, ks: Seq<u16>) -> Map<u16, Bytes>
    decreases ks.len()
{
    if ks.len() == 0 { Map::empty() } else { names_of(m, ks.drop_last()).insert(ks.last(), m[ks.last()]@) }
}
pub proof fn lemma_names_of(m: Map<u16, Vec<u8>>, ks: Seq<u16>)
    ensures names_of(m, ks).dom() == ks.to_set(), forall|k: u16| ks.contains(k) ==> #[trigger] names_of(m, ks)[k] == m[k]@
    decreases ks.len()
{
    if ks.len() > 0 {
        let t = ks.drop_last();
        lemma_names_of(m, t);
        assert(ks =~= t.push(ks.last()));
        assert forall|k: u16| #[trigger] ks.contains(k) == (t.contains(k) || k == ks.last()) by { if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(ks[i] == k); } if k == ks.last() { assert(ks[ks.len() - 1] == k); } if ks.contains(k) && k != ks.last() { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(t[i] == k); } }
        assert(names_of(m, ks).dom() =~= ks.to_set());
    } else { assert(names_of(m, ks).dom() =~= ks.to_set()); }
}
pub proof fn rt_names_n(m: Map<u16, Vec<u8>>, ks: Seq<u16>, post: Bytes)
    requires forall|i: int| 0 <= i < ks.len() ==> m[#[trigger] ks[i]]@.len() <= 65535
    ensures p_names_n(enc_names_n(m, ks) + post, ks.len()) == Some((names_of(m, ks), post))
    decreases ks.len()
{
    if ks.len() == 0 { assert(enc_names_n(m, ks) + post =~= post); } else {
        let (t, k) = (ks.drop_last(), ks.last());
        assert(m[ks[ks.len() - 1]]@.len() <= 65535);
        let d = m[k]@;
        let p1 = enc_s16(d) + post;
        assert forall|i: int| 0 <= i < t.len() implies m[#[trigger] t[i]]@.len() <= 65535 by { assert(t[i] == ks[i]); }
        rt_names_n(m, t, be16(k) + p1);
        rt_u16(k, p1); rt_s16(d, post);
        assert(enc_names_n(m, ks) + post =~= enc_names_n(m, t) + (be16(k) + p1));
    }
}
pub proof fn rt_names(n: NameIdMap, post: Bytes)
    requires n.0@.dom().len() <= 65535, forall|k: u16| #[trigger] n.0@.dom().contains(k) ==> n.0@[k]@.len() <= 65535
    ensures p_names(enc_names(n.0@) + post) == Some((n@, post))
{
    let (m, ks) = (n.0@, keys_of(n.0@));
    let p2 = enc_names_n(m, ks) + post;
    rt_names_n(m, ks, post); rt_u16(ks.len() as u16, p2); rt_u8(0, be16(ks.len() as u16) + p2);
    lemma_names_of(m, ks);
    assert(names_of(m, ks) =~= n@) by { assert(ks.to_set() =~= m.dom()); }
    assert(enc_names(m) + post =~= seq![0u8] + (be16(ks.len() as u16) + p2));
}
// nodes
pub proof fn rt_u16s(v: Seq<u16>) ensures u16s(enc_u16s(v)) == v
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] u16s(enc_u16s(v))[i] == v[i] by {
        let n = v[i];
        assert(enc_u16s(v)[2 * i] == (n / 0x100) as u8) by { assert((2 * i) / 2 == i && (2 * i) % 2 == 0); }
        assert(enc_u16s(v)[2 * i + 1] == (n % 0x100) as u8) by { assert((2 * i + 1) / 2 == i && (2 * i + 1) % 2 == 1); }
    }
    assert(u16s(enc_u16s(v)) =~= v);
}
pub proof fn rt_nodes(n: NodesV, post: Bytes)
    requires n.nodes.len() == 4096, n.p1.len() == 4096, n.p2.len() == 4096
    ensures p_nodes(enc_nodes(n) + post) == Some((n, post))
{
    rt_u16s(n.nodes);
    rt_n(n.p2, post); rt_n(n.p1, n.p2 + post); rt_n(enc_u16s(n.nodes), n.p1 + (n.p2 + post));
    assert(enc_nodes(n) + post =~= enc_u16s(n.nodes) + (n.p1 + (n.p2 + post)));
}
pub proof fn rt_zlib(d: Bytes, post: Bytes) ensures p_zlib(zip(d) + post) == Some((d, post)) { ax_zip(d, post); assert((zip(d) + post).skip(zip(d).len() as int) =~= post); }
pub proof fn rt_znodes(n: NodesV, post: Bytes)
    requires n.nodes.len() == 4096, n.p1.len() == 4096, n.p2.len() == 4096
    ensures p_znodes(zip(enc_nodes(n)) + post) == Some((n, post))
{
    rt_zlib(enc_nodes(n), post);
    rt_nodes(n, seq![]);
    assert(enc_nodes(n) + seq![] =~= enc_nodes(n));
}
// inventories
pub proof fn rt_inv(v: Bytes, post: Bytes)
    requires first_end(v)
    ensures p_inv(v + post) == Some((v, post))
{
    lemma_end_strs();
    let s = v + post;
    let n = v.len() - 13;
    rt_n(v, post);
    assert(at(v, end_inv(), n));
    assert forall|i: int| 0 <= i <= n && at(s, end_inv(), i) implies #[trigger] at(v, end_inv(), i) by { assert(s.subrange(i, i + 13) =~= v.subrange(i, i + 13)); }
    assert(s.subrange(n, n + 13) =~= v.subrange(n, n + 13));
    if end_inv().is_prefix_of(s) {
        assert(s.subrange(0, 13) =~= end_inv());
        assert(at(s, end_inv(), 0));
        assert(at_line(v, 0));
        assert(n == 0);
    } else {
        if n == 0 { assert(end_inv().is_prefix_of(s)) by { assert(s.subrange(0, 13) =~= end_inv()); assert forall|i: int| 0 <= i < 13 implies end_inv()[i] == s[i] by { assert(s.subrange(0, 13)[i] == s[i]); } assert(s.take(13) =~= end_inv()); } }
        assert(s.subrange(n - 1, n - 1 + 14) =~= end_line()) by { assert forall|j: int| 0 <= j < 14 implies s.subrange(n - 1, n + 13)[j] == #[trigger] end_line()[j] by { if j > 0 { assert(s.subrange(n, n + 13)[j - 1] == end_inv()[j - 1]); } } }
        assert(at(s, end_line(), n - 1));
        assert(occurs(s, end_line()));
        lemma_first_at(s, end_line());
        let f = first_at(s, end_line());
        if f < n - 1 {
            assert(s.subrange(f + 1, f + 14) =~= end_inv()) by { assert forall|j: int| 0 <= j < 13 implies s.subrange(f + 1, f + 14)[j] == #[trigger] end_inv()[j] by { assert(s.subrange(f, f + 14)[j + 1] == end_line()[j + 1]); } }
            assert(at(s, end_inv(), f + 1));
            assert(at(v, end_inv(), f + 1));
            assert(s.subrange(f, f + 14)[0] == end_line()[0]);
            assert(at_line(v, f + 1));
        }
        assert(f == n - 1);
    }
}
pub proof fn lemma_inv_ends(s: Bytes)
    requires p_inv(s).is_some()
    ensures first_end(p_inv(s).unwrap().0)
{
    lemma_end_strs();
    let v = p_inv(s).unwrap().0;
    if end_inv().is_prefix_of(s) {
        assert(v =~= s.take(13));
        assert(v.subrange(0, 13) =~= end_inv());
    } else {
        lemma_first_at(s, end_line());
        let f = first_at(s, end_line());
        assert(v.len() == f + 14);
        assert(v.subrange(f + 1, f + 14) =~= end_inv()) by { assert forall|j: int| 0 <= j < 13 implies v.subrange(f + 1, f + 14)[j] == #[trigger] end_inv()[j] by { assert(s.subrange(f, f + 14)[j + 1] == end_line()[j + 1]); } }
        assert(v[f] == 10) by { assert(s.subrange(f, f + 14)[0] == end_line()[0]); }
        assert(at_line(v, f + 1));
        assert forall|i: int| 0 <= i < v.len() - 13 implies !#[trigger] at_line(v, i) by {
            if at_line(v, i) {
                assert(v.subrange(i, i + 13) =~= s.subrange(i, i + 13));
                if i == 0 { assert(end_inv().is_prefix_of(s)) by { assert(s.take(13) =~= end_inv()); } }
                else {
                    assert(s.subrange(i - 1, i + 13) =~= end_line()) by { assert forall|j: int| 0 <= j < 14 implies s.subrange(i - 1, i + 13)[j] == #[trigger] end_line()[j] by { if j > 0 { assert(s.subrange(i, i + 13)[j - 1] == end_inv()[j - 1]); } else { assert(v[i - 1] == s[i - 1]); } } }
                    assert(at(s, end_line(), i - 1));
                }
            }
        }
    }
}
// metadata
pub open spec fn vars_of(m: Map<Bytes, (Bytes, bool)>, ks: Seq<Bytes>, ver: u8) -> Map<Bytes, (Bytes, bool)>
    decreases ks.len()
{
    if ks.len() == 0 { Map::empty() } else { vars_of(m, ks.drop_last(), ver).insert(ks.last(), (m[ks.last()].0, m[ks.last()].1 && ver >= 2)) }
}
pub proof fn lemma_drop_last<A>(ks: Seq<A>)
    requires ks.len() > 0
    ensures forall|k: A| #[trigger] ks.contains(k) == (ks.drop_last().contains(k) || k == ks.last())
{
    let t = ks.drop_last();
    assert forall|k: A| #[trigger] ks.contains(k) == (t.contains(k) || k == ks.last()) by {
        if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(ks[i] == k); }
        if k == ks.last() { assert(ks[ks.len() - 1] == k); }
        if ks.contains(k) && k != ks.last() { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(t[i] == k); }
    }
}
pub proof fn lemma_vars_of(m: Map<Bytes, (Bytes, bool)>, ks: Seq<Bytes>, ver: u8)
    ensures vars_of(m, ks, ver).dom() == ks.to_set(), forall|k: Bytes| ks.contains(k) ==> #[trigger] vars_of(m, ks, ver)[k] == (m[k].0, m[k].1 && ver >= 2)
    decreases ks.len()
{
    if ks.len() > 0 { lemma_vars_of(m, ks.drop_last(), ver); lemma_drop_last(ks); }
    assert(vars_of(m, ks, ver).dom() =~= ks.to_set());
}
pub proof fn rt_vars(m: Map<Bytes, (Bytes, bool)>, ks: Seq<Bytes>, ver: u8, post: Bytes)
    requires forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).len() <= 65535 && m[ks[i]].0.len() <= u32::MAX
    ensures p_vars(enc_vars(m, ks, ver) + post, ver, ks.len()) == Some((vars_of(m, ks, ver), post))
    decreases ks.len()
{
    if ks.len() == 0 { assert(enc_vars(m, ks, ver) + post =~= post); } else {
        let (t, k) = (ks.drop_last(), ks.last());
        assert(ks[ks.len() - 1].len() <= 65535);
        let v = m[k];
        let f: Bytes = if ver >= 2 { seq![if v.1 { 1u8 } else { 0u8 }] } else { seq![] };
        let p1 = f + post;
        let p2 = enc_s32(v.0) + p1;
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() <= 65535 && m[t[i]].0.len() <= u32::MAX by { assert(t[i] == ks[i]); }
        rt_vars(m, t, ver, enc_s16(k) + p2);
        rt_s16(k, p2); rt_s32(v.0, p1);
        if ver >= 2 { rt_u8(if v.1 { 1u8 } else { 0u8 }, post); } else { assert(p1 =~= post); }
        assert(enc_vars(m, ks, ver) + post =~= enc_vars(m, t, ver) + (enc_s16(k) + p2));
    }
}
pub open spec fn old_vars(m: MetaV, ver: u8) -> MetaV { MetaV { vars: m.vars.map_values(|v: (Bytes, bool)| (v.0, v.1 && ver >= 2)), inv: m.inv } }
pub proof fn rt_meta(m: NodeMetadata, ver: u8, post: Bytes)
    requires m@.storable()
    ensures p_meta(enc_meta(m@, m.vars.hkeys(), ver) + post, ver) == Some((old_vars(m@, ver), post))
{
    broadcast use ax_hkeys;
    let (v, ks) = (m@, m.vars.hkeys());
    assert(v.vars.dom() =~= m.vars@.dom());
    assert(ks.len() == v.vars.dom().len());
    let p1 = v.inv + post;
    let p2 = enc_vars(v.vars, ks, ver) + p1;
    assert forall|i: int| 0 <= i < ks.len() implies (#[trigger] ks[i]).len() <= 65535 && v.vars[ks[i]].0.len() <= u32::MAX by { assert(v.vars.dom().contains(ks[i])); }
    rt_vars(v.vars, ks, ver, p1); rt_inv(v.inv, post); rt_u32(ks.len() as u32, p2);
    lemma_vars_of(v.vars, ks, ver);
    assert(vars_of(v.vars, ks, ver) =~= old_vars(v, ver).vars) by { assert(ks.to_set() =~= v.vars.dom()); }
    assert(enc_meta(v, ks, ver) + post =~= be32(ks.len() as u32) + p2);
}
pub open spec fn metas_of(m: Map<u16, NodeMetadata>, ks: Seq<u16>, ver: u8) -> Map<u16, MetaV>
    decreases ks.len()
{
    if ks.len() == 0 { Map::empty() }
    else if m[ks.last()]@.is_empty() { metas_of(m, ks.drop_last(), ver) }
    else { metas_of(m, ks.drop_last(), ver).insert(ks.last(), old_vars(m[ks.last()]@, ver)) }
}
pub proof fn lemma_metas_of(m: Map<u16, NodeMetadata>, ks: Seq<u16>, ver: u8)
    ensures
        forall|k: u16| #[trigger] metas_of(m, ks, ver).dom().contains(k) == (ks.contains(k) && !m[k]@.is_empty()),
        forall|k: u16| #[trigger] metas_of(m, ks, ver).dom().contains(k) ==> metas_of(m, ks, ver)[k] == old_vars(m[k]@, ver),
        live(m, ks) == 0 ==> metas_of(m, ks, ver) == Map::<u16, MetaV>::empty()
    decreases ks.len()
{
    let r = metas_of(m, ks, ver);
    if ks.len() > 0 {
        let t = ks.drop_last();
        let q = metas_of(m, t, ver);
        lemma_metas_of(m, t, ver); lemma_drop_last(ks);
        assert forall|k: u16| #[trigger] r.dom().contains(k) == (ks.contains(k) && !m[k]@.is_empty()) by {
            assert(q.dom().contains(k) == (t.contains(k) && !m[k]@.is_empty()));
        }
        assert forall|k: u16| #[trigger] r.dom().contains(k) implies r[k] == old_vars(m[k]@, ver) by { if k != ks.last() || m[k]@.is_empty() { assert(q.dom().contains(k)); } }
    }
}
pub proof fn rt_metas_n(m: Map<u16, NodeMetadata>, ks: Seq<u16>, ver: u8, post: Bytes)
    requires forall|i: int| 0 <= i < ks.len() ==> m[#[trigger] ks[i]]@.storable()
    ensures p_metas_n(enc_metas_n(m, ks, ver) + post, ver, live(m, ks)) == Some((metas_of(m, ks, ver), post))
    decreases ks.len()
{
    if ks.len() == 0 { assert(enc_metas_n(m, ks, ver) + post =~= post); } else {
        let (t, k) = (ks.drop_last(), ks.last());
        assert(m[ks[ks.len() - 1]]@.storable());
        assert forall|i: int| 0 <= i < t.len() implies m[#[trigger] t[i]]@.storable() by { assert(t[i] == ks[i]); }
        if m[k]@.is_empty() {
            rt_metas_n(m, t, ver, post);
            assert(enc_metas_n(m, ks, ver) + post =~= enc_metas_n(m, t, ver) + post);
        } else {
            let p1 = enc_meta(m[k]@, m[k].vars.hkeys(), ver) + post;
            rt_metas_n(m, t, ver, be16(k) + p1);
            rt_u16(k, p1); rt_meta(m[k], ver, post);
            assert(enc_metas_n(m, ks, ver) + post =~= enc_metas_n(m, t, ver) + (be16(k) + p1));
        }
    }
}
pub proof fn rt_metas(m: Map<u16, NodeMetadata>, version: u8, post: Bytes)
    requires m.dom().len() <= 65535, forall|k: u16| #[trigger] m.dom().contains(k) ==> m[k]@.storable()
    ensures p_metas(enc_metas(m, version) + post) == Some((norm_meta(version, meta_view(m)), post))
{
    hide(MetaV::is_empty); hide(MetaV::storable); hide(p_metas_n); hide(enc_metas_n); hide(norm_meta); hide(live); hide(metas_of);
    let ks = keys_of(m);
    let ver = meta_ver(version);
    let n = live(m, ks);
    let r = norm_meta(version, meta_view(m));
    lemma_live(m, ks); lemma_metas_of(m, ks, ver);
    lemma_metas_norm(m, version);
    if n == 0 {
        rt_u8(0, post);
    } else {
        let p2 = enc_metas_n(m, ks, ver) + post;
        assert forall|i: int| 0 <= i < ks.len() implies m[#[trigger] ks[i]]@.storable() by { assert(m.dom().contains(ks[i])); }
        rt_metas_n(m, ks, ver, post); rt_u16(n as u16, p2); rt_u8(ver, be16(n as u16) + p2);
        assert(enc_metas(m, version) + post =~= seq![ver] + (be16(n as u16) + p2));
    }
}
pub proof fn lemma_metas_norm(m: Map<u16, NodeMetadata>, version: u8)
    ensures metas_of(m, keys_of(m), meta_ver(version)) == norm_meta(version, meta_view(m))
{
    hide(MetaV::is_empty);
    let ks = keys_of(m);
    let ver = meta_ver(version);
    let r = norm_meta(version, meta_view(m));
    lemma_metas_of(m, ks, ver);
    assert(metas_of(m, ks, ver) =~= r) by {
        assert forall|k: u16| #[trigger] r.dom().contains(k) == metas_of(m, ks, ver).dom().contains(k) by {
            assert(meta_view(m).dom().contains(k) == m.dom().contains(k));
            if m.dom().contains(k) { assert(ks.contains(k)); assert(meta_view(m)[k] == m[k]@); }
            if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(m.dom().contains(ks[i])); }
        }
        assert forall|k: u16| #[trigger] r.dom().contains(k) implies r[k] == metas_of(m, ks, ver)[k] by {
            assert(metas_of(m, ks, ver).dom().contains(k));
            assert(m.dom().contains(k));
            assert(meta_view(m)[k] == m[k]@);
            assert(norm_vars(version, m[k]@).vars =~= old_vars(m[k]@, ver).vars);
        }
    }
}
pub proof fn rt_zmetas(m: Map<u16, NodeMetadata>, version: u8, post: Bytes)
    requires m.dom().len() <= 65535, forall|k: u16| #[trigger] m.dom().contains(k) ==> m[k]@.storable()
    ensures p_zmetas(zip(enc_metas(m, version)) + post) == Some((norm_meta(version, meta_view(m)), post))
{
    rt_zlib(enc_metas(m, version), post);
    rt_metas(m, version, seq![]);
    assert(enc_metas(m, version) + seq![] =~= enc_metas(m, version));
}
// objects and timers
pub proof fn rt_obj(o: ObjV, post: Bytes)
    requires o.data.len() <= 65535
    ensures p_obj(enc_obj(o) + post) == Some((o, post))
{
    let p1 = enc_s16(o.data) + post;
    let p2 = bei32(o.pos.z) + p1;
    let p3 = bei32(o.pos.y) + p2;
    let p4 = bei32(o.pos.x) + p3;
    rt_s16(o.data, post); rt_i32(o.pos.z, p1); rt_i32(o.pos.y, p2); rt_i32(o.pos.x, p3); rt_u8(o.ty, p4);
    assert(enc_obj(o) + post =~= seq![o.ty] + p4);
}
pub proof fn rt_objs_n(l: Seq<ObjV>, post: Bytes)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).data.len() <= 65535
    ensures p_objs_n(enc_objs_n(l) + post, l.len()) == Some((l, post))
    decreases l.len()
{
    if l.len() == 0 { assert(enc_objs_n(l) + post =~= post); assert(l =~= Seq::<ObjV>::empty()); } else {
        let (t, o) = (l.drop_last(), l.last());
        assert(l[l.len() - 1].data.len() <= 65535);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).data.len() <= 65535 by { assert(t[i] == l[i]); }
        rt_objs_n(t, enc_obj(o) + post); rt_obj(o, post);
        assert(enc_objs_n(l) + post =~= enc_objs_n(t) + (enc_obj(o) + post));
        assert(t.push(o) =~= l);
    }
}
pub proof fn rt_objs(l: Seq<ObjV>, post: Bytes)
    requires l.len() <= 65535, forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).data.len() <= 65535
    ensures p_objs(enc_objs(l) + post) == Some((l, post))
{
    let p2 = enc_objs_n(l) + post;
    rt_objs_n(l, post); rt_u16(l.len() as u16, p2); rt_u8(0, be16(l.len() as u16) + p2);
    assert(enc_objs(l) + post =~= seq![0u8] + (be16(l.len() as u16) + p2));
}
pub proof fn rt_timers_n(l: Seq<NodeTimer>, post: Bytes)
    ensures p_timers_n(enc_timers_n(l) + post, l.len()) == Some((l, post))
    decreases l.len()
{
    if l.len() == 0 { assert(enc_timers_n(l) + post =~= post); assert(l =~= Seq::<NodeTimer>::empty()); } else {
        let (t, o) = (l.drop_last(), l.last());
        rt_timers_n(t, enc_timer(o) + post);
        rt_timer(o, post);
        assert(enc_timers_n(l) + post =~= enc_timers_n(t) + (enc_timer(o) + post));
        assert(t.push(o) =~= l);
    }
}
pub proof fn rt_timer(o: NodeTimer, post: Bytes)
    ensures p_timer(enc_timer(o) + post) == Some((o, post))
{
        let p1 = be32(o.elapsed) + post;
        let p2 = be32(o.timeout) + p1;
        rt_u32(o.elapsed, post); rt_u32(o.timeout, p1); rt_u16(o.pos, p2);
        assert(enc_timer(o) + post =~= be16(o.pos) + p2);
}
pub proof fn rt_timers(l: Seq<NodeTimer>, post: Bytes)
    requires l.len() <= 65535
    ensures p_timers(enc_timers(l) + post) == Some((l, post))
{
    let p2 = enc_timers_n(l) + post;
    rt_timers_n(l, post); rt_u16(l.len() as u16, p2); rt_u8(10, be16(l.len() as u16) + p2);
    assert(enc_timers(l) + post =~= seq![10u8] + (be16(l.len() as u16) + p2));
}
pub proof fn rt_widths(post: Bytes) ensures p_widths(seq![2u8] + (seq![2u8] + post)) == Some(((), post)) { rt_u8(2, post); rt_u8(2, seq![2u8] + post); }
// ---- whole blocks ------------------------------------------------------------------------------
pub open spec fn enc_29(b: MapBlock) -> Bytes {
    seq![b.flags] + (be16(b.lighting_complete) + (be32(b.timestamp) + (enc_names(b.nimap.0@) + (seq![b.content_width] + (seq![b.params_width]
        + (enc_nodes(b.node_data@) + (enc_metas(b.metadata@, b.version) + (enc_objs(objs_view(b.static_objects@)) + enc_timers(b.node_timers@)))))))))
}
pub open spec fn enc_28(b: MapBlock) -> Bytes {
    seq![b.flags] + ((if b.version >= 27 { be16(b.lighting_complete) } else { seq![] }) + (seq![b.content_width] + (seq![b.params_width]
        + (zip(enc_nodes(b.node_data@)) + (zip(enc_metas(b.metadata@, b.version)) + (enc_objs(objs_view(b.static_objects@)) + (be32(b.timestamp)
        + (enc_names(b.nimap.0@) + enc_timers(b.node_timers@)))))))))
}
pub open spec fn enc_block(b: MapBlock) -> Bytes { seq![b.version] + (if b.version >= 29 { zzip(enc_29(b)) } else { enc_28(b) }) }
pub proof fn rt_29(b: MapBlock)
    requires b.version == 29, b.wf(), b@.storable()
    ensures p_29(enc_29(b)) matches Some((v, _)) && v == b@.norm()
{
    let e = Seq::<u8>::empty();
    let t1 = enc_timers(b.node_timers@);
    let t2 = enc_objs(objs_view(b.static_objects@)) + t1;
    let t3 = enc_metas(b.metadata@, b.version) + t2;
    let t4 = enc_nodes(b.node_data@) + t3;
    let t5 = enc_names(b.nimap.0@) + (seq![2u8] + (seq![2u8] + t4));
    assert(t1 + e =~= t1);
    rt_timers(b.node_timers@, e);
    assert(b@.objs == objs_view(b.static_objects@));
    rt_objs(objs_view(b.static_objects@), t1);
    lemma_metas_fit(b);
    rt_metas(b.metadata@, b.version, t2);
    rt_nodes(b.node_data@, t3);
    rt_widths(t4);
    lemma_names_fit(b);
    rt_names(b.nimap, seq![2u8] + (seq![2u8] + t4));
    rt_u32(b.timestamp, t5); rt_u16(b.lighting_complete, be32(b.timestamp) + t5);
    rt_u8(b.flags, be16(b.lighting_complete) + (be32(b.timestamp) + t5));
}
pub proof fn lemma_names_fit(b: MapBlock)
    requires b@.storable()
    ensures b.nimap.0@.dom().len() <= 65535, forall|k: u16| #[trigger] b.nimap.0@.dom().contains(k) ==> b.nimap.0@[k]@.len() <= 65535
{
    assert(b@.names.dom() =~= b.nimap.0@.dom());
    assert forall|k: u16| #[trigger] b.nimap.0@.dom().contains(k) implies b.nimap.0@[k]@.len() <= 65535 by { assert(b@.names.dom().contains(k)); }
}
pub proof fn lemma_below(s: Set<u16>, n: nat)
    requires forall|k: u16| #[trigger] s.contains(k) ==> k < n, n <= 65536
    ensures s.len() <= n
    decreases n
{
    if n == 0 { assert(s =~= Set::empty()); } else {
        lemma_below(s.remove((n - 1) as u16), (n - 1) as nat);
    }
}
pub proof fn lemma_metas_fit(b: MapBlock)
    requires b.wf(), b@.storable()
    ensures b.metadata@.dom().len() <= 65535, forall|k: u16| #[trigger] b.metadata@.dom().contains(k) ==> b.metadata@[k]@.storable() && meta_fits(b.metadata@[k]@)
{
    assert(b@.meta.dom() =~= b.metadata@.dom());
    assert forall|k: u16| #[trigger] b.metadata@.dom().contains(k) implies b.metadata@[k]@.storable() && meta_fits(b.metadata@[k]@) by { assert(b@.meta.dom().contains(k)); assert(b@.meta[k] == b.metadata@[k]@); }
    lemma_below(b.metadata@.dom(), 4096);
}
pub proof fn rt_28(b: MapBlock)
    requires 25 <= b.version <= 28, b.wf(), b@.storable()
    ensures p_28(enc_28(b), b.version) matches Some((v, _)) && v == b@.norm()
{
    let e = Seq::<u8>::empty();
    let t1 = enc_timers(b.node_timers@);
    let t2 = enc_names(b.nimap.0@) + t1;
    let t3 = be32(b.timestamp) + t2;
    let t4 = enc_objs(objs_view(b.static_objects@)) + t3;
    let t5 = zip(enc_metas(b.metadata@, b.version)) + t4;
    let t6 = zip(enc_nodes(b.node_data@)) + t5;
    let t7 = seq![2u8] + (seq![2u8] + t6);
    assert(t1 + e =~= t1);
    rt_timers(b.node_timers@, e);
    lemma_names_fit(b);
    rt_names(b.nimap, t1);
    rt_u32(b.timestamp, t2);
    assert(b@.objs == objs_view(b.static_objects@));
    rt_objs(objs_view(b.static_objects@), t3);
    lemma_metas_fit(b);
    rt_zmetas(b.metadata@, b.version, t4);
    rt_znodes(b.node_data@, t5);
    rt_widths(t6);
    if b.version >= 27 { rt_u16(b.lighting_complete, t7); rt_u8(b.flags, be16(b.lighting_complete) + t7); }
    else { assert(seq![] + t7 =~= t7); rt_u8(b.flags, t7); }
}
pub proof fn lemma_objs_fit(b: MapBlock)
    requires b@.storable()
    ensures b.static_objects@.len() <= 65535, b.node_timers@.len() <= 65535, forall|i: int| 0 <= i < b.static_objects@.len() ==> (#[trigger] b.static_objects@[i]).data@.len() <= 65535
{
    assert(b@.objs.len() == b.static_objects@.len());
    assert forall|i: int| 0 <= i < b.static_objects@.len() implies (#[trigger] b.static_objects@[i]).data@.len() <= 65535 by { assert(b@.objs[i].data == b.static_objects@[i].data@); }
}
pub proof fn lemma_version(b: MapBlock) requires b@.storable() ensures 25 <= b.version <= 29 { }
/// Writing one thing after another.
pub proof fn lemma_left_10(a: Bytes, b: Bytes, c: Bytes, d: Bytes, e: Bytes, f: Bytes, g: Bytes, h: Bytes, i: Bytes, j: Bytes, z: Bytes)
    ensures z + a + b + c + d + e + f + g + h + i + j == z + (a + (b + (c + (d + (e + (f + (g + (h + (i + j)))))))))
{
    let t8 = h + (i + j);
    assert(z + a + b + c + d + e + f + g + h + i + j =~= z + a + b + c + d + e + f + g + t8);
    let t5 = e + (f + (g + t8));
    assert(z + a + b + c + d + e + f + g + t8 =~= z + a + b + c + d + t5);
    assert(z + a + b + c + d + t5 =~= z + (a + (b + (c + (d + t5)))));
}
pub open spec fn left_29(b: MapBlock) -> Bytes {
    seq![] + seq![b.flags] + be16(b.lighting_complete) + be32(b.timestamp) + enc_names(b.nimap.0@) + seq![b.content_width] + seq![b.params_width]
        + enc_nodes(b.node_data@) + enc_metas(b.metadata@, b.version) + enc_objs(objs_view(b.static_objects@)) + enc_timers(b.node_timers@)
}
pub proof fn lemma_left_29(b: MapBlock, s: Bytes)
    ensures s == left_29(b) ==> s == enc_29(b)
{
    lemma_left_10(seq![b.flags], be16(b.lighting_complete), be32(b.timestamp), enc_names(b.nimap.0@), seq![b.content_width], seq![b.params_width],
        enc_nodes(b.node_data@), enc_metas(b.metadata@, b.version), enc_objs(objs_view(b.static_objects@)), enc_timers(b.node_timers@), seq![]);
    assert(seq![] + enc_29(b) =~= enc_29(b));
}
pub open spec fn left_28(b: MapBlock) -> Bytes {
    (if b.version >= 27 { seq![] + seq![b.version] + seq![b.flags] + be16(b.lighting_complete) } else { seq![] + seq![b.version] + seq![b.flags] }) + seq![b.content_width] + seq![b.params_width]
        + zip(enc_nodes(b.node_data@)) + zip(enc_metas(b.metadata@, b.version)) + enc_objs(objs_view(b.static_objects@)) + be32(b.timestamp)
        + enc_names(b.nimap.0@) + enc_timers(b.node_timers@)
}
pub proof fn lemma_left_28(b: MapBlock, s: Bytes)
    ensures s == left_28(b) ==> s == seq![b.version] + enc_28(b)
{
    let l: Bytes = if b.version >= 27 { be16(b.lighting_complete) } else { seq![] };
    lemma_left_10(seq![b.flags], l, seq![b.content_width], seq![b.params_width],
        zip(enc_nodes(b.node_data@)), zip(enc_metas(b.metadata@, b.version)), enc_objs(objs_view(b.static_objects@)), be32(b.timestamp), enc_names(b.nimap.0@), enc_timers(b.node_timers@), seq![b.version]);
    assert(seq![] + seq![b.version] =~= seq![b.version]);
    if b.version < 27 { assert(seq![b.version] + seq![b.flags] + l =~= seq![b.version] + seq![b.flags]); }
}
/// Decoding what was encoded gives the block back.
pub proof fn rt_block(b: MapBlock)
    requires b.wf(), b@.wf(), b@.storable()
    ensures dec(enc_block(b)) == Some(b@.norm())
{
    if b.version >= 29 { rt_29(b); ax_zzip(enc_29(b)); rt_u8(b.version, zzip(enc_29(b))); }
    else { rt_28(b); rt_u8(b.version, enc_28(b)); }
    let n = b@.norm();
    assert forall|k: u16| #[trigger] n.meta.dom().contains(k) implies k < 4096 by { assert(b@.meta.dom().contains(k)); }
}
// ---- what was read can be written ------------------------------------------------------------------
pub proof fn fit_names_n(s: Bytes, n: nat)
    ensures p_names_n(s, n) matches Some((m, _)) ==> m.dom().len() <= n && forall|k: u16| #[trigger] m.dom().contains(k) ==> m[k].len() <= 65535
    decreases n
{
    if n > 0 { fit_names_n(s, (n - 1) as nat); }
}
pub proof fn fit_vars(s: Bytes, ver: u8, n: nat)
    ensures p_vars(s, ver, n) matches Some((m, _)) ==> m.dom().len() <= n && forall|k: Bytes| #[trigger] m.dom().contains(k) ==> k.len() <= 65535 && m[k].0.len() <= u32::MAX
    decreases n
{
    if n > 0 { fit_vars(s, ver, (n - 1) as nat); }
}
pub proof fn fit_meta(s: Bytes, ver: u8)
    ensures p_meta(s, ver) matches Some((m, _)) ==> m.storable()
{
    match p_u32(s) { None => { }, Some((n, r)) => { fit_vars(r, ver, n as nat); match p_vars(r, ver, n as nat) { None => { }, Some((_, r)) => { if p_inv(r).is_some() { lemma_inv_ends(r); } } } } }
}
pub proof fn fit_metas_n(s: Bytes, ver: u8, n: nat)
    ensures p_metas_n(s, ver, n) matches Some((m, _)) ==> forall|k: u16| #[trigger] m.dom().contains(k) ==> m[k].storable()
    decreases n
{
    hide(MetaV::storable); hide(p_meta);
    if n > 0 {
        fit_metas_n(s, ver, (n - 1) as nat);
        match p_metas_n(s, ver, (n - 1) as nat) { None => { }, Some((m, r)) => match p_u16(r) { None => { }, Some((k, r)) => { fit_meta(r, ver); } } }
    }
}
pub proof fn fit_metas(s: Bytes)
    ensures p_metas(s) matches Some((m, _)) ==> forall|k: u16| #[trigger] m.dom().contains(k) ==> m[k].storable()
{
    hide(MetaV::storable); hide(p_metas_n);
    match p_u8(s) { None => { }, Some((ver, r)) => match p_u16(r) { None => { }, Some((n, r)) => { fit_metas_n(r, ver, n as nat); } } }
}
pub proof fn fit_objs_n(s: Bytes, n: nat)
    ensures p_objs_n(s, n) matches Some((l, _)) ==> l.len() == n && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).data.len() <= 65535
    decreases n
{
    if n > 0 { fit_objs_n(s, (n - 1) as nat); }
}
pub proof fn fit_timers_n(s: Bytes, n: nat)
    ensures p_timers_n(s, n) matches Some((l, _)) ==> l.len() == n
    decreases n
{
    if n > 0 { fit_timers_n(s, (n - 1) as nat); }
}
pub proof fn fit_names(s: Bytes)
    ensures p_names(s) matches Some((m, _)) ==> m.dom().len() <= 65535 && forall|k: u16| #[trigger] m.dom().contains(k) ==> m[k].len() <= 65535
{
    match p_u8(s) { None => { }, Some((_, r)) => match p_u16(r) { None => { }, Some((n, r)) => { fit_names_n(r, n as nat); } } }
}
pub proof fn fit_objs(s: Bytes)
    ensures p_objs(s) matches Some((l, _)) ==> l.len() <= 65535 && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).data.len() <= 65535
{
    match p_u8(s) { None => { }, Some((_, r)) => match p_u16(r) { None => { }, Some((n, r)) => { fit_objs_n(r, n as nat); } } }
}
pub proof fn fit_timers(s: Bytes)
    ensures p_timers(s) matches Some((l, _)) ==> l.len() <= 65535
{
    match p_u8(s) { None => { }, Some((_, r)) => match p_u16(r) { None => { }, Some((n, r)) => { fit_timers_n(r, n as nat); } } }
}
/// There are always 4096 nodes.
pub proof fn fit_nodes()
    ensures
        forall|s: Bytes| match #[trigger] p_nodes(s) { Some((v, _)) => v.nodes.len() == 4096 && v.p1.len() == 4096 && v.p2.len() == 4096, None => true },
        forall|s: Bytes| match #[trigger] p_znodes(s) { Some((v, _)) => v.nodes.len() == 4096 && v.p1.len() == 4096 && v.p2.len() == 4096, None => true },
{ }
pub proof fn fit_29(s: Bytes)
    ensures p_29(s) matches Some((b, _)) ==> b.storable()
{
    hide(p_names); hide(p_widths); hide(p_nodes); hide(p_metas); hide(p_objs); hide(p_timers); hide(MetaV::storable);
    match p_u8(s) { None => { }, Some((_, r)) => match p_u16(r) { None => { }, Some((_, r)) => match p_u32(r) { None => { }, Some((_, r)) => {
        fit_names(r);
        match p_names(r) { None => { }, Some((_, r)) => match p_widths(r) { None => { }, Some((_, r)) => match p_nodes(r) { None => { }, Some((_, r)) => {
            fit_metas(r);
            match p_metas(r) { None => { }, Some((_, r)) => { fit_objs(r); match p_objs(r) { None => { }, Some((_, r)) => { fit_timers(r); } } } } } } } }
    } } } }
}
pub proof fn fit_28(s: Bytes, version: u8)
    requires 25 <= version <= 28
    ensures p_28(s, version) matches Some((b, _)) ==> b.storable()
{
    hide(p_names); hide(p_widths); hide(p_znodes); hide(p_metas); hide(p_objs); hide(p_timers); hide(MetaV::storable);
    match p_u8(s) { None => { }, Some((_, r)) => match p_light(r, version) { None => { }, Some((_, r)) => match p_widths(r) { None => { }, Some((_, r)) => match p_znodes(r) { None => { }, Some((_, r)) => {
        match p_zlib(r) { None => { }, Some((d, _)) => { fit_metas(d); } }
        match p_zmetas(r) { None => { }, Some((_, r)) => {
            fit_objs(r);
            match p_objs(r) { None => { }, Some((_, r)) => match p_u32(r) { None => { }, Some((_, r)) => {
                fit_names(r);
                match p_names(r) { None => { }, Some((_, r)) => { fit_timers(r); } }
            } } }
        } }
    } } } } }
}
pub proof fn fit_block(s: Bytes)
    ensures dec(s) matches Some(b) ==> b.storable()
{
    hide(p_29); hide(p_28);
    match p_u8(s) { None => { }, Some((version, r)) => if version >= 29 { fit_29(zs(r).out); } else if version >= 25 { fit_28(r, version); } }
}
>>>
