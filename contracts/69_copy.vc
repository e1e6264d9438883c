module copy spatial/mod.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
// ---- copying nodes between blocks ------------------------------------------------------------
/// The block of map s at position p, if nodes may be taken from it.
pub open spec fn src_of(s: Map<i64, Bytes>, p: Vec3) -> Option<BlockV> {
    let k = p.key() as i64;
    if p.within(-1937, 1937) && s.dom().contains(k) {
        match dec(s[k]) { Some(b) => if b.generated() { Some(b) } else { None }, None => None }
    } else { None }
}
/// Where node i of block pos comes from when everything is moved by off: block and index.
pub open spec fn src_pos(off: Vec3, pos: Vec3, i: int) -> Vec3 {
    Vec3::v((16 * pos.x + i % 16 - off.x) / 16, (16 * pos.y + (i / 16) % 16 - off.y) / 16, (16 * pos.z + i / 256 - off.z) / 16)
}
pub open spec fn src_idx(off: Vec3, pos: Vec3, i: int) -> int {
    (16 * pos.x + i % 16 - off.x) % 16 + 16 * ((16 * pos.y + (i / 16) % 16 - off.y) % 16) + 256 * ((16 * pos.z + i / 256 - off.z) % 16)
}
/// The block and index whose content node i of block pos (b before) has after the copy.
pub open spec fn whence(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, b: BlockV, i: int) -> (BlockV, int) {
    if sel(area, false, pos, i) {
        match src_of(s, src_pos(off, pos, i)) { Some(a) => (a, src_idx(off, pos, i)), None => (b, i) }
    } else { (b, i) }
}
pub open spec fn meta_at(b: BlockV, i: int) -> Option<MetaV> { if b.meta.dom().contains(i as u16) { Some(b.meta[i as u16]) } else { None } }
pub open spec fn norm_entry(version: u8, e: Option<MetaV>) -> Option<MetaV> {
    match e { Some(v) => if v.is_empty() { None } else { Some(norm_vars(version, v)) }, None => None }
}
/// Node i of c is, with parameters and metadata, node j of a.
pub open spec fn node_is(c: BlockV, i: int, a: BlockV, j: int) -> bool {
    c.node(i) == a.node(j) && c.p1[i] == a.p1[j] && c.p2[i] == a.p2[j] && meta_at(c, i) == norm_entry(c.version, meta_at(a, j))
}
pub open spec fn whence_at(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, b: BlockV, c: BlockV, i: int) -> bool {
    node_is(c, i, whence(s, area, off, pos, b, i).0, whence(s, area, off, pos, b, i).1)
}
/// c is block b at pos with the destination's part (area) taken from map s, moved by off.
pub open spec fn copied(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, b: BlockV, c: BlockV) -> bool {
    c.same_rest(b) && forall|i: int| 0 <= i < 4096 ==> #[trigger] whence_at(s, area, off, pos, b, c, i)
}
// ---- the copy in progress ---------------------------------------------------------------------
/// Like whence, with the first n blocks of the touched blocks ta done.
pub open spec fn upto(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, b: BlockV, ta: Area, n: int, i: int) -> (BlockV, int) {
    if sel(area, false, pos, i) && lin(ta, src_pos(off, pos, i)) < n {
        match src_of(s, src_pos(off, pos, i)) { Some(a) => (a, src_idx(off, pos, i)), None => (b, i) }
    } else { (b, i) }
}
pub open spec fn meta_of(o: MapBlock, i: int) -> Option<MetaV> { if o.metadata@.dom().contains(i as u16) { Some(o.metadata@[i as u16]@) } else { None } }
pub open spec fn like(o: MapBlock, i: int, a: BlockV, j: int) -> bool {
    o.node(i) == a.node(j) && o.p1(i) == a.p1[j] && o.p2(i) == a.p2[j] && meta_of(o, i) == meta_at(a, j)
}
pub open spec fn upto_at(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, b: BlockV, ta: Area, n: int, o: MapBlock, i: int) -> bool {
    like(o, i, upto(s, area, off, pos, b, ta, n, i).0, upto(s, area, off, pos, b, ta, n, i).1)
}
pub open spec fn short_name(o: MapBlock, i: int) -> bool { o.node(i).len() <= 65535 }
/// What is needed to write it: short names, storable metadata.
pub open spec fn tidy(o: MapBlock) -> bool {
    o.wf_nodes() && o.wf_meta() && (forall|i: int| 0 <= i < 4096 ==> #[trigger] short_name(o, i))
        && (forall|k: u16| #[trigger] o.metadata@.dom().contains(k) ==> o.metadata@[k]@.storable())
}
pub open spec fn copying(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, b: BlockV, ta: Area, n: int, o: MapBlock) -> bool {
    tidy(o) && forall|i: int| 0 <= i < 4096 ==> #[trigger] upto_at(s, area, off, pos, b, ta, n, o, i)
}
pub proof fn lemma_tidy(B: MapBlock)
    requires B.wf(), B@.storable()
    ensures tidy(B), forall|i: int| 0 <= i < 4096 ==> #[trigger] like(B, i, B@, i)
{
    lemma_view(B);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] short_name(B, i) by {
        assert(B.nimap.has(B.node_data.nodes@[i])); assert(B@.names.dom().contains(B@.nodes[i])); assert(B@.node(i) == B.node(i));
    }
    assert forall|k: u16| #[trigger] B.metadata@.dom().contains(k) implies B.metadata@[k]@.storable() by { assert(B@.meta.dom().contains(k)); }
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] like(B, i, B@, i) by { assert(B@.node(i) == B.node(i)); }
}
pub proof fn lemma_copy_start(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, ta: Area, B: MapBlock)
    requires B.wf(), B@.storable(), ta.valid(), forall|i: int| 0 <= i < 4096 && #[trigger] sel(area, false, pos, i) ==> ta.hasv(src_pos(off, pos, i))
    ensures copying(s, area, off, pos, B@, ta, 0, B)
{
    hide(sel); hide(lin); hide(src_pos); hide(src_idx);
    lemma_tidy(B);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] upto_at(s, area, off, pos, B@, ta, 0, B, i) by {
        if sel(area, false, pos, i) { lemma_lin_range(ta, src_pos(off, pos, i)); }
        assert(like(B, i, B@, i));
    }
}
/// Nothing can be taken from source block p.
pub proof fn lemma_copy_skip(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, b: BlockV, ta: Area, p: Vec3, o: MapBlock)
    requires copying(s, area, off, pos, b, ta, lin(ta, p), o), ta.valid(), ta.hasv(p), src_of(s, p).is_none(),
        forall|i: int| 0 <= i < 4096 && #[trigger] sel(area, false, pos, i) ==> ta.hasv(src_pos(off, pos, i)),
    ensures copying(s, area, off, pos, b, ta, lin(ta, p) + 1, o)
{
    hide(sel); hide(lin); hide(src_pos); hide(src_idx); hide(src_of);
    let n = lin(ta, p);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] upto_at(s, area, off, pos, b, ta, n + 1, o, i) by {
        assert(upto_at(s, area, off, pos, b, ta, n, o, i));
        if sel(area, false, pos, i) && lin(ta, src_pos(off, pos, i)) == n { lemma_lin_injective(ta, src_pos(off, pos, i), p); }
    }
}
/// The part dfr of the destination block and the part sfr of source block p belong together.
pub open spec fn frags(area: Option<Area>, off: Vec3, pos: Vec3, p: Vec3, sfr: Area, dfr: Area) -> bool {
    parts_ok(sfr, dfr)
        && (forall|i: int| 0 <= i < 4096 ==> #[trigger] inbox(dfr, i) == (sel(area, false, pos, i) && src_pos(off, pos, i) == p))
        && (forall|i: int| 0 <= i < 4096 && #[trigger] inbox(dfr, i) ==> i - shift(sfr, dfr) == src_idx(off, pos, i))
}
/// The destination's part of block pos, in map coordinates.
pub open spec fn dst_part(dp: Area, area: Option<Area>, pos: Vec3) -> bool {
    dp.valid() && 16 * pos.x <= dp.min.x && dp.max.x <= 16 * pos.x + 15 && 16 * pos.y <= dp.min.y && dp.max.y <= 16 * pos.y + 15 && 16 * pos.z <= dp.min.z && dp.max.z <= 16 * pos.z + 15
        && forall|x: int, y: int, z: int| #[trigger] dp.has(x, y, z) == (in_block(pos, x, y, z) && (area matches Some(a) ==> a.has(x, y, z)))
}
pub open spec fn small(v: Vec3, m: int) -> bool { v.within(-m, m) }
pub proof fn lemma_dst_sel(dp: Area, area: Option<Area>, pos: Vec3, i: int)
    requires dst_part(dp, area, pos), 0 <= i < 4096
    ensures sel(area, false, pos, i) == dp.has(16 * pos.x + i % 16, 16 * pos.y + (i / 16) % 16, 16 * pos.z + i / 256)
{
    let (x, y, z) = (16 * pos.x + i % 16, 16 * pos.y + (i / 16) % 16, 16 * pos.z + i / 256);
    assert(in_block(pos, x, y, z));
}
/// The blocks touched by the part moved back.
pub proof fn lemma_touched(dp: Area, area: Option<Area>, off: Vec3, pos: Vec3, sp: Area, ta: Area)
    requires dst_part(dp, area, pos), small(pos, 4000), small(off, 100000),
        sp.min == Vec3::v(dp.min.x - off.x, dp.min.y - off.y, dp.min.z - off.z), sp.max == Vec3::v(dp.max.x - off.x, dp.max.y - off.y, dp.max.z - off.z),
        ta.valid(), forall|b: Vec3| #[trigger] ta.hasv(b) == sp.meets_c(b),
    ensures sp.valid(), ta.vol() <= 8, ta.within(-20000, 20000),
        forall|i: int| 0 <= i < 4096 && #[trigger] sel(area, false, pos, i) ==> ta.hasv(src_pos(off, pos, i)),
{
    assert(ta.hasv(ta.min) && ta.hasv(ta.max));
    let (dx, dy, dz) = (ta.dx(), ta.dy(), ta.dz());
    assert(1 <= dx <= 2 && 1 <= dy <= 2 && 1 <= dz <= 2);
    assert(dx * dy * dz <= 8) by (nonlinear_arith) requires 1 <= dx <= 2, 1 <= dy <= 2, 1 <= dz <= 2;
    assert forall|i: int| 0 <= i < 4096 && #[trigger] sel(area, false, pos, i) implies ta.hasv(src_pos(off, pos, i)) by {
        lemma_dst_sel(dp, area, pos, i);
        let q = src_pos(off, pos, i);
        assert(sp.meets_c(q));
    }
}
pub open spec fn slice_at(sp: Area, p: Vec3) -> Area {
    Area {
        min: Vec3::v(imax(sp.min.x as int, 16 * p.x), imax(sp.min.y as int, 16 * p.y), imax(sp.min.z as int, 16 * p.z)),
        max: Vec3::v(imin(sp.max.x as int, 16 * p.x + 15), imin(sp.max.y as int, 16 * p.y + 15), imin(sp.max.z as int, 16 * p.z + 15)),
    }
}
/// The source's part, moved, is within the destination block.
pub proof fn lemma_frag_back(dp: Area, area: Option<Area>, off: Vec3, pos: Vec3, p: Vec3, sp: Area, sfa: Area)
    requires dst_part(dp, area, pos), small(pos, 4000), small(off, 100000), small(p, 20000), sp.meets_c(p),
        sp.min == Vec3::v(dp.min.x - off.x, dp.min.y - off.y, dp.min.z - off.z), sp.max == Vec3::v(dp.max.x - off.x, dp.max.y - off.y, dp.max.z - off.z),
        sfa == slice_at(sp, p),
    ensures sfa.within(-400000, 400000), moved(sfa, off).within(-100000, 100000), moved(sfa, off).valid(), moved(sfa, off).meets_c(pos), sfa.within(-400000, 400000)
{
    lemma_frag_axis(dp.min.x as int, dp.max.x as int, off.x as int, pos.x as int, p.x as int, 0);
    lemma_frag_axis(dp.min.y as int, dp.max.y as int, off.y as int, pos.y as int, p.y as int, 0);
    lemma_frag_axis(dp.min.z as int, dp.max.z as int, off.z as int, pos.z as int, p.z as int, 0);
}
pub proof fn lemma_frags(dp: Area, area: Option<Area>, off: Vec3, pos: Vec3, p: Vec3, sp: Area, sfa: Area, sfr: Area, dfr: Area)
    requires dst_part(dp, area, pos), small(pos, 4000), small(off, 100000), small(p, 20000), sp.meets_c(p),
        sp.min == Vec3::v(dp.min.x - off.x, dp.min.y - off.y, dp.min.z - off.z), sp.max == Vec3::v(dp.max.x - off.x, dp.max.y - off.y, dp.max.z - off.z),
        sfa == (Area {
            min: Vec3::v(imax(sp.min.x as int, 16 * p.x), imax(sp.min.y as int, 16 * p.y), imax(sp.min.z as int, 16 * p.z)),
            max: Vec3::v(imin(sp.max.x as int, 16 * p.x + 15), imin(sp.max.y as int, 16 * p.y + 15), imin(sp.max.z as int, 16 * p.z + 15)),
        }),
        sfr.min == Vec3::v(sfa.min.x - 16 * p.x, sfa.min.y - 16 * p.y, sfa.min.z - 16 * p.z), sfr.max == Vec3::v(sfa.max.x - 16 * p.x, sfa.max.y - 16 * p.y, sfa.max.z - 16 * p.z),
        dfr == (Area {
            min: Vec3::v(imax(sfa.min.x + off.x - 16 * pos.x, 0), imax(sfa.min.y + off.y - 16 * pos.y, 0), imax(sfa.min.z + off.z - 16 * pos.z, 0)),
            max: Vec3::v(imin(sfa.max.x + off.x - 16 * pos.x, 15), imin(sfa.max.y + off.y - 16 * pos.y, 15), imin(sfa.max.z + off.z - 16 * pos.z, 15)),
        }),
    ensures frags(area, off, pos, p, sfr, dfr)
{
    assert(parts_ok(sfr, dfr));
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] inbox(dfr, i) == (sel(area, false, pos, i) && src_pos(off, pos, i) == p) by {
        lemma_dst_sel(dp, area, pos, i);
        lemma_frag_axis(dp.min.x as int, dp.max.x as int, off.x as int, pos.x as int, p.x as int, i % 16);
        lemma_frag_axis(dp.min.y as int, dp.max.y as int, off.y as int, pos.y as int, p.y as int, (i / 16) % 16);
        lemma_frag_axis(dp.min.z as int, dp.max.z as int, off.z as int, pos.z as int, p.z as int, i / 256);
    }
    assert forall|i: int| 0 <= i < 4096 && #[trigger] inbox(dfr, i) implies i - shift(sfr, dfr) == src_idx(off, pos, i) by {
        assert(src_pos(off, pos, i) == p);
        lemma_digits(i);
        lemma_frag_axis(dp.min.x as int, dp.max.x as int, off.x as int, pos.x as int, p.x as int, i % 16);
        lemma_frag_axis(dp.min.y as int, dp.max.y as int, off.y as int, pos.y as int, p.y as int, (i / 16) % 16);
        lemma_frag_axis(dp.min.z as int, dp.max.z as int, off.z as int, pos.z as int, p.z as int, i / 256);
    }
}
/// One axis: destination part lo..hi of block d, source block s, in-block coordinate u.
pub proof fn lemma_frag_axis(lo: int, hi: int, o: int, d: int, s: int, u: int)
    requires 16 * d <= lo <= hi <= 16 * d + 15, 0 <= u < 16, lo - o <= 16 * s + 15, 16 * s <= hi - o
    ensures
        ({
            let (a, b) = (imax(lo - o, 16 * s), imin(hi - o, 16 * s + 15));
            &&& 16 * d <= a + o <= b + o <= 16 * d + 15
            &&& imax(a + o - 16 * d, 0) == a + o - 16 * d && imin(b + o - 16 * d, 15) == b + o - 16 * d
            &&& (a + o - 16 * d <= u <= b + o - 16 * d) == (lo <= 16 * d + u <= hi && (16 * d + u - o) / 16 == s)
            &&& (16 * d + u - o) / 16 == s ==> u - ((a + o - 16 * d) - (a - 16 * s)) == (16 * d + u - o) % 16
        })
{
}
/// Source block p (content A) has been copied into the part.
pub proof fn lemma_copy_step(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, b: BlockV, ta: Area, p: Vec3, O: MapBlock, A: MapBlock, N: MapBlock, sfr: Area, dfr: Area)
    requires copying(s, area, off, pos, b, ta, lin(ta, p), O), ta.valid(), ta.hasv(p), src_of(s, p) == Some(A@), A.wf(), A@.storable(), N.wf_nodes(), N.wf_meta(),
        frags(area, off, pos, p, sfr, dfr),
        forall|i: int| 0 <= i < 4096 && #[trigger] sel(area, false, pos, i) ==> ta.hasv(src_pos(off, pos, i)),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] N.node(i) == (if inbox(dfr, i) { A.node(i - shift(sfr, dfr)) } else { O.node(i) }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] N.p1(i) == (if inbox(dfr, i) { A.p1(i - shift(sfr, dfr)) } else { O.p1(i) }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] N.p2(i) == (if inbox(dfr, i) { A.p2(i - shift(sfr, dfr)) } else { O.p2(i) }),
        forall|k: u16| k < 4096 ==> #[trigger] N.metadata@.dom().contains(k) == (if inbox(dfr, k as int) { A.metadata@.dom().contains((k - shift(sfr, dfr)) as u16) } else { O.metadata@.dom().contains(k) }),
        forall|k: u16| #[trigger] N.metadata@.dom().contains(k) ==> N.metadata@[k] == (if inbox(dfr, k as int) { A.metadata@[(k - shift(sfr, dfr)) as u16] } else { O.metadata@[k] }),
    ensures copying(s, area, off, pos, b, ta, lin(ta, p) + 1, N)
{
    hide(sel); hide(lin); hide(src_pos); hide(src_idx); hide(src_of); hide(inbox);
    let n = lin(ta, p);
    lemma_tidy(A);
    lemma_view(A);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] upto_at(s, area, off, pos, b, ta, n + 1, N, i) by {
        assert(upto_at(s, area, off, pos, b, ta, n, O, i));
        assert(short_name(O, i));
        if inbox(dfr, i) {
            lemma_shift(sfr, dfr, i);
            let j = i - shift(sfr, dfr);
            assert(j == src_idx(off, pos, i));
            assert(like(A, j, A@, j)); assert(short_name(A, j));
            assert(N.node(i) == A.node(j) && N.p1(i) == A.p1(j) && N.p2(i) == A.p2(j));
            assert(meta_of(N, i) == meta_of(A, j)) by { let k = i as u16; assert((k - shift(sfr, dfr)) as u16 == j as u16); assert(N.metadata@.dom().contains(k) == A.metadata@.dom().contains(j as u16)); }
            assert(like(N, i, A@, j));
        } else {
            assert(N.node(i) == O.node(i) && N.p1(i) == O.p1(i) && N.p2(i) == O.p2(i));
            assert(meta_of(N, i) == meta_of(O, i)) by { let k = i as u16; assert(N.metadata@.dom().contains(k) == O.metadata@.dom().contains(k)); }
            if sel(area, false, pos, i) && lin(ta, src_pos(off, pos, i)) == n { lemma_lin_injective(ta, src_pos(off, pos, i), p); }
        }
    }
    assert forall|k: u16| #[trigger] N.metadata@.dom().contains(k) implies N.metadata@[k]@.storable() by {
        if inbox(dfr, k as int) {
            lemma_shift(sfr, dfr, k as int);
            let j = (k - shift(sfr, dfr)) as u16;
            assert(N.metadata@[k] == A.metadata@[j]);
            assert(A.metadata@.dom().contains(j)); assert(A@.meta.dom().contains(j));
        } else { assert(O.metadata@.dom().contains(k)); assert(N.metadata@[k] == O.metadata@[k]); }
    }
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] short_name(N, i) by {
        if inbox(dfr, i) { lemma_shift(sfr, dfr, i); assert(short_name(A, i - shift(sfr, dfr))); assert(N.node(i) == A.node(i - shift(sfr, dfr))); }
        else { assert(short_name(O, i)); assert(N.node(i) == O.node(i)); }
    }
    assert(tidy(N));
}
pub proof fn lemma_norm_at(b: BlockV, i: int)
    ensures meta_at(b.norm(), i) == norm_entry(b.version, meta_at(b, i))
{
    let k = i as u16;
    let f = b.meta.dom().filter(|k: u16| !b.meta[k].is_empty());
    assert(b.norm().meta.dom().contains(k) == f.contains(k));
}
/// All source blocks are done and the names tidied (C): it can be written, and is the copy.
pub proof fn lemma_copied(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3, pos: Vec3, B: MapBlock, ta: Area, N: MapBlock, C: MapBlock)
    requires B.wf(), B@.storable(), copying(s, area, off, pos, B@, ta, ta.vol(), N), ta.valid(), N.same_frame(B), C.same_frame(B), C.metadata == N.metadata,
        C.wf_nodes(), C.node_data.param1 == N.node_data.param1, C.node_data.param2 == N.node_data.param2,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] C.node(i) == N.node(i),
        forall|k: u16| #[trigger] C.nimap.has(k) ==> C.node_data.nodes@.contains(k) && k < 65535,
        forall|i: int| 0 <= i < 4096 && #[trigger] sel(area, false, pos, i) ==> ta.hasv(src_pos(off, pos, i)),
    ensures C.wf(), C@.storable(), copied(s, area, off, pos, B@, C@.norm())
{
    hide(sel); hide(lin); hide(src_pos); hide(src_idx); hide(src_of); hide(norm_meta); hide(norm_entry);
    lemma_finish(B, N, C);
    lemma_view(C);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] whence_at(s, area, off, pos, B@, C@.norm(), i) by {
        assert(upto_at(s, area, off, pos, B@, ta, ta.vol(), N, i));
        if sel(area, false, pos, i) { lemma_lin_range(ta, src_pos(off, pos, i)); }
        assert(upto(s, area, off, pos, B@, ta, ta.vol(), i) == whence(s, area, off, pos, B@, i));
        lemma_finished(N, C, i);
    }
}
/// Node by node, the written block is the edited one.
pub proof fn lemma_finished(N: MapBlock, C: MapBlock, i: int)
    requires C.wf_nodes(), C.metadata == N.metadata, C.node_data.param1 == N.node_data.param1, C.node_data.param2 == N.node_data.param2, 0 <= i < 4096, C.node(i) == N.node(i),
    ensures C@.norm().node(i) == N.node(i), C@.norm().p1[i] == N.p1(i), C@.norm().p2[i] == N.p2(i), meta_at(C@.norm(), i) == norm_entry(C@.norm().version, meta_of(N, i))
{
    lemma_view(C);
    lemma_norm_at(C@, i);
    assert(C@.norm().node(i) == C@.node(i)); assert(C@.node(i) == C.node(i));
}
pub proof fn lemma_finish(B: MapBlock, N: MapBlock, C: MapBlock)
    requires B.wf(), B@.storable(), tidy(N), N.same_frame(B), C.same_frame(B), C.metadata == N.metadata,
        C.wf_nodes(), forall|i: int| 0 <= i < 4096 ==> #[trigger] C.node(i) == N.node(i),
        forall|k: u16| #[trigger] C.nimap.has(k) ==> C.node_data.nodes@.contains(k) && k < 65535,
    ensures C.wf(), C@.storable(), C@.norm().same_rest(B@)
{
    lemma_view(C);
    assert forall|k: u16| #[trigger] C@.names.dom().contains(k) implies C@.names[k].len() <= 65535 by {
        assert(C.nimap.has(k));
        let i = choose|i: int| 0 <= i < C.node_data.nodes@.len() && C.node_data.nodes@[i] == k;
        assert(C@.names[k] == C.node(i)); assert(C.node(i) == N.node(i)); assert(short_name(N, i));
    }
    assert forall|k: u16| #[trigger] C@.names.dom().contains(k) implies k < 65535 by { assert(C.nimap.has(k)); }
    lemma_names(C@.names, 65535);
    assert forall|k: u16| #[trigger] C@.meta.dom().contains(k) implies C@.meta[k].storable() by { assert(N.metadata@.dom().contains(k)); }
    assert(C@.objs == B@.objs); assert(C@.timers == B@.timers);
}
/// What reading block k of map m gives.
pub open spec fn got(m: Map<i64, Bytes>, k: i64, r: Option<Result<MapBlock, MapBlockError>>) -> bool {
    match r {
        None => !m.dom().contains(k) || !ivg(m[k]),
        Some(Ok(b)) => m.dom().contains(k) && ivg(m[k]) && dec(m[k]) == Some(b@) && b.wf() && b@.wf() && b@.storable(),
        Some(Err(_)) => m.dom().contains(k) && ivg(m[k]) && dec(m[k]).is_none(),
    }
}
/// The database still has block k as map m has it.
pub open spec fn as_in(w: Map<i64, Bytes>, m: Map<i64, Bytes>, k: i64) -> bool { w.dom().contains(k) == m.dom().contains(k) && (m.dom().contains(k) ==> w[k] == m[k]) }
pub proof fn lemma_unwritten(m: Map<i64, Bytes>, w: Map<i64, Bytes>, ks: Seq<i64>, j: int, rel: spec_fn(i64, Bytes, Bytes) -> bool, k: i64)
    requires progress(m, w, ks, j, rel), forall|i: int| 0 <= i < j ==> #[trigger] ks[i] != k
    ensures as_in(w, m, k)
{
    if m.dom().contains(k) && ks.contains(k) {
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(w[ks[i]] == m[ks[i]]);
    }
}
/// The reading of a source block decides whether nodes can be taken from it.
pub proof fn lemma_got(m: Map<i64, Bytes>, p: Vec3, r: Option<Result<MapBlock, MapBlockError>>)
    requires p.within(-1937, 1937), got(m, p.key() as i64, r)
    ensures match r { Some(Ok(a)) => src_of(m, p) == Some(a@), _ => src_of(m, p).is_none() }
{
    ax_ivg(m[p.key() as i64]);
}
/// Destination blocks that cannot be read.
pub open spec fn bad_gen(m: Map<i64, Bytes>) -> spec_fn(i64) -> int { |k: i64| if ivg(m[k]) && dec(m[k]).is_none() { 1int } else { 0 } }
/// The copy, for one block of the destination map: from map s, moved by off into area.
pub open spec fn copy_rel(s: Map<i64, Bytes>, area: Option<Area>, off: Vec3) -> spec_fn(i64, Bytes, Bytes) -> bool {
    |k: i64, old: Bytes, new: Bytes| match dec(old) {
        None => new == old,
        Some(b) => if !b.generated() || !area_hit(area, false, true, unkey(k as int)) { new == old } else {
            dec(new) matches Some(c) && copied(s, area, off, unkey(k as int), b, c)
        },
    }
}
/// Skipped blocks are counted; nothing else is logged.
pub open spec fn skipped(a: StatusV, b: StatusV, m: Map<i64, Bytes>, area: Option<Area>) -> bool {
    b.log == a.log && exists|ks: Seq<i64>| #[trigger] picks(ks, m, seq![], area, false) && b.failed == a.failed + total(ks, bad_gen(m), ks.len() as int)
}
>>>

module clone commands/clone.rs
type BlockResult
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
/// Every cached entry is what reading map m gave.
pub open spec fn told(c: CacheMap<i64, BlockResult>, m: Map<i64, Bytes>) -> bool { forall|k: i64| #[trigger] c@.dom().contains(k) ==> got(m, k, c@[k]) }
/// Order of writing: against the direction of the move.
pub open spec fn turn(o: int, x: int) -> int { if o > 0 { -x - 1 } else { x } }
pub open spec fn turned(off: Vec3, p: Vec3) -> Vec3 { Vec3::v(turn(off.x as int, p.x as int), turn(off.y as int, p.y as int), turn(off.z as int, p.z as int)) }
pub open spec fn rank(off: Vec3, k: i64) -> int { turned(off, unkey(k as int)).key() }
pub open spec fn ranked(off: Vec3, ks: Seq<i64>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> rank(off, #[trigger] ks[i]) <= rank(off, #[trigger] ks[j]) }
/// A source block of block d is not written before it.
pub proof fn lemma_order(off: Vec3, ks: Seq<i64>, j: int, s: Vec3, dp: Area, area: Option<Area>, sp: Area, i: int)
    requires ranked(off, ks), ks.no_duplicates(), 0 <= i < j < ks.len(), s.within(-1937, 1937), key_ok(ks[j] as int), key_ok(ks[i] as int), small(off, 100000),
        dst_part(dp, area, unkey(ks[j] as int)), sp.meets_c(s),
        sp.min == Vec3::v(dp.min.x - off.x, dp.min.y - off.y, dp.min.z - off.z), sp.max == Vec3::v(dp.max.x - off.x, dp.max.y - off.y, dp.max.z - off.z),
    ensures ks[i] != s.key()
{
    let d = unkey(ks[j] as int);
    lemma_unpack_pack(ks[j] as int);
    lemma_pack_unpack(s);
    let (a, b) = (turned(off, d), turned(off, s));
    assert(a.x <= b.x && a.y <= b.y && a.z <= b.z);
    if ks[i] == s.key() {
        assert(rank(off, ks[i]) == b.key());
        assert(rank(off, ks[i]) <= rank(off, ks[j]));
        assert(b.key() <= a.key());
        assert(a == b);
        assert(d == s);
    }
}
pub proof fn lemma_turn(x: int, o: int, d: int, e: int)
    requires d == (if o > 0 { -1int } else { 1 }), e == (if o > 0 { -1int } else { 0 })
    ensures x * d + e == turn(o, x), x * d == (if o > 0 { -x } else { x })
{
    if o > 0 { assert(x * d == -x) by (nonlinear_arith) requires d == -1; } else { assert(x * d == x) by (nonlinear_arith) requires d == 1; }
}
pub proof fn lemma_ranks_ok(m: Map<i64, Bytes>, ks: Seq<i64>, area: Option<Area>)
    requires picks(ks, m, seq![], area, false), keys_in_range(m)
    ensures forall|i: int| 0 <= i < ks.len() ==> key_ok(#[trigger] ks[i] as int)
{
    assert forall|i: int| 0 <= i < ks.len() implies key_ok(#[trigger] ks[i] as int) by { assert(ks.contains(ks[i])); }
}
pub proof fn lemma_perm_picks(new: Seq<i64>, old: Seq<i64>, m: Map<i64, Bytes>, area: Option<Area>)
    requires picks(old, m, seq![], area, false), exists|p: Seq<int>, keys: Seq<i64>| #[trigger] sorted_as(new, old, keys, p)
    ensures picks(new, m, seq![], area, false)
{
    let (p, keys) = choose|p: Seq<int>, keys: Seq<i64>| #[trigger] sorted_as(new, old, keys, p);
    assert forall|i: int, j: int| 0 <= i < j < new.len() implies new[i] != new[j] by { assert(p[i] != p[j]); assert(new[i] == old[p[i]] && new[j] == old[p[j]]); }
    assert forall|k: i64| #[trigger] new.contains(k) == selected(m, seq![], area, false, true, k) by {
        if new.contains(k) {
            let i = choose|i: int| 0 <= i < new.len() && new[i] == k;
            assert(new[i] == old[p[i]]); assert(old.contains(k));
        }
        if selected(m, seq![], area, false, true, k) {
            assert(old.contains(k));
            let q = choose|q: int| 0 <= q < old.len() && old[q] == k;
            assert(p.contains(q));
            let i = choose|i: int| 0 <= i < p.len() && p[i] == q;
            assert(p[i] == q); assert(new[i] == k);
        }
    }
}
>>>
fn get_cached own as=get_cached_clone
spec <<<
    requires old(db).wf(), old(cache).wf()
    ensures
        final(db).wf(), final(db)@ == old(db)@, final(db).held(old(db)), final(cache).wf(),
        forall|m: Map<i64, Bytes>| #[trigger] told(*old(cache), m) && as_in(old(db)@, m, key) ==> told(*final(cache), m) && got(m, key, r),
>>>
fn clone own as=clone_cmd rlimit=100 spinoff_prover vecmap=offset,sort_dir
subst <<<
get_cached ==> get_cached_clone
>>>
spec <<<
    requires old(inst).ready(), old(inst).args.area.is_some(), old(inst).args.offset.is_some(),
        old(inst).args.area.unwrap().within(-31000, 31000), offset_ok(old(inst).args.offset.unwrap()),
    ensures
        final(inst).same_session(old(inst)),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            copy_rel(old(inst).db@, Some(moved(old(inst).args.area.unwrap(), old(inst).args.offset.unwrap())), old(inst).args.offset.unwrap())(k, old(inst).db@[k], final(inst).db@[k]),
        skipped(old(inst).status@, final(inst).status@, old(inst).db@, Some(moved(old(inst).args.area.unwrap(), old(inst).args.offset.unwrap()))),
>>>
entry <<<
    hide(inbox); hide(sel); hide(lin); hide(total); hide(progress); hide(in_map); hide(norm_meta); hide(picks); hide(copied); hide(copying);
    hide(src_of); hide(dst_part); hide(frags); hide(rank);
    let ghost m = inst.db@;
    let ghost off = inst.args.offset.unwrap();
    let ghost area = Some(moved(inst.args.area.unwrap(), off));
    let ghost rel = copy_rel(m, area, off);
    let ghost g = bad_gen(m);
    let ghost mut KS: Seq<i64> = seq![];
    proof { assert(views(Seq::<Vec<u8>>::empty()) =~= Seq::<Bytes>::empty()); }
>>>
call query_keys 0 after <<<
    let ghost KS0 = dst_keys@;
    proof { reveal(picks); }
>>>
loop 0 <<<
    invariant
        __s0@ == KS0, 0 <= __i0 <= KS0.len(), __o0@.len() == __i0, keys_in_range(m), picks(KS0, m, seq![], area, false),
        sort_dir == Vec3::v(if off.x > 0 { -1 } else { 1 }, if off.y > 0 { -1 } else { 1 }, if off.z > 0 { -1 } else { 1 }),
        sort_offset == Vec3::v(if off.x > 0 { -1 } else { 0 }, if off.y > 0 { -1 } else { 0 }, if off.z > 0 { -1 } else { 0 }),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] __o0@[i] == rank(off, KS0[i]),
    decreases KS0.len() - __i0
>>>
loop 0 head <<<
    proof {
        lemma_ranks_ok(m, KS0, area); reveal(rank);
        let p = unkey(KS0[__i0 as int] as int);
        lemma_unpack_pack(KS0[__i0 as int] as int);
        lemma_turn(p.x as int, off.x as int, sort_dir.x as int, sort_offset.x as int);
        lemma_turn(p.y as int, off.y as int, sort_dir.y as int, sort_offset.y as int);
        lemma_turn(p.z as int, off.z as int, sort_dir.z as int, sort_offset.z as int);
    }
>>>
loop 0 after <<<
    proof {
        KS = dst_keys@;
        lemma_perm_picks(KS, KS0, m, area);
        lemma_ranks_ok(m, KS, area);
        assert(ranked(off, KS));
        lemma_progress_start(m, KS, seq![], area, false, rel);
    }
>>>
loop 1 <<<
    invariant
        inst.same_session(old(inst)), inst.args == old(inst).args, area_ok(area), area == Some(dst_area), offset == off, small(off, 62000),
        m == old(inst).db@, keys_in_range(m), roomy(m), KS == __s1@, rel == copy_rel(m, area, off), g == bad_gen(m),
        __s1.len() <= 0x10_0000_0000, picks(KS, m, seq![], area, false), ranked(off, KS), forall|i: int| 0 <= i < KS.len() ==> key_ok(#[trigger] KS[i] as int),
        0 <= __i1 <= KS.len(), progress(m, inst.db@, KS, __i1 as int, rel),
        block_cache.wf(), told(block_cache, m),
        inst.status@.failed == old(inst).status@.failed + total(KS, g, __i1 as int), inst.status@.log == old(inst).status@.log,
        inst.status@.counting(__i1 as int, __s1.len() as int),
    decreases KS.len() - __i1
>>>
loop 1 head <<<
    let ghost j = __i1 - 1;
    proof {
        reveal(total); reveal(picks);
        lemma_progress(m, inst.db@, KS, j, rel);
        assert(KS.contains(dst_key));
        lemma_unpack_pack(dst_key as int);
        ax_ivg(m[dst_key]);
    }
>>>
call get_cached_clone 0 after <<<
    let ghost B = dst_block;
    let ghost W = inst.db@;
    let ghost F = inst.status@;
    proof {
        lemma_view(B);
        B.nimap.lemma_max();
        assert(B.nimap.has(B.node_data.nodes@[0]));
        assert forall|k: u16| #[trigger] B.nimap.has(k) implies k < 7000 by { assert(B@.names.dom().contains(k)); }
        lemma_meets(dst_area, unkey(dst_key as int));
    }
>>>
call to_touching_block_area 0 after <<<
    let ghost dp = dst_part_abs;
    let ghost sp = src_part_abs;
    let ghost ta = src_blocks_needed;
    proof {
        assert(dst_part(dp, area, dst_pos)) by { reveal(dst_part); }
        lemma_touched(dp, area, off, dst_pos, sp, ta);
        lemma_copy_start(m, area, off, dst_pos, ta, B);
    }
>>>
loop 2 kind=into <<<
    invariant
        inst.same_session(old(inst)), inst.args == old(inst).args, inst.db@ == W, inst.status@ == F, offset == off, small(off, 62000),
        m == old(inst).db@, keys_in_range(m), roomy(m), progress(m, W, KS, j, rel), 0 <= j < KS.len(), ranked(off, KS), KS.no_duplicates(),
        KS[j] == dst_key, key_ok(dst_key as int), dst_pos == unkey(dst_key as int), dst_pos.in_key_range(), forall|i: int| 0 <= i < KS.len() ==> key_ok(#[trigger] KS[i] as int),
        block_cache.wf(), told(block_cache, m),
        dst_part(dp, area, dst_pos), dp == dst_part_abs, sp == src_part_abs, sp == moved(dp, Vec3::v(-off.x, -off.y, -off.z)), sp.valid(), small(sp.min, 200000), small(sp.max, 200000), ta.valid(), ta.vol() <= 8, ta.within(-20000, 20000),
        forall|b: Vec3| #[trigger] ta.hasv(b) == sp.meets_c(b),
        forall|i: int| 0 <= i < 4096 && #[trigger] sel(area, false, dst_pos, i) ==> ta.hasv(src_pos(off, dst_pos, i)),
        __t2.wf(), __t2.area() == ta, 0 <= __t2.done() <= ta.vol(),
        copying(m, area, off, dst_pos, B@, ta, __t2.done(), dst_block), dst_block.same_frame(B), dst_block.wf_nodes(), dst_block.wf_meta(),
        dst_block.nimap.max_id() <= 6999 + 7000 * __t2.done(),
    ensures __t2.done() == ta.vol()
    decreases ta.vol() - __t2.done()
>>>
loop 2 head <<<
    let ghost O = dst_block;
    proof {
        assert(ta.hasv(src_pos));
        if src_of(m, src_pos).is_none() { lemma_copy_skip(m, area, off, dst_pos, B@, ta, src_pos, O); }
        if src_pos.within(-1937, 1937) {
            assert forall|i: int| 0 <= i < j implies #[trigger] KS[i] != src_pos.key() as i64 by { lemma_order(off, KS, j, src_pos, dp, area, sp, i); }
            lemma_unwritten(m, W, KS, j, rel, src_pos.key() as i64);
            assert forall|r: BlockResult| #[trigger] got(m, src_pos.key() as i64, r) implies match r { Some(Ok(a)) => src_of(m, src_pos) == Some(a@), _ => src_of(m, src_pos).is_none() } by { lemma_got(m, src_pos, r); }
        } else { assert(src_of(m, src_pos).is_none()) by { reveal(src_of); } }
    }
>>>
call rel_block_overlap 0 before <<<
    proof { lemma_frag_back(dp, area, off, dst_pos, src_pos, sp, src_frag_abs); }
>>>
call merge_blocks 0 before <<<
    let ghost sfa = src_frag_abs;
    proof {
        lemma_frags(dp, area, off, dst_pos, src_pos, sp, sfa, src_frag_rel, dst_frag_rel);
        lemma_view(src_block);
        src_block.nimap.lemma_max();
        assert forall|k: u16| #[trigger] src_block.nimap.has(k) implies k < 7000 by { assert(src_block@.names.dom().contains(k)); }
        reveal(frags); reveal(copying);
    }
>>>
call merge_metadata 0 before <<<
    let ghost M1 = dst_block;
>>>
call merge_metadata 0 after <<<
    proof {
        let a = src_frag_rel; let d = dst_frag_rel;
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] dst_block.node(i) == (if inbox(d, i) { src_block.node(i - shift(a, d)) } else { O.node(i) }) by { assert(dst_block.node(i) == M1.node(i)); }
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] dst_block.p1(i) == (if inbox(d, i) { src_block.p1(i - shift(a, d)) } else { O.p1(i) }) by { assert(dst_block.p1(i) == M1.p1(i)); }
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] dst_block.p2(i) == (if inbox(d, i) { src_block.p2(i - shift(a, d)) } else { O.p2(i) }) by { assert(dst_block.p2(i) == M1.p2(i)); }
    }
    proof { lemma_copy_step(m, area, off, dst_pos, B@, ta, src_pos, O, src_block, dst_block, src_frag_rel, dst_frag_rel); }
>>>
call clean_name_id_map 0 before <<<
    let ghost N = dst_block;
>>>
call serialize 0 before <<<
    proof {
        dst_block.nimap.lemma_max();
        lemma_copied(m, area, off, dst_pos, B, ta, N, dst_block);
    }
>>>
loop 1 after <<<
    proof {
        assert forall|k: i64| m.dom().contains(k) && !#[trigger] KS.contains(k) implies rel(k, m[k], m[k]) by {
            reveal(picks);
            assert(!selected(m, seq![], area, false, true, k));
        }
        lemma_progress_end(m, inst.db@, KS, rel);
    }
>>>
exit <<<
    proof {
        assert(picks(KS, m, seq![], area, false));
    }
>>>

module overlay commands/overlay.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
pub open spec fn look(m: Map<i64, Bytes>, k: i64) -> Option<Bytes> { if m.dom().contains(k) { Some(m[k]) } else { None } }
// ---- without offset ---------------------------------------------------------------------------
pub open spec fn whole(area: Option<Area>, invert: bool, p: Vec3) -> bool {
    match area { None => true, Some(a) => if invert { !a.meets(p) } else { a.covers(p) } }
}
/// c has the selected nodes of block a (at p) and the other nodes of block b; the rest of it
/// is b's, or a's if the selection is inverted.
pub open spec fn overlaid(area: Area, invert: bool, p: Vec3, a: BlockV, b: BlockV, c: BlockV) -> bool {
    c.same_rest(if invert { a } else { b }) && forall|i: int| 0 <= i < 4096 ==> #[trigger] laid(area, invert, p, a, b, c, i)
}
pub open spec fn laid(area: Area, invert: bool, p: Vec3, a: BlockV, b: BlockV, c: BlockV, i: int) -> bool {
    node_is(c, i, if sel(Some(area), invert, p, i) { a } else { b }, i)
}
/// A partly selected block: old and new data of the main map, src of the source map.
pub open spec fn part_rel(area: Area, invert: bool, p: Vec3, src: Bytes, old: Option<Bytes>, new: Option<Bytes>) -> bool {
    match (old, dec(src)) {
        (Some(d), Some(a)) => match dec(d) {
            Some(b) => if a.generated() && b.generated() {
                new matches Some(e) && dec(e) matches Some(c) && overlaid(area, invert, p, a, b, c)
            } else { new == old },
            None => new == old,
        },
        _ => new == old,
    }
}
/// The overlay of map s, for one position.
pub open spec fn over_rel(s: Map<i64, Bytes>, area: Option<Area>, invert: bool) -> spec_fn(i64, Option<Bytes>, Option<Bytes>) -> bool {
    |k: i64, old: Option<Bytes>, new: Option<Bytes>| {
        let p = unkey(k as int);
        if !s.dom().contains(k) || !area_hit(area, invert, true, p) { new == old }
        else if whole(area, invert, p) { new == (if ivg(s[k]) { Some(s[k]) } else { old }) }
        else { part_rel(area.unwrap(), invert, p, s[k], old, new) }
    }
}
/// Partly selected blocks one side of which cannot be read.
pub open spec fn bad_part(src: Bytes, old: Option<Bytes>) -> bool { old matches Some(d) && ivg(d) && (dec(src).is_none() || dec(d).is_none()) }
pub open spec fn bad_over(s: Map<i64, Bytes>, m: Map<i64, Bytes>, area: Option<Area>, invert: bool) -> spec_fn(i64) -> int {
    |k: i64| if !whole(area, invert, unkey(k as int)) && bad_part(s[k], look(m, k)) { 1int } else { 0 }
}
pub open spec fn skipped_over(a: StatusV, b: StatusV, s: Map<i64, Bytes>, m: Map<i64, Bytes>, area: Option<Area>, invert: bool) -> bool {
    b.log == a.log && exists|ks: Seq<i64>| #[trigger] picks(ks, s, seq![], area, invert) && b.failed == a.failed + total(ks, bad_over(s, m, area, invert), ks.len() as int)
}
/// Keys that need not be in the map.
pub open spec fn walk(m: Map<i64, Bytes>, w: Map<i64, Bytes>, ks: Seq<i64>, i: int, rel: spec_fn(i64, Option<Bytes>, Option<Bytes>) -> bool) -> bool {
    &&& ks.no_duplicates()
    &&& 0 <= i <= ks.len()
    &&& forall|j: int| 0 <= j < i ==> rel(#[trigger] ks[j], look(m, ks[j]), look(w, ks[j]))
    &&& forall|j: int| i <= j < ks.len() ==> #[trigger] look(w, ks[j]) == look(m, ks[j])
    &&& forall|k: i64| !ks.contains(k) ==> #[trigger] look(w, k) == look(m, k)
}
/// w2 is w, except possibly for key k.
pub open spec fn only_at(w: Map<i64, Bytes>, w2: Map<i64, Bytes>, k: i64) -> bool { forall|q: i64| q != k ==> #[trigger] look(w2, q) == look(w, q) }
pub proof fn lemma_only_insert(w: Map<i64, Bytes>, k: i64, d: Bytes)
    ensures only_at(w, w.insert(k, d), k), look(w.insert(k, d), k) == Some(d)
{ }
pub proof fn lemma_walk(m: Map<i64, Bytes>, w: Map<i64, Bytes>, w2: Map<i64, Bytes>, ks: Seq<i64>, i: int, rel: spec_fn(i64, Option<Bytes>, Option<Bytes>) -> bool)
    requires walk(m, w, ks, i, rel), i < ks.len(), only_at(w, w2, ks[i]), rel(ks[i], look(m, ks[i]), look(w2, ks[i]))
    ensures walk(m, w2, ks, i + 1, rel)
{
    hide(look);
    assert forall|j: int| 0 <= j < i + 1 implies rel(#[trigger] ks[j], look(m, ks[j]), look(w2, ks[j])) by { if j < i { assert(ks[j] != ks[i]); assert(look(w2, ks[j]) == look(w, ks[j])); } }
    assert forall|j: int| i + 1 <= j < ks.len() implies #[trigger] look(w2, ks[j]) == look(m, ks[j]) by { assert(ks[j] != ks[i]); assert(look(w, ks[j]) == look(m, ks[j])); }
    assert forall|k: i64| !ks.contains(k) implies #[trigger] look(w2, k) == look(m, k) by { assert(ks.contains(ks[i])); assert(look(w, k) == look(m, k)); }
}
pub proof fn lemma_walk_end(m: Map<i64, Bytes>, w: Map<i64, Bytes>, ks: Seq<i64>, rel: spec_fn(i64, Option<Bytes>, Option<Bytes>) -> bool)
    requires walk(m, w, ks, ks.len() as int, rel), forall|k: i64| !#[trigger] ks.contains(k) ==> rel(k, look(m, k), look(m, k))
    ensures forall|k: i64| rel(k, #[trigger] look(m, k), look(w, k))
{
    hide(look);
    assert forall|k: i64| rel(k, #[trigger] look(m, k), look(w, k)) by {
        if ks.contains(k) {
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
            assert(rel(ks[j], look(m, ks[j]), look(w, ks[j])));
        } else { assert(look(w, k) == look(m, k)); }
    }
}
pub open spec fn room_at(m: Map<i64, Bytes>, k: i64) -> bool { look(m, k) matches Some(d) ==> (dec(d) matches Some(b) ==> b.ids_below(7000)) }
/// N: the part of A laid over O.  C: with its names tidied.
pub open spec fn merged(A: MapBlock, O: MapBlock, N: MapBlock, part: Area) -> bool {
    &&& N.same_frame(O) && N.wf_nodes() && N.wf_meta()
    &&& forall|i: int| 0 <= i < 4096 ==> #[trigger] N.node(i) == (if inbox(part, i) { A.node(i) } else { O.node(i) })
    &&& forall|i: int| 0 <= i < 4096 ==> #[trigger] N.p1(i) == (if inbox(part, i) { A.p1(i) } else { O.p1(i) })
    &&& forall|i: int| 0 <= i < 4096 ==> #[trigger] N.p2(i) == (if inbox(part, i) { A.p2(i) } else { O.p2(i) })
    &&& forall|k: u16| k < 4096 ==> #[trigger] N.metadata@.dom().contains(k) == (if inbox(part, k as int) { A.metadata@.dom().contains(k) } else { O.metadata@.dom().contains(k) })
    &&& forall|k: u16| #[trigger] N.metadata@.dom().contains(k) ==> N.metadata@[k] == (if inbox(part, k as int) { A.metadata@[k] } else { O.metadata@[k] })
}
pub open spec fn one_of(c: BlockV, i: int, f: bool, a: BlockV, b: BlockV) -> bool { node_is(c, i, if f { a } else { b }, i) }
pub proof fn lemma_meta_after(A: MapBlock, O: MapBlock, M: MapBlock, N: MapBlock, part: Area)
    requires M.same_frame(O), M.wf_nodes(), N.node_data == M.node_data, N.nimap == M.nimap, N.same_frame(M), shift(part, part) == 0,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] M.node(i) == (if inbox(part, i) { A.node(i - shift(part, part)) } else { O.node(i) }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] M.p1(i) == (if inbox(part, i) { A.p1(i - shift(part, part)) } else { O.p1(i) }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] M.p2(i) == (if inbox(part, i) { A.p2(i - shift(part, part)) } else { O.p2(i) }),
        N.wf_meta(),
        forall|k: u16| k < 4096 ==> #[trigger] N.metadata@.dom().contains(k) == (if inbox(part, k as int) { A.metadata@.dom().contains((k - shift(part, part)) as u16) } else { O.metadata@.dom().contains(k) }),
        forall|k: u16| #[trigger] N.metadata@.dom().contains(k) ==> N.metadata@[k] == (if inbox(part, k as int) { A.metadata@[(k - shift(part, part)) as u16] } else { O.metadata@[k] }),
    ensures merged(A, O, N, part)
{
    hide(inbox); hide(shift);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] N.node(i) == (if inbox(part, i) { A.node(i) } else { O.node(i) }) by { assert(N.node(i) == M.node(i)); }
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] N.p1(i) == (if inbox(part, i) { A.p1(i) } else { O.p1(i) }) by { assert(N.p1(i) == M.p1(i)); }
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] N.p2(i) == (if inbox(part, i) { A.p2(i) } else { O.p2(i) }) by { assert(N.p2(i) == M.p2(i)); }
}
pub proof fn lemma_laid(A: MapBlock, O: MapBlock, N: MapBlock, C: MapBlock, part: Area)
    requires A.wf(), A@.storable(), O.wf(), O@.storable(), merged(A, O, N, part), C.same_frame(O), C.metadata == N.metadata,
        C.wf_nodes(), C.node_data.param1 == N.node_data.param1, C.node_data.param2 == N.node_data.param2,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] C.node(i) == N.node(i),
        forall|k: u16| #[trigger] C.nimap.has(k) ==> C.node_data.nodes@.contains(k) && k < 65535,
    ensures C.wf(), C@.storable(), C@.norm().same_rest(O@),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] one_of(C@.norm(), i, inbox(part, i), A@, O@)
{
    hide(inbox); hide(norm_meta); hide(norm_entry);
    lemma_tidy(A);
    lemma_tidy(O);
    lemma_view(A);
    lemma_view(O);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] short_name(N, i) by {
        assert(short_name(A, i) && short_name(O, i)); assert(N.node(i) == (if inbox(part, i) { A.node(i) } else { O.node(i) }));
    }
    assert forall|k: u16| #[trigger] N.metadata@.dom().contains(k) implies N.metadata@[k]@.storable() by {
        if inbox(part, k as int) { assert(A.metadata@.dom().contains(k)); } else { assert(O.metadata@.dom().contains(k)); }
    }
    lemma_finish(O, N, C);
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] one_of(C@.norm(), i, inbox(part, i), A@, O@) by {
        assert(C.node(i) == N.node(i));
        lemma_finished(N, C, i);
        let k = i as u16;
        assert(like(A, i, A@, i) && like(O, i, O@, i));
        assert(N.node(i) == (if inbox(part, i) { A.node(i) } else { O.node(i) }));
        assert(N.p1(i) == (if inbox(part, i) { A.p1(i) } else { O.p1(i) }));
        assert(N.p2(i) == (if inbox(part, i) { A.p2(i) } else { O.p2(i) }));
        assert(k as int == i);
        assert(N.metadata@.dom().contains(k) == (if inbox(part, i) { A.metadata@.dom().contains(k) } else { O.metadata@.dom().contains(k) }));
    }
}
pub proof fn lemma_part_sel(area: Area, p: Vec3, part: Area, i: int)
    requires 0 <= i < 4096, p.in_key_range(), area.valid(), part.within(0, 15),
        forall|x: int, y: int, z: int| #[trigger] part.has(x, y, z) == (0 <= x <= 15 && 0 <= y <= 15 && 0 <= z <= 15 && area.has(x + 16 * p.x, y + 16 * p.y, z + 16 * p.z)),
    ensures sel(Some(area), false, p, i) == inbox(part, i), sel(Some(area), true, p, i) == !inbox(part, i)
{
    lemma_digits(i);
    assert(part.has(i % 16, (i / 16) % 16, i / 256) == inbox(part, i));
}
/// Every cached entry is what reading map s gave.
pub open spec fn got_src(s: Map<i64, Bytes>, k: i64, r: Option<MapBlock>) -> bool {
    match r {
        Some(b) => s.dom().contains(k) && dec(s[k]) == Some(b@) && b@.generated() && b.wf() && b@.wf() && b@.storable(),
        None => s.dom().contains(k) ==> (dec(s[k]) matches Some(b) ==> !b.generated()),
    }
}
pub open spec fn told_src(c: CacheMap<i64, Option<MapBlock>>, s: Map<i64, Bytes>) -> bool { forall|k: i64| #[trigger] c@.dom().contains(k) ==> got_src(s, k, c@[k]) }
pub open spec fn src_kept(a: Option<MapDatabase>, b: Option<MapDatabase>) -> bool {
    a.is_some() == b.is_some() && (a.is_some() ==> b.unwrap().wf() && b.unwrap()@ == a.unwrap()@ && b.unwrap().held(&a.unwrap()))
}
pub open spec fn moved_opt(a: Option<Area>, o: Vec3) -> Option<Area> { match a { Some(a) => Some(moved(a, o)), None => None } }
pub open spec fn shift_of(a: InstArgs) -> Vec3 { match a.offset { Some(o) => o, None => Vec3::v(0, 0, 0) } }
/// What overlay makes of map m, with source map s.
pub open spec fn overlay_made(a: InstArgs, s: Map<i64, Bytes>, m: Map<i64, Bytes>, w: Map<i64, Bytes>) -> bool {
    if shift_of(a) == Vec3::v(0, 0, 0) { forall|k: i64| over_rel(s, a.area, a.invert)(k, #[trigger] look(m, k), look(w, k)) }
    else { w.dom() == m.dom() && forall|k: i64| #[trigger] m.dom().contains(k) ==> copy_rel(s, moved_opt(a.area, shift_of(a)), shift_of(a))(k, m[k], w[k]) }
}
impl InstBundle {
    /// Like `kept`, when the source map is read.
    pub open spec fn kept_src(&self, o: &InstBundle) -> bool {
        self.args == o.args && self.db.held(&o.db) && self.db.wf() && src_kept(o.idb, self.idb) && self.status@.answer == o.status@.answer
    }
    pub open spec fn ready_src(&self) -> bool {
        self.ready() && self.idb.is_some() && self.idb.unwrap().wf() && keys_in_range(self.idb.unwrap()@) && roomy(self.idb.unwrap()@)
    }
}
>>>
fn overlay_no_offset own closure=0 as=overlay_part args=db:~&mut~MapDatabase,~idb:~&mut~MapDatabase,~key:~i64,~pos:~Vec3,~area:~Area,~invert:~bool rlimit=60
spec <<<
    requires old(db).wf(), old(idb).wf(), old(idb)@.dom().contains(key), key_ok(key as int), pos == unkey(key as int), area_ok(Some(area)), area.meets_c(pos),
        room_at(old(db)@, key), room_at(old(idb)@, key),
    ensures
        final(idb).wf(), final(idb)@ == old(idb)@, final(idb).held(old(idb)), final(db).wf(), final(db).held(old(db)),
        only_at(old(db)@, final(db)@, key), part_rel(area, invert, pos, old(idb)@[key], look(old(db)@, key), look(final(db)@, key)),
        r.is_err() == bad_part(old(idb)@[key], look(old(db)@, key)),
>>>
entry <<<
    hide(inbox); hide(sel);
    let ghost m = db@;
    let ghost s = idb@;
    proof { lemma_unpack_pack(key as int); ax_ivg(s[key]); ax_ivg(m[key]); }
>>>
call deserialize 1 after <<<
    let ghost A = src_block;
    let ghost B = dst_block;
    proof {
        lemma_view(A); lemma_view(B);
        A.nimap.lemma_max();
        B.nimap.lemma_max();
        assert(A.nimap.has(A.node_data.nodes@[0]));
        assert(B.nimap.has(B.node_data.nodes@[0]));
        assert forall|k: u16| #[trigger] A.nimap.has(k) implies k < 7000 by { assert(A@.names.dom().contains(k)); }
        assert forall|k: u16| #[trigger] B.nimap.has(k) implies k < 7000 by { assert(B@.names.dom().contains(k)); }
    }
>>>
call rel_block_overlap 0 after <<<
    proof {
        assert(parts_ok(block_part, block_part)); assert(shift(block_part, block_part) == 0);
        assert forall|i: int| 0 <= i < 4096 implies (#[trigger] sel(Some(area), invert, pos, i)) == (inbox(block_part, i) != invert) by { lemma_part_sel(area, pos, block_part, i); }
    }
>>>
call merge_metadata 0 before <<<
    let ghost M = src_block;
>>>
call clean_name_id_map 0 before <<<
    let ghost N = src_block;
    proof { lemma_meta_after(B, A, M, N, block_part); }
>>>
call serialize 0 before <<<
    proof {
        src_block.nimap.lemma_max();
        lemma_laid(B, A, N, src_block, block_part);
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] laid(area, invert, pos, A@, B@, src_block@.norm(), i) by {
            assert(one_of(src_block@.norm(), i, inbox(block_part, i), B@, A@)); assert(sel(Some(area), invert, pos, i) == (inbox(block_part, i) != invert));
        }
    }
>>>
call merge_metadata 1 before <<<
    let ghost M = dst_block;
>>>
call clean_name_id_map 1 before <<<
    let ghost N = dst_block;
    proof { lemma_meta_after(A, B, M, N, block_part); }
>>>
call serialize 1 before <<<
    proof {
        dst_block.nimap.lemma_max();
        lemma_laid(A, B, N, dst_block, block_part);
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] laid(area, invert, pos, A@, B@, dst_block@.norm(), i) by {
            assert(one_of(dst_block@.norm(), i, inbox(block_part, i), A@, B@)); assert(sel(Some(area), invert, pos, i) == (inbox(block_part, i) != invert));
        }
    }
>>>
fn overlay_no_offset own rlimit=60
lift 0 <<<
overlay_part(db, idb, key, pos, area, invert)
>>>
spec <<<
    requires old(inst).ready_src()
    ensures
        final(inst).kept_src(old(inst)),
        forall|k: i64| over_rel(old(inst).idb.unwrap()@, old(inst).args.area, old(inst).args.invert)(k, #[trigger] look(old(inst).db@, k), look(final(inst).db@, k)),
        skipped_over(old(inst).status@, final(inst).status@, old(inst).idb.unwrap()@, old(inst).db@, old(inst).args.area, old(inst).args.invert),
>>>
entry <<<
    hide(inbox); hide(sel); hide(total); hide(walk); hide(picks);
    let ghost m = inst.db@;
    let ghost s = inst.idb.unwrap()@;
    let ghost D0 = inst.db;
    let ghost S0 = inst.idb.unwrap();
    let ghost T0 = inst.status@;
    let ghost A0 = inst.args;
    let ghost area0 = inst.args.area;
    let ghost inv = inst.args.invert;
    let ghost rel = over_rel(s, area0, inv);
    let ghost g = bad_over(s, m, area0, inv);
    let ghost mut KS: Seq<i64> = seq![];
    proof { assert(views(Seq::<Vec<u8>>::empty()) =~= Seq::<Bytes>::empty()); }
>>>
call query_keys 0 after <<<
    proof {
        KS = keys@;
        reveal(picks); reveal(walk); reveal(total);
        assert forall|i: int| 0 <= i < KS.len() implies key_ok(#[trigger] KS[i] as int) by { assert(KS.contains(KS[i])); }
        lemma_key_count(KS);
    }
>>>
loop 0 <<<
    invariant
        inst.args == A0, A0.area == area0, A0.invert == inv, invert == inv, area_ok(area0), area0.is_some() || !inv,
        db.wf(), db.held(&D0), idb.wf(), idb.held(&S0), idb@ == s, S0@ == s, D0@ == m,
        keys_in_range(m), roomy(m), keys_in_range(s), roomy(s), KS == __s0@, rel == over_rel(s, area0, inv), g == bad_over(s, m, area0, inv),
        __s0.len() <= 0x10_0000_0000, picks(KS, s, seq![], area0, inv),
        0 <= __i0 <= KS.len(), walk(m, db@, KS, __i0 as int, rel),
        inst.status@.failed == T0.failed + total(KS, g, __i0 as int), inst.status@.log == T0.log, inst.status@.answer == T0.answer,
        inst.status@.counting(__i0 as int, __s0.len() as int),
    decreases KS.len() - __i0
>>>
loop 0 head <<<
    let ghost kk = KS[__i0 - 1];
    let ghost j = __i0 - 1;
    let ghost W = db@;
    proof {
        reveal(total);
        assert(KS.contains(kk) && look(W, kk) == look(m, kk)) by { reveal(walk); reveal(picks); }
        assert(s.dom().contains(kk) && area_hit(area0, inv, true, unkey(kk as int))) by { reveal(picks); assert(selected(s, seq![], area0, inv, true, kk)); }
        lemma_unpack_pack(kk as int);
        if area0.is_some() { lemma_meets(area0.unwrap(), unkey(kk as int)); }
        assert forall|d: Bytes| only_at(W, #[trigger] W.insert(kk, d), kk) && look(W.insert(kk, d), kk) == Some(d) by { lemma_only_insert(W, kk, d); }
        if (area0.is_none() || whole(area0, inv, unkey(kk as int))) && !ivg(s[kk]) { lemma_walk(m, W, W, KS, j, rel); }
        if (area0.is_none() || whole(area0, inv, unkey(kk as int))) && ivg(s[kk]) { lemma_walk(m, W, W.insert(kk, s[kk]), KS, j, rel); }
    }
>>>
call closure 0 before <<<
    proof { assert(area0.is_some() && !whole(area0, inv, unkey(kk as int))); assert(area.meets_c(pos)) by { lemma_meets(area, pos); } }
>>>
call closure 0 after <<<
    proof { lemma_walk(m, W, db@, KS, j, rel); }
>>>
loop 0 after <<<
    proof {
        assert forall|k: i64| !#[trigger] KS.contains(k) implies rel(k, look(m, k), look(m, k)) by {
            reveal(picks);
            assert(!selected(s, seq![], area0, inv, true, k));
        }
        assert forall|k: i64| rel(k, #[trigger] look(m, k), look(db@, k)) by { lemma_walk_end(m, db@, KS, rel); }
    }
>>>
exit <<<
    proof { assert(picks(KS, s, seq![], area0, inv)); }
>>>
fn get_cached own as=get_cached_overlay
spec <<<
    requires old(db).wf(), old(cache).wf()
    ensures
        final(db).wf(), final(db)@ == old(db)@, final(db).held(old(db)), final(cache).wf(),
        told_src(*old(cache), old(db)@) ==> told_src(*final(cache), old(db)@) && got_src(old(db)@, key, r),
>>>
entry <<<
    proof { ax_ivg(db@[key]); }
>>>
fn overlay_with_offset own rlimit=100 spinoff_prover
subst <<<
get_cached ==> get_cached_overlay
>>>
spec <<<
    requires old(inst).ready_src(), old(inst).args.offset.is_some(), !old(inst).args.invert,
        old(inst).args.area matches Some(a) ==> a.within(-31000, 31000), offset_ok(old(inst).args.offset.unwrap()),
    ensures
        final(inst).kept_src(old(inst)), final(inst).db@.dom() == old(inst).db@.dom(),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            copy_rel(old(inst).idb.unwrap()@, moved_opt(old(inst).args.area, old(inst).args.offset.unwrap()), old(inst).args.offset.unwrap())(k, old(inst).db@[k], final(inst).db@[k]),
        skipped(old(inst).status@, final(inst).status@, old(inst).db@, moved_opt(old(inst).args.area, old(inst).args.offset.unwrap())),
>>>
entry <<<
    hide(inbox); hide(sel); hide(lin); hide(total); hide(progress); hide(in_map); hide(norm_meta); hide(picks); hide(copied); hide(copying);
    hide(src_of); hide(dst_part); hide(frags);
    let ghost m = inst.db@;
    let ghost s = inst.idb.unwrap()@;
    let ghost D0 = inst.db;
    let ghost S0 = inst.idb.unwrap();
    let ghost T0 = inst.status@;
    let ghost A0 = inst.args;
    let ghost off = inst.args.offset.unwrap();
    let ghost area = moved_opt(inst.args.area, off);
    let ghost rel = copy_rel(s, area, off);
    let ghost g = bad_gen(m);
    let ghost mut KS: Seq<i64> = seq![];
    proof { assert(views(Seq::<Vec<u8>>::empty()) =~= Seq::<Bytes>::empty()); }
>>>
call query_keys 0 after <<<
    proof {
        KS = dst_keys@;
        reveal(picks);
        lemma_ranks_ok(m, KS, area);
        lemma_progress_start(m, KS, seq![], area, false, rel);
    }
>>>
loop 0 <<<
    invariant
        inst.args == A0, inst.db.wf(), inst.db.held(&D0), idb.wf(), idb.held(&S0), idb@ == s, S0@ == s, D0@ == m,
        area_ok(area), area == dst_area, offset == off, small(off, 62000),
        keys_in_range(m), roomy(m), keys_in_range(s), roomy(s), KS == __s0@, rel == copy_rel(s, area, off), g == bad_gen(m),
        __s0.len() <= 0x10_0000_0000, picks(KS, m, seq![], area, false), forall|i: int| 0 <= i < KS.len() ==> key_ok(#[trigger] KS[i] as int),
        0 <= __i0 <= KS.len(), progress(m, inst.db@, KS, __i0 as int, rel),
        src_block_cache.wf(), told_src(src_block_cache, s),
        inst.status@.failed == T0.failed + total(KS, g, __i0 as int), inst.status@.log == T0.log, inst.status@.answer == T0.answer,
        inst.status@.counting(__i0 as int, __s0.len() as int),
    decreases KS.len() - __i0
>>>
loop 0 head <<<
    let ghost j = __i0 - 1;
    proof {
        reveal(total); reveal(picks);
        lemma_progress(m, inst.db@, KS, j, rel);
        assert(KS.contains(dst_key));
        lemma_unpack_pack(dst_key as int);
        ax_ivg(m[dst_key]);
    }
>>>
call deserialize 0 after <<<
    let ghost B = dst_block;
    let ghost W = inst.db@;
    let ghost F = inst.status@;
    proof {
        lemma_view(B);
        B.nimap.lemma_max();
        assert(B.nimap.has(B.node_data.nodes@[0]));
        assert forall|k: u16| #[trigger] B.nimap.has(k) implies k < 7000 by { assert(B@.names.dom().contains(k)); }
        if area.is_some() { lemma_meets(area.unwrap(), unkey(dst_key as int)); }
    }
>>>
call to_touching_block_area 0 after <<<
    let ghost dp = dst_part_abs;
    let ghost sp = src_part_abs;
    let ghost ta = src_blocks_needed;
    proof {
        assert(dst_part(dp, area, dst_pos)) by { reveal(dst_part); }
        lemma_touched(dp, area, off, dst_pos, sp, ta);
        lemma_copy_start(s, area, off, dst_pos, ta, B);
    }
>>>
loop 1 kind=into <<<
    invariant
        inst.args == A0, inst.db.wf(), inst.db.held(&D0), idb.wf(), idb.held(&S0), idb@ == s, S0@ == s, D0@ == m,
        inst.db@ == W, inst.status@ == F, offset == off, small(off, 62000), keys_in_range(s), roomy(s),
        dst_pos == unkey(dst_key as int), dst_pos.in_key_range(),
        src_block_cache.wf(), told_src(src_block_cache, s),
        dst_part(dp, area, dst_pos), dp == dst_part_abs, sp == src_part_abs, sp == moved(dp, Vec3::v(-off.x, -off.y, -off.z)), sp.valid(), small(sp.min, 200000), small(sp.max, 200000), ta.valid(), ta.vol() <= 8, ta.within(-20000, 20000),
        forall|b: Vec3| #[trigger] ta.hasv(b) == sp.meets_c(b),
        forall|i: int| 0 <= i < 4096 && #[trigger] sel(area, false, dst_pos, i) ==> ta.hasv(src_pos(off, dst_pos, i)),
        __t1.wf(), __t1.area() == ta, 0 <= __t1.done() <= ta.vol(),
        copying(s, area, off, dst_pos, B@, ta, __t1.done(), dst_block), dst_block.same_frame(B), dst_block.wf_nodes(), dst_block.wf_meta(),
        dst_block.nimap.max_id() <= 6999 + 7000 * __t1.done(),
    ensures __t1.done() == ta.vol()
    decreases ta.vol() - __t1.done()
>>>
loop 1 head <<<
    let ghost O = dst_block;
    proof {
        assert(ta.hasv(src_pos));
        if src_of(s, src_pos).is_none() { lemma_copy_skip(s, area, off, dst_pos, B@, ta, src_pos, O); }
        if src_pos.within(-1937, 1937) {
            assert forall|r: Option<MapBlock>| #[trigger] got_src(s, src_pos.key() as i64, r) implies match r { Some(a) => src_of(s, src_pos) == Some(a@), _ => src_of(s, src_pos).is_none() } by { reveal(src_of); }
        } else { assert(src_of(s, src_pos).is_none()) by { reveal(src_of); } }
    }
>>>
call to_block_key 0 after <<<
    proof { assert(src_key == src_pos.key() as i64); assert(told_src(src_block_cache, idb@)); }
>>>
call rel_block_overlap 0 before <<<
    proof { lemma_frag_back(dp, area, off, dst_pos, src_pos, sp, src_frag_abs); }
>>>
call merge_blocks 0 before <<<
    let ghost sfa = src_frag_abs;
    proof {
        lemma_frags(dp, area, off, dst_pos, src_pos, sp, sfa, src_frag_rel, dst_frag_rel);
        lemma_view(src_block);
        src_block.nimap.lemma_max();
        assert forall|k: u16| #[trigger] src_block.nimap.has(k) implies k < 7000 by { assert(src_block@.names.dom().contains(k)); }
        reveal(frags); reveal(copying);
    }
>>>
call merge_metadata 0 before <<<
    let ghost M1 = dst_block;
>>>
call merge_metadata 0 after <<<
    proof {
        let a = src_frag_rel; let d = dst_frag_rel;
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] dst_block.node(i) == (if inbox(d, i) { src_block.node(i - shift(a, d)) } else { O.node(i) }) by { assert(dst_block.node(i) == M1.node(i)); }
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] dst_block.p1(i) == (if inbox(d, i) { src_block.p1(i - shift(a, d)) } else { O.p1(i) }) by { assert(dst_block.p1(i) == M1.p1(i)); }
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] dst_block.p2(i) == (if inbox(d, i) { src_block.p2(i - shift(a, d)) } else { O.p2(i) }) by { assert(dst_block.p2(i) == M1.p2(i)); }
        lemma_copy_step(s, area, off, dst_pos, B@, ta, src_pos, O, src_block, dst_block, src_frag_rel, dst_frag_rel);
    }
>>>
call clean_name_id_map 0 before <<<
    let ghost N = dst_block;
>>>
call serialize 0 before <<<
    proof {
        dst_block.nimap.lemma_max();
        lemma_copied(s, area, off, dst_pos, B, ta, N, dst_block);
    }
>>>
loop 0 after <<<
    proof {
        assert forall|k: i64| m.dom().contains(k) && !#[trigger] KS.contains(k) implies rel(k, m[k], m[k]) by {
            reveal(picks);
            assert(!selected(m, seq![], area, false, true, k));
        }
        lemma_progress_end(m, inst.db@, KS, rel);
    }
>>>
exit <<<
    proof {
        assert(picks(KS, m, seq![], area, false));
        reveal(progress);
    }
>>>
fn overlay own as=overlay_cmd
spec <<<
    requires old(inst).ready_src(), old(inst).args.offset matches Some(o) ==> offset_ok(o) && (old(inst).args.invert ==> o == Vec3::v(0, 0, 0)),
        old(inst).args.area matches Some(a) ==> a.within(-31000, 31000),
    ensures
        final(inst).kept_src(old(inst)),
        overlay_made(old(inst).args, old(inst).idb.unwrap()@, old(inst).db@, final(inst).db@),
>>>
