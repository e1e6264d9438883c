module map_block map_block/map_block.rs
struct MapBlock clone
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
impl MapBlock {
    /// Well-formed: 4096 nodes, every node id named, metadata and timers inside the block.
    pub open spec fn wf_nodes(self) -> bool {
        self.node_data.nodes@.len() == 4096 && self.node_data.param1@.len() == 4096 && self.node_data.param2@.len() == 4096
            && forall|i: int| 0 <= i < 4096 ==> self.nimap.has(#[trigger] self.node_data.nodes@[i])
    }
    pub open spec fn wf_meta(self) -> bool { forall|k: u16| #[trigger] self.metadata@.dom().contains(k) ==> k < 4096 }
    pub open spec fn wf_timers(self) -> bool {
        forall|i: int| 0 <= i < self.node_timers@.len() ==> (#[trigger] self.node_timers@[i]).pos < 4096
    }
    pub open spec fn wf(self) -> bool { self.wf_nodes() && self.wf_meta() && self.wf_timers() && self.content_width == 2 && self.params_width == 2 }
    /// What a block read from data has to satisfy besides.
    pub open spec fn consistent(self) -> bool {
        (forall|i: int| 0 <= i < 4096 ==> self.nimap.has(#[trigger] self.node_data.nodes@[i])) && self.wf_meta() && self.wf_timers()
    }
    /// The name, param1 and param2 of the node at index i.
    pub open spec fn node(self, i: int) -> Bytes { self.nimap.name(self.node_data.nodes@[i]) }
    pub open spec fn p1(self, i: int) -> u8 { self.node_data.param1@[i] }
    pub open spec fn p2(self, i: int) -> u8 { self.node_data.param2@[i] }
    /// Everything besides node data, name table and metadata.
    pub open spec fn same_frame(self, o: MapBlock) -> bool {
        self.version == o.version && self.flags == o.flags && self.lighting_complete == o.lighting_complete
            && self.content_width == o.content_width && self.params_width == o.params_width
            && self.static_objects == o.static_objects && self.timestamp == o.timestamp && self.node_timers == o.node_timers
    }
}
/// The same, seen from both sides.
pub proof fn lemma_consistent(b: MapBlock)
    requires b.node_data.nodes@.len() == 4096, b.node_data.param1@.len() == 4096, b.node_data.param2@.len() == 4096
    ensures b.consistent() == b@.wf(), (b.wf_nodes() && b.wf_meta() && b.wf_timers()) == b.consistent()
{
    assert forall|k: u16| #[trigger] b@.names.dom().contains(k) == b.nimap.has(k) by { }
    if b.consistent() {
        assert forall|i: int| 0 <= i < 4096 implies b@.names.dom().contains(#[trigger] b@.nodes[i]) by { assert(b.nimap.has(b.node_data.nodes@[i])); }
        assert forall|k: u16| #[trigger] b@.meta.dom().contains(k) implies k < 4096 by { assert(b.metadata@.dom().contains(k)); }
    }
    if b@.wf() {
        assert forall|i: int| 0 <= i < 4096 implies b.nimap.has(#[trigger] b.node_data.nodes@[i]) by { assert(b@.names.dom().contains(b@.nodes[i])); }
        assert forall|k: u16| #[trigger] b.metadata@.dom().contains(k) implies k < 4096 by { assert(b@.meta.dom().contains(k)); }
        assert forall|i: int| 0 <= i < b.node_timers@.len() implies (#[trigger] b.node_timers@[i]).pos < 4096 by { assert(b@.timers[i].pos < 4096); }
    }
}
>>>

module codec_block map_block/map_block.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, crate::codec_base::group_kin};
>>>
const MIN_BLOCK_VER
const MAX_BLOCK_VER
const SERIALIZE_BUF_SIZE
fn is_valid_generated
spec <<<
    ensures r == ivg(src@)
>>>
entry <<<
    proof { assert(src@.skip(0) =~= src@); assert(src@.skip(0).skip(1) =~= src@.skip(1)); }
>>>
fn MapBlock::deserialize
spec <<<
    ensures match r {
        Ok(b) => dec(src@) == Some(b@) && b.wf() && b@.wf() && b@.storable(),
        Err(_) => dec(src@).is_none(),
    }
>>>
entry <<<
    hide(p_names); hide(p_nodes); hide(p_metas); hide(p_objs); hide(p_timers); hide(p_znodes); hide(p_zmetas);
    hide(BlockV::storable); hide(BlockV::wf); hide(MapBlock::consistent); hide(NodeMetadata::view); hide(NameIdMap::view); hide(meta_view); hide(objs_view);
    proof { assert(src@.skip(0) =~= src@); fit_block(src@); fit_nodes(); }
>>>
call as_slice 0 before <<<
    proof { assert(decompressed@.skip(0) =~= decompressed@); }
>>>
call is_consistent 0 before <<<
    proof { lemma_consistent(block); }
>>>
fn MapBlock::is_consistent
spec <<<
    requires self.node_data.nodes@.len() == 4096
    ensures r == self.consistent()
>>>
loop 0 kind=vec <<<
    invariant __s0@ == self.node_data.nodes@, 0 <= __i0 <= 4096, self.node_data.nodes@.len() == 4096,
        forall|i: int| 0 <= i < __i0 ==> self.nimap.has(#[trigger] self.node_data.nodes@[i])
    decreases 4096 - __i0
>>>
loop 1 kind=map <<<
    invariant *__s1 == self.metadata, 0 <= __i1 <= keys_of(self.metadata@).len(), self.node_data.nodes@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> self.nimap.has(#[trigger] self.node_data.nodes@[i]),
        forall|i: int| 0 <= i < __i1 ==> #[trigger] keys_of(self.metadata@)[i] < 4096
    decreases keys_of(self.metadata@).len() - __i1
>>>
loop 2 kind=vec <<<
    invariant __s2@ == self.node_timers@, 0 <= __i2 <= self.node_timers@.len(), self.node_data.nodes@.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> self.nimap.has(#[trigger] self.node_data.nodes@[i]),
        self.wf_meta(),
        forall|i: int| 0 <= i < __i2 ==> (#[trigger] self.node_timers@[i]).pos < 4096
    decreases self.node_timers@.len() - __i2
>>>
fn MapBlock::serialize
spec <<<
    requires self.wf(), self@.storable()
    ensures dec(r@) == Some(self@.norm())
>>>
entry <<<
    hide(enc_names); hide(enc_nodes); hide(enc_metas); hide(enc_objs); hide(enc_timers); hide(BlockV::storable); hide(meta_fits); hide(MetaV::storable);
    hide(dec); hide(be16); hide(be32); hide(enc_29); hide(enc_28); hide(enc_block);
    proof { lemma_names_fit(*self); lemma_metas_fit(*self); lemma_objs_fit(*self); rt_block(*self); lemma_version(*self); }
>>>
call finish 0 before <<<
    proof { lemma_left_29(*self, enc.buf@); }
>>>
exit <<<
    reveal(enc_block);
    proof { if self.version < 29 { lemma_left_28(*self, buf@); } }
>>>


module block_utils block_utils.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
/// Offset in index between two parts of the same shape.
pub open spec fn shift(src: Area, dst: Area) -> int {
    (dst.min.x - src.min.x) + 16 * (dst.min.y - src.min.y) + 256 * (dst.min.z - src.min.z)
}
pub open spec fn parts_ok(a: Area, b: Area) -> bool {
    a.valid() && b.valid() && a.within(0, 15) && b.within(0, 15)
        && a.max.x - a.min.x == b.max.x - b.min.x && a.max.y - a.min.y == b.max.y - b.min.y && a.max.z - a.min.z == b.max.z - b.min.z
}
/// A destination index and its source index.
pub proof fn lemma_shift(src: Area, dst: Area, i: int)
    requires parts_ok(src, dst), 0 <= i < 4096, inbox(dst, i)
    ensures 0 <= i - shift(src, dst) < 4096, inbox(src, i - shift(src, dst)),
        (i - shift(src, dst)) % 16 == i % 16 - (dst.min.x - src.min.x),
        ((i - shift(src, dst)) / 16) % 16 == (i / 16) % 16 - (dst.min.y - src.min.y),
        (i - shift(src, dst)) / 256 == i / 256 - (dst.min.z - src.min.z)
{
    let (x, y, z) = (i % 16, (i / 16) % 16, i / 256);
    let (u, v, w) = (x - (dst.min.x - src.min.x), y - (dst.min.y - src.min.y), z - (dst.min.z - src.min.z));
    assert(i == x + 16 * y + 256 * z);
    assert(i - shift(src, dst) == u + 16 * v + 256 * w);
    assert(0 <= u <= 15 && 0 <= v <= 15 && 0 <= w <= 15);
    let j = u + 16 * v + 256 * w;
    assert(j % 16 == u && (j / 16) % 16 == v && j / 256 == w);
}
pub proof fn lemma_shift_back(src: Area, dst: Area, i: int)
    requires parts_ok(src, dst), 0 <= i < 4096, inbox(src, i)
    ensures 0 <= i + shift(src, dst) < 4096, inbox(dst, i + shift(src, dst))
{
    assert(shift(dst, src) == -shift(src, dst));
    lemma_shift(dst, src, i);
}
/// Which indexes of a box come before the row / layer after (y, z).
pub proof fn lemma_digits(i: int)
    requires 0 <= i < 4096
    ensures i == i % 16 + 16 * ((i / 16) % 16) + 256 * (i / 256), 0 <= i % 16 < 16, 0 <= (i / 16) % 16 < 16, 0 <= i / 256 < 16
{
}
pub proof fn lemma_row_cmp(a: Area, u: int, v: int, w: int, y: int, z: int)
    requires a.within(0, 15), a.has(u, v, w)
    ensures
        0 <= y <= 15 ==> (u + 16 * v + 256 * w < 256 * z + 16 * y + a.min.x) == (u + 16 * v + 256 * w < 256 * z + 16 * y),
        0 <= y <= 15 ==> (u + 16 * v + 256 * w < 256 * z + 16 * y + a.max.x + 1) == (u + 16 * v + 256 * w < 256 * z + 16 * (y + 1)),
        (u + 16 * v + 256 * w < 256 * z + 16 * a.min.y) == (u + 16 * v + 256 * w < 256 * z),
        (u + 16 * v + 256 * w < 256 * z + 16 * (a.max.y + 1)) == (u + 16 * v + 256 * w < 256 * (z + 1)),
{
    let t = u + 16 * v + 256 * w;
    let (x0, x1, y0, y1) = (a.min.x as int, a.max.x as int, a.min.y as int, a.max.y as int);
    assert(0 <= x0 <= u <= x1 <= 15 && 0 <= y0 <= v <= y1 <= 15);
    if w < z {
        assert(256 * w + 256 <= 256 * z);
        assert(t < 256 * z);
    } else if w > z {
        assert(256 * w >= 256 * z + 256);
        assert(t >= 256 * (z + 1));
        assert(0 <= y <= 15 ==> 16 * y + x0 <= 255 && 16 * y + x1 + 1 <= 256 && 16 * (y + 1) <= 256);
    } else {
        assert(256 * z + 16 * y0 <= t < 256 * z + 16 * (y1 + 1));
        assert(16 * (y1 + 1) <= 256);
        if v < y { assert(16 * v + 16 <= 16 * y); assert(t < 256 * z + 16 * y); }
        else if v > y { assert(16 * v >= 16 * y + 16); assert(t >= 256 * z + 16 * (y + 1)); }
        else { }
    }
}
pub proof fn lemma_rows_of(a: Area, y: int, z: int)
    requires a.within(0, 15), 0 <= y <= 15
    ensures
        forall|i: int| 0 <= i < 4096 && #[trigger] inbox(a, i) ==> (i < 256 * z + 16 * y + a.min.x) == (i < 256 * z + 16 * y),
        forall|i: int| 0 <= i < 4096 && #[trigger] inbox(a, i) ==> (i < 256 * z + 16 * y + a.max.x + 1) == (i < 256 * z + 16 * (y + 1)),
{
    assert forall|i: int| 0 <= i < 4096 && #[trigger] inbox(a, i) implies
        (i < 256 * z + 16 * y + a.min.x) == (i < 256 * z + 16 * y) && (i < 256 * z + 16 * y + a.max.x + 1) == (i < 256 * z + 16 * (y + 1)) by {
        lemma_digits(i);
        lemma_row_cmp(a, i % 16, (i / 16) % 16, i / 256, y, z);
    }
}
pub proof fn lemma_layers_of(a: Area, z: int)
    requires a.within(0, 15)
    ensures
        forall|i: int| 0 <= i < 4096 && #[trigger] inbox(a, i) ==> (i < 256 * z + 16 * a.min.y) == (i < 256 * z),
        forall|i: int| 0 <= i < 4096 && #[trigger] inbox(a, i) ==> (i < 256 * z + 16 * (a.max.y + 1)) == (i < 256 * (z + 1)),
{
    assert forall|i: int| 0 <= i < 4096 && #[trigger] inbox(a, i) implies
        (i < 256 * z + 16 * a.min.y) == (i < 256 * z) && (i < 256 * z + 16 * (a.max.y + 1)) == (i < 256 * (z + 1)) by {
        lemma_digits(i);
        lemma_row_cmp(a, i % 16, (i / 16) % 16, i / 256, 0, z);
    }
}
pub proof fn lemma_box_ends(a: Area)
    requires a.valid(), a.within(0, 15)
    ensures forall|i: int| 0 <= i < 4096 && #[trigger] inbox(a, i) ==> 256 * a.min.z <= i < 256 * (a.max.z + 1)
{
}
pub proof fn lemma_hasv(a: Area, i: int)
    requires 0 <= i < 4096
    ensures a.hasv(idx_pos(i)) == inbox(a, i)
{
}
pub proof fn lemma_in_box(a: Area, x: int, y: int, z: int)
    requires a.valid(), a.within(0, 15), a.has(x, y, z)
    ensures inbox(a, x + 16 * y + 256 * z), 0 <= x + 16 * y + 256 * z < 4096
{
    let i = x + 16 * y + 256 * z;
    let q = y + 16 * z;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, 16, q, x);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q, 16, z, y);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, 256, z, x + 16 * y);
}
>>>
fn block_parts_valid/part_valid
spec <<<
    ensures r == (a.min.x >= 0 && a.min.y >= 0 && a.min.z >= 0 && a.max.x < 16 && a.max.y < 16 && a.max.z < 16)
>>>
fn block_parts_valid
spec <<<
    requires a.valid(), b.valid()
    ensures r == parts_ok(*a, *b)
>>>
fn merge_blocks
spec <<<
    requires
        parts_ok(src_area, dst_area), src_block.wf_nodes(), old(dst_block).wf_nodes(),
        src_block.nimap.max_id() + old(dst_block).nimap.max_id() + 1 <= 65535,
    ensures
        final(dst_block).wf_nodes(), final(dst_block).same_frame(*old(dst_block)), final(dst_block).metadata == old(dst_block).metadata,
        final(dst_block).nimap.max_id() <= src_block.nimap.max_id() + old(dst_block).nimap.max_id() + 1,
        // exactly the nodes of the part come from the source
        forall|i: int| 0 <= i < 4096 ==> #[trigger] final(dst_block).node(i) ==
            (if inbox(dst_area, i) { src_block.node(i - shift(src_area, dst_area)) } else { old(dst_block).node(i) }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] final(dst_block).p1(i) ==
            (if inbox(dst_area, i) { src_block.p1(i - shift(src_area, dst_area)) } else { old(dst_block).p1(i) }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] final(dst_block).p2(i) ==
            (if inbox(dst_area, i) { src_block.p2(i - shift(src_area, dst_area)) } else { old(dst_block).p2(i) }),
>>>
entry <<<
    hide(inbox);
    let ghost D = *dst_block;
    let ghost sh = shift(src_area, dst_area);
    let ghost m = D.nimap.max_id();
    let ghost sm = src_block.nimap.max_id();
    let ghost (ox, oy, oz) = (dst_area.min.x - src_area.min.x, dst_area.min.y - src_area.min.y, dst_area.min.z - src_area.min.z);
    proof {
        assert(D.nimap.has(D.node_data.nodes@[0]));
        assert(src_block.nimap.has(src_block.node_data.nodes@[0]));
        D.nimap.lemma_max(); src_block.nimap.lemma_max();
        lemma_box_ends(dst_area);
    }
>>>
loop 0 <<<
    invariant
        *__s0 == src_block.nimap.0, 0 <= __i0 <= src_block.nimap.0.keys().len(),
        nimap_diff == m + 1, m + sm + 1 <= 65535, D.nimap.below(m), src_block.nimap.below(sm),
        *dst_nd == D.node_data,
        dst_block.version == D.version, dst_block.flags == D.flags, dst_block.lighting_complete == D.lighting_complete,
        dst_block.content_width == D.content_width, dst_block.params_width == D.params_width, dst_block.metadata == D.metadata,
        dst_block.static_objects == D.static_objects, dst_block.timestamp == D.timestamp, dst_block.node_timers == D.node_timers,
        forall|k: u16| k <= m ==> #[trigger] dst_block.nimap.has(k) == D.nimap.has(k),
        forall|k: u16| k <= m && D.nimap.has(k) ==> #[trigger] dst_block.nimap.name(k) == D.nimap.name(k),
        dst_block.nimap.below(m + sm + 1),
        forall|q: int| 0 <= q < __i0 ==> dst_block.nimap.has((#[trigger] src_block.nimap.0.keys()[q] + nimap_diff) as u16),
        forall|q: int| 0 <= q < __i0 ==> dst_block.nimap.name((#[trigger] src_block.nimap.0.keys()[q] + nimap_diff) as u16) == src_block.nimap.name(src_block.nimap.0.keys()[q]),
    decreases src_block.nimap.0.keys().len() - __i0
>>>
loop 0 after <<<
    proof {
        assert forall|k: u16| #[trigger] src_block.nimap.has(k) implies dst_block.nimap.has((k + nimap_diff) as u16)
            && dst_block.nimap.name((k + nimap_diff) as u16) == src_block.nimap.name(k) by {
            let q = choose|q: int| 0 <= q < src_block.nimap.0.keys().len() && src_block.nimap.0.keys()[q] == k;
            assert(src_block.nimap.0.keys()[q] == k);
        }
        dst_block.nimap.lemma_max();
    }
    let ghost N = dst_block.nimap;
>>>
loop 1 <<<
    invariant
        parts_ok(src_area, dst_area), sh == shift(src_area, dst_area), diff == sh, nimap_diff == m + 1,
        ox == dst_area.min.x - src_area.min.x, oy == dst_area.min.y - src_area.min.y, oz == dst_area.min.z - src_area.min.z,
        src_block.wf_nodes(), *src_nd == src_block.node_data, src_block.nimap.below(sm), m + sm + 1 <= 65535,
        D.node_data.nodes@.len() == 4096, dst_nd.nodes@.len() == 4096, dst_nd.param1 == D.node_data.param1, dst_nd.param2 == D.node_data.param2,
        __e1 == src_area.max.z, src_area.min.z <= __i1 <= src_area.max.z + 1,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] dst_nd.nodes@[i] ==
            (if inbox(dst_area, i) && i < 256 * (__i1 + oz) { (src_nd.nodes@[i - sh] + nimap_diff) as u16 } else { D.node_data.nodes@[i] }),
    decreases __e1 - __i1 + 1
>>>
loop 1 head <<<
    proof { lemma_layers_of(dst_area, z + oz); }
>>>
loop 2 <<<
    invariant
        parts_ok(src_area, dst_area), sh == shift(src_area, dst_area), diff == sh, nimap_diff == m + 1,
        ox == dst_area.min.x - src_area.min.x, oy == dst_area.min.y - src_area.min.y, oz == dst_area.min.z - src_area.min.z,
        src_block.wf_nodes(), *src_nd == src_block.node_data, src_block.nimap.below(sm), m + sm + 1 <= 65535,
        D.node_data.nodes@.len() == 4096, dst_nd.nodes@.len() == 4096, dst_nd.param1 == D.node_data.param1, dst_nd.param2 == D.node_data.param2,
        src_area.min.z <= z <= src_area.max.z,
        __e2 == src_area.max.y, src_area.min.y <= __i2 <= src_area.max.y + 1,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] dst_nd.nodes@[i] ==
            (if inbox(dst_area, i) && i < 256 * (z + oz) + 16 * (__i2 + oy) { (src_nd.nodes@[i - sh] + nimap_diff) as u16 } else { D.node_data.nodes@[i] }),
    decreases __e2 - __i2 + 1
>>>
loop 2 head <<<
    proof { lemma_rows_of(dst_area, y + oy, z + oz); }
>>>
loop 3 <<<
    invariant
        parts_ok(src_area, dst_area), sh == shift(src_area, dst_area), diff == sh, nimap_diff == m + 1,
        ox == dst_area.min.x - src_area.min.x, oy == dst_area.min.y - src_area.min.y, oz == dst_area.min.z - src_area.min.z,
        src_block.wf_nodes(), *src_nd == src_block.node_data, src_block.nimap.below(sm), m + sm + 1 <= 65535,
        D.node_data.nodes@.len() == 4096, dst_nd.nodes@.len() == 4096, dst_nd.param1 == D.node_data.param1, dst_nd.param2 == D.node_data.param2,
        src_area.min.z <= z <= src_area.max.z, src_area.min.y <= y <= src_area.max.y,
        __e3 == src_area.max.x, src_area.min.x <= __i3 <= src_area.max.x + 1,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] dst_nd.nodes@[i] ==
            (if inbox(dst_area, i) && i < 256 * (z + oz) + 16 * (y + oy) + __i3 + ox { (src_nd.nodes@[i - sh] + nimap_diff) as u16 } else { D.node_data.nodes@[i] }),
    decreases __e3 - __i3 + 1
>>>
loop 3 head <<<
    proof {
        lemma_in_box(dst_area, x + ox, y + oy, z + oz);
        lemma_in_box(src_area, x as int, y as int, z as int);
        assert(src_block.nimap.has(src_nd.nodes@[x + 16 * y + 256 * z]));
    }
>>>
loop 4 <<<
    invariant
        parts_ok(src_area, dst_area), sh == shift(src_area, dst_area), diff == sh,
        ox == dst_area.min.x - src_area.min.x, oy == dst_area.min.y - src_area.min.y, oz == dst_area.min.z - src_area.min.z,
        src_block.wf_nodes(), *src_nd == src_block.node_data, D.wf_nodes(),
        dst_nd.nodes@.len() == 4096, dst_nd.param1@.len() == 4096, dst_nd.param2@.len() == 4096,
        __e4 == src_area.max.z, src_area.min.z <= __i4 <= src_area.max.z + 1,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] dst_nd.nodes@[i] ==
            (if inbox(dst_area, i) { (src_nd.nodes@[i - sh] + nimap_diff) as u16 } else { D.node_data.nodes@[i] }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] dst_nd.param1@[i] ==
            (if inbox(dst_area, i) && i < 256 * (__i4 + oz) { src_nd.param1@[i - sh] } else { D.node_data.param1@[i] }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] dst_nd.param2@[i] ==
            (if inbox(dst_area, i) && i < 256 * (__i4 + oz) { src_nd.param2@[i - sh] } else { D.node_data.param2@[i] }),
    decreases __e4 - __i4 + 1
>>>
loop 4 head <<<
    proof { lemma_layers_of(dst_area, z + oz); }
>>>
loop 5 <<<
    invariant
        parts_ok(src_area, dst_area), sh == shift(src_area, dst_area), diff == sh,
        ox == dst_area.min.x - src_area.min.x, oy == dst_area.min.y - src_area.min.y, oz == dst_area.min.z - src_area.min.z,
        src_block.wf_nodes(), *src_nd == src_block.node_data, D.wf_nodes(),
        dst_nd.nodes@.len() == 4096, dst_nd.param1@.len() == 4096, dst_nd.param2@.len() == 4096,
        src_area.min.z <= z <= src_area.max.z,
        __e5 == src_area.max.y, src_area.min.y <= __i5 <= src_area.max.y + 1,
        forall|i: int| 0 <= i < 4096 ==> #[trigger] dst_nd.nodes@[i] ==
            (if inbox(dst_area, i) { (src_nd.nodes@[i - sh] + nimap_diff) as u16 } else { D.node_data.nodes@[i] }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] dst_nd.param1@[i] ==
            (if inbox(dst_area, i) && i < 256 * (z + oz) + 16 * (__i5 + oy) { src_nd.param1@[i - sh] } else { D.node_data.param1@[i] }),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] dst_nd.param2@[i] ==
            (if inbox(dst_area, i) && i < 256 * (z + oz) + 16 * (__i5 + oy) { src_nd.param2@[i - sh] } else { D.node_data.param2@[i] }),
    decreases __e5 - __i5 + 1
>>>
loop 5 head <<<
    proof {
        lemma_rows_of(dst_area, y + oy, z + oz);
        lemma_in_box(dst_area, dst_area.min.x as int, y + oy, z + oz);
        lemma_in_box(dst_area, dst_area.max.x as int, y + oy, z + oz);
        lemma_in_box(src_area, src_area.min.x as int, y as int, z as int);
        lemma_in_box(src_area, src_area.max.x as int, y as int, z as int);
        assert forall|i: int| 256 * (z + oz) + 16 * (y + oy) + dst_area.min.x <= i <= 256 * (z + oz) + 16 * (y + oy) + dst_area.max.x implies #[trigger] inbox(dst_area, i) by {
            lemma_in_box(dst_area, i - (256 * (z + oz) + 16 * (y + oy)), y + oy, z + oz);
        }
    }
>>>
exit <<<
    proof {
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] dst_block.node(i) ==
            (if inbox(dst_area, i) { src_block.node(i - sh) } else { D.node(i) }) by {
            let n = dst_block.node_data.nodes@[i];
            if inbox(dst_area, i) {
                lemma_shift(src_area, dst_area, i);
                assert(src_block.nimap.has(src_block.node_data.nodes@[i - sh]));
            } else {
                assert(D.nimap.has(D.node_data.nodes@[i]));
            }
        }
        assert forall|i: int| 0 <= i < 4096 implies dst_block.nimap.has(#[trigger] dst_block.node_data.nodes@[i]) by {
            if inbox(dst_area, i) {
                lemma_shift(src_area, dst_area, i);
                assert(src_block.nimap.has(src_block.node_data.nodes@[i - sh]));
            } else {
                assert(D.nimap.has(D.node_data.nodes@[i]));
            }
        }
    }
>>>
fn merge_metadata
spec <<<
    requires
        parts_ok(src_area, dst_area),
        forall|k: u16| #[trigger] src_meta@.dom().contains(k) ==> k < 4096,
        forall|k: u16| #[trigger] old(dst_meta)@.dom().contains(k) ==> k < 4096,
    ensures
        forall|k: u16| #[trigger] final(dst_meta)@.dom().contains(k) ==> k < 4096,
        // inside the part: exactly the source's entries; outside: untouched
        forall|k: u16| k < 4096 ==> #[trigger] final(dst_meta)@.dom().contains(k) ==
            (if inbox(dst_area, k as int) { src_meta@.dom().contains((k - shift(src_area, dst_area)) as u16) } else { old(dst_meta)@.dom().contains(k) }),
        forall|k: u16| #[trigger] final(dst_meta)@.dom().contains(k) ==> final(dst_meta)@[k] ==
            (if inbox(dst_area, k as int) { src_meta@[(k - shift(src_area, dst_area)) as u16] } else { old(dst_meta)@[k] }),
>>>
entry <<<
    hide(inbox);
    let ghost D = dst_meta@;
    let ghost sh = shift(src_area, dst_area);
>>>
loop 0 <<<
    invariant
        __s0@ == D, 0 <= __i0 <= keys_of(D).len(), dst_area.valid(), dst_area.within(0, 15), dst_meta@ == D,
        forall|k: u16| #[trigger] D.dom().contains(k) ==> k < 4096,
        forall|q: int| 0 <= q < __i0 && inbox(dst_area, #[trigger] keys_of(D)[q] as int) ==> to_delete@.contains(keys_of(D)[q]),
        forall|j: int| 0 <= j < to_delete@.len() ==> inbox(dst_area, #[trigger] to_delete@[j] as int),
    decreases keys_of(D).len() - __i0
>>>
loop 0 head <<<
    proof { lemma_hasv(dst_area, idx as int); }
    let ghost td = to_delete@;
>>>
loop 0 tail <<<
    proof {
        assert forall|q: int| 0 <= q < __i0 && inbox(dst_area, #[trigger] keys_of(D)[q] as int) implies to_delete@.contains(keys_of(D)[q]) by {
            if q < __i0 - 1 {
                let j = choose|j: int| 0 <= j < td.len() && td[j] == keys_of(D)[q];
                assert(to_delete@[j] == keys_of(D)[q]);
            } else {
                assert(to_delete@[to_delete@.len() - 1] == keys_of(D)[q]);
            }
        }
    }
>>>
loop 1 <<<
    invariant
        0 <= __i1 <= to_delete@.len(), *__s1 == to_delete,
        forall|j: int| 0 <= j < to_delete@.len() ==> inbox(dst_area, #[trigger] to_delete@[j] as int),
        forall|k: u16| #[trigger] dst_meta@.dom().contains(k) ==> D.dom().contains(k) && dst_meta@[k] == D[k],
        forall|k: u16| #[trigger] D.dom().contains(k) && !inbox(dst_area, k as int) ==> dst_meta@.dom().contains(k),
        forall|j: int| 0 <= j < __i1 ==> !dst_meta@.dom().contains(#[trigger] to_delete@[j]),
    decreases to_delete@.len() - __i1
>>>
loop 1 after <<<
    proof {
        assert forall|k: u16| #[trigger] dst_meta@.dom().contains(k) implies !inbox(dst_area, k as int) by {
            if inbox(dst_area, k as int) {
                let q = choose|q: int| 0 <= q < keys_of(D).len() && keys_of(D)[q] == k;
                assert(keys_of(D)[q] == k);
                let j = choose|j: int| 0 <= j < to_delete@.len() && to_delete@[j] == k;
                assert(to_delete@[j] == k);
            }
        }
    }
>>>
loop 2 <<<
    invariant
        *__s2 == *src_meta, 0 <= __i2 <= keys_of(src_meta@).len(), parts_ok(src_area, dst_area), diff == sh, sh == shift(src_area, dst_area),
        forall|k: u16| #[trigger] src_meta@.dom().contains(k) ==> k < 4096,
        forall|k: u16| #[trigger] D.dom().contains(k) ==> k < 4096,
        forall|k: u16| !inbox(dst_area, k as int) ==> #[trigger] dst_meta@.dom().contains(k) == D.dom().contains(k),
        forall|k: u16| !inbox(dst_area, k as int) && #[trigger] dst_meta@.dom().contains(k) ==> dst_meta@[k] == D[k],
        forall|k: u16| inbox(dst_area, k as int) && #[trigger] dst_meta@.dom().contains(k) ==> k < 4096 && src_meta@.dom().contains((k - sh) as u16) && dst_meta@[k] == src_meta@[(k - sh) as u16],
        forall|q: int| 0 <= q < __i2 && inbox(src_area, #[trigger] keys_of(src_meta@)[q] as int) ==> dst_meta@.dom().contains((keys_of(src_meta@)[q] + sh) as u16),
    decreases keys_of(src_meta@).len() - __i2
>>>
loop 2 head <<<
    proof {
        lemma_hasv(src_area, idx as int);
        if inbox(src_area, idx as int) { lemma_shift_back(src_area, dst_area, idx as int); }
    }
>>>
loop 2 after <<<
    proof {
        assert forall|k: u16| k < 4096 && inbox(dst_area, k as int) && src_meta@.dom().contains((k - sh) as u16) implies #[trigger] dst_meta@.dom().contains(k) by {
            lemma_shift(src_area, dst_area, k as int);
            let s = (k - sh) as u16;
            let q = choose|q: int| 0 <= q < keys_of(src_meta@).len() && keys_of(src_meta@)[q] == s;
            assert(keys_of(src_meta@)[q] == s);
        }
    }
>>>
fn clean_name_id_map
spec <<<
    requires old(block).wf_nodes(), old(block).nimap.max_id() < 65535
    ensures
        final(block).wf_nodes(), final(block).same_frame(*old(block)), final(block).metadata == old(block).metadata,
        final(block).node_data.param1 == old(block).node_data.param1, final(block).node_data.param2 == old(block).node_data.param2,
        // no node changes its name
        forall|i: int| 0 <= i < 4096 ==> #[trigger] final(block).node(i) == old(block).node(i),
        // ids are consecutive from 0, names are distinct and all used
        final(block).nimap.max_id() <= old(block).nimap.max_id(),
        forall|k: u16| #[trigger] final(block).nimap.has(k) <==> k <= final(block).nimap.max_id(),
        final(block).nimap.distinct(),
        forall|k: u16| #[trigger] final(block).nimap.has(k) ==> final(block).node_data.nodes@.contains(k),
>>>
entry <<<
    let ghost B = *block;
    let ghost m = B.nimap.max_id();
    proof { assert(B.nimap.has(B.node_data.nodes@[0])); B.nimap.lemma_max(); }
>>>
loop 0 <<<
    invariant
        block.node_data == B.node_data, *__s0 == B.node_data.nodes, 0 <= __i0 <= 4096, used@.len() == m + 1, B.wf_nodes(), B.nimap.below(m),
        forall|i: int| 0 <= i < __i0 ==> used@[#[trigger] B.node_data.nodes@[i] as int],
        forall|k: int| 0 <= k <= m && #[trigger] used@[k] ==> B.node_data.nodes@.contains(k as u16),
    decreases 4096 - __i0
>>>
loop 0 head <<<
    proof { assert(B.nimap.has(B.node_data.nodes@[__i0 - 1])); }
>>>
loop 1 <<<
    invariant
        block.node_data == B.node_data, block.nimap == B.nimap, *__s1 == B.nimap.0, 0 <= __i1 <= B.nimap.0.keys().len(),
        used@.len() == m + 1, map@.len() == m + 1, m < 65535, B.nimap.below(m), id_count == m + 1,
        // consecutive ids, distinct names
        0 <= nn <= __i1, new_nimap.0@.dom().len() == nn,
        __i1 > 0 ==> nn <= B.nimap.0.keys()[__i1 - 1] + 1,
        forall|k: u16| #[trigger] new_nimap.has(k) <==> k < nn,
        new_nimap.distinct(),
        forall|q: int| 0 <= q < __i1 && used@[#[trigger] B.nimap.0.keys()[q] as int] ==>
            new_nimap.has(map@[B.nimap.0.keys()[q] as int]) && new_nimap.name(map@[B.nimap.0.keys()[q] as int]) == B.nimap.name(B.nimap.0.keys()[q]),
        // every new id is the image of a used one
        forall|k: u16| #[trigger] new_nimap.has(k) ==> (exists|q: int| 0 <= q < __i1 && used@[B.nimap.0.keys()[q] as int] && map@[#[trigger] B.nimap.0.keys()[q] as int] == k),
    decreases B.nimap.0.keys().len() - __i1
>>>
loop 1 before <<<
    let ghost mut nn: int = 0;
>>>
loop 1 head <<<
    let ghost N0 = new_nimap;
    let ghost map0 = map@;
    proof {
        if __i1 > 1 { assert(B.nimap.0.keys()[__i1 - 2] < B.nimap.0.keys()[__i1 - 1]); }
        assert(B.nimap.has(B.nimap.0.keys()[__i1 - 1]));
    }
>>>
loop 1 tail <<<
    proof {
        nn = new_nimap.0@.dom().len() as int;
        assert forall|k: u16| #[trigger] new_nimap.has(k) implies (exists|q: int| 0 <= q < __i1 && used@[B.nimap.0.keys()[q] as int] && map@[#[trigger] B.nimap.0.keys()[q] as int] == k) by {
            if k < N0.0@.dom().len() {
                let q = choose|q: int| 0 <= q < __i1 - 1 && used@[B.nimap.0.keys()[q] as int] && map0[#[trigger] B.nimap.0.keys()[q] as int] == k;
                assert(B.nimap.0.keys()[q] < B.nimap.0.keys()[__i1 - 1]);
            } else {
                assert(map@[B.nimap.0.keys()[__i1 - 1] as int] == k);
            }
        }
    }
>>>
loop 1 after <<<
    proof {
        assert forall|k: u16| B.nimap.has(k) && #[trigger] used@[k as int] implies
            new_nimap.has(map@[k as int]) && new_nimap.name(map@[k as int]) == B.nimap.name(k) by {
            let q = choose|q: int| 0 <= q < B.nimap.0.keys().len() && B.nimap.0.keys()[q] == k;
            assert(B.nimap.0.keys()[q] == k);
        }
    }
    proof {
        new_nimap.lemma_max();
        assert(new_nimap.below(nn - 1));
        if nn > 0 { assert(new_nimap.has((nn - 1) as u16)); } else { assert(forall|k: u16| !#[trigger] new_nimap.has(k)); }
        assert(new_nimap.max_id() == nn - 1);
        assert forall|k: u16| #[trigger] new_nimap.has(k) implies (exists|j: u16| B.nimap.has(j) && #[trigger] used@[j as int] && map@[j as int] == k) by {
            let q = choose|q: int| 0 <= q < __i1 && used@[B.nimap.0.keys()[q] as int] && map@[#[trigger] B.nimap.0.keys()[q] as int] == k;
            let j = B.nimap.0.keys()[q];
            assert(B.nimap.has(j) && used@[j as int] && map@[j as int] == k);
        }
    }
>>>
loop 2 before <<<
    let ghost N = block.nimap;
>>>
loop 2 <<<
    invariant
        block.nimap == N, block.node_data.nodes@.len() == 4096, B.wf_nodes(), B.nimap.below(m), map@.len() == m + 1, used@.len() == m + 1,
        block.node_data.param1 == B.node_data.param1, block.node_data.param2 == B.node_data.param2, block.same_frame(B), block.metadata == B.metadata,
        forall|i: int| 0 <= i < 4096 ==> used@[#[trigger] B.node_data.nodes@[i] as int],
        forall|k: u16| B.nimap.has(k) && #[trigger] used@[k as int] ==> N.has(map@[k as int]) && N.name(map@[k as int]) == B.nimap.name(k),
        0 <= __i2 <= 4096,
        forall|i: int| 0 <= i < __i2 ==> #[trigger] block.node_data.nodes@[i] == map@[B.node_data.nodes@[i] as int],
        forall|i: int| __i2 <= i < 4096 ==> #[trigger] block.node_data.nodes@[i] == B.node_data.nodes@[i],
    decreases 4096 - __i2
>>>
loop 2 head <<<
    proof { assert(B.nimap.has(B.node_data.nodes@[__i2 - 1])); }
>>>
loop 2 after <<<
    proof {
        assert forall|i: int| 0 <= i < 4096 implies #[trigger] block.node(i) == B.node(i) by {
            assert(used@[B.node_data.nodes@[i] as int]);
            assert(B.nimap.has(B.node_data.nodes@[i]));
        }
        assert forall|k: u16| #[trigger] block.nimap.has(k) implies block.node_data.nodes@.contains(k) by {
            assert(N.has(k));
            let j = choose|j: u16| B.nimap.has(j) && #[trigger] used@[j as int] && map@[j as int] == k;
            assert(B.node_data.nodes@.contains(j));
            let i = choose|i: int| 0 <= i < 4096 && B.node_data.nodes@[i] == j;
            assert(block.node_data.nodes@[i] == k);
        }
    }
>>>
