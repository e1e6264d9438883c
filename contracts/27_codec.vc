module codec_base map_block/mod.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, crate::codec::ax_mem};
impl vstd::std_specs::convert::FromSpecImpl<IoError> for MapBlockError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: IoError) -> MapBlockError { MapBlockError::BadData }
}
>>>
fn MapBlockError::from@From<std::io::Error> keep_trait
fn vec_with_len alloc
spec <<<
    requires may_alloc(len as int)
    ensures r@.len() == len
>>>
fn try_read_n
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_n(old(src).rest(), n as int) { Some((v, t)) => r matches Ok(x) && x@ == v && final(src).rest() == t, None => r.is_err() }
>>>
fn read_string16
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_s16(old(src).rest()) { Some((v, t)) => r matches Ok(x) && x@ == v && final(src).rest() == t, None => r.is_err() }
>>>
fn read_string32
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_s32(old(src).rest()) { Some((v, t)) => r matches Ok(x) && x@ == v && final(src).rest() == t, None => r.is_err() }
>>>
raw <<<
pub open spec fn enc_s16(d: Bytes) -> Bytes { be16(d.len() as u16) + d }
pub open spec fn enc_s32(d: Bytes) -> Bytes { be32(d.len() as u32) + d }
pub broadcast proof fn kin_steps<T: Write>(a: &T, b: &T, c: &T)
    requires #[trigger] a.kin(b), #[trigger] b.kin(c)
    ensures a.kin(c)
{ T::kin_trans(a, b, c); }
pub broadcast proof fn rkin_steps<T: Read>(a: &T, b: &T, c: &T)
    requires #[trigger] a.rkin(b), #[trigger] b.rkin(c)
    ensures a.rkin(c)
{ T::rkin_trans(a, b, c); }
pub broadcast group group_kin { kin_steps, rkin_steps, crate::codec::ax_mem }
>>>
fn write_string16
spec <<<
    requires old(dst).wf(), data@.len() <= 65535
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + enc_s16(data@)
>>>
entry <<<
    broadcast use kin_steps;
>>>
exit <<<
    assert(dst.sink() =~= old(dst).sink() + enc_s16(data@));
>>>
fn write_string32
spec <<<
    requires old(dst).wf(), data@.len() <= u32::MAX
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + enc_s32(data@)
>>>
entry <<<
    broadcast use kin_steps;
>>>
exit <<<
    assert(dst.sink() =~= old(dst).sink() + enc_s32(data@));
>>>

module codec_names map_block/name_id_map.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, crate::codec_base::group_kin};
pub proof fn lemma_names_stop(s: Bytes, i: nat, n: nat)
    requires i <= n
    ensures p_names_n(s, i).is_none() ==> p_names_n(s, n).is_none()
    decreases n - i
{ if i < n { lemma_names_stop(s, i + 1, n); } }
/// The names of some ids, one after another.
pub open spec fn enc_names_n(m: Map<u16, Vec<u8>>, ks: Seq<u16>) -> Bytes
    decreases ks.len()
{
    if ks.len() == 0 { seq![] } else { enc_names_n(m, ks.drop_last()) + be16(ks.last()) + enc_s16(m[ks.last()]@) }
}
pub open spec fn enc_names(m: Map<u16, Vec<u8>>) -> Bytes { seq![0u8] + be16(keys_of(m).len() as u16) + enc_names_n(m, keys_of(m)) }
>>>
fn NameIdMap::deserialize
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_names(old(src).rest()) { Some((v, t)) => r matches Ok(x) && x@ == v && final(src).rest() == t, None => r.is_err() }
>>>
call read_u16 0 after <<<
    let ghost R = src.rest();
    let ghost S = *src;
>>>
loop 0 <<<
    invariant
        src.rwf(), src.rkin(old(src)), 0 <= __i0 <= __e0 == count, count <= 65535,
        p_names(old(src).rest()) == p_names_n(R, count as nat),
        p_names_n(R, __i0 as nat) == Some((NameIdMap(map)@, src.rest())),
    decreases __e0 - __i0
>>>
loop 0 before <<<
    proof { assert(NameIdMap(map)@ =~= Map::<u16, Bytes>::empty()); }
>>>
loop 0 head <<<
    let ghost M = map;
    proof { lemma_names_stop(R, __i0 as nat, count as nat); }
>>>
loop 0 tail <<<
    proof { assert(NameIdMap(map)@ =~= NameIdMap(M)@.insert(id, map@[id]@)); }
>>>
fn NameIdMap::serialize
spec <<<
    requires old(dst).wf(), self.0@.dom().len() <= 65535, forall|k: u16| #[trigger] self.0@.dom().contains(k) ==> self.0@[k]@.len() <= 65535
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + enc_names(self.0@)
>>>
loop 0 <<<
    invariant
        dst.wf(), dst.kin(old(dst)), *__s0 == self.0, 0 <= __i0 <= keys_of(self.0@).len(),
        forall|k: u16| #[trigger] self.0@.dom().contains(k) ==> self.0@[k]@.len() <= 65535,
        dst.sink() == old(dst).sink() + (seq![0u8] + be16(keys_of(self.0@).len() as u16) + enc_names_n(self.0@, keys_of(self.0@).take(__i0 as int))),
    decreases keys_of(self.0@).len() - __i0
>>>
loop 0 before <<<
    proof { assert(dst.sink() =~= old(dst).sink() + (seq![0u8] + be16(keys_of(self.0@).len() as u16) + enc_names_n(self.0@, keys_of(self.0@).take(0)))); }
>>>
loop 0 head <<<
    let ghost S = dst.sink();
>>>
loop 0 tail <<<
    proof {
        let ks = keys_of(self.0@);
        assert(ks.take(__i0 as int).drop_last() =~= ks.take(__i0 - 1));
        assert(dst.sink() =~= S + be16(id) + enc_s16(name@));
        assert(dst.sink() =~= old(dst).sink() + (seq![0u8] + be16(ks.len() as u16) + enc_names_n(self.0@, ks.take(__i0 as int))));
    }
>>>
loop 0 after <<<
    proof { assert(keys_of(self.0@).take(__i0 as int) =~= keys_of(self.0@)); }
>>>

module codec_nodes map_block/node_data.rs
const BLOCK_SIZE
const NODE_COUNT
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, crate::codec_base::group_kin};
impl NodeData {
    pub open spec fn view(&self) -> NodesV { NodesV { nodes: self.nodes@, p1: self.param1@, p2: self.param2@ } }
}
pub open spec fn enc_nodes(n: NodesV) -> Bytes { enc_u16s(n.nodes) + n.p1 + n.p2 }
>>>
fn NodeData::deserialize
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_nodes(old(src).rest()) { Some((v, t)) => r matches Ok(x) && x@ == v && final(src).rest() == t, None => r.is_err() }
>>>
fn NodeData::decompress
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_znodes(old(src).rest()) { Some((v, t)) => r matches Ok(x) && x@ == v && final(src).rest() == t, None => r.is_err() }
>>>
entry <<<
    let ghost R = src.rest();
    proof { ax_zl(R); }
>>>
exit <<<
    assert(src.rest() =~= R.skip(zl(R).used));
>>>
fn NodeData::serialize
spec <<<
    requires old(dst).wf(), self.nodes@.len() == 4096
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + enc_nodes(self@)
>>>
exit <<<
    assert(node_bytes@ =~= enc_u16s(self.nodes@));
    assert(dst.sink() =~= old(dst).sink() + enc_nodes(self@));
>>>
fn NodeData::compress
spec <<<
    requires old(dst).wf(), self.nodes@.len() == 4096
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + zip(enc_nodes(self@))
>>>
call serialize 0 after <<<
    assert(encoder.buf@ =~= enc_nodes(self@));
>>>

module codec_timers map_block/node_timer.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, crate::codec_base::group_kin};
pub proof fn lemma_timers_stop(s: Bytes, i: nat, n: nat)
    requires i <= n
    ensures p_timers_n(s, i).is_none() ==> p_timers_n(s, n).is_none()
    decreases n - i
{ if i < n { lemma_timers_stop(s, i + 1, n); } }
pub open spec fn enc_timer(t: NodeTimer) -> Bytes { be16(t.pos) + be32(t.timeout) + be32(t.elapsed) }
pub open spec fn enc_timers_n(l: Seq<NodeTimer>) -> Bytes
    decreases l.len()
{
    if l.len() == 0 { seq![] } else { enc_timers_n(l.drop_last()) + enc_timer(l.last()) }
}
pub open spec fn enc_timers(l: Seq<NodeTimer>) -> Bytes { seq![10u8] + be16(l.len() as u16) + enc_timers_n(l) }
>>>
fn deserialize_timers alloc
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_timers(old(src).rest()) { Some((v, t)) => r matches Ok(x) && x@ == v && final(src).rest() == t, None => r.is_err() }
>>>
call read_u16 0 after <<<
    let ghost R = src.rest();
>>>
loop 0 <<<
    invariant
        src.rwf(), src.rkin(old(src)), 0 <= __i0 <= __e0 == count,
        p_timers(old(src).rest()) == p_timers_n(R, count as nat),
        p_timers_n(R, __i0 as nat) == Some((timers@, src.rest())),
    decreases __e0 - __i0
>>>
loop 0 head <<<
    proof { lemma_timers_stop(R, __i0 as nat, count as nat); }
>>>
fn serialize_timers
spec <<<
    requires old(dst).wf(), timers@.len() <= 65535
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + enc_timers(timers@)
>>>
loop 0 kind=vec <<<
    invariant
        dst.wf(), dst.kin(old(dst)), __s0@ == timers@, 0 <= __i0 <= timers@.len(),
        dst.sink() == old(dst).sink() + (seq![10u8] + be16(timers@.len() as u16) + enc_timers_n(timers@.take(__i0 as int))),
    decreases timers@.len() - __i0
>>>
loop 0 before <<<
    proof { assert(dst.sink() =~= old(dst).sink() + (seq![10u8] + be16(timers@.len() as u16) + enc_timers_n(timers@.take(0)))); }
>>>
loop 0 head <<<
    let ghost S = dst.sink();
>>>
loop 0 tail <<<
    proof {
        assert(timers@.take(__i0 as int).drop_last() =~= timers@.take(__i0 - 1));
        assert(dst.sink() =~= S + enc_timer(*t));
        assert(dst.sink() =~= old(dst).sink() + (seq![10u8] + be16(timers@.len() as u16) + enc_timers_n(timers@.take(__i0 as int))));
    }
>>>
loop 0 after <<<
    proof { assert(timers@.take(__i0 as int) =~= timers@); }
>>>

module codec_objects map_block/static_object.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, crate::codec_base::group_kin};
pub proof fn lemma_objs_stop(s: Bytes, i: nat, n: nat)
    requires i <= n
    ensures p_objs_n(s, i).is_none() ==> p_objs_n(s, n).is_none()
    decreases n - i
{ if i < n { lemma_objs_stop(s, i + 1, n); } }
pub open spec fn enc_obj(o: ObjV) -> Bytes { seq![o.ty] + bei32(o.pos.x) + bei32(o.pos.y) + bei32(o.pos.z) + enc_s16(o.data) }
pub open spec fn enc_objs_n(l: Seq<ObjV>) -> Bytes
    decreases l.len()
{
    if l.len() == 0 { seq![] } else { enc_objs_n(l.drop_last()) + enc_obj(l.last()) }
}
pub open spec fn enc_objs(l: Seq<ObjV>) -> Bytes { seq![0u8] + be16(l.len() as u16) + enc_objs_n(l) }
>>>
fn StaticObject::deserialize
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_obj(old(src).rest()) { Some((v, t)) => r matches Ok(x) && x@ == v && final(src).rest() == t, None => r.is_err() }
>>>
fn StaticObject::serialize
spec <<<
    requires old(dst).wf(), self.data@.len() <= 65535
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + enc_obj(self@)
>>>
exit <<<
    assert(dst.sink() =~= old(dst).sink() + enc_obj(self@));
>>>
fn deserialize_objects alloc
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_objs(old(src).rest()) { Some((v, t)) => r matches Ok(x) && objs_view(x@) == v && final(src).rest() == t, None => r.is_err() }
>>>
call read_u16 0 after <<<
    let ghost R = src.rest();
>>>
loop 0 <<<
    invariant
        src.rwf(), src.rkin(old(src)), 0 <= __i0 <= __e0 == count,
        p_objs(old(src).rest()) == p_objs_n(R, count as nat),
        p_objs_n(R, __i0 as nat) == Some((objs_view(list@), src.rest())),
    decreases __e0 - __i0
>>>
loop 0 before <<<
    proof { assert(objs_view(list@) =~= Seq::<ObjV>::empty()); }
>>>
loop 0 head <<<
    let ghost L = list@;
    proof { lemma_objs_stop(R, __i0 as nat, count as nat); }
>>>
loop 0 tail <<<
    proof { assert(objs_view(list@) =~= objs_view(L).push(list@.last()@)); }
>>>
fn serialize_objects
spec <<<
    requires old(dst).wf(), objects@.len() <= 65535, forall|i: int| 0 <= i < objects@.len() ==> (#[trigger] objects@[i]).data@.len() <= 65535
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + enc_objs(objs_view(objects@))
>>>
loop 0 kind=vec <<<
    invariant
        dst.wf(), dst.kin(old(dst)), __s0@ == objects@, 0 <= __i0 <= objects@.len(),
        forall|i: int| 0 <= i < objects@.len() ==> (#[trigger] objects@[i]).data@.len() <= 65535,
        dst.sink() == old(dst).sink() + (seq![0u8] + be16(objects@.len() as u16) + enc_objs_n(objs_view(objects@).take(__i0 as int))),
    decreases objects@.len() - __i0
>>>
loop 0 before <<<
    proof { assert(dst.sink() =~= old(dst).sink() + (seq![0u8] + be16(objects@.len() as u16) + enc_objs_n(objs_view(objects@).take(0)))); }
>>>
loop 0 head <<<
    let ghost S = dst.sink();
>>>
loop 0 tail <<<
    proof {
        assert(objs_view(objects@).take(__i0 as int).drop_last() =~= objs_view(objects@).take(__i0 - 1));
        assert(dst.sink() =~= S + enc_obj(obj@));
        assert(dst.sink() =~= old(dst).sink() + (seq![0u8] + be16(objects@.len() as u16) + enc_objs_n(objs_view(objects@).take(__i0 as int))));
    }
>>>
loop 0 after <<<
    proof { assert(objs_view(objects@).take(__i0 as int) =~= objs_view(objects@)); }
>>>

module codec_meta map_block/metadata.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, crate::codec_base::group_kin};
pub proof fn lemma_vars_stop(s: Bytes, ver: u8, i: nat, n: nat)
    requires i <= n
    ensures p_vars(s, ver, i).is_none() ==> p_vars(s, ver, n).is_none()
    decreases n - i
{ if i < n { lemma_vars_stop(s, ver, i + 1, n); } }
pub proof fn lemma_metas_stop(s: Bytes, ver: u8, i: nat, n: nat)
    requires i <= n
    ensures p_metas_n(s, ver, i).is_none() ==> p_metas_n(s, ver, n).is_none()
    decreases n - i
{ if i < n { lemma_metas_stop(s, ver, i + 1, n); } }
pub open spec fn vars_view(m: Map<Bytes, (Vec<u8>, bool)>) -> Map<Bytes, (Bytes, bool)> { m.map_values(|v: (Vec<u8>, bool)| (v.0@, v.1)) }
pub open spec fn enc_var(k: Bytes, v: (Bytes, bool), ver: u8) -> Bytes { enc_s16(k) + enc_s32(v.0) + (if ver >= 2 { seq![if v.1 { 1u8 } else { 0u8 }] } else { seq![] }) }
pub open spec fn enc_vars(m: Map<Bytes, (Bytes, bool)>, ks: Seq<Bytes>, ver: u8) -> Bytes
    decreases ks.len()
{
    if ks.len() == 0 { seq![] } else { enc_vars(m, ks.drop_last(), ver) + enc_var(ks.last(), m[ks.last()], ver) }
}
pub open spec fn enc_meta(m: MetaV, ks: Seq<Bytes>, ver: u8) -> Bytes { be32(m.vars.dom().len() as u32) + enc_vars(m.vars, ks, ver) + m.inv }
pub open spec fn enc_metas_n(m: Map<u16, NodeMetadata>, ks: Seq<u16>, ver: u8) -> Bytes
    decreases ks.len()
{
    if ks.len() == 0 { seq![] } else {
        enc_metas_n(m, ks.drop_last(), ver) + (if m[ks.last()]@.is_empty() { seq![] } else { be16(ks.last()) + enc_meta(m[ks.last()]@, m[ks.last()].vars.hkeys(), ver) })
    }
}
/// How many of them are not empty.
pub open spec fn live(m: Map<u16, NodeMetadata>, ks: Seq<u16>) -> nat
    decreases ks.len()
{
    if ks.len() == 0 { 0 } else { live(m, ks.drop_last()) + (if m[ks.last()]@.is_empty() { 0nat } else { 1nat }) }
}
pub open spec fn meta_ver(block_version: u8) -> u8 { if block_version >= 28 { 2 } else { 1 } }
pub open spec fn enc_metas(m: Map<u16, NodeMetadata>, block_version: u8) -> Bytes {
    if live(m, keys_of(m)) == 0 { seq![0u8] } else { seq![meta_ver(block_version)] + be16(live(m, keys_of(m)) as u16) + enc_metas_n(m, keys_of(m), meta_ver(block_version)) }
}
/// What serializing metadata needs: lengths fit.
pub open spec fn meta_fits(m: MetaV) -> bool {
    m.vars.dom().len() <= u32::MAX && forall|k: Bytes| #[trigger] m.vars.dom().contains(k) ==> k.len() <= u16::MAX && m.vars[k].0.len() <= u32::MAX
}
pub proof fn lemma_live(m: Map<u16, NodeMetadata>, ks: Seq<u16>)
    ensures live(m, ks) <= ks.len()
    decreases ks.len()
{ if ks.len() > 0 { lemma_live(m, ks.drop_last()); } }
pub proof fn lemma_end_strs()
    ensures seq![69u8, 110, 100, 73, 110, 118, 101, 110, 116, 111, 114, 121, 10] == end_inv(),
        seq![10u8, 69, 110, 100, 73, 110, 118, 101, 110, 116, 111, 114, 121, 10] == end_line(), end_line().len() == 14, end_inv().len() == 13
{ assert(seq![10u8, 69, 110, 100, 73, 110, 118, 101, 110, 116, 111, 114, 121, 10] =~= end_line()); }
>>>
fn NodeMetadata::deserialize
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_meta(old(src).rest(), version) { Some((v, t)) => r matches Ok(x) && x@ == v && final(src).rest() == t, None => r.is_err() }
>>>
call read_u32 0 after <<<
    let ghost R = src.rest();
>>>
loop 0 <<<
    invariant
        src.rwf(), src.rkin(old(src)), 0 <= __i0 <= __e0 == var_count, p_u32(old(src).rest()) == Some((var_count, R)),
        p_vars(R, version, __i0 as nat) == Some((vars_view(vars@), src.rest())),
    decreases __e0 - __i0
>>>
loop 0 before <<<
    proof { assert(vars_view(vars@) =~= Map::<Bytes, (Bytes, bool)>::empty()); }
>>>
loop 0 head <<<
    let ghost M = vars@;
    proof { lemma_vars_stop(R, version, __i0 as nat, var_count as nat); }
>>>
loop 0 tail <<<
    proof { assert(vars_view(vars@) =~= vars_view(M).insert(name@, vars_view(vars@)[name@])); }
>>>
loop 0 after <<<
    let ghost I = src.rest();
    proof {
        lemma_end_strs();
        assert([69u8, 110, 100, 73, 110, 118, 101, 110, 116, 111, 114, 121, 10]@ =~= end_inv());
        assert([10u8, 69, 110, 100, 73, 110, 118, 101, 110, 116, 111, 114, 121, 10]@ =~= end_line());
        if occurs(I, end_line()) { lemma_first_at(I, end_line()); }
    }
>>>
fn NodeMetadata::serialize
spec <<<
    requires old(dst).wf(), meta_fits(self@)
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + enc_meta(self@, self.vars.hkeys(), version)
>>>
loop 0 kind=map <<<
    invariant
        dst.wf(), dst.kin(old(dst)), *__s0 == self.vars, 0 <= __i0 <= self.vars.hkeys().len(), meta_fits(self@),
        dst.sink() == old(dst).sink() + (be32(self@.vars.dom().len() as u32) + enc_vars(self@.vars, self.vars.hkeys().take(__i0 as int), version)),
    decreases self.vars.hkeys().len() - __i0
>>>
loop 0 before <<<
    proof {
        assert(self@.vars.dom() =~= self.vars@.dom());
        assert(dst.sink() =~= old(dst).sink() + (be32(self@.vars.dom().len() as u32) + enc_vars(self@.vars, self.vars.hkeys().take(0), version)));
    }
>>>
loop 0 head <<<
    let ghost S = dst.sink();
    proof { assert(self@.vars.dom().contains(name@)); }
>>>
loop 0 tail <<<
    proof {
        let ks = self.vars.hkeys();
        assert(ks.take(__i0 as int).drop_last() =~= ks.take(__i0 - 1));
        assert(dst.sink() =~= S + enc_var(name@, self@.vars[name@], version));
        assert(dst.sink() =~= old(dst).sink() + (be32(self@.vars.dom().len() as u32) + enc_vars(self@.vars, ks.take(__i0 as int), version)));
    }
>>>
loop 0 after <<<
    proof { assert(self.vars.hkeys().take(__i0 as int) =~= self.vars.hkeys()); }
>>>
exit <<<
    assert(dst.sink() =~= old(dst).sink() + enc_meta(self@, self.vars.hkeys(), version));
>>>
fn NodeMetadata::is_empty
spec <<<
    ensures r == self@.is_empty()
>>>
entry <<<
    proof {
        assert(self@.vars.dom() =~= self.vars@.dom());
        assert([69u8, 110, 100, 73, 110, 118, 101, 110, 116, 111, 114, 121, 10]@ =~= end_inv());
    }
>>>
fn NodeMetadataList::deserialize@NodeMetadataListExt
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_metas(old(src).rest()) { Some((v, t)) => r matches Ok(x) && meta_view(x@) == v && final(src).rest() == t, None => r.is_err() }
>>>
loop 0 <<<
    invariant
        src.rwf(), src.rkin(old(src)), 0 <= __i0 <= __e0 == count, p_metas(old(src).rest()) == p_metas_n(R, version, count as nat),
        p_metas_n(R, version, __i0 as nat) == Some((meta_view(list@), src.rest())),
    decreases __e0 - __i0
>>>
loop 0 before <<<
    let ghost R = src.rest();
    proof { assert(meta_view(list@) =~= Map::<u16, MetaV>::empty()); }
>>>
loop 0 head <<<
    let ghost M = list@;
    proof { lemma_metas_stop(R, version, __i0 as nat, count as nat); }
>>>
loop 0 tail <<<
    proof { assert(meta_view(list@) =~= meta_view(M).insert(pos, meta_view(list@)[pos])); }
>>>
fn NodeMetadataList::decompress@NodeMetadataListExt
spec <<<
    requires old(src).rwf()
    ensures final(src).rwf(), final(src).rkin(old(src)),
        match p_zmetas(old(src).rest()) { Some((v, t)) => r matches Ok(x) && meta_view(x@) == v && final(src).rest() == t, None => r.is_err() }
>>>
entry <<<
    let ghost R = src.rest();
    proof { ax_zl(R); }
>>>
call read_to_end 0 after <<<
    proof { assert(buf@ =~= zl(R).out); assert(buf@.skip(0) =~= buf@); }
>>>
exit <<<
    assert(src.rest() =~= R.skip(zl(R).used));
>>>
fn NodeMetadataList::serialize@NodeMetadataListExt
spec <<<
    requires old(dst).wf(), self@.dom().len() <= 65535, forall|k: u16| #[trigger] self@.dom().contains(k) ==> meta_fits(self@[k]@)
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + enc_metas(self@, block_version)
>>>
entry <<<
    proof { lemma_live(self@, keys_of(self@)); }
>>>
loop 0 <<<
    invariant *__s0 == *self, 0 <= __i0 <= keys_of(self@).len(), __o0 == live(self@, keys_of(self@).take(__i0 as int)), __o0 <= __i0
    decreases keys_of(self@).len() - __i0
>>>
loop 0 tail <<<
    proof { assert(keys_of(self@).take(__i0 as int).drop_last() =~= keys_of(self@).take(__i0 - 1)); }
>>>
loop 0 after <<<
    proof { assert(keys_of(self@).take(__i0 as int) =~= keys_of(self@)); }
>>>
loop 1 kind=map <<<
    invariant
        dst.wf(), dst.kin(old(dst)), *__s1 == *self, 0 <= __i1 <= keys_of(self@).len(),
        forall|k: u16| #[trigger] self@.dom().contains(k) ==> meta_fits(self@[k]@),
        dst.sink() == old(dst).sink() + (seq![version] + be16(count as u16) + enc_metas_n(self@, keys_of(self@).take(__i1 as int), version)),
    decreases keys_of(self@).len() - __i1
>>>
loop 1 before <<<
    proof { assert(dst.sink() =~= old(dst).sink() + (seq![version] + be16(count as u16) + enc_metas_n(self@, keys_of(self@).take(0), version))); }
>>>
loop 1 head <<<
    let ghost S = dst.sink();
>>>
loop 1 tail <<<
    proof {
        let ks = keys_of(self@);
        assert(ks.take(__i1 as int).drop_last() =~= ks.take(__i1 - 1));
        if !meta@.is_empty() { assert(dst.sink() =~= S + (be16(pos) + enc_meta(meta@, meta.vars.hkeys(), version))); } else { assert(dst.sink() =~= S + seq![]); }
        assert(dst.sink() =~= old(dst).sink() + (seq![version] + be16(count as u16) + enc_metas_n(self@, ks.take(__i1 as int), version)));
    }
>>>
loop 1 after <<<
    proof { assert(keys_of(self@).take(__i1 as int) =~= keys_of(self@)); }
>>>
fn NodeMetadataList::compress@NodeMetadataListExt
spec <<<
    requires old(dst).wf(), self@.dom().len() <= 65535, forall|k: u16| #[trigger] self@.dom().contains(k) ==> meta_fits(self@[k]@)
    ensures final(dst).wf(), final(dst).kin(old(dst)), final(dst).sink() == old(dst).sink() + zip(enc_metas(self@, block_version))
>>>
call serialize 0 after <<<
    assert(encoder.buf@ =~= enc_metas(self@, block_version));
>>>
