module view map_block/mod.rs
enum MapBlockError derive=debug clone
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
/// What a block means, independent of how it is held in memory.
pub struct MetaV { pub vars: Map<Bytes, (Bytes, bool)>, pub inv: Bytes }
pub struct ObjV { pub ty: u8, pub pos: Vec3, pub data: Bytes }
pub struct BlockV {
    pub version: u8, pub flags: u8, pub lighting: u16, pub timestamp: u32,
    pub nodes: Seq<u16>, pub p1: Seq<u8>, pub p2: Seq<u8>, pub names: Map<u16, Bytes>,
    pub meta: Map<u16, MetaV>, pub objs: Seq<ObjV>, pub timers: Seq<NodeTimer>,
}
impl NodeMetadata {
    pub open spec fn view(&self) -> MetaV { MetaV { vars: self.vars@.map_values(|v: (Vec<u8>, bool)| (v.0@, v.1)), inv: self.inv@ } }
}
impl StaticObject {
    pub open spec fn view(&self) -> ObjV { ObjV { ty: self.obj_type, pos: self.f_pos, data: self.data@ } }
}
impl NameIdMap {
    pub open spec fn view(&self) -> Map<u16, Bytes> { self.0@.map_values(|v: Vec<u8>| v@) }
}
pub open spec fn meta_view(m: Map<u16, NodeMetadata>) -> Map<u16, MetaV> { m.map_values(|v: NodeMetadata| v@) }
pub open spec fn objs_view(s: Seq<StaticObject>) -> Seq<ObjV> { Seq::new(s.len(), |i: int| s[i]@) }
impl MapBlock {
    pub open spec fn view(&self) -> BlockV {
        BlockV {
            version: self.version, flags: self.flags, lighting: self.lighting_complete, timestamp: self.timestamp,
            nodes: self.node_data.nodes@, p1: self.node_data.param1@, p2: self.node_data.param2@, names: self.nimap@,
            meta: meta_view(self.metadata@), objs: objs_view(self.static_objects@), timers: self.node_timers@,
        }
    }
}
/// "EndInventory\n"
pub open spec fn end_inv() -> Bytes { seq![69u8, 110, 100, 73, 110, 118, 101, 110, 116, 111, 114, 121, 10] }
impl MetaV {
    /// Neither variables nor inventory.
    pub open spec fn is_empty(self) -> bool { self.vars.dom().len() == 0 && end_inv().is_prefix_of(self.inv) }
    /// Storable: lengths fit their fields, the inventory ends where its end mark first occurs.
    pub open spec fn storable(self) -> bool {
        self.vars.dom().len() <= u32::MAX && first_end(self.inv)
            && forall|k: Bytes| #[trigger] self.vars.dom().contains(k) ==> k.len() <= u16::MAX && self.vars[k].0.len() <= u32::MAX
    }
}
/// A line of its own.
pub open spec fn at_line(s: Bytes, i: int) -> bool { at(s, end_inv(), i) && (i == 0 || s[i - 1] == 10) }
/// The end mark is the last line, and no line before.
pub open spec fn first_end(s: Bytes) -> bool {
    at_line(s, s.len() - end_inv().len()) && forall|i: int| 0 <= i < s.len() - end_inv().len() ==> !#[trigger] at_line(s, i)
}
/// Metadata as stored: without empty entries, privacy flags from version 28 on.
pub open spec fn norm_vars(version: u8, m: MetaV) -> MetaV { MetaV { vars: m.vars.map_values(|v: (Bytes, bool)| (v.0, v.1 && version >= 28)), inv: m.inv } }
pub open spec fn norm_meta(version: u8, m: Map<u16, MetaV>) -> Map<u16, MetaV> {
    m.restrict(m.dom().filter(|k: u16| !m[k].is_empty())).map_values(|v: MetaV| norm_vars(version, v))
}
impl BlockV {
    /// 4096 nodes, every node id named, metadata and timers inside the block.
    pub open spec fn wf(self) -> bool {
        self.nodes.len() == 4096 && self.p1.len() == 4096 && self.p2.len() == 4096
            && (forall|i: int| 0 <= i < 4096 ==> self.names.dom().contains(#[trigger] self.nodes[i]))
            && (forall|k: u16| #[trigger] self.meta.dom().contains(k) ==> k < 4096)
            && (forall|i: int| 0 <= i < self.timers.len() ==> (#[trigger] self.timers[i]).pos < 4096)
    }
    pub open spec fn storable(self) -> bool {
        25 <= self.version <= 29 && (self.version < 27 ==> self.lighting == 0xFFFF) && self.objs.len() <= 65535 && self.timers.len() <= 65535 && self.names.dom().len() <= 65535
            && (forall|k: u16| #[trigger] self.names.dom().contains(k) ==> self.names[k].len() <= 65535)
            && (forall|k: u16| #[trigger] self.meta.dom().contains(k) ==> self.meta[k].storable())
            && (forall|i: int| 0 <= i < self.objs.len() ==> (#[trigger] self.objs[i]).data.len() <= 65535)
    }
    pub open spec fn node(self, i: int) -> Bytes { self.names[self.nodes[i]] }
    pub open spec fn has_name(self, n: Bytes) -> bool { exists|k: u16| #[trigger] self.names.dom().contains(k) && self.names[k] == n }
    pub open spec fn distinct(self) -> bool {
        forall|j: u16, k: u16| #[trigger] self.names.dom().contains(j) && #[trigger] self.names.dom().contains(k) && self.names[j] == self.names[k] ==> j == k
    }
    pub open spec fn ids_below(self, m: int) -> bool { forall|k: u16| #[trigger] self.names.dom().contains(k) ==> k < m }
    pub open spec fn norm(self) -> BlockV { BlockV { meta: norm_meta(self.version, self.meta), ..self } }
    pub open spec fn generated(self) -> bool { self.flags & 8 == 0 }
    /// Everything besides nodes, their parameters and metadata.
    pub open spec fn same_rest(self, o: BlockV) -> bool {
        self.version == o.version && self.flags == o.flags && self.lighting == o.lighting && self.timestamp == o.timestamp
            && self.objs == o.objs && self.timers == o.timers
    }
    pub open spec fn same_nodes(self, o: BlockV) -> bool { self.nodes == o.nodes && self.p1 == o.p1 && self.p2 == o.p2 && self.names == o.names }
}
/// The two ways of looking at a block agree.
pub proof fn lemma_view(b: MapBlock)
    requires b.wf_nodes()
    ensures
        b@.nodes.len() == 4096 && b@.p1.len() == 4096 && b@.p2.len() == 4096,
        forall|i: int| 0 <= i < 4096 ==> b@.names.dom().contains(#[trigger] b@.nodes[i]),
        forall|i: int| 0 <= i < 4096 ==> #[trigger] b@.node(i) == b.node(i),
        forall|k: u16| #[trigger] b@.names.dom().contains(k) == b.nimap.has(k),
        forall|k: u16| b.nimap.has(k) ==> #[trigger] b@.names[k] == b.nimap.name(k),
{
    assert forall|i: int| 0 <= i < 4096 implies b@.names.dom().contains(#[trigger] b@.nodes[i]) by { assert(b.nimap.has(b.node_data.nodes@[i])); }
    assert forall|i: int| 0 <= i < 4096 implies #[trigger] b@.node(i) == b.node(i) by { assert(b.nimap.has(b.node_data.nodes@[i])); }
}
/// Names after adding at most one: still storable.
pub proof fn lemma_names(n: Map<u16, Bytes>, m: int)
    requires forall|k: u16| #[trigger] n.dom().contains(k) ==> k < m, 0 <= m <= 65535
    ensures n.dom().len() <= m
    decreases m
{
    if m == 0 { assert(n.dom() =~= Set::empty()); }
    else {
        let r = n.remove((m - 1) as u16);
        lemma_names(r, m - 1);
        assert(r.dom() =~= n.dom().remove((m - 1) as u16));
    }
}
>>>
