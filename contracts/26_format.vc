module format map_block/mod.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
// ---- what stored bytes mean: the format, read front to back -----------------------------------
pub open spec fn p_s16(s: Bytes) -> P<Bytes> { match p_u16(s) { None => None, Some((n, r)) => p_n(r, n as int) } }
pub open spec fn p_s32(s: Bytes) -> P<Bytes> { match p_u32(s) { None => None, Some((n, r)) => p_n(r, n as int) } }
/// n times: id, name. A later entry for the same id wins.
pub open spec fn p_names_n(s: Bytes, n: nat) -> P<Map<u16, Bytes>>
    decreases n
{
    if n == 0 { Some((Map::empty(), s)) } else {
        match p_names_n(s, (n - 1) as nat) { None => None, Some((m, r)) =>
            match p_u16(r) { None => None, Some((k, r)) =>
                match p_s16(r) { None => None, Some((v, r)) => Some((m.insert(k, v), r)) } } }
    }
}
pub open spec fn p_names(s: Bytes) -> P<Map<u16, Bytes>> {
    match p_u8(s) { None => None, Some((v, r)) => if v != 0 { None } else {
        match p_u16(r) { None => None, Some((n, r)) => p_names_n(r, n as nat) } } }
}
/// 4096 node ids, 4096 param1, 4096 param2
pub struct NodesV { pub nodes: Seq<u16>, pub p1: Seq<u8>, pub p2: Seq<u8> }
pub open spec fn p_nodes(s: Bytes) -> P<NodesV> {
    match p_n(s, 8192) { None => None, Some((a, r)) =>
        match p_n(r, 4096) { None => None, Some((b, r)) =>
            match p_n(r, 4096) { None => None, Some((c, r)) => Some((NodesV { nodes: u16s(a), p1: b, p2: c }, r)) } } }
}
/// A compressed section that decompresses to exactly what is expected.
pub open spec fn p_zlib(s: Bytes) -> P<Bytes> { if zl(s).ok { Some((zl(s).out, s.skip(zl(s).used))) } else { None } }
pub open spec fn p_znodes(s: Bytes) -> P<NodesV> {
    match p_zlib(s) { None => None, Some((d, r)) =>
        match p_nodes(d) { None => None, Some((v, left)) => if left.len() > 0 { None } else { Some((v, r)) } } }
}
/// n times: name, value, and from version 2 on a privacy flag
pub open spec fn p_vars(s: Bytes, ver: u8, n: nat) -> P<Map<Bytes, (Bytes, bool)>>
    decreases n
{
    if n == 0 { Some((Map::empty(), s)) } else {
        match p_vars(s, ver, (n - 1) as nat) { None => None, Some((m, r)) =>
            match p_s16(r) { None => None, Some((k, r)) =>
                match p_s32(r) { None => None, Some((v, r)) =>
                    if ver >= 2 { match p_u8(r) { None => None, Some((f, r)) => Some((m.insert(k, (v, f != 0)), r)) } }
                    else { Some((m.insert(k, (v, false)), r)) } } } }
    }
}
/// "\nEndInventory\n"
pub open spec fn end_line() -> Bytes { seq![10u8] + end_inv() }
/// An inventory: up to and including its end mark, a line of its own.
pub open spec fn p_inv(s: Bytes) -> P<Bytes> {
    if end_inv().is_prefix_of(s) { p_n(s, 13) }
    else if occurs(s, end_line()) { p_n(s, first_at(s, end_line()) + 14) }
    else { None }
}
pub open spec fn p_meta(s: Bytes, ver: u8) -> P<MetaV> {
    match p_u32(s) { None => None, Some((n, r)) =>
        match p_vars(r, ver, n as nat) { None => None, Some((m, r)) =>
            match p_inv(r) { None => None, Some((i, r)) => Some((MetaV { vars: m, inv: i }, r)) } } }
}
pub open spec fn p_metas_n(s: Bytes, ver: u8, n: nat) -> P<Map<u16, MetaV>>
    decreases n
{
    if n == 0 { Some((Map::empty(), s)) } else {
        match p_metas_n(s, ver, (n - 1) as nat) { None => None, Some((m, r)) =>
            match p_u16(r) { None => None, Some((k, r)) =>
                match p_meta(r, ver) { None => None, Some((v, r)) => Some((m.insert(k, v), r)) } } }
    }
}
pub open spec fn p_metas(s: Bytes) -> P<Map<u16, MetaV>> {
    match p_u8(s) { None => None, Some((ver, r)) => if ver > 2 { None } else if ver == 0 { Some((Map::empty(), r)) } else {
        match p_u16(r) { None => None, Some((n, r)) => p_metas_n(r, ver, n as nat) } } }
}
/// Metadata may be followed by nothing else that decompresses.
pub open spec fn p_zmetas(s: Bytes) -> P<Map<u16, MetaV>> {
    match p_zlib(s) { None => None, Some((d, r)) =>
        match p_metas(d) { None => None, Some((v, _)) => Some((v, r)) } }
}
pub open spec fn p_obj(s: Bytes) -> P<ObjV> {
    match p_u8(s) { None => None, Some((t, r)) =>
        match p_i32(r) { None => None, Some((x, r)) =>
            match p_i32(r) { None => None, Some((y, r)) =>
                match p_i32(r) { None => None, Some((z, r)) =>
                    match p_s16(r) { None => None, Some((d, r)) => Some((ObjV { ty: t, pos: Vec3 { x, y, z }, data: d }, r)) } } } } }
}
pub open spec fn p_objs_n(s: Bytes, n: nat) -> P<Seq<ObjV>>
    decreases n
{
    if n == 0 { Some((Seq::empty(), s)) } else {
        match p_objs_n(s, (n - 1) as nat) { None => None, Some((l, r)) =>
            match p_obj(r) { None => None, Some((o, r)) => Some((l.push(o), r)) } }
    }
}
pub open spec fn p_objs(s: Bytes) -> P<Seq<ObjV>> {
    match p_u8(s) { None => None, Some((v, r)) => if v != 0 { None } else {
        match p_u16(r) { None => None, Some((n, r)) => p_objs_n(r, n as nat) } } }
}
pub open spec fn p_timer(s: Bytes) -> P<NodeTimer> {
    match p_u16(s) { None => None, Some((pos, r)) =>
        match p_u32(r) { None => None, Some((timeout, r)) =>
            match p_u32(r) { None => None, Some((elapsed, r)) => Some((NodeTimer { pos, timeout, elapsed }, r)) } } }
}
pub open spec fn p_timers_n(s: Bytes, n: nat) -> P<Seq<NodeTimer>>
    decreases n
{
    if n == 0 { Some((Seq::empty(), s)) } else {
        match p_timers_n(s, (n - 1) as nat) { None => None, Some((l, r)) =>
            match p_timer(r) { None => None, Some((t, r)) => Some((l.push(t), r)) } }
    }
}
pub open spec fn p_timers(s: Bytes) -> P<Seq<NodeTimer>> {
    match p_u8(s) { None => None, Some((v, r)) => if v != 10 { None } else {
        match p_u16(r) { None => None, Some((n, r)) => p_timers_n(r, n as nat) } } }
}
/// content_width and params_width
pub open spec fn p_widths(s: Bytes) -> P<()> {
    match p_u8(s) { None => None, Some((a, r)) =>
        match p_u8(r) { None => None, Some((b, r)) => if a != 2 || b != 2 { None } else { Some(((), r)) } } }
}
pub open spec fn mk(version: u8, flags: u8, lighting: u16, timestamp: u32, n: NodesV, names: Map<u16, Bytes>, meta: Map<u16, MetaV>, objs: Seq<ObjV>, timers: Seq<NodeTimer>) -> BlockV {
    BlockV { version, flags, lighting, timestamp, nodes: n.nodes, p1: n.p1, p2: n.p2, names, meta, objs, timers }
}
/// Version 29, decompressed.
pub open spec fn p_29(s: Bytes) -> P<BlockV> {
    match p_u8(s) { None => None, Some((flags, r)) =>
    match p_u16(r) { None => None, Some((lighting, r)) =>
    match p_u32(r) { None => None, Some((timestamp, r)) =>
    match p_names(r) { None => None, Some((names, r)) =>
    match p_widths(r) { None => None, Some((_, r)) =>
    match p_nodes(r) { None => None, Some((nodes, r)) =>
    match p_metas(r) { None => None, Some((meta, r)) =>
    match p_objs(r) { None => None, Some((objs, r)) =>
    match p_timers(r) { None => None, Some((timers, r)) =>
        Some((mk(29, flags, lighting, timestamp, nodes, names, meta, objs, timers), r)) } } } } } } } } }
}
/// The lighting field came with version 27.
pub open spec fn p_light(s: Bytes, version: u8) -> P<u16> { if version >= 27 { p_u16(s) } else { Some((0xFFFFu16, s)) } }
/// Versions 25 to 28, after the version byte.
pub open spec fn p_28(s: Bytes, version: u8) -> P<BlockV> {
    match p_u8(s) { None => None, Some((flags, r)) =>
    match p_light(r, version) { None => None, Some((lighting, r)) =>
    match p_widths(r) { None => None, Some((_, r)) =>
    match p_znodes(r) { None => None, Some((nodes, r)) =>
    match p_zmetas(r) { None => None, Some((meta, r)) =>
    match p_objs(r) { None => None, Some((objs, r)) =>
    match p_u32(r) { None => None, Some((timestamp, r)) =>
    match p_names(r) { None => None, Some((names, r)) =>
    match p_timers(r) { None => None, Some((timers, r)) =>
        Some((mk(version, flags, lighting, timestamp, nodes, names, meta, objs, timers), r)) } } } } } } } } }
}
pub open spec fn p_block(s: Bytes) -> P<BlockV> {
    match p_u8(s) { None => None, Some((version, r)) =>
        if version < 25 || version > 29 { None }
        else if version >= 29 { if zs(r).ok { p_29(zs(r).out) } else { None } }
        else { p_28(r, version) } }
}
/// What the stored bytes of a block mean, if they can be read. Anything after the last field is ignored.
pub open spec fn dec(s: Bytes) -> Option<BlockV> {
    match p_block(s) { None => None, Some((b, _)) => if b.wf() { Some(b) } else { None } }
}
/// The quick look at version and flags: readable, and generated.
pub open spec fn ivg(s: Bytes) -> bool {
    s.len() >= 2 && 25 <= s[0] <= 29 && match p_u8(if s[0] >= 29 { zs(s.skip(1)).out } else { s.skip(1) }) { None => false, Some((f, _)) => f & 8 == 0 }
}
/// It agrees with the whole block wherever that can be read.
pub proof fn ax_ivg(s: Bytes)
    ensures dec(s) matches Some(b) ==> ivg(s) == b.generated()
{
    ax_zs();
    if s.len() == 1 { assert(s.skip(1) =~= Seq::<u8>::empty()); }
}
>>>
