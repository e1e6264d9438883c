module commands_mod commands/mod.rs
const BLOCK_CACHE_SIZE
enum ArgResult
fn ArgResult::warning
spec <<<
    ensures r is Warning
>>>
fn ArgResult::error
spec <<<
    ensures r is Error
>>>

module args instance.rs
raw <<<
broadcast use {crate::text::group_ostr};
// ---- the rules for all commands ---------------------------------------------------------------
pub open spec fn mod_char(c: char) -> bool { is_lower(c) || is_num(c) || c == '_' }
pub open spec fn item_char(c: char) -> bool { is_lower(c) || is_upper(c) || is_num(c) || c == '_' }
pub open spec fn all_mod(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> mod_char(#[trigger] s[i]) }
pub open spec fn all_item(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> item_char(#[trigger] s[i]) }
/// mod:name, or one of the two built-in nodes.
pub open spec fn name_ok(s: Seq<char>) -> bool {
    s == "air"@ || s == "ignore"@ || (char_at(s, ':') < s.len() && all_mod(s.take(char_at(s, ':'))) && all_item(s.skip(char_at(s, ':') + 1)))
}
pub open spec fn oname_ok(s: Option<String>) -> bool { s matches Some(n) ==> name_ok(n@) }
pub open spec fn names_ok(s: Seq<String>) -> bool { forall|i: int| 0 <= i < s.len() ==> name_ok((#[trigger] s[i])@) }
pub open spec fn offset_ok(v: Vec3) -> bool { v.within(-62000, 62000) }
pub open spec fn args_ok(a: InstArgs) -> bool {
    &&& a.invert ==> a.area.is_some()
    &&& a.area matches Some(x) ==> x.min.within(-31000, 31000) && x.max.within(-31000, 31000)
    &&& a.offset matches Some(o) ==> offset_ok(o)
    &&& oname_ok(a.node) && oname_ok(a.new_node) && oname_ok(a.object) && oname_ok(a.item) && oname_ok(a.new_item)
    &&& names_ok(a.nodes@)
    &&& a.items matches Some(v) ==> names_ok(v@)
}
>>>
fn verify_args/is_valid_name
spec <<<
    ensures r == name_ok(name@)
>>>
entry <<<
    proof {
        reveal_strlit("air"); reveal_strlit("ignore");
        lemma_char_at(name@, ':');
    }
    let ghost at = char_at(name@, ':');
    proof { if at < name@.len() { assert(byte_off(name@, at + 1) == byte_off(name@, at) + 1); } }
>>>
loop 0 <<<
    invariant
        __s0@ == mod_name@, 0 <= __i0 <= __s0@.len(), mod_name@ == name@.take(at),
        __o0 ==> forall|i: int| 0 <= i < __i0 ==> mod_char(#[trigger] __s0@[i]), !__o0 ==> !all_mod(__s0@),
    decreases __s0@.len() - __i0
>>>
loop 1 <<<
    invariant
        __s1@ == item_name@, 0 <= __i1 <= __s1@.len(), item_name@ == name@.skip(at + 1),
        __o1 ==> forall|i: int| 0 <= i < __i1 ==> item_char(#[trigger] __s1@[i]), !__o1 ==> !all_item(__s1@),
    decreases __s1@.len() - __i1
>>>
fn verify_args as=verify_common
spec <<<
    ensures r.is_ok() == args_ok(*args)
>>>
loop 0 <<<
    invariant args.area == Some(a), 0 <= __i0 <= 2, __s0@ == seq![a.min, a.max], __i0 >= 1 ==> a.min.within(-31000, 31000), __i0 >= 2 ==> a.max.within(-31000, 31000)
    decreases 2 - __i0
>>>
loop 0 head <<<
    proof { assert(__s0@[__i0 - 1] == *pos); }
>>>
loop 1 kind=vec <<<
    invariant *__s1 == args.nodes, 0 <= __i1 <= __s1@.len(), forall|i: int| 0 <= i < __i1 ==> name_ok((#[trigger] __s1@[i])@)
    decreases __s1@.len() - __i1
>>>
loop 2 kind=vec <<<
    invariant args.items == Some(*items), *__s2 == *items, 0 <= __i2 <= __s2@.len(), forall|i: int| 0 <= i < __i2 ==> name_ok((#[trigger] __s2@[i])@)
    decreases __s2@.len() - __i2
>>>

module args_clone commands/clone.rs
raw <<<
/// Some part of the destination lies on the map.
pub open spec fn lands(a: Area, o: Vec3) -> bool {
    imax(-31000, a.min.x + o.x) <= imin(31000, a.max.x + o.x) && imax(-31000, a.min.y + o.y) <= imin(31000, a.max.y + o.y) && imax(-31000, a.min.z + o.z) <= imin(31000, a.max.z + o.z)
}
pub open spec fn clone_rules(a: InstArgs) -> bool { lands(a.area.unwrap(), a.offset.unwrap()) }
>>>
fn verify_args as=verify_clone
spec <<<
    requires args_ok(*args), args.area.is_some(), args.offset.is_some(), args.area.unwrap().valid()
    ensures (r is Error) == !clone_rules(*args)
>>>

module args_overlay commands/overlay.rs
raw <<<
pub open spec fn zero() -> Vec3 { Vec3 { x: 0, y: 0, z: 0 } }
pub open spec fn overlay_rules(a: InstArgs) -> bool {
    !(a.invert && a.offset.is_some() && a.offset.unwrap() != zero())
        && (a.area.is_none() || a.offset.is_none() || lands(a.area.unwrap(), a.offset.unwrap()))
}
>>>
fn verify_args as=verify_overlay
spec <<<
    requires args_ok(*args), args.area matches Some(x) ==> x.valid()
    ensures (r is Error) == !overlay_rules(*args)
>>>

module args_delete_meta commands/delete_meta.rs
fn verify_args as=verify_delete_meta
spec <<<
    ensures !(r is Error)
>>>

module args_delete_objects commands/delete_objects.rs
raw <<<
pub open spec fn delete_objects_rules(a: InstArgs) -> bool { !(a.object.is_some() && a.items.is_some()) }
>>>
fn verify_args as=verify_delete_objects
spec <<<
    ensures (r is Error) == !delete_objects_rules(*args)
>>>

module args_replace_in_inv commands/replace_in_inv.rs
raw <<<
broadcast use {crate::text::group_ostr};
pub open spec fn replace_in_inv_rules(a: InstArgs) -> bool {
    (a.new_item.is_some() || a.delete || a.delete_meta) && !(a.new_item.is_some() && a.delete)
        && (ostr(a.item) != ostr(a.new_item) || a.delete_meta)
}
>>>
fn verify_args as=verify_replace_in_inv
spec <<<
    ensures (r is Error) == !replace_in_inv_rules(*args)
>>>

module args_replace_nodes commands/replace_nodes.rs
raw <<<
broadcast use {crate::text::group_ostr};
pub open spec fn replace_nodes_rules(a: InstArgs) -> bool { ostr(a.node) != ostr(a.new_node) }
>>>
fn verify_args as=verify_replace_nodes
spec <<<
    ensures (r is Error) == !replace_nodes_rules(*args)
>>>

module args_set_meta_var commands/set_meta_var.rs
raw <<<
broadcast use {crate::text::group_ostr};
pub open spec fn set_meta_var_rules(a: InstArgs) -> bool {
    (a.value.is_some() || a.delete) && !(a.value.is_some() && a.delete) && ostr(a.value) != Some(""@)
}
>>>
fn verify_args as=verify_set_meta_var
spec <<<
    ensures (r is Error) == !set_meta_var_rules(*args)
>>>
entry <<<
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
>>>

module args_set_param2 commands/set_param2.rs
raw <<<
pub open spec fn set_param2_rules(a: InstArgs) -> bool { a.area.is_some() || a.node.is_some() }
>>>
fn verify_args as=verify_set_param2
spec <<<
    ensures (r is Error) == !set_param2_rules(*args)
>>>
