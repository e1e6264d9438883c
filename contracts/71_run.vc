module run commands/mod.rs
raw <<<
broadcast use {crate::text::group_ostr};
/// A command of the table: function pointers are indices into it.
pub struct VCommand { pub func: usize, pub verify_args: Option<usize> }
/// The twelve commands.
pub open spec fn known(n: Seq<char>) -> bool {
    n == "clone"@ || n == "deleteblocks"@ || n == "deletemeta"@ || n == "deleteobjects"@ || n == "deletetimers"@ || n == "fill"@ || n == "replacenodes"@
        || n == "replaceininv"@ || n == "overlay"@ || n == "setmetavar"@ || n == "setparam2"@ || n == "vacuum"@
}
pub proof fn lemma_cmd_names()
    ensures
        "clone"@.len() == 5, "fill"@.len() == 4, "overlay"@.len() == 7, "setparam2"@.len() == 9, "vacuum"@.len() == 6, "deleteobjects"@.len() == 13,
        "deletemeta"@.len() == 10, "setmetavar"@.len() == 10, "deletemeta"@ != "setmetavar"@,
        "deleteblocks"@.len() == 12, "deletetimers"@.len() == 12, "replacenodes"@.len() == 12, "replaceininv"@.len() == 12,
        "deleteblocks"@ != "deletetimers"@, "deleteblocks"@ != "replacenodes"@, "deleteblocks"@ != "replaceininv"@,
        "deletetimers"@ != "replacenodes"@, "deletetimers"@ != "replaceininv"@, "replacenodes"@ != "replaceininv"@,
{
    reveal_strlit("clone"); reveal_strlit("fill"); reveal_strlit("overlay"); reveal_strlit("setparam2"); reveal_strlit("vacuum"); reveal_strlit("deleteobjects");
    reveal_strlit("deletemeta"); reveal_strlit("setmetavar"); reveal_strlit("deleteblocks"); reveal_strlit("deletetimers"); reveal_strlit("replacenodes"); reveal_strlit("replaceininv");
    assert("deletemeta"@[0] == 'd'); assert("setmetavar"@[0] == 's');
    assert("deleteblocks"@[6] == 'b'); assert("deletetimers"@[6] == 't'); assert("replacenodes"@[7] == 'n'); assert("replaceininv"@[7] == 'i');
    assert("deleteblocks"@[0] == 'd'); assert("deletetimers"@[0] == 'd'); assert("replacenodes"@[0] == 'r'); assert("replaceininv"@[0] == 'r');
}
/// What the command line parser guarantees: the command exists and has its required arguments;
/// areas come sorted.
pub open spec fn parsed(a: InstArgs) -> bool {
    let n = a.command@;
    &&& known(n)
    &&& a.area matches Some(x) ==> x.valid()
    &&& n == "clone"@ ==> a.area.is_some() && a.offset.is_some()
    &&& n == "overlay"@ ==> a.input_map_path.is_some()
    &&& n == "deleteblocks"@ ==> a.area.is_some()
    &&& n == "fill"@ ==> a.area.is_some() && a.new_node.is_some()
    &&& n == "replacenodes"@ ==> a.node.is_some() && a.new_node.is_some()
    &&& n == "replaceininv"@ ==> a.item.is_some()
    &&& n == "setmetavar"@ ==> a.key.is_some()
    &&& n == "setparam2"@ ==> a.param2.is_some()
}
/// The rules of the single commands.
pub open spec fn rules(a: InstArgs) -> bool {
    let n = a.command@;
    &&& n == "clone"@ ==> clone_rules(a)
    &&& n == "overlay"@ ==> overlay_rules(a)
    &&& n == "deleteobjects"@ ==> delete_objects_rules(a)
    &&& n == "replaceininv"@ ==> replace_in_inv_rules(a)
    &&& n == "replacenodes"@ ==> replace_nodes_rules(a)
    &&& n == "setmetavar"@ ==> set_meta_var_rules(a)
    &&& n == "setparam2"@ ==> set_param2_rules(a)
}
pub open spec fn acceptable(a: InstArgs) -> bool { args_ok(a) && rules(a) }
/// The maps the commands are proved for (see DESIGN.md: limits of the format).
pub open spec fn in_domain(a: InstArgs, m: Map<i64, Bytes>, s: Map<i64, Bytes>) -> bool {
    let n = a.command@;
    &&& n == "overlay"@ ==> keys_in_range(s) && roomy(s)
    &&& keys_in_range(m)
    &&& n != "deleteblocks"@ && n != "vacuum"@ ==> roomy(m)
    &&& n == "deletemeta"@ || n == "deletetimers"@ || n == "replacenodes"@ || n == "replaceininv"@ || n == "setmetavar"@ || n == "setparam2"@ ==> distinct_names(m)
    &&& n == "fill"@ || n == "replacenodes"@ ==> sbytes(a.new_node.unwrap()@).len() <= 65535
    &&& n == "replacenodes"@ && acceptable(a) ==> sbytes(a.node.unwrap()@) != sbytes(a.new_node.unwrap()@)
    &&& n == "replaceininv"@ ==> no_nl(wanted(a).new_item) && modest(m, wanted(a).item)
    &&& n == "setmetavar"@ ==> (var_val(a) matches Some(v) ==> v.len() <= u32::MAX)
}
/// The blocks of the source map.
pub open spec fn source(b: InstBundle) -> Map<i64, Bytes> { match b.idb { Some(i) => i@, None => Map::empty() } }
pub open spec fn source_world(a: InstArgs) -> Map<i64, Bytes> { match a.input_map_path { Some(p) => world(p@), None => Map::empty() } }
/// What a command may be run on.
pub open spec fn cmd_pre(n: Seq<char>, b: InstBundle) -> bool {
    &&& n == b.args.command@ && parsed(b.args) && acceptable(b.args) && in_domain(b.args, b.db@, source(b)) && b.db.wf() && b.status@.fresh()
    &&& n == "overlay"@ ==> b.idb.is_some()
    &&& b.idb matches Some(i) ==> i.wf()
}
pub open spec fn all_rel(m: Map<i64, Bytes>, w: Map<i64, Bytes>, rel: spec_fn(i64, Bytes, Bytes) -> bool) -> bool {
    w.dom() == m.dom() && forall|k: i64| #[trigger] m.dom().contains(k) ==> rel(k, m[k], w[k])
}
/// What a command makes of the map.
pub open spec fn cmd_effect(n: Seq<char>, a: InstArgs, s: Map<i64, Bytes>, m: Map<i64, Bytes>, w: Map<i64, Bytes>) -> bool {
    &&& n == "clone"@ ==> all_rel(m, w, copy_rel(m, Some(moved(a.area.unwrap(), a.offset.unwrap())), a.offset.unwrap()))
    &&& n == "overlay"@ ==> overlay_made(a, s, m, w)
    &&& n == "deleteblocks"@ ==> (forall|k: i64| #[trigger] w.dom().contains(k) == (m.dom().contains(k) && !area_hit(a.area, a.invert, false, unkey(k as int))))
            && (forall|k: i64| w.dom().contains(k) ==> #[trigger] w[k] == m[k])
    &&& n == "deletemeta"@ ==> all_rel(m, w, meta_rel(a.area, a.invert, opt_bytes(a.node)))
    &&& n == "deleteobjects"@ ==> all_rel(m, w, obj_rel(a.area, a.invert, want_name(a), want_items(a)))
    &&& n == "deletetimers"@ ==> all_rel(m, w, timer_rel(a.area, a.invert, opt_bytes(a.node)))
    &&& n == "fill"@ ==> all_rel(m, w, fill_rel(a.area, a.invert, sbytes(a.new_node.unwrap()@)))
    &&& n == "replacenodes"@ ==> all_rel(m, w, replace_rel(a.area, a.invert, sbytes(a.node.unwrap()@), sbytes(a.new_node.unwrap()@)))
    &&& n == "replaceininv"@ ==> all_rel(m, w, inv_rel(a.area, a.invert, texts(a.nodes@), wanted(a)))
    &&& n == "setmetavar"@ ==> all_rel(m, w, var_rel(a.area, a.invert, texts(a.nodes@), sbytes(a.key.unwrap()@), var_val(a)))
    &&& n == "setparam2"@ ==> all_rel(m, w, param2_rel(a.area, a.invert, opt_bytes(a.node), a.param2.unwrap()))
    &&& n == "vacuum"@ ==> w == m
}
>>>
table names cmd_name
table lookup v_command_at
spec <<<
    requires known(name@)
    ensures cmd_name(r.func as int) == name@, r.verify_args matches Some(v) ==> cmd_name(v as int) == name@ && cmd_name_checked(v as int),
        r.verify_args.is_none() ==> name@ != "clone"@ && name@ != "overlay"@ && name@ != "deleteobjects"@ && name@ != "replaceininv"@
            && name@ != "replacenodes"@ && name@ != "setmetavar"@ && name@ != "setparam2"@,
>>>
entry <<<
    proof { lemma_cmd_names(); }
>>>
table verify v_call_verify
spec <<<
    requires cmd_name_checked(f as int), cmd_name(f as int) == args.command@, parsed(*args), args_ok(*args),
    ensures (r is Error) == !rules(*args)
>>>
entry <<<
    proof { lemma_cmd_names(); reveal_strlit(""); }
>>>
table func v_call_func
spec <<<
    requires cmd_pre(cmd_name(f as int), *old(inst))
    ensures
        final(inst).args == old(inst).args, src_kept(old(inst).idb, final(inst).idb), final(inst).db.wf(), final(inst).status@.answer == old(inst).status@.answer,
        final(inst).db.conn@.ro == old(inst).db.conn@.ro,
        cmd_effect(old(inst).args.command@, old(inst).args, source(*old(inst)), old(inst).db@, final(inst).db@),
        // nothing is permanent yet; compacting the file changes no block
        final(inst).db.disk() == old(inst).db.disk() || (old(inst).args.command@ == "vacuum"@ && final(inst).db.disk() == old(inst).db@),
        old(inst).args.command@ != "vacuum"@ ==> final(inst).db.held(&old(inst).db),
>>>
entry <<<
    proof { lemma_cmd_names(); reveal_strlit(""); }
>>>

module compute instance.rs
raw <<<
broadcast use {crate::status::group_says};
pub fn v_slot(s: &mut Option<InstBundle>) -> (r: &mut InstBundle)
    requires old(s).is_some()
    ensures *r == old(s).unwrap(), *final(s) == Some(*final(r))
{ s.as_mut().unwrap() }
>>>
fn open_map own
spec <<<
    requires flags.ro || flags.rw
    ensures r.is_ok() == names_file(path@), r matches Ok(c) ==> fresh(c@, map_file(path@), flags.ro)
>>>
fn compute_thread own args=args:~InstArgs,~status:~StatusServer,~slot:~&mut~Option<InstBundle>
subst <<<
commands[args.command.as_str()] ==> v_command_at(args.command.as_str())
>>>
subst <<<
verify_args(&args)? ==> verify_common(&args)?
>>>
subst <<<
cmd_verify(&args) ==> v_call_verify(cmd_verify, &args)
>>>
subst <<<
let mut inst = InstBundle {args, status, db, idb}; ==> *slot = Some(InstBundle {args, status, db, idb}); let inst = v_slot(slot);
>>>
subst <<<
func(&mut inst) ==> v_call_func(func, inst)
>>>
subst <<<
MapDatabase::new(&db_conn) ==> MapDatabase::new(db_conn)
>>>
subst <<<
match &idb_conn ==> match idb_conn
>>>
subst <<<
let commands = commands::get_commands(); ==>
>>>
spec <<<
    requires old(slot).is_none(), parsed(args), status@.fresh(), acceptable(args) ==> in_domain(args, world(args.map_path@), source_world(args)),
    ensures
        // refused arguments: no map was opened
        !acceptable(args) ==> r.is_err() && final(slot).is_none(),
        *final(slot) matches Some(b) ==> {
            &&& b.args == args
            // the source map is open for reading only and as it was
            &&& b.idb matches Some(s) ==> s.disk() == world(args.input_map_path.unwrap()@) && s.conn@.ro && s.commits() == 0
            // the map is as it was, or as this command makes it
            &&& b.db.disk() == world(args.map_path@) || (r.is_ok() && (!args.do_confirmation || status@.answer) && b.db.disk() == b.db@)
            &&& b.db.commits() <= 1 || args.command@ == "vacuum"@
            &&& r.is_ok() && (!args.do_confirmation || status@.answer) ==> b.db.disk() == b.db@ && cmd_effect(args.command@, args, source_world(args), world(args.map_path@), b.db@)
            // completion and skipped blocks are reported
            &&& r.is_ok() && (!args.do_confirmation || status@.answer) ==> b.status@.log.len() > 0 && b.status@.log.last() == "Done."@
                    && (b.status@.failed > 0 ==> exists|i: int| 0 <= i < b.status@.log.len() && #[trigger] says(b.status@.log[i], b.status@.failed as int))
            &&& args.do_confirmation && !status@.answer ==> r.is_ok() && b.db@ == world(args.map_path@) && b.db.disk() == world(args.map_path@)
        },
        r.is_ok() ==> final(slot).is_some(),
        // what is not a map is refused, and any map is opened
        final(slot).is_some() == (acceptable(args) && is_map(args.map_path@) && (args.input_map_path matches Some(p) ==> is_map(p@))),
>>>
call v_call_func 0 after <<<
    let ghost mut at: int = 0;
>>>
call fmt_big_num 0 after <<<
    proof { at = inst.status@.log.len() as int - 1; assert(says(inst.status@.log[at], fails as int)); }
>>>
exit <<<
    proof { if fails > 0 { assert(says(inst.status@.log[at], fails as int)); } }
>>>
