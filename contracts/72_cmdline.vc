module arg_kinds instance.rs
enum ArgType clone

module cmd_table commands/mod.rs
raw <<<
pub open spec fn kinds<'a>(s: Seq<(ArgType, &'a str)>) -> Seq<ArgType> { Seq::new(s.len(), |i: int| s[i].0) }
/// The command table: the help texts are dropped.
pub struct VCmd { pub args: Vec<(ArgType, &'static str)>, pub help: &'static str }
>>>
table args cmd_kinds

module cmd_line cmd_line.rs
raw <<<
broadcast use {crate::text::group_ostr};
// ---- the arguments each command takes, as the manual lists them ---------------------------------
pub open spec fn declares(n: Seq<char>, t: ArgType) -> bool {
    match t {
        ArgType::Area(req) => if n == "clone"@ || n == "deleteblocks"@ || n == "fill"@ { req } else { !req && n != "vacuum"@ },
        ArgType::Invert => n != "clone"@ && n != "vacuum"@,
        ArgType::Offset(req) => if n == "clone"@ { req } else { n == "overlay"@ && !req },
        ArgType::Node(req) => if n == "replacenodes"@ { req } else { !req && (n == "deletemeta"@ || n == "deletetimers"@ || n == "setparam2"@) },
        ArgType::Nodes => n == "replaceininv"@ || n == "setmetavar"@,
        ArgType::NewNode => n == "fill"@ || n == "replacenodes"@,
        ArgType::Object => n == "deleteobjects"@,
        ArgType::Items => n == "deleteobjects"@,
        ArgType::Item => n == "replaceininv"@,
        ArgType::NewItem => n == "replaceininv"@,
        ArgType::Delete => n == "replaceininv"@ || n == "setmetavar"@,
        ArgType::DeleteMeta => n == "replaceininv"@,
        ArgType::Key => n == "setmetavar"@,
        ArgType::Value => n == "setmetavar"@,
        ArgType::Param2 => n == "setparam2"@,
        ArgType::InputMapPath => n == "overlay"@,
    }
}
/// Arguments given by their place come in this order.
pub open spec fn comes_before(a: ArgType, b: ArgType) -> bool {
    (a is Node && b is NewNode) || (a is Item && b is NewItem) || (a is Key && b is Value)
}
pub open spec fn xyz(n: Seq<char>, req: bool) -> ArgRec { ArgRec { long: Some(n), required: req, takes: true, hyphen: true, num: Some(3), ..new_arg(n) } }
pub open spec fn placed(n: Seq<char>, req: bool) -> ArgRec { ArgRec { required: req, takes: true, ..new_arg(n) } }
pub open spec fn flag(n: Seq<char>, l: Seq<char>) -> ArgRec { ArgRec { long: Some(l), ..new_arg(n) } }
pub open spec fn recs_of(t: ArgType) -> Seq<ArgRec> {
    match t {
        ArgType::Area(req) => seq![
            ArgRec { requires: Set::empty().insert("p2"@), ..xyz("p1"@, req) },
            ArgRec { requires: Set::empty().insert("p1"@), ..xyz("p2"@, req) }],
        ArgType::InputMapPath => seq![placed("input_map"@, true)],
        ArgType::Invert => seq![flag("invert"@, "invert"@)],
        ArgType::Offset(req) => seq![xyz("offset"@, req)],
        ArgType::Node(req) => if req { seq![placed("node"@, true)] } else { seq![ArgRec { takes: true, ..flag("node"@, "node"@) }] },
        ArgType::Nodes => seq![ArgRec { takes: true, min: Some(1), ..flag("nodes"@, "nodes"@) }],
        ArgType::NewNode => seq![placed("new_node"@, true)],
        ArgType::Object => seq![ArgRec { takes: true, ..flag("object"@, "obj"@) }],
        ArgType::Item => seq![placed("item"@, true)],
        ArgType::Items => seq![ArgRec { takes: true, min: Some(0), ..flag("items"@, "items"@) }],
        ArgType::NewItem => seq![placed("new_item"@, false)],
        ArgType::Delete => seq![flag("delete"@, "delete"@)],
        ArgType::DeleteMeta => seq![flag("delete_meta"@, "deletemeta"@)],
        ArgType::Key => seq![placed("key"@, true)],
        ArgType::Value => seq![placed("value"@, false)],
        ArgType::Param2 => seq![placed("param2"@, true)],
    }
}
pub open spec fn recs_of_all(s: Seq<ArgType>) -> Seq<ArgRec>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { recs_of_all(s.drop_last()) + recs_of(s.last()) }
}
pub proof fn lemma_recs_of_all(s: Seq<ArgType>, t: ArgType, g: Given)
    requires recs_fit(recs_of_all(s), g), s.contains(t)
    ensures recs_fit(recs_of(t), g)
    decreases s.len()
{
    let a = recs_of_all(s.drop_last());
    let b = recs_of(s.last());
    let i = choose|i: int| 0 <= i < s.len() && s[i] == t;
    if i == s.len() - 1 {
        assert forall|j: int| 0 <= j < b.len() implies rec_fits(#[trigger] b[j], g) by { assert((a + b)[a.len() + j] == b[j]); }
    } else {
        assert forall|j: int| 0 <= j < a.len() implies rec_fits(#[trigger] a[j], g) by { assert((a + b)[j] == a[j]); }
        assert(s.drop_last()[i] == t);
        lemma_recs_of_all(s.drop_last(), t, g);
    }
}
>>>
raw <<<
pub proof fn lemma_usage(k: int, t: ArgType)
    requires 0 <= k < cmd_kinds_count()
    ensures declares(cmd_name(k), t) ==> cmd_kinds(k).contains(t), cmd_kinds(k).contains(t) ==> declares(cmd_name(k), t)
{
    lemma_cmd_names();
    let s = cmd_kinds(k);
}
#[verifier::opaque]
pub open spec fn pos_of(v: Seq<Seq<char>>) -> Option<Vec3> {
    if v.len() != 3 { None } else {
        match (i32::reads(v[0]), i32::reads(v[1]), i32::reads(v[2])) { (Some(x), Some(y), Some(z)) => Some(Vec3 { x, y, z }), _ => None }
    }
}
>>>
fn arg_to_pos
spec <<<
    ensures match r { Ok(q) => pos_of(p@) == Some(q), Err(_) => pos_of(p@).is_none() }
>>>
entry <<<
    reveal(pos_of);
>>>
fn to_cmd_line_args
spec <<<
    ensures settled_all(r@) =~= recs_of(tup.0)
>>>
raw <<<
/// .flat_map(to_cmd_line_args).collect()
pub fn v_args_of<'a>(v: &Vec<(ArgType, &'a str)>) -> (r: Vec<Arg<'a, 'a>>)
    ensures settled_all(r@) =~= recs_of_all(kinds(v@))
{
    let mut out: Vec<Arg<'a, 'a>> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), settled_all(out@) =~= recs_of_all(kinds(v@).take(i as int))
        decreases v@.len() - i
    {
        let mut x = to_cmd_line_args(&v[i]);
        let ghost o = out@;
        let ghost y = x@;
        out.append(&mut x);
        proof {
            let k = kinds(v@).take(i + 1);
            assert(k.drop_last() =~= kinds(v@).take(i as int));
            assert(settled_all(o + y) =~= settled_all(o) + settled_all(y));
        }
        i = i + 1;
    }
    proof { assert(kinds(v@).take(v@.len() as int) =~= kinds(v@)); }
    out
}
pub open spec fn command_app(k: int) -> AppV { AppV { recs: recs_of_all(cmd_kinds(k)), ..new_app(cmd_name(k)) } }
/// The program as declared.
#[verifier::opaque]
pub open spec fn program() -> AppV {
    AppV {
        name: "MapEditr"@,
        recs: seq![ArgRec { short: Some("y"@), global: true, ..flag("yes"@, "yes"@) }, placed("map"@, true)],
        subs: Seq::new(cmd_kinds_count() as nat, |k: int| (cmd_name(k), recs_of_all(cmd_kinds(k)))),
        sub_required: true,
    }
}
/// What was typed, as the program reads it.
pub open spec fn line() -> MatchV { typed(program()) }
pub open spec fn sub() -> Given { line().sub.unwrap().1 }
pub open spec fn corner(n: Seq<char>) -> Option<Vec3> { if sub().contains_key(n) { pos_of(sub()[n]) } else { None } }
pub open spec fn legible(n: Seq<char>) -> bool { sub().contains_key(n) ==> pos_of(sub()[n]).is_some() }
/// All numbers are numbers.
pub open spec fn numbers_ok() -> bool {
    legible("p1"@) && legible("p2"@) && legible("offset"@) && (first_of(sub(), "param2"@) matches Some(s) ==> u8::reads(s).is_some())
}
/// The arguments are the ones typed.
pub open spec fn as_typed(a: InstArgs) -> bool {
    let m = line();
    let s = sub();
    &&& a.do_confirmation == !m.given.contains_key("yes"@)
    &&& a.command@ == m.sub.unwrap().0
    &&& Some(a.map_path@) == first_of(m.given, "map"@)
    &&& ostr(a.input_map_path) == first_of(s, "input_map"@)
    &&& (match a.area {
            Some(x) => corner("p1"@) matches Some(p) && corner("p2"@) matches Some(q) && spans(x, p, q),
            None => corner("p1"@).is_none() || corner("p2"@).is_none(),
        })
    &&& a.invert == s.contains_key("invert"@)
    &&& a.offset == corner("offset"@)
    &&& ostr(a.node) == first_of(s, "node"@)
    &&& strings(a.nodes@) == (if s.contains_key("nodes"@) { s["nodes"@] } else { Seq::empty() })
    &&& ostr(a.new_node) == first_of(s, "new_node"@)
    &&& ostr(a.object) == first_of(s, "object"@)
    &&& ostr(a.item) == first_of(s, "item"@)
    &&& (match a.items { Some(v) => s.contains_key("items"@) && strings(v@) == s["items"@], None => !s.contains_key("items"@) })
    &&& ostr(a.new_item) == first_of(s, "new_item"@)
    &&& a.delete == s.contains_key("delete"@)
    &&& a.delete_meta == s.contains_key("delete_meta"@)
    &&& ostr(a.key) == first_of(s, "key"@)
    &&& ostr(a.value) == first_of(s, "value"@)
    &&& a.param2 == (match first_of(s, "param2"@) { Some(t) => u8::reads(t), None => None })
}
/// The smallest box with both corners in it.
pub open spec fn spans(a: Area, p: Vec3, q: Vec3) -> bool {
    a.min == (Vec3 { x: imin(p.x as int, q.x as int) as i32, y: imin(p.y as int, q.y as int) as i32, z: imin(p.z as int, q.z as int) as i32 })
        && a.max == (Vec3 { x: imax(p.x as int, q.x as int) as i32, y: imax(p.y as int, q.y as int) as i32, z: imax(p.z as int, q.z as int) as i32 })
}
pub proof fn lemma_spans(a: Area, p: Vec3, q: Vec3)
    requires a.valid(), a.hasv(p), a.hasv(q),
        forall|s: Area| #[trigger] s.hasv(p) && s.hasv(q) ==> forall|x: int, y: int, z: int| a.has(x, y, z) ==> s.has(x, y, z)
    ensures spans(a, p, q)
{
    let s = Area {
        min: Vec3 { x: imin(p.x as int, q.x as int) as i32, y: imin(p.y as int, q.y as int) as i32, z: imin(p.z as int, q.z as int) as i32 },
        max: Vec3 { x: imax(p.x as int, q.x as int) as i32, y: imax(p.y as int, q.y as int) as i32, z: imax(p.z as int, q.z as int) as i32 },
    };
    assert(s.hasv(p) && s.hasv(q));
    assert(a.has(a.min.x as int, a.min.y as int, a.min.z as int));
    assert(a.has(a.max.x as int, a.max.y as int, a.max.z as int));
    assert(s.has(a.min.x as int, a.min.y as int, a.min.z as int));
    assert(s.has(a.max.x as int, a.max.y as int, a.max.z as int));
}
pub proof fn lemma_given(k: int, t: ArgType, s: Given)
    requires 0 <= k < cmd_kinds_count(), recs_fit(recs_of_all(cmd_kinds(k)), s)
    ensures declares(cmd_name(k), t) ==> rec_fits(recs_of(t)[0], s) && (t is Area ==> rec_fits(recs_of(t)[1], s))
{
    lemma_usage(k, t);
    if declares(cmd_name(k), t) { lemma_recs_of_all(cmd_kinds(k), t, s); let r = recs_of(t); assert(rec_fits(r[0], s)); if t is Area { assert(rec_fits(r[1], s)); } }
}
/// A line that fits the declarations has what the command needs.
pub proof fn lemma_complete(a: InstArgs)
    requires fits(program(), line()), as_typed(a), numbers_ok()
    ensures parsed(a)
{
    reveal(program);
    let n = a.command@;
    let s = sub();
    let k = choose|k: int| 0 <= k < program().subs.len() && (#[trigger] program().subs[k]).0 == n && recs_fit(program().subs[k].1, s);
    lemma_cmd_names();
    assert(known(cmd_name(k)));
    lemma_given(k, ArgType::Area(true), s); lemma_given(k, ArgType::Offset(true), s); lemma_given(k, ArgType::InputMapPath, s);
    lemma_given(k, ArgType::NewNode, s); lemma_given(k, ArgType::Node(true), s); lemma_given(k, ArgType::Item, s);
    lemma_given(k, ArgType::Key, s); lemma_given(k, ArgType::Param2, s);
}
>>>
fn parse_cmd_line_args argclosure=0 output=App<'static,'static> as=command_of args=cmd_name:~&'static~str,~cmd:~&VCmd
subst <<<
cmd.args.iter().flat_map(to_cmd_line_args).collect() ==> v_args_of(&cmd.args)
>>>
spec <<<
    ensures r@ == (AppV { recs: recs_of_all(kinds(cmd.args@)), ..new_app(cmd_name@) })
>>>
raw <<<
/// commands.iter().map(..)
pub fn v_commands() -> (r: Vec<App<'static, 'static>>)
    ensures r@.len() == cmd_kinds_count(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k]@ == command_app(k)
{
    let mut out: Vec<App<'static, 'static>> = Vec::new();
    let mut i: usize = 0;
    while i < v_cmd_kinds_count()
        invariant 0 <= i <= cmd_kinds_count(), out@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] out@[k]@ == command_app(k)
        decreases cmd_kinds_count() - i
    {
        let c = v_cmd_kinds(i);
        out.push(command_of(c.0, &c.1));
        i = i + 1;
    }
    out
}
>>>
raw <<<
pub proof fn lemma_program(a: AppV)
    requires a.recs.len() == 2, a.recs[0] == (ArgRec { short: Some("y"@), global: true, ..flag("yes"@, "yes"@) }), a.recs[1] == placed("map"@, true),
        a.sub_required, a.name == "MapEditr"@, a.subs.len() == cmd_kinds_count(),
        forall|k: int| 0 <= k < a.subs.len() ==> (#[trigger] a.subs[k]).0 == cmd_name(k) && a.subs[k].1 == recs_of_all(cmd_kinds(k))
    ensures a == program()
{
    reveal(program);
    assert(a.recs =~= program().recs);
    assert(a.subs =~= program().subs);
}
pub proof fn lemma_line()
    requires fits(program(), line())
    ensures line().sub.is_some(), first_of(line().given, "map"@).is_some()
{
    reveal(program);
    assert(rec_fits(program().recs[1], line().given));
}
>>>
fn parse_cmd_line_args hole=0
subst <<<
let commands = get_commands(); ==>
>>>
subst <<<
commands.iter().map(__hole) ==> v_commands()
>>>
subst <<<
crate_version!() ==> ""
>>>
subst <<<
crate_authors!() ==> ""
>>>
subst <<<
sub_matches.values_of("nodes").iter_mut().flatten().map(str::to_string).collect() ==> v_owned_all(sub_matches.values_of("nodes"))
>>>
subst <<<
v.map(str::to_string).collect() ==> v.v_owned()
>>>
spec <<<
    ensures match r { Ok(a) => as_typed(a) && parsed(a) && numbers_ok(), Err(_) => !numbers_ok() }
>>>
call get_matches 0 before <<<
    proof { lemma_program(app@); }
>>>
call get_matches 0 after <<<
    proof { lemma_line(); }
>>>
exit <<<
    proof {
        if __r.is_ok() {
            let a = __r->Ok_0;
            if a.area.is_some() { lemma_spans(a.area.unwrap(), corner("p1"@).unwrap(), corner("p2"@).unwrap()); }
            lemma_complete(a);
        }
    }
>>>

module thread instance.rs
raw <<<
broadcast use {crate::events::messages_push, crate::text::group_ostr};
pub open spec fn is_error(e: ServerEvent) -> bool { e matches ServerEvent::Log(t, _) && t is Error }
>>>
fn spawn_compute_thread argclosure=0 output=() as=thread_body args=args:~InstArgs,~status_server:~StatusServer,~raw_event_tx:~&mut~mpsc::Sender<ServerEvent>,~slot:~&mut~Option<InstBundle>
subst <<<
compute_thread(args, status_server) ==> compute_thread(args, status_server, slot)
>>>
spec <<<
    requires old(slot).is_none(), parsed(args), status_server@.fresh(), may_start(args),
    ensures
        // refused arguments: no map was opened, and an error is shown
        !acceptable(args) ==> final(slot).is_none() && final(raw_event_tx).sent().len() > 0 && is_error(final(raw_event_tx).sent().last()),
        // every failure is shown as an error
        final(slot).is_none() ==> final(raw_event_tx).sent().len() > 0 && is_error(final(raw_event_tx).sent().last()),
>>>
raw <<<
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<T> { t: T }
impl<T> JoinHandle<T> { #[verifier::external_body] pub fn join(self) -> (r: Result<T, mpsc::SendError>) { unimplemented!() } }
pub open spec fn may_start(a: InstArgs) -> bool { acceptable(a) ==> in_domain(a, world(a.map_path@), source_world(a)) }
/// Starts a thread with the body above.
#[verifier::external_body]
pub fn v_thread(args: InstArgs, status_server: StatusServer, raw_event_tx: mpsc::Sender<ServerEvent>) -> (r: JoinHandle<()>)
    requires parsed(args), status_server@.fresh(), may_start(args)
{ unimplemented!() }
>>>
fn spawn_compute_thread hole=0
subst <<<
std::thread::Builder::new().name("compute".to_string()).spawn(__hole).unwrap() ==> v_thread(args, status_server, raw_event_tx)
>>>
spec <<<
    requires parsed(args), may_start(args)
    ensures r.1.answers().len() == 0, r.1.sound()
>>>

module console_said cmd_line.rs
raw <<<
/// Every confirmation is what the user typed in answer.
pub open spec fn by_user(e: ClientEvent) -> bool { exists|l: Seq<char>| typed_line(l) && e == ClientEvent::ConfirmResponse(#[trigger] yes(l)) }
#[verifier::opaque]
pub open spec fn answered(s: Seq<ClientEvent>) -> bool { forall|i: int| 0 <= i < s.len() ==> by_user(#[trigger] s[i]) }
pub broadcast proof fn answered_push(s: Seq<ClientEvent>, e: ClientEvent)
    requires answered(s), by_user(e)
    ensures answered(#[trigger] s.push(e))
{ reveal(answered); }
pub proof fn answered_none(s: Seq<ClientEvent>)
    requires s.len() == 0
    ensures answered(s)
{ reveal(answered); }
>>>

module progress cmd_line.rs
raw <<<
pub open spec fn ratio(done: usize, total: usize) -> real { if total == 0 { 0real } else { rnd(rnd(done as real) / rnd(total as real)) } }
/// The share of the work that is done.
pub proof fn lemma_ratio(done: usize, total: usize)
    requires done <= total
    ensures
        0real <= ratio(done, total) <= 1real, 0real / 1real == 0real, rnd(0real) == 0real, rnd(1real) == 1real, 1real / 1real == 1real, 25real / 1real == 25real,
        100real / 1real == 100real, rnd(100real) == 100real, rnd(25real) == 25real,
        total > 0 ==> rnd(total as real) >= 1real && in_range(rnd(done as real) / rnd(total as real)),
        rnd(1real / 10real) * 20real >= 1real,
{
    rnd_int(0); rnd_int(1); rnd_int(100); rnd_int(25);
    assert(0real / 1real == 0real && 1real / 1real == 1real && 25real / 1real == 25real && 100real / 1real == 100real);
    rnd_near(1real / 10real);
    if total > 0 {
        let (d, t) = (rnd(done as real), rnd(total as real));
        rnd_mono(0real, done as real); rnd_mono(done as real, total as real); rnd_mono(1real, total as real);
        let q = d / t;
        assert(q * t == d) by (nonlinear_arith) requires q == d / t, t >= 1real;
        assert(0real <= q <= 1real) by (nonlinear_arith) requires q * t == d, t >= 1real, 0real <= d <= t;
        rnd_mono(0real, q); rnd_mono(q, 1real);
    }
}
/// The remaining time.
pub proof fn lemma_eta(e: real, p: real)
    requires 0real <= e <= 1_000_000_000_000real, p * 20real >= 1real, p <= 1real
    ensures
        in_range(rnd(e) / p), in_range(1real - p), in_range(rnd(rnd(e) / p) * rnd(1real - p)),
        0real <= rnd(rnd(rnd(e) / p) * rnd(1real - p)) <= 10_000_000_000_000_000_000real,
{
    rnd_int(0); rnd_int(1);
    let b = 1_000_000_000_000real;
    rnd_mono(0real, e); rnd_mono(e, b); rnd_near(b);
    let f = rnd(e);
    let q = f / p;
    assert(q * p == f) by (nonlinear_arith) requires q == f / p, p * 20real >= 1real;
    assert(0real <= q && q <= 20real * f) by (nonlinear_arith) requires q * p == f, p * 20real >= 1real, f >= 0real;
    let b2 = 40_000_000_000_000real;
    rnd_mono(0real, q); rnd_mono(q, b2); rnd_near(b2);
    rnd_mono(0real, 1real - p); rnd_mono(1real - p, 1real);
    let (x, y) = (rnd(q), rnd(1real - p));
    let z = x * y;
    assert(0real <= z && z <= x) by (nonlinear_arith) requires z == x * y, x >= 0real, 0real <= y <= 1real;
    let b3 = 80_000_000_000_000real;
    rnd_mono(0real, z); rnd_mono(z, b3); rnd_near(b3);
}
pub proof fn lemma_bars(p: real)
    requires 0real <= p <= 1real
    ensures in_range(p * rnd(25real)), 0real <= rnd(p * rnd(25real)) <= 25real
{
    rnd_int(25); rnd_int(0);
    assert(rnd(25real) == 25real);
    rnd_mono(0real, p * 25real); rnd_mono(p * 25real, 25real);
}
pub proof fn lemma_percent(p: real)
    requires 0real <= p <= 1real
    ensures in_range(p * rnd(100real)), 0real <= rnd(p * rnd(100real)) <= 100real
{
    rnd_int(100); rnd_int(0);
    assert(rnd(100real) == 100real);
    rnd_mono(0real, p * 100real); rnd_mono(p * 100real, 100real);
}
>>>

module console cmd_line.rs
raw <<<
/// The word a kind of message is introduced with.
pub uninterp spec fn kind_text(t: LogType) -> Seq<char>;
impl VShow for LogType { open spec fn show(self) -> Seq<char> { kind_text(self) } }
broadcast use {crate::console_base::group_str_ref, crate::console_said::answered_push};
>>>
fn get_confirmation
subst <<<
std::io::stdout().flush().unwrap(); ==>
>>>
subst <<<
std::io::stdin().read_line(&mut result).unwrap() ==> v_read_line(&mut result)
>>>
ret r
spec <<<
    ensures exists|l: Seq<char>| typed_line(l) && r == #[trigger] yes(l)
>>>
entry <<<
    let ghost mut L: Seq<char> = Seq::empty();
>>>
call v_read_line 0 after <<<
    proof { L = choose|l: Seq<char>| typed_line(l) && result@ == #[trigger] (Seq::<char>::empty() + l); assert(Seq::<char>::empty() + L =~= L); }
>>>
exit <<<
    proof { lemma_yes(trimmed(L)); ax_trim_lower(L); assert(__r == yes(L)); }
>>>
fn print_log
subst <<<
msg.lines().collect::<Vec<_>>().join(&format!("\n{}", " ".repeat(prefix.len()))) ==> v_join_lines(&msg, &format!("\n{}", " ".repeat(prefix.len())))
>>>
entry <<<
    proof { reveal_strlit(" "); }
>>>
fn print_editing_status
subst <<<
std::io::stdout().flush().unwrap(); ==>
>>>
subst <<<
(progress * TOTAL_BARS as f32) as usize ==> v_trunc(progress * TOTAL_BARS as f32)
>>>
spec <<<
    requires done <= total
>>>
entry <<<
    proof { lemma_ratio(done, total); reveal_strlit("="); }
>>>
call from_secs_f32 0 before <<<
    proof { lemma_eta(eta_elapsed.t(), progress.r()); }
>>>
call v_trunc 0 before <<<
    proof { lemma_bars(progress.r()); }
>>>
call repeat 0 before <<<
    assert(num_bars <= 25);
>>>
call v_print 0 before <<<
    assert(progress.r() == ratio(done, total) && 0real <= progress.r() <= 1real);
    proof { lemma_percent(progress.r()); }
>>>
fn run_cmd_line exec_allows_no_decreases_clause
subst <<<
let (handle, status) ==> let (handle, mut status)
>>>
subst <<<
std::io::stdout().flush().unwrap(); ==>
>>>
subst <<<
now >= last_update + UPDATE_INTERVAL ==> v_due(now, last_update, UPDATE_INTERVAL)
>>>
spec <<<
    requires forall|a: InstArgs| as_typed(a) ==> #[trigger] may_start(a)
>>>
entry <<<
    hide(as_typed); hide(parsed); hide(may_start); hide(yes);
>>>
loop 0 before <<<
    proof { answered_none(status.answers()); }
>>>
loop 0 <<<
    invariant answered(status.answers()), status.sound()
>>>
