module stored map_block/mod.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys};
// ---- what can be found in uncompressed blocks ------------------------------------------------------
/// t is what s ends with.
pub open spec fn tail(t: Bytes, s: Bytes) -> bool { t.len() <= s.len() && t == s.skip(s.len() - t.len()) }
pub proof fn lemma_tail_trans(a: Bytes, b: Bytes, c: Bytes) requires tail(a, b), tail(b, c) ensures tail(a, c)
{ assert(a =~= c.skip(c.len() - a.len())); }
pub proof fn lemma_skip(s: Bytes, n: int) requires 0 <= n <= s.len() ensures tail(s.skip(n), s) { }
pub proof fn lemma_occurs_tail(t: Bytes, s: Bytes, n: Bytes) requires tail(t, s), occurs(t, n) ensures occurs(s, n)
{
    let i = choose|i: int| 0 <= i && i + n.len() <= t.len() && #[trigger] t.subrange(i, i + n.len()) == n;
    let j = i + s.len() - t.len();
    assert(s.subrange(j, j + n.len()) =~= t.subrange(i, i + n.len()));
}
pub proof fn lemma_occurs_in(s: Bytes, t: Bytes, n: Bytes) requires occurs(s, t), occurs(t, n) ensures occurs(s, n)
{
    let i = choose|i: int| 0 <= i && i + t.len() <= s.len() && #[trigger] s.subrange(i, i + t.len()) == t;
    let j = choose|j: int| 0 <= j && j + n.len() <= t.len() && #[trigger] t.subrange(j, j + n.len()) == n;
    assert(s.subrange(i + j, i + j + n.len()) =~= t.subrange(j, j + n.len()));
}
pub proof fn lemma_be16(a: u8, b: u8) ensures be16((a * 0x100 + b) as u16) == seq![a, b]
{ assert(be16((a * 0x100 + b) as u16) =~= seq![a, b]); }
pub proof fn tl_basic(s: Bytes)
    ensures
        p_u8(s) matches Some((_, t)) ==> tail(t, s),
        p_u16(s) matches Some((_, t)) ==> tail(t, s),
        p_u32(s) matches Some((_, t)) ==> tail(t, s),
        p_i32(s) matches Some((_, t)) ==> tail(t, s),
{ }
pub proof fn tl_s16(s: Bytes)
    ensures p_s16(s) matches Some((d, t)) ==> tail(t, s) && occurs(s, enc_s16(d)) && occurs(s, d) && d.len() <= 65535
{
    match p_s16(s) { None => { }, Some((d, t)) => {
        let n = d.len() as int;
        lemma_be16(s[0], s[1]);
        assert(t =~= s.skip(2 + n));
        assert(s.subrange(0, 0 + (2 + n)) =~= enc_s16(d));
        assert(s.subrange(2, 2 + n) =~= d);
    } }
}
pub proof fn tl_names_n(s: Bytes, n: nat)
    ensures p_names_n(s, n) matches Some((m, t)) ==> tail(t, s) && forall|k: u16| #[trigger] m.dom().contains(k) ==> occurs(s, enc_s16(m[k]))
    decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); } else {
        tl_names_n(s, (n - 1) as nat);
        match p_names_n(s, (n - 1) as nat) { None => { }, Some((_, r)) => { match p_u16(r) { None => { }, Some((k, q)) => {
            tl_basic(r); tl_s16(q);
            lemma_tail_trans(q, r, s);
            match p_s16(q) { None => { }, Some((v, t)) => {
                lemma_tail_trans(t, q, s);
                lemma_occurs_tail(q, s, enc_s16(v));
            } }
        } } } }
    }
}
pub proof fn tl_names(s: Bytes)
    ensures p_names(s) matches Some((m, t)) ==> tail(t, s) && forall|k: u16| #[trigger] m.dom().contains(k) ==> occurs(s, enc_s16(m[k]))
{
    tl_basic(s);
    match p_u8(s) { None => { }, Some((_, r)) => { tl_basic(r); match p_u16(r) { None => { }, Some((n, q)) => {
        tl_names_n(q, n as nat);
        lemma_tail_trans(q, r, s);
        match p_names_n(q, n as nat) { None => { }, Some((m, t)) => {
            lemma_tail_trans(t, q, s);
            assert forall|k: u16| #[trigger] m.dom().contains(k) implies occurs(s, enc_s16(m[k])) by { lemma_occurs_tail(q, s, enc_s16(m[k])); }
        } }
    } } } }
}
pub proof fn tl_obj(s: Bytes)
    ensures p_obj(s) matches Some((o, t)) ==> tail(t, s) && occurs(s, o.data)
{
    tl_basic(s);
    match p_u8(s) { None => { }, Some((_, a)) => { tl_basic(a); match p_i32(a) { None => { }, Some((_, b)) => { tl_basic(b); match p_i32(b) { None => { }, Some((_, c)) => { tl_basic(c); match p_i32(c) { None => { }, Some((_, d)) => {
        tl_s16(d);
        lemma_tail_trans(b, a, s); lemma_tail_trans(c, b, s); lemma_tail_trans(d, c, s);
        match p_s16(d) { None => { }, Some((x, t)) => { lemma_tail_trans(t, d, s); lemma_occurs_tail(d, s, x); } }
    } } } } } } } }
}
pub proof fn tl_objs_n(s: Bytes, n: nat)
    ensures p_objs_n(s, n) matches Some((l, t)) ==> tail(t, s) && forall|i: int| 0 <= i < l.len() ==> occurs(s, (#[trigger] l[i]).data)
    decreases n
{
    hide(p_obj);
    if n == 0 { assert(s.skip(0) =~= s); } else {
        tl_objs_n(s, (n - 1) as nat);
        match p_objs_n(s, (n - 1) as nat) { None => { }, Some((l, r)) => {
            tl_obj(r);
            match p_obj(r) { None => { }, Some((o, t)) => {
                lemma_tail_trans(t, r, s);
                lemma_occurs_tail(r, s, o.data);
                assert forall|i: int| 0 <= i < l.push(o).len() implies occurs(s, (#[trigger] l.push(o)[i]).data) by { if i < l.len() { assert(l.push(o)[i] == l[i]); } }
            } }
        } }
    }
}
pub proof fn tl_objs(s: Bytes)
    ensures p_objs(s) matches Some((l, t)) ==> tail(t, s) && forall|i: int| 0 <= i < l.len() ==> occurs(s, (#[trigger] l[i]).data)
{
    hide(p_objs_n);
    tl_basic(s);
    match p_u8(s) { None => { }, Some((_, r)) => { tl_basic(r); match p_u16(r) { None => { }, Some((n, q)) => {
        tl_objs_n(q, n as nat);
        lemma_tail_trans(q, r, s);
        match p_objs_n(q, n as nat) { None => { }, Some((l, t)) => {
            lemma_tail_trans(t, q, s);
            assert forall|i: int| 0 <= i < l.len() implies occurs(s, (#[trigger] l[i]).data) by { lemma_occurs_tail(q, s, l[i].data); }
        } }
    } } } }
}
pub proof fn tl_zlib(s: Bytes)
    ensures p_zlib(s) matches Some((_, t)) ==> tail(t, s),
        p_znodes(s) matches Some((_, t)) ==> tail(t, s),
        p_zmetas(s) matches Some((_, t)) ==> tail(t, s),
{ ax_zl(s); }
pub proof fn tl_light(s: Bytes, version: u8)
    ensures p_light(s, version) matches Some((_, t)) ==> tail(t, s),
        p_widths(s) matches Some((_, t)) ==> tail(t, s),
{
    assert(s.skip(0) =~= s);
    tl_basic(s);
    match p_u8(s) { None => { }, Some((_, r)) => { tl_basic(r); match p_u8(r) { None => { }, Some((_, t)) => { lemma_tail_trans(t, r, s); } } } }
}
/// Names and objects are stored as they are up to version 28.
pub proof fn tl_28(s: Bytes, version: u8)
    ensures p_28(s, version) matches Some((b, _)) ==> b.version == version
        && (forall|k: u16| #[trigger] b.names.dom().contains(k) ==> occurs(s, enc_s16(b.names[k])))
        && (forall|i: int| 0 <= i < b.objs.len() ==> occurs(s, (#[trigger] b.objs[i]).data))
{
    hide(p_names); hide(p_widths); hide(p_light); hide(p_znodes); hide(p_zmetas); hide(p_objs); hide(p_timers); hide(tail); hide(occurs);
    tl_basic(s);
    match p_u8(s) { None => { }, Some((_, a)) => { tl_light(a, version); match p_light(a, version) { None => { }, Some((_, b)) => { tl_light(b, version); match p_widths(b) { None => { }, Some((_, c)) => { tl_zlib(c); match p_znodes(c) { None => { }, Some((_, d)) => { tl_zlib(d); match p_zmetas(d) { None => { }, Some((_, e)) => {
        lemma_tail_trans(b, a, s); lemma_tail_trans(c, b, s); lemma_tail_trans(d, c, s); lemma_tail_trans(e, d, s);
        tl_objs(e);
        match p_objs(e) { None => { }, Some((l, f)) => {
            lemma_tail_trans(f, e, s);
            assert forall|i: int| 0 <= i < l.len() implies occurs(s, (#[trigger] l[i]).data) by { lemma_occurs_tail(e, s, l[i].data); }
            tl_basic(f);
            match p_u32(f) { None => { }, Some((_, g)) => {
                lemma_tail_trans(g, f, s);
                tl_names(g);
                match p_names(g) { None => { }, Some((m, _)) => {
                    assert forall|k: u16| #[trigger] m.dom().contains(k) implies occurs(s, enc_s16(m[k])) by { lemma_occurs_tail(g, s, enc_s16(m[k])); }
                } }
            } }
        } }
    } } } } } } } } } }
}
pub proof fn lemma_stored_first(s: Bytes, b: BlockV)
    requires dec(s) == Some(b)
    ensures s.len() > 0 && s[0] == b.version
{ hide(p_29); hide(p_28); if s[0] >= 29 { lemma_v29(zs(s.skip(1)).out); } else { tl_28(s.skip(1), s[0]); } }
pub proof fn lemma_v29(s: Bytes) ensures p_29(s) matches Some((b, _)) ==> b.version == 29 { }
/// The stored name table lists each name with its length (up to version 28, where it is not compressed).
pub proof fn lemma_names_stored(s: Bytes, b: BlockV, n: Bytes)
    requires dec(s) == Some(b)
    ensures s.len() > 0 && s[0] == b.version, b.version <= 28 && b.has_name(n) ==> occurs(s, be16(n.len() as u16) + n)
{
    hide(p_29); hide(p_28);
    lemma_stored_first(s, b);
    if b.version <= 28 && b.has_name(n) {
        tl_28(s.skip(1), s[0]);
        let k = choose|k: u16| #[trigger] b.names.dom().contains(k) && b.names[k] == n;
        assert(b.names.dom().contains(k));
        lemma_occurs_tail(s.skip(1), s, enc_s16(n));
    }
}
pub proof fn lemma_obj_stored(s: Bytes, b: BlockV, i: int)
    requires dec(s) == Some(b), 0 <= i < b.objs.len(), b.version <= 28
    ensures occurs(s, b.objs[i].data)
{
    hide(p_29); hide(p_28);
    lemma_stored_first(s, b);
    tl_28(s.skip(1), s[0]);
    lemma_occurs_tail(s.skip(1), s, b.objs[i].data);
}
>>>
