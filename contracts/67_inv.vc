module replace_in_inv commands/replace_in_inv.rs
raw <<<
broadcast use {crate::std_shims::group_eq, crate::std_shims::ax_keys, group_says};
pub open spec fn w_item() -> Bytes { seq![73u8, 116, 101, 109] }
pub open spec fn w_empty() -> Bytes { seq![69u8, 109, 112, 116, 121] }
pub open spec fn w_one() -> Bytes { seq![49u8] }
pub open spec fn w_zero() -> Bytes { seq![48u8] }
/// Item <name> [<count> [<wear> [<metadata>]]]
pub open spec fn fields(line: Bytes) -> Seq<Bytes> { splitn(line, 5, 32) }
pub open spec fn is_stack(line: Bytes, item: Bytes) -> bool { fields(line).len() >= 2 && fields(line)[0] == w_item() && fields(line)[1] == item }
/// Fields 2 to n-1, each after a space.
pub open spec fn tail_upto(f: Seq<Bytes>, n: int) -> Bytes
    decreases n
{
    if n <= 2 { seq![] } else { tail_upto(f, n - 1).push(32) + f[n - 1] }
}
pub open spec fn field(f: Seq<Bytes>, i: int, d: Bytes) -> Bytes { if i < f.len() { f[i] } else { d } }
/// Count and wear, as short as possible.
pub open spec fn bare_tail(f: Seq<Bytes>) -> Bytes {
    let count = field(f, 2, w_one());
    let wear = field(f, 3, w_zero());
    (if count != w_one() || wear != w_zero() { seq![32u8] + count } else { seq![] }) + (if wear != w_zero() { seq![32u8] + wear } else { seq![] })
}
pub open spec fn new_stack(f: Seq<Bytes>, new_item: Bytes, del_meta: bool) -> Bytes {
    if new_item.len() == 0 { w_empty() } else { w_item().push(32) + new_item + (if del_meta { bare_tail(f) } else { tail_upto(f, f.len() as int) }) }
}
pub open spec fn new_line(line: Bytes, item: Bytes, new_item: Bytes, del_meta: bool) -> Bytes {
    if is_stack(line, item) { new_stack(fields(line), new_item, del_meta) } else { line }
}
pub open spec fn piece(line: Bytes, item: Bytes, new_item: Bytes, del_meta: bool) -> Bytes {
    if line.len() == 0 { seq![] } else { new_line(line, item, new_item, del_meta).push(10) }
}
pub open spec fn lines_upto(ls: Seq<Bytes>, n: int, item: Bytes, new_item: Bytes, del_meta: bool) -> Bytes
    decreases n
{
    if n <= 0 { seq![] } else { lines_upto(ls, n - 1, item, new_item, del_meta) + piece(ls[n - 1], item, new_item, del_meta) }
}
pub open spec fn stacks_upto(ls: Seq<Bytes>, n: int, item: Bytes) -> int
    decreases n
{
    if n <= 0 { 0 } else { stacks_upto(ls, n - 1, item) + (if is_stack(ls[n - 1], item) { 1int } else { 0 }) }
}
/// Stacks of the item in the inventory.
pub open spec fn stacks(inv: Bytes, item: Bytes) -> int { stacks_upto(split(inv, 10), split(inv, 10).len() as int, item) }
pub open spec fn rewritten(inv: Bytes, item: Bytes, new_item: Bytes, del_meta: bool) -> Bytes {
    if stacks(inv, item) == 0 { inv } else { lines_upto(split(inv, 10), split(inv, 10).len() as int, item, new_item, del_meta) }
}
pub proof fn lemma_stacks_range(ls: Seq<Bytes>, n: int, item: Bytes)
    requires 0 <= n
    ensures 0 <= stacks_upto(ls, n, item) <= n
    decreases n
{
    if n > 0 { lemma_stacks_range(ls, n - 1, item); }
}
>>>
fn do_replace rlimit=100 spinoff_prover
spec <<<
    ensures final(inv)@ == rewritten(old(inv)@, item@, new_item@, del_meta), r == stacks(old(inv)@, item@)
>>>
loop 0 <<<
    invariant
        slices(__s0@) == split(old(inv)@, 10), *inv == *old(inv), 0 <= __i0 <= __s0@.len(), delete == (new_item@.len() == 0), NEWLINE == 10, SPACE == 32,
        new_inv@ == lines_upto(split(old(inv)@, 10), __i0 as int, item@, new_item@, del_meta),
        mods == stacks_upto(split(old(inv)@, 10), __i0 as int, item@), mods <= __i0,
    decreases __s0@.len() - __i0
>>>
loop 0 head <<<
    assert(slices(__s0@)[__i0 - 1] == line@);
    let ghost F = fields(line@);
    let ghost N0 = new_inv@;
    let ghost L = split(old(inv)@, 10)[__i0 - 1];
    proof {
        assert(L == line@);
        reveal_with_fuel(splitn, 2); lemma_cut(line@, 32);
        if line@.len() == 0 { assert(F.len() == 1); assert(N0 + seq![] =~= N0); }
    }
>>>
loop 0 tail <<<
    proof {
        if is_stack(L, item@) {
            assert(F.len() >= 2);
            if delete { assert(new_inv@ =~= N0 + w_empty().push(10)); }
            else if !del_meta { assert(new_inv@ =~= N0 + (w_item().push(32) + new_item@ + tail_upto(F, F.len() as int)).push(10)); }
            else { assert(new_inv@ =~= N0 + (w_item().push(32) + new_item@ + bare_tail(F)).push(10)); }
            assert(new_inv@ =~= N0 + piece(L, item@, new_item@, del_meta));
        } else {
            assert(new_inv@ =~= N0 + line@.push(10));
        }
    }
>>>
call unwrap_or 0 after <<<
    assert(count@ =~= field(F, 2, w_one()));
>>>
call unwrap_or 1 after <<<
    assert(wear@ =~= field(F, 3, w_zero()));
    proof { assert([49u8]@ =~= w_one()); assert([48u8]@ =~= w_zero()); }
>>>
loop 1 kind=iter <<<
    invariant
        new_inv@ == N0 + w_item().push(32) + new_item@ + tail_upto(F, F.len() - __t1@.len()), __t1@.len() + 2 <= F.len(), __t1@ == F.skip(F.len() - __t1@.len()), SPACE == 32,
    ensures new_inv@ == N0 + w_item().push(32) + new_item@ + tail_upto(F, F.len() as int),
    decreases __t1@.len()
>>>
raw <<<
// ---- the parts of a line that are kept are kept as they are -------------------------------------
pub open spec fn joined(f: Seq<Bytes>) -> Bytes
    decreases f.len()
{
    if f.len() == 0 { seq![] } else if f.len() == 1 { f[0] } else { f[0].push(32) + joined(f.skip(1)) }
}
pub proof fn lemma_joined(s: Bytes, n: int)
    requires n >= 1
    ensures joined(splitn(s, n, 32)) == s, splitn(s, n, 32).len() >= 1
    decreases n
{
    lemma_cut(s, 32);
    if n > 1 && cut(s, 32) < s.len() {
        let k = cut(s, 32);
        lemma_joined(s.skip(k + 1), n - 1);
        let f = splitn(s, n, 32);
        assert(f.skip(1) =~= splitn(s.skip(k + 1), n - 1, 32));
        assert(f[0].push(32) + joined(f.skip(1)) =~= s);
    }
}
pub proof fn lemma_tail_joined(f: Seq<Bytes>, n: int)
    requires 3 <= n <= f.len()
    ensures tail_upto(f, n) + (if n < f.len() { seq![32u8] + joined(f.skip(n)) } else { seq![] }) == seq![32u8] + joined(f.skip(2))
    decreases n
{
    let r = f.skip(n - 1);
    assert(f.skip(n) =~= r.skip(1));
    assert(r[0] == f[n - 1]);
    if n == 3 {
        assert(tail_upto(f, 2) =~= seq![]);
        assert(tail_upto(f, 3) =~= seq![32u8] + f[2]);
        assert(r =~= f.skip(2));
    } else { lemma_tail_joined(f, n - 1); }
    assert(tail_upto(f, n) + (if n < f.len() { seq![32u8] + joined(f.skip(n)) } else { seq![] }) =~= tail_upto(f, n - 1) + (seq![32u8] + joined(r)));
}
/// A kept stack line differs in the item name only.
pub proof fn lemma_verbatim(line: Bytes, item: Bytes, new_item: Bytes)
    requires is_stack(line, item), new_item.len() > 0
    ensures (w_item().push(32) + item).is_prefix_of(line), new_line(line, item, new_item, false) == w_item().push(32) + new_item + line.skip(5 + item.len() as int)
{
    let f = fields(line);
    lemma_joined(line, 5);
    assert(line == f[0].push(32) + joined(f.skip(1)));
    assert(f.skip(1)[0] == f[1]);
    assert(f.skip(1).skip(1) =~= f.skip(2));
    if f.len() == 2 {
        assert(joined(f.skip(1)) == f[1]);
        assert(line =~= w_item().push(32) + item);
        assert(line.skip(5 + item.len() as int) =~= seq![]);
    } else {
        lemma_tail_joined(f, f.len() as int);
        assert(line =~= w_item().push(32) + item + (seq![32u8] + joined(f.skip(2))));
        assert(tail_upto(f, f.len() as int) + seq![] =~= tail_upto(f, f.len() as int));
        assert(line.skip(5 + item.len() as int) =~= seq![32u8] + joined(f.skip(2)));
    }
    assert(new_line(line, item, new_item, false) =~= w_item().push(32) + new_item + line.skip(5 + item.len() as int));
}
// ---- the end mark stays the last line ------------------------------------------------------------
pub open spec fn w_end() -> Bytes { end_inv().take(12) }
pub open spec fn ended(s: Bytes) -> bool
    decreases s.len()
    via ended_dec
{
    cut(s, 10) < s.len() && (if s.take(cut(s, 10)) == w_end() { cut(s, 10) + 1 == s.len() } else { ended(s.skip(cut(s, 10) + 1)) })
}
#[via_fn]
proof fn ended_dec(s: Bytes) { lemma_cut(s, 10); }
pub proof fn lemma_ended(s: Bytes)
    ensures ended(s) == first_end(s)
    decreases s.len()
{
    let e = end_inv();
    let c = cut(s, 10);
    let z = s.len() - 13;
    lemma_cut(s, 10);
    assert(e.len() == 13 && e[12] == 10);
    assert forall|i: int| #[trigger] at_line(s, i) implies (i == 0 && c == 12 && s.take(c) == w_end()) || (i > c && c < s.len()) by {
        assert(s.subrange(i, i + 13)[12] == s[i + 12]);
        assert(s[i + 12] == 10);
        if i == 0 {
            assert forall|j: int| 0 <= j < 12 implies #[trigger] s[j] != 10 by { assert(s.subrange(0, 13)[j] == e[j]); }
            assert(c == 12);
            assert(s.take(12) =~= w_end());
        }
    }
    if c < s.len() {
        let t = s.skip(c + 1);
        if s.take(c) == w_end() {
            assert(s.take(c).len() == 12);
            assert(s.subrange(0, 13) =~= e) by { assert forall|j: int| 0 <= j < 13 implies s[j] == e[j] by { if j < 12 { assert(s.take(c)[j] == w_end()[j]); } } }
            assert(at_line(s, 0));
        } else {
            lemma_ended(t);
            assert forall|i: int| i > c && i + 13 <= s.len() implies at_line(s, i) == at_line(t, i - c - 1) by {
                assert(s.subrange(i, i + 13) =~= t.subrange(i - c - 1, i - c - 1 + 13));
                if i > c + 1 { assert(t[i - c - 2] == s[i - 1]); }
            }
            if first_end(s) {
                assert(at_line(s, z));
                assert(at_line(t, t.len() - 13));
                assert forall|i: int| 0 <= i < t.len() - 13 implies !#[trigger] at_line(t, i) by { assert(!at_line(s, i + c + 1)); }
            }
            if first_end(t) {
                assert(at_line(t, t.len() - 13));
                assert(at_line(s, z));
                assert forall|i: int| 0 <= i < z implies !#[trigger] at_line(s, i) by { if i > c { assert(!at_line(t, i - c - 1)); } }
            }
        }
    }
}
pub open spec fn no_nl(s: Bytes) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 10 }
pub proof fn lemma_fields_clean(s: Bytes, n: int)
    requires no_nl(s)
    ensures forall|i: int| 0 <= i < splitn(s, n, 32).len() ==> no_nl(#[trigger] splitn(s, n, 32)[i])
    decreases n
{
    lemma_cut(s, 32);
    if n > 1 && cut(s, 32) < s.len() {
        let k = cut(s, 32);
        let t = s.skip(k + 1);
        assert(no_nl(t)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 10 by { assert(t[i] == s[i + k + 1]); } }
        lemma_fields_clean(t, n - 1);
        let f = splitn(s, n, 32);
        assert forall|i: int| 0 <= i < f.len() implies no_nl(#[trigger] f[i]) by { if i > 0 { assert(f[i] == splitn(t, n - 1, 32)[i - 1]); } }
    }
}
pub proof fn lemma_tail_clean(f: Seq<Bytes>, n: int)
    requires n <= f.len(), forall|i: int| 0 <= i < f.len() ==> no_nl(#[trigger] f[i])
    ensures no_nl(tail_upto(f, n))
    decreases n
{
    if n > 2 {
        lemma_tail_clean(f, n - 1);
        let a = tail_upto(f, n - 1);
        assert forall|i: int| 0 <= i < tail_upto(f, n).len() implies #[trigger] tail_upto(f, n)[i] != 10 by {
            if i < a.len() { assert(a[i] != 10); } else if i > a.len() { assert(no_nl(f[n - 1])); assert(f[n - 1][i - a.len() - 1] != 10); }
        }
    }
}
pub proof fn lemma_line_clean(line: Bytes, item: Bytes, new_item: Bytes, del_meta: bool)
    requires no_nl(line), no_nl(new_item)
    ensures no_nl(new_line(line, item, new_item, del_meta)), is_stack(line, item) ==> new_line(line, item, new_item, del_meta) != w_end()
{
    let f = fields(line);
    let r = new_line(line, item, new_item, del_meta);
    if is_stack(line, item) {
        lemma_fields_clean(line, 5);
        lemma_tail_clean(f, f.len() as int);
        if new_item.len() == 0 { assert(r[1] == 109); }
        else {
            let t = if del_meta { bare_tail(f) } else { tail_upto(f, f.len() as int) };
            assert(no_nl(t)) by {
                let count = field(f, 2, w_one());
                let wear = field(f, 3, w_zero());
                assert(no_nl(count) && no_nl(wear));
                if del_meta {
                    let a = if count != w_one() || wear != w_zero() { seq![32u8] + count } else { seq![] };
                    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 10 by {
                        if i < a.len() { if i > 0 { assert(a[i] == count[i - 1]); } } else if i > a.len() { assert(t[i] == wear[i - a.len() - 1]); }
                    }
                }
            }
            assert(r[0] == 73);
            assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != 10 by {
                if i >= 5 + new_item.len() { assert(r[i] == t[i - 5 - new_item.len()]); } else if i >= 5 { assert(r[i] == new_item[i - 5]); }
            }
        }
    }
    assert(w_end()[0] == 69 && w_end()[1] == 110);
}
/// The same from the front.
pub open spec fn redone(s: Bytes, item: Bytes, new_item: Bytes, del_meta: bool) -> Bytes
    decreases s.len()
    via redone_dec
{
    piece(s.take(cut(s, 10)), item, new_item, del_meta) + (if cut(s, 10) < s.len() { redone(s.skip(cut(s, 10) + 1), item, new_item, del_meta) } else { seq![] })
}
#[via_fn]
proof fn redone_dec(s: Bytes, item: Bytes, new_item: Bytes, del_meta: bool) { lemma_cut(s, 10); }
pub proof fn lemma_lines_front(a: Bytes, ls: Seq<Bytes>, n: int, item: Bytes, new_item: Bytes, del_meta: bool)
    requires 0 <= n <= ls.len()
    ensures lines_upto(seq![a] + ls, n + 1, item, new_item, del_meta) == piece(a, item, new_item, del_meta) + lines_upto(ls, n, item, new_item, del_meta)
    decreases n
{
    let q = seq![a] + ls;
    if n == 0 {
        assert(lines_upto(q, 0, item, new_item, del_meta) =~= seq![]);
        assert(lines_upto(q, 1, item, new_item, del_meta) =~= piece(a, item, new_item, del_meta));
        assert(piece(a, item, new_item, del_meta) + lines_upto(ls, 0, item, new_item, del_meta) =~= piece(a, item, new_item, del_meta));
    } else {
        lemma_lines_front(a, ls, n - 1, item, new_item, del_meta);
        assert(q[n] == ls[n - 1]);
        assert(lines_upto(q, n + 1, item, new_item, del_meta) =~= piece(a, item, new_item, del_meta) + lines_upto(ls, n, item, new_item, del_meta));
    }
}
pub proof fn lemma_redone(s: Bytes, item: Bytes, new_item: Bytes, del_meta: bool)
    ensures redone(s, item, new_item, del_meta) == lines_upto(split(s, 10), split(s, 10).len() as int, item, new_item, del_meta)
    decreases s.len()
{
    lemma_cut(s, 10);
    let c = cut(s, 10);
    if c < s.len() {
        lemma_redone(s.skip(c + 1), item, new_item, del_meta);
        lemma_lines_front(s.take(c), split(s.skip(c + 1), 10), split(s.skip(c + 1), 10).len() as int, item, new_item, del_meta);
    } else {
        assert(s.take(c) =~= s);
        assert(lines_upto(split(s, 10), 0, item, new_item, del_meta) =~= seq![]);
        assert(redone(s, item, new_item, del_meta) =~= piece(s, item, new_item, del_meta));
        assert(lines_upto(split(s, 10), 1, item, new_item, del_meta) =~= piece(s, item, new_item, del_meta));
    }
}
pub proof fn lemma_cut_at(s: Bytes, k: int)
    requires 0 <= k < s.len(), s[k] == 10, forall|i: int| 0 <= i < k ==> #[trigger] s[i] != 10
    ensures cut(s, 10) == k
{
    lemma_cut(s, 10);
}
pub proof fn lemma_redone_ended(s: Bytes, item: Bytes, new_item: Bytes, del_meta: bool)
    requires ended(s), no_nl(new_item)
    ensures ended(redone(s, item, new_item, del_meta))
    decreases s.len()
{
    lemma_cut(s, 10);
    let c = cut(s, 10);
    let line = s.take(c);
    let rest = s.skip(c + 1);
    let x = redone(rest, item, new_item, del_meta);
    let r = redone(s, item, new_item, del_meta);
    assert(no_nl(line));
    lemma_line_clean(line, item, new_item, del_meta);
    if line == w_end() {
        assert(rest.len() == 0);
        lemma_joined(line, 5);
        if is_stack(line, item) { assert(line[0] == fields(line)[0][0]); assert(w_end()[0] == 69); }
        lemma_cut(rest, 10);
        assert(x =~= seq![]);
    } else { lemma_redone_ended(rest, item, new_item, del_meta); }
    if line.len() == 0 { assert(r =~= x); }
    else {
        let nl = new_line(line, item, new_item, del_meta);
        assert(r =~= nl.push(10) + x);
        assert forall|i: int| 0 <= i < nl.len() implies #[trigger] r[i] != 10 by { assert(r[i] == nl[i]); }
        lemma_cut_at(r, nl.len() as int);
        assert(r.take(nl.len() as int) =~= nl);
        assert(r.skip(nl.len() as int + 1) =~= x);
    }
}
pub proof fn lemma_rewritten(s: Bytes, item: Bytes, new_item: Bytes, del_meta: bool)
    requires first_end(s), no_nl(new_item)
    ensures first_end(rewritten(s, item, new_item, del_meta))
{
    lemma_ended(s);
    lemma_redone(s, item, new_item, del_meta);
    lemma_redone_ended(s, item, new_item, del_meta);
    lemma_ended(rewritten(s, item, new_item, del_meta));
}
>>>
raw <<<
// ---- the command -----------------------------------------------------------------------------------
pub open spec fn tot(h: spec_fn(int) -> int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { tot(h, n - 1) + h(n - 1) }
}
pub proof fn lemma_tot_gap(h: spec_fn(int) -> int, a: int, b: int)
    requires 0 <= a <= b, forall|i: int| a <= i < b ==> #[trigger] h(i) == 0
    ensures tot(h, a) == tot(h, b)
    decreases b - a
{
    if a < b { lemma_tot_gap(h, a, b - 1); assert(h(b - 1) == 0); }
}
pub proof fn lemma_tot_range(h: spec_fn(int) -> int, n: int, c: int)
    requires 0 <= n, 0 <= c, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] h(i) <= c
    ensures 0 <= tot(h, n) <= c * n
    decreases n
{
    if n > 0 { lemma_tot_range(h, n - 1, c); assert(0 <= h(n - 1) <= c); assert(c * n == c * (n - 1) + c) by (nonlinear_arith); }
    else { assert(c * n == 0) by (nonlinear_arith) requires n == 0; }
}
pub proof fn lemma_tot_keys<V>(m: Map<u16, V>, h: spec_fn(int) -> int, i: int)
    requires 0 <= i <= keys_of(m).len(), forall|p: int| 0 <= p <= 65535 && #[trigger] h(p) != 0 ==> m.dom().contains(p as u16), forall|k: u16| #[trigger] m.dom().contains(k) ==> k < 4096
    ensures
        i < keys_of(m).len() ==> tot(h, next_pos(m, i)) == tot(h, keys_of(m)[i] as int) && next_pos(m, i) <= keys_of(m)[i] < 4096 && next_pos(m, i + 1) == keys_of(m)[i] + 1,
        i == keys_of(m).len() ==> tot(h, next_pos(m, i)) == tot(h, 4096),
{
    let ks = keys_of(m);
    if i > 0 { assert(m.dom().contains(ks[i - 1])); }
    let b = if i < ks.len() { assert(m.dom().contains(ks[i])); if i > 0 { assert(ks[i - 1] < ks[i]); } ks[i] as int } else { 4096 };
    assert forall|p: int| next_pos(m, i) <= p < b implies #[trigger] h(p) == 0 by { lemma_gap(m, i, p); }
    lemma_tot_gap(h, next_pos(m, i), b);
}
/// Stacks of the item at a chosen position / is there one?
pub open spec fn stacks_at(m: Map<u16, MetaV>, f: spec_fn(int) -> bool, item: Bytes) -> spec_fn(int) -> int {
    |i: int| if 0 <= i <= 65535 && m.dom().contains(i as u16) && f(i) { stacks(m[i as u16].inv, item) } else { 0 }
}
pub open spec fn holds_item(m: Map<u16, MetaV>, f: spec_fn(int) -> bool, item: Bytes) -> spec_fn(int) -> bool { |i: int| stacks_at(m, f, item)(i) > 0 }
pub open spec fn inv_set(v: MetaV, w: Want) -> MetaV { MetaV { inv: rewritten(v.inv, w.item, w.new_item, w.del_meta), ..v } }
pub open spec fn invs_set(m: Map<u16, MetaV>, f: spec_fn(int) -> bool, w: Want) -> Map<u16, MetaV> {
    m.map_entries(|k: u16, v: MetaV| if f(k as int) { inv_set(v, w) } else { v })
}
/// What is asked for: new_item is empty to delete.
pub struct Want { pub item: Bytes, pub new_item: Bytes, pub del_meta: bool }
pub open spec fn wanted(a: InstArgs) -> Want {
    Want { item: sbytes(a.item.unwrap()@), new_item: match a.new_item { Some(s) => sbytes(s@), None => if a.delete { seq![] } else { sbytes(a.item.unwrap()@) } }, del_meta: a.delete_meta }
}
pub open spec fn inv_rel(area: Option<Area>, invert: bool, names: Seq<Bytes>, w: Want) -> spec_fn(i64, Bytes, Bytes) -> bool {
    |k: i64, old: Bytes, new: Bytes| match dec(old) {
        None => new == old,
        Some(b) => if !concerns_any(b, names) || !area_hit(area, invert, true, unkey(k as int)) || cnt(holds_item(b.meta, list_at(area, invert, unkey(k as int), b, names), w.item), 4096) == 0 { new == old } else {
            dec(new) == Some(BlockV { meta: norm_meta(b.version, invs_set(b.meta, list_at(area, invert, unkey(k as int), b, names), w)), ..b })
        },
    }
}
pub open spec fn item_count(m: Map<i64, Bytes>, area: Option<Area>, invert: bool, names: Seq<Bytes>, item: Bytes) -> spec_fn(i64) -> int {
    |k: i64| match dec(m[k]) {
        Some(b) => if concerns_any(b, names) { tot(stacks_at(b.meta, list_at(area, invert, unkey(k as int), b, names), item), 4096) } else { 0 },
        None => 0,
    }
}
pub open spec fn holder_count(m: Map<i64, Bytes>, area: Option<Area>, invert: bool, names: Seq<Bytes>, item: Bytes) -> spec_fn(i64) -> int {
    |k: i64| match dec(m[k]) {
        Some(b) => if concerns_any(b, names) { cnt(holds_item(b.meta, list_at(area, invert, unkey(k as int), b, names), item), 4096) } else { 0 },
        None => 0,
    }
}
/// At most 2^15 stacks of the item in an inventory (the totals are 64-bit numbers).
pub open spec fn modest(m: Map<i64, Bytes>, item: Bytes) -> bool {
    forall|k: i64| #[trigger] m.dom().contains(k) ==> (dec(m[k]) matches Some(b) ==> modest_block(b, item))
}
pub open spec fn modest_block(b: BlockV, item: Bytes) -> bool { forall|p: u16| #[trigger] b.meta.dom().contains(p) ==> stacks(b.meta[p].inv, item) <= 0x8000 }
pub open spec fn reported2(a: StatusV, b: StatusV, m: Map<i64, Bytes>, names: Seq<Bytes>, area: Option<Area>, invert: bool, g: spec_fn(i64) -> int, g2: spec_fn(i64) -> int) -> bool {
    exists|ks: Seq<i64>| #[trigger] picks(ks, m, names, area, invert) && report_of2(a, b, m, ks, g, g2)
}
pub open spec fn report_of2(a: StatusV, b: StatusV, m: Map<i64, Bytes>, ks: Seq<i64>, g: spec_fn(i64) -> int, g2: spec_fn(i64) -> int) -> bool {
    b.failed == a.failed + total(ks, bad(m), ks.len() as int) && b.log.len() == a.log.len() + 1 && says2(b.log.last(), total(ks, g, ks.len() as int), total(ks, g2, ks.len() as int))
}
pub proof fn lemma_invs_set(B: MapBlock, C: MapBlock, f: spec_fn(int) -> bool, w: Want)
    requires B.wf(), B@.storable(), C == (MapBlock { metadata: C.metadata, ..B }), C@.meta == invs_set(B@.meta, f, w), no_nl(w.new_item)
    ensures C.wf(), C@.storable(), C@.norm() == (BlockV { meta: norm_meta(B@.version, invs_set(B@.meta, f, w)), ..B@ })
{
    assert(C@.objs == B@.objs);
    assert forall|k: u16| #[trigger] C.metadata@.dom().contains(k) implies k < 4096 by { assert(C@.meta.dom().contains(k)); assert(B@.meta.dom().contains(k)); assert(B.metadata@.dom().contains(k)); }
    assert forall|k: u16| #[trigger] C@.meta.dom().contains(k) implies C@.meta[k].storable() by {
        assert(B@.meta.dom().contains(k));
        assert(B@.meta[k].storable());
        lemma_rewritten(B@.meta[k].inv, w.item, w.new_item, w.del_meta);
    }
}
>>>
fn replace_in_inv rlimit=100 spinoff_prover own
spec <<<
    requires old(inst).ready(), distinct_names(old(inst).db@), old(inst).args.item.is_some(),
        no_nl(wanted(old(inst).args).new_item), modest(old(inst).db@, wanted(old(inst).args).item)
    ensures
        final(inst).same_session(old(inst)),
        forall|k: i64| #[trigger] old(inst).db@.dom().contains(k) ==>
            inv_rel(old(inst).args.area, old(inst).args.invert, texts(old(inst).args.nodes@), wanted(old(inst).args))(k, old(inst).db@[k], final(inst).db@[k]),
        reported2(old(inst).status@, final(inst).status@, old(inst).db@, texts(old(inst).args.nodes@), old(inst).args.area, old(inst).args.invert,
            item_count(old(inst).db@, old(inst).args.area, old(inst).args.invert, texts(old(inst).args.nodes@), wanted(old(inst).args).item),
            holder_count(old(inst).db@, old(inst).args.area, old(inst).args.invert, texts(old(inst).args.nodes@), wanted(old(inst).args).item)),
>>>
entry <<<
    hide(total); hide(progress); hide(in_map); hide(norm_meta); hide(picks); hide(concerns_any); hide(BlockV::storable); hide(cnt); hide(tot); hide(stacks); hide(rewritten); hide(metas_done); hide(ids_of);
    let ghost m = inst.db@;
    let ghost on = texts(inst.args.nodes@);
    let ghost W = wanted(inst.args);
    let ghost area = inst.args.area;
    let ghost invert = inst.args.invert;
    let ghost rel = inv_rel(area, invert, on, W);
    let ghost g = item_count(m, area, invert, on, W.item);
    let ghost g2 = holder_count(m, area, invert, on, W.item);
    let ghost mut KS: Seq<i64> = seq![];
>>>
loop 0 <<<
    invariant
        *__s0 == inst.args.nodes, inst.args == old(inst).args, on == texts(inst.args.nodes@), 0 <= __i0 <= on.len(), __o0@.len() == __i0,
        views(__o0@) =~= on.subrange(0, __i0 as int),
    decreases on.len() - __i0
>>>
call query_keys 0 after <<<
    proof {
        reveal(picks);
        KS = keys@;
        assert(on.subrange(0, on.len() as int) =~= on);
        assert(views(nodes@) =~= on);
        lemma_progress_start(m, keys@, on, area, invert, rel);
    }
>>>
loop 1 <<<
    invariant
        inst.same_session(old(inst)), inst.args == old(inst).args, area == inst.args.area, invert == inst.args.invert, area_ok(area), area.is_some() || !invert,
        views(nodes@) == on, item@ == W.item, new_item@ == W.new_item, W == wanted(inst.args), no_nl(W.new_item), modest(m, W.item),
        m == old(inst).db@, keys_in_range(m), roomy(m), distinct_names(m), KS == __s1@,
        rel == inv_rel(area, invert, on, W), g == item_count(m, area, invert, on, W.item), g2 == holder_count(m, area, invert, on, W.item),
        __s1.len() <= 0x10_0000_0000, picks(__s1@, m, on, area, invert),
        0 <= __i1 <= __s1.len(),
        progress(m, inst.db@, __s1@, __i1 as int, rel),
        item_mods == total(__s1@, g, __i1 as int), item_mods <= 0x800_0000 * __i1, node_mods == total(__s1@, g2, __i1 as int), node_mods <= 4096 * __i1,
        inst.status@.failed == old(inst).status@.failed + total(__s1@, bad(m), __i1 as int), inst.status@.log == old(inst).status@.log,
        inst.status@.counting(__i1 as int, __s1.len() as int),
    decreases __s1.len() - __i1
>>>
loop 1 head <<<
    let ghost kk = __s1@[__i1 - 1];
    proof {
        reveal(total); reveal(picks);
        lemma_progress(m, inst.db@, __s1@, __i1 - 1, rel);
        assert(__s1@.contains(kk));
        lemma_unpack_pack(kk as int);
    }
    let ghost b = unkey(kk as int);
    let ghost mut f: spec_fn(int) -> bool = |i: int| true;
    let ghost mut hit: spec_fn(int) -> bool = |i: int| true;
    let ghost mut hs: spec_fn(int) -> int = |i: int| 0;
    let ghost mut h: spec_fn(u16, MetaV) -> MetaV = |k: u16, v: MetaV| v;
>>>
call deserialize 0 after <<<
    let ghost B = block;
    let ghost count0 = item_mods as int;
    let ghost nodes0 = node_mods as int;
    proof {
        reveal(ids_of);
        f = list_at(area, invert, b, B@, on);
        hit = holds_item(B@.meta, f, W.item);
        hs = stacks_at(B@.meta, f, W.item);
        h = |k: u16, v: MetaV| if f(k as int) { inv_set(v, W) } else { v };
        lemma_view(B);
        lemma_cnt_range(hit, 4096);
        assert(m.dom().contains(kk));
        assert forall|i: int| 0 <= i < 4096 implies 0 <= #[trigger] hs(i) <= 0x8000 by { reveal(stacks); if B@.meta.dom().contains(i as u16) { lemma_stacks_range(split(B@.meta[i as u16].inv, 10), split(B@.meta[i as u16].inv, 10).len() as int, W.item); } }
        lemma_tot_range(hs, 4096, 0x8000);
        assert(keys_of(B.metadata@) == B.metadata.keys());
    }
>>>
loop 2 <<<
    invariant
        *__s2 == nodes, views(nodes@) == on, block == B, B.wf(), B@.distinct(), 0 <= __i2 <= nodes@.len(), ids_of(__o2@, B, on, __i2 as int),
    decreases nodes@.len() - __i2
>>>
loop 2 head <<<
    let ghost I0 = __o2@;
    let ghost j0 = __i2 as int;
    assert(nodes@[j0]@ == on[j0]);
>>>
loop 2 tail <<<
    proof {
        reveal(ids_of);
        lemma_view(B);
        match __y {
            Some(z) => {
                assert(__o2@ =~= I0.push(z));
                assert(__o2@[I0.len() as int] == z);
                assert forall|k: u16| #[trigger] __o2@.contains(k) == (I0.contains(k) || k == z) by {
                    if I0.contains(k) { let i = choose|i: int| 0 <= i < I0.len() && I0[i] == k; assert(__o2@[i] == k); }
                }
                assert(B@.names.dom().contains(z));
                assert forall|j: int, k: u16| 0 <= j < j0 + 1 && #[trigger] B.nimap.has(k) && B.nimap.name(k) == #[trigger] on[j] implies __o2@.contains(k) by {
                    if j == j0 { assert(B@.names.dom().contains(k)); }
                }
            }
            None => { }
        }
    }
>>>
loop 2 after <<<
    proof { lemma_ids_of(__o2@, B, on); }
>>>
loop 3 before <<<
    proof { reveal(metas_done); reveal(cnt); reveal(tot); }
>>>
loop 3 <<<
    invariant
        __s3@ == keys_of(B.metadata@), 0 <= __i3 <= __s3@.len(), block == (MapBlock { metadata: block.metadata, ..B }), B.wf(), B@.storable(),
        metas_done(B, block.metadata@, h, __i3 as int), b.in_key_range(),
        inst.args == old(inst).args, inst.args.area == area, inst.args.invert == invert, f == list_at(area, invert, b, B@, on), hit == holds_item(B@.meta, f, W.item), hs == stacks_at(B@.meta, f, W.item), forall|i: int| 0 <= i < 4096 ==> 0 <= #[trigger] hs(i) <= 0x8000,
        h == (|k: u16, v: MetaV| if f(k as int) { inv_set(v, W) } else { v }), item@ == W.item, new_item@ == W.new_item, W == wanted(inst.args),
        block_corner.x == 16 * b.x, block_corner.y == 16 * b.y, block_corner.z == 16 * b.z,
        node_ids@.len() == 0 <==> on.len() == 0,
        forall|i: int| 0 <= i < 4096 ==> on.contains(#[trigger] B@.node(i)) == node_ids@.contains(B.node_data.nodes@[i]),
        item_mods == count0 + tot(hs, next_pos(B.metadata@, __i3 as int)), count0 <= 0x800_0000 * 0xf_ffff_ffff, node_mods == nodes0 + cnt(hit, next_pos(B.metadata@, __i3 as int)), nodes0 <= 4096 * 0xf_ffff_ffff, modified == (node_mods > nodes0), node_mods >= nodes0, item_mods >= count0,
    decreases __s3@.len() - __i3
>>>
loop 3 head <<<
    let ghost i_mods0 = item_mods as int;
    proof {
        assert(__s3@[__i3 - 1] == idx);
        lemma_metas_step(B, block.metadata@, h, __i3 - 1);
        assert(B@.meta[idx] == B.metadata@[idx]@);
        assert forall|p: int| 0 <= p <= 65535 && #[trigger] hit(p) implies B.metadata@.dom().contains(p as u16) by { }
        assert forall|p: int| 0 <= p <= 65535 && #[trigger] hs(p) != 0 implies B.metadata@.dom().contains(p as u16) by { }
        lemma_cnt_keys(B.metadata@, hit, __i3 - 1);
        lemma_tot_keys(B.metadata@, hs, __i3 - 1);
        lemma_cnt_range(hit, idx as int);
        lemma_tot_range(hs, idx as int, 0x8000);
        assert(0 <= hs(idx as int) <= 0x8000);
        reveal(cnt); reveal(tot);
        assert(B@.node(idx as int) == B@.node(idx as int));
    }
>>>
loop 3 tail <<<
    proof {
        let v = B.metadata@[idx];
        let d = block.metadata@[idx];
        assert(f(idx as int));
        assert(h(idx, v@) == inv_set(v@, W));
        assert(d@ == h(idx, v@));
    }
>>>
loop 3 after <<<
    proof {
        assert forall|p: int| 0 <= p <= 65535 && #[trigger] hit(p) implies B.metadata@.dom().contains(p as u16) by { }
        assert forall|p: int| 0 <= p <= 65535 && #[trigger] hs(p) != 0 implies B.metadata@.dom().contains(p as u16) by { }
        lemma_cnt_keys(B.metadata@, hit, __s3@.len() as int);
        lemma_tot_keys(B.metadata@, hs, __s3@.len() as int);
        lemma_metas_end(B, block, h);
        lemma_invs_set(B, block, f, W);
    }
>>>
loop 1 after <<<
    proof {
        reveal(concerns_any);
        assert forall|k: i64| m.dom().contains(k) && !#[trigger] KS.contains(k) implies rel(k, m[k], m[k]) by {
            if dec(m[k]).is_some() { lemma_unpicked_any(KS, m, on, area, invert, k); }
        }
        lemma_progress_end(m, inst.db@, KS, rel);
    }
>>>
exit <<<
    proof {
        assert(item_mods == total(KS, g, KS.len() as int) && node_mods == total(KS, g2, KS.len() as int));
        assert(says2(inst.status@.log.last(), total(KS, g, KS.len() as int), total(KS, g2, KS.len() as int)));
        assert(picks(KS, m, on, inst.args.area, inst.args.invert));
    }
>>>
