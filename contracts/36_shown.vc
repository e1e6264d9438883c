module shown utils.rs
raw <<<
/// t shows s seconds as minutes:seconds or hours:minutes:seconds.
pub open spec fn clock(t: Seq<char>, s: int) -> bool {
    s >= 0 && t == (if s < 3600 { fmt2("{:02}:{:02}"@, num_text(s / 60), num_text(s % 60)) } else { fmt3("{}:{:02}:{:02}"@, num_text(s / 3600), num_text(s / 60 % 60), num_text(s % 60)) })
}
pub open spec fn units(s: Seq<(&'static str, F32)>) -> bool {
    s.len() == 4 && (forall|i: int| 0 <= i < 4 ==> (#[trigger] s[i]).1.r() == rnd(thousands(4 - i) as real) && s[i].0@ == suffix(4 - i))
}
/// m U is n, give or take four rounding errors.
proof fn lemma_mantissa(n: real, f: real, ue: real, u: real, q: real, m: real)
    requires
        n >= 1real, ue >= 1000real, q * u == f, q >= 1real, u >= 1real,
        -n <= (f - n) * 16777216real <= n, -ue <= (u - ue) * 16777216real <= ue, -q <= (m - q) * 16777216real <= q, m >= 1real,
    ensures
        m * ue * 4000000real <= n * 4000001real, m * ue * 4000000real >= n * 3999999real,
{
    let a = m * ue;
    let mu = m * u;
    assert((m - q) * u == mu - f) by (nonlinear_arith) requires q * u == f, mu == m * u;
    let x = (m - q) * u;
    assert(x * 16777216real <= f && x * 16777216real >= -f) by (nonlinear_arith)
        requires x == (m - q) * u, u >= 1real, -q <= (m - q) * 16777216real <= q, q * u == f;
    assert(mu * 16777216real - f * 16777216real <= f && mu * 16777216real - f * 16777216real >= -f);
    let y = m * (u - ue);
    assert(y == mu - a) by (nonlinear_arith) requires y == m * (u - ue), mu == m * u, a == m * ue;
    assert(y * 16777216real <= a && y * 16777216real >= -a) by (nonlinear_arith)
        requires y == m * (u - ue), m >= 1real, -ue <= (u - ue) * 16777216real <= ue, a == m * ue;
    assert(a >= 1000real) by (nonlinear_arith) requires a == m * ue, m >= 1real, ue >= 1000real;
}
proof fn lemma_quot(f: real, u: real)
    requires 0real <= f <= 20000000000000000000real, u >= 1real
    ensures 0real <= f / u <= f
{
    let q = f / u;
    assert(q * u == f) by (nonlinear_arith) requires q == f / u, u >= 1real;
    assert(q >= 0real && q <= f) by (nonlinear_arith) requires q * u == f, u >= 1real, f >= 0real;
}
proof fn lemma_mul(a: int, b: int)
    requires b == 1 || b == 10 || b == 100 || b == 1000 || b == 1_000_000 || b == 1_000_000_000 || b == 1_000_000_000_000
    ensures (a * b) as real == a as real * b as real
{
    let r = a as real;
    if b == 1 { assert(a * b == a && r * 1real == r); }
    else if b == 10 { assert(a * b == 10 * a); assert(r * 10real == (10 * a) as real); }
    else if b == 100 { assert(a * b == 100 * a); assert(r * 100real == (100 * a) as real); }
    else if b == 1000 { assert(a * b == 1000 * a); assert(r * 1000real == (1000 * a) as real); }
    else if b == 1_000_000 { assert(a * b == 1_000_000 * a); assert(r * 1_000_000real == (1_000_000 * a) as real); }
    else if b == 1_000_000_000 { assert(a * b == 1_000_000_000 * a); assert(r * 1_000_000_000real == (1_000_000_000 * a) as real); }
    else { assert(a * b == 1_000_000_000_000 * a); assert(r * 1_000_000_000_000real == (1_000_000_000_000 * a) as real); }
}
proof fn lemma_about(n: int, m: real, p: int, k: int, e: int)
    requires
        n >= 1, 1 <= e <= 4, 0 <= p <= 2, m * tenr(p) >= 100real, p > 0 ==> m * tenr(p) <= 1000real, rounded_to(m, p, k),
        m * (thousands(e) as real) * 4000000real <= n as real * 4000001real, m * (thousands(e) as real) * 4000000real >= n as real * 3999999real,
    ensures about(p, k, e, n)
{
    let ue = thousands(e) as real;
    let t = tenr(p);
    let a = m * ue;
    let kr = k as real;
    let w = kr * ue;
    let mt = m * t;
    assert(ue >= 1000real);
    assert(mt * ue == a * t) by (nonlinear_arith) requires mt == m * t, a == m * ue;
    let d = (kr - mt) * ue;
    assert(d == w - a * t) by (nonlinear_arith) requires d == (kr - mt) * ue, w == kr * ue, mt * ue == a * t;
    assert(200real * d <= a * t && 200real * d >= -(a * t)) by (nonlinear_arith)
        requires d == (kr - mt) * ue, ue >= 1000real, kr - mt <= 0.5real, mt - kr <= 0.5real, mt >= 100real, mt * ue == a * t;
    let nr = n as real;
    let nt = nr * t;
    assert(t == 1real || t == 10real || t == 100real);
    assert(a * t * 4000000real <= nt * 4000001real && a * t * 4000000real >= nt * 3999999real) by (nonlinear_arith)
        requires a * 4000000real <= nr * 4000001real, a * 4000000real >= nr * 3999999real, nt == nr * t, t >= 1real;
    assert(10000real * (w - nt) <= 51real * nt && 10000real * (nt - w) <= 51real * nt);
    let (ki, th, tp) = (k * thousands(e), thousands(e), ten(p));
    lemma_mul(k, th); lemma_mul(n, tp);
    assert(w == ki as real && nt == (n * tp) as real);
    assert(k >= 100);
    assert(p > 0 ==> k <= 1000);
    assert(10000 * (k * thousands(e) - n * ten(p)) <= 51 * (n * ten(p)));
    assert(10000 * (n * ten(p) - k * thousands(e)) <= 51 * (n * ten(p)));
    assert(51 * (n * ten(p)) == 51 * n * ten(p)) by (nonlinear_arith);
}
/// What one unit of the table gives.
proof fn lemma_unit(n: u64, f: real, u: real, m: real, e: int)
    requires f == rnd(n as real), 1 <= e <= 4, u == rnd(thousands(e) as real), f >= u, m == rnd(f / u)
    ensures
        n >= 1000, m >= 1real,
        m * (thousands(e) as real) * 4000000real <= n as real * 4000001real, m * (thousands(e) as real) * 4000000real >= n as real * 3999999real,
{
    let ue = thousands(e) as real;
    rnd_near(ue);
    lemma_small(n);
    rnd_int(1000);
    rnd_mono(1000real, ue);
    assert(u >= 1000real);
    if n < 1000 { assert(false); }
    rnd_near(n as real);
    let q = f / u;
    assert(q * u == f) by (nonlinear_arith) requires q == f / u, u >= 1000real;
    assert(q >= 1real) by (nonlinear_arith) requires q * u == f, f >= u, u >= 1000real;
    assert(q <= f) by (nonlinear_arith) requires q * u == f, u >= 1000real, f >= 0real;
    rnd_int(1);
    rnd_mono(1real, q);
    rnd_near(q);
    lemma_mantissa(n as real, f, ue, u, q, m);
}
proof fn lemma_small(n: u64)
    ensures n < 16777216 ==> rnd(n as real) == n as real, n >= 1 ==> rnd(n as real) >= 1real, rnd(n as real) >= 0real, rnd(n as real) <= 20000000000000000000real
{
    if n < 16777216 { rnd_int(n as int); } else { rnd_int(1); rnd_mono(1real, n as real); }
    if n >= 1 { rnd_near(n as real); } else { rnd_int(0); }
}
/// Which number of decimals is chosen.
pub open spec fn places(m: real) -> int { if m >= 100real { 0 } else if m >= 10real { 1 } else { 2 } }
proof fn lemma_shown(t: Seq<char>, n: u64, f: real, u: real, m: real, p: int, e: int, s: Seq<char>)
    requires
        f == rnd(n as real), 1 <= e <= 4, u == rnd(thousands(e) as real), f >= u, m == rnd(f / u), p == places(m), s == suffix(e),
        exists|k: int| #[trigger] rounded_to(m, p, k) && t == notation(p, k) + s
    ensures shown(t, n as int)
{
    reveal(shown);
    lemma_unit(n, f, u, m, e);
    let k = choose|k: int| #[trigger] rounded_to(m, p, k) && t == notation(p, k) + s;
    assert(m * 1real == m && tenr(0) == 1real && tenr(1) == 10real && tenr(2) == 100real);
    if p == 0 { assert(m * tenr(p) == m); } else if p == 1 { assert(m * tenr(p) == m * 10real); } else { assert(m * tenr(p) == m * 100real); }
    assert(m * tenr(p) >= 100real && (p > 0 ==> m * tenr(p) <= 1000real));
    lemma_about(n as int, m, p, k, e);
}
>>>
fn fmt_big_num
subst <<<
format!("{:.*}{}", place_vals, mantissa, suffix) ==> v_fixed(place_vals, mantissa, suffix)
>>>
subst <<<
format!("{}", f_num.round()) ==> v_whole(f_num.round())
>>>
ret r
spec <<<
    ensures shown(r@, num as int)
>>>
entry <<<
    proof { 
        lemma_small(num); rnd_int(100); rnd_int(10); rnd_int(1000);
        assert(100u64 as real / 1u64 as real == 100real); assert(10u64 as real / 1u64 as real == 10real);
        assert(1000u64 as real / 1u64 as real == 1000real); assert(1000000u64 as real / 1u64 as real == 1000000real);
        assert(1000000000u64 as real / 1u64 as real == 1000000000real); assert(1000000000000u64 as real / 1u64 as real == 1000000000000real);
    }
>>>
loop 0 kind=vec before <<<
    proof { assert(units(__s0@)); }
>>>
loop 0 <<<
    invariant
        f_num.r() == rnd(num as real), units(__s0@), __i0 <= 4, 0real <= f_num.r() <= 20000000000000000000real, rnd(100real) == 100real, rnd(10real) == 10real,
        100u64 as real / 1u64 as real == 100real, 10u64 as real / 1u64 as real == 10real,
        forall|i: int| 0 <= i < __i0 ==> f_num.r() < (#[trigger] __s0@[i]).1.r(),
    decreases 4 - __i0
>>>
loop 0 head <<<
    let ghost e = 4 - (__i0 - 1);
    proof { rnd_int(1000); rnd_mono(1000real, thousands(e) as real); assert(__s0@[__i0 - 1].1.r() == rnd(thousands(e) as real)); lemma_quot(f_num.r(), unit.r()); }
>>>
call v_fixed 0 before <<<
    proof { lemma_unit(num, f_num.r(), unit.r(), mantissa.r(), e); assert(suffix@ == crate::status::suffix(e)); }
    proof { assert forall|t: Seq<char>| (exists|k: int| #[trigger] rounded_to(mantissa.r(), place_vals as int, k) && t == notation(place_vals as int, k) + suffix@) implies #[trigger] shown(t, num as int) by { lemma_shown(t, num, f_num.r(), unit.r(), mantissa.r(), place_vals as int, e, suffix@); } }
>>>
exit <<<
    proof { reveal(shown); if num >= 1000 { rnd_mono(1000real, num as real); assert(false); } assert(f_num.r() == of_int(num as int)); }
>>>
fn fmt_duration
ret r
spec <<<
    requires dur.t() >= 0real
    ensures clock(r@, whole_secs(dur.t())), whole_secs(dur.t()) as real <= dur.t() < whole_secs(dur.t()) as real + 1real
>>>
