module count spatial/mod.rs
raw <<<
/// How many of 0..n satisfy p.
pub open spec fn cnt(p: spec_fn(int) -> bool, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { cnt(p, n - 1) + (if p(n - 1) { 1int } else { 0 }) }
}
pub proof fn lemma_cnt_range(p: spec_fn(int) -> bool, n: int)
    ensures 0 <= cnt(p, n), n >= 0 ==> cnt(p, n) <= n
    decreases n
{
    if n > 0 { lemma_cnt_range(p, n - 1); }
}
pub proof fn lemma_cnt_none(p: spec_fn(int) -> bool, a: int, b: int)
    requires 0 <= a <= b, forall|j: int| a <= j < b ==> !#[trigger] p(j)
    ensures cnt(p, b) == cnt(p, a)
    decreases b - a
{
    if a < b { lemma_cnt_none(p, a, b - 1); }
}
pub proof fn lemma_cnt_same(p: spec_fn(int) -> bool, q: spec_fn(int) -> bool, n: int)
    requires forall|j: int| 0 <= j < n ==> #[trigger] p(j) == q(j)
    ensures cnt(p, n) == cnt(q, n)
    decreases n
{
    if n > 0 { lemma_cnt_same(p, q, n - 1); }
}
pub proof fn lemma_cnt_all(p: spec_fn(int) -> bool, n: int)
    requires n >= 0, forall|j: int| 0 <= j < n ==> #[trigger] p(j)
    ensures cnt(p, n) == n
    decreases n
{
    if n > 0 { lemma_cnt_all(p, n - 1); }
}
/// Some element satisfies p exactly if the count is positive.
pub proof fn lemma_cnt_pos(p: spec_fn(int) -> bool, n: int)
    requires n >= 0
    ensures (cnt(p, n) > 0) == exists|j: int| 0 <= j < n && #[trigger] p(j)
    decreases n
{
    if n > 0 {
        lemma_cnt_pos(p, n - 1);
        lemma_cnt_range(p, n - 1);
        if p(n - 1) { }
        else if exists|j: int| 0 <= j < n && #[trigger] p(j) {
            let j = choose|j: int| 0 <= j < n && #[trigger] p(j);
            assert(0 <= j < n - 1 && p(j));
        }
    }
}
pub proof fn lemma_cnt_not(p: spec_fn(int) -> bool, q: spec_fn(int) -> bool, n: int)
    requires n >= 0, forall|j: int| 0 <= j < n ==> #[trigger] p(j) == !q(j)
    ensures cnt(p, n) == n - cnt(q, n)
    decreases n
{
    if n > 0 { lemma_cnt_not(p, q, n - 1); }
}
// ---- the volume of a box is the number of in-block indexes in it ------------------------
pub open spec fn clamp(v: int, lo: int, hi: int) -> int { if v < lo { lo } else if v > hi { hi } else { v } }
/// Indexes of the box below x + 16 y + 256 z.
pub open spec fn below(a: Area, x: int, y: int, z: int) -> int {
    (a.dx() * a.dy()) * clamp(z - a.min.z, 0, a.dz())
        + (if a.min.z <= z <= a.max.z {
            a.dx() * clamp(y - a.min.y, 0, a.dy()) + (if a.min.y <= y <= a.max.y { clamp(x - a.min.x, 0, a.dx()) } else { 0 })
        } else { 0 })
}
pub proof fn lemma_step_x(a: Area, x: int, y: int, z: int)
    requires a.valid(), a.within(0, 15), 0 <= x < 15, 0 <= y < 16, 0 <= z < 16
    ensures below(a, x + 1, y, z) == below(a, x, y, z) + (if a.has(x, y, z) { 1int } else { 0 })
{
}
pub proof fn lemma_step_y(a: Area, y: int, z: int)
    requires a.valid(), a.within(0, 15), 0 <= y < 15, 0 <= z < 16
    ensures below(a, 0, y + 1, z) == below(a, 15, y, z) + (if a.has(15, y, z) { 1int } else { 0 })
{
    let (dx, dy) = (a.dx(), a.dy());
    let (p, q) = (clamp(y + 1 - a.min.y, 0, dy), clamp(y - a.min.y, 0, dy));
    assert(clamp(0 - a.min.x, 0, dx) == 0);
    assert(dx * (q + 1) == dx * q + dx) by (nonlinear_arith);
    if a.min.y <= y <= a.max.y { assert(p == q + 1); assert(dx * p == dx * q + dx); } else { assert(p == q); }
}
pub proof fn lemma_step_z(a: Area, z: int)
    requires a.valid(), a.within(0, 15), 0 <= z < 16
    ensures below(a, 0, 0, z + 1) == below(a, 15, 15, z) + (if a.has(15, 15, z) { 1int } else { 0 })
{
    let (dx, dy, dz) = (a.dx(), a.dy(), a.dz());
    let w = dx * dy;
    let (p, q) = (clamp(z + 1 - a.min.z, 0, dz), clamp(z - a.min.z, 0, dz));
    assert(w * (q + 1) == w * q + w) by (nonlinear_arith);
    let r = clamp(15 - a.min.y, 0, dy);
    assert(dx * (r + 1) == dx * r + dx) by (nonlinear_arith);
    assert(clamp(0 - a.min.y, 0, dy) == 0 && clamp(0 - a.min.x, 0, dx) == 0);
    assert(dx * 0 == 0) by (nonlinear_arith);
    if a.max.y == 15 { assert(r == dy - 1); assert(dx * dy == dx * r + dx); } else { assert(r == dy); }
    if a.min.z <= z <= a.max.z { assert(p == q + 1); assert(w * p == w * q + w); } else { assert(p == q); }
}
pub proof fn lemma_below(a: Area, n: int)
    requires a.valid(), a.within(0, 15), 0 <= n <= 4096
    ensures cnt(|i: int| inbox(a, i), n) == below(a, n % 16, (n / 16) % 16, n / 256)
    decreases n
{
    hide(below);
    let f = |i: int| inbox(a, i);
    if n == 0 {
        lemma_below_zero(a);
    } else {
        lemma_below(a, n - 1);
        let m = n - 1;
        let (x, y, z) = (m % 16, (m / 16) % 16, m / 256);
        assert(m == x + 16 * y + 256 * z && 0 <= x < 16 && 0 <= y < 16 && 0 <= z < 16);
        assert(f(m) == a.has(x, y, z));
        if x < 15 {
            assert(n % 16 == x + 1 && (n / 16) % 16 == y && n / 256 == z);
            lemma_step_x(a, x, y, z);
        } else if y < 15 {
            assert(n % 16 == 0 && (n / 16) % 16 == y + 1 && n / 256 == z);
            lemma_step_y(a, y, z);
        } else {
            assert(n % 16 == 0 && (n / 16) % 16 == 0 && n / 256 == z + 1);
            lemma_step_z(a, z);
        }
    }
}
pub proof fn lemma_below_zero(a: Area)
    requires a.valid(), a.within(0, 15)
    ensures below(a, 0, 0, 0) == 0
{
    let (dx, dy, dz) = (a.dx(), a.dy(), a.dz());
    assert(clamp(0 - a.min.z, 0, dz) == 0 && clamp(0 - a.min.y, 0, dy) == 0 && clamp(0 - a.min.x, 0, dx) == 0);
    assert((dx * dy) * 0 == 0 && dx * 0 == 0) by (nonlinear_arith);
}
pub proof fn lemma_volume(a: Area)
    requires a.valid(), a.within(0, 15)
    ensures cnt(|i: int| inbox(a, i), 4096) == a.vol(), 0 <= a.vol() <= 4096
{
    lemma_below(a, 4096);
    lemma_cnt_range(|i: int| inbox(a, i), 4096);
    assert(clamp(16 - a.min.z, 0, a.dz()) == a.dz());
}
>>>
