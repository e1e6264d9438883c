module vec3 spatial/vec3.rs
const MAP_LIMIT
struct Vec3 derive=copy
raw <<<
impl Vec3 {
    pub open spec fn fits(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }
    pub open spec fn v(x: int, y: int, z: int) -> Vec3 { Vec3 { x: x as i32, y: y as i32, z: z as i32 } }
    pub open spec fn in_key_range(self) -> bool {
        -2048 <= self.x < 2048 && -2048 <= self.y < 2048 && -2048 <= self.z < 2048
    }
    /// The database key of a block position.
    pub open spec fn key(self) -> int { self.x + 4096 * self.y + 16777216 * self.z }
    pub open spec fn within(self, lo: int, hi: int) -> bool {
        lo <= self.x <= hi && lo <= self.y <= hi && lo <= self.z <= hi
    }
}
/// Keys of blocks: the range packing produces.
pub open spec fn key_ok(k: int) -> bool {
    -(2048 + 4096 * 2048 + 4096 * 4096 * 2048) <= k <= 2047 + 4096 * 2047 + 4096 * 4096 * 2047
}
/// Unpacking, as the inverse of `Vec3::key` (proved in C01 lemmas).
pub open spec fn unkey(k: int) -> Vec3 {
    let x = (k + 2048) % 4096 - 2048;
    let rem = (k - x) / 4096;
    let y = (rem + 2048) % 4096 - 2048;
    let z = (rem - y) / 4096;
    Vec3 { x: x as i32, y: y as i32, z: z as i32 }
}
pub proof fn lemma_pack_unpack(p: Vec3)
    requires p.in_key_range()
    ensures unkey(p.key()) == p, key_ok(p.key())
{
    let k = p.key();
    assert((k + 2048) % 4096 == p.x + 2048) by (nonlinear_arith)
        requires k == p.x + 4096 * p.y + 16777216 * p.z, 0 <= p.x + 2048 < 4096;
    assert((k - p.x) / 4096 == p.y + 4096 * p.z) by (nonlinear_arith)
        requires k == p.x + 4096 * p.y + 16777216 * p.z;
    assert((p.y + 4096 * p.z + 2048) % 4096 == p.y + 2048) by (nonlinear_arith)
        requires 0 <= p.y + 2048 < 4096;
}
pub proof fn lemma_unpack_pack(k: int)
    requires key_ok(k)
    ensures unkey(k).in_key_range(), unkey(k).key() == k
{
    let x = (k + 2048) % 4096 - 2048;
    let rem = (k - x) / 4096;
    let y = (rem + 2048) % 4096 - 2048;
    let z = (rem - y) / 4096;
    assert((k - x) % 4096 == 0);
    assert(k == x + 4096 * rem);
    assert((rem - y) % 4096 == 0);
    assert(rem == y + 4096 * z);
    assert(-2048 <= z <= 2047);
}
/// Packing is injective, and unpacking finds the one position that packs to a key.
pub proof fn lemma_pack_injective(p: Vec3, q: Vec3)
    requires p.in_key_range(), q.in_key_range(), p.key() == q.key()
    ensures p == q
{
    lemma_pack_unpack(p);
    lemma_pack_unpack(q);
}
/// The position an in-block index denotes.
pub open spec fn idx_pos(i: int) -> Vec3 {
    Vec3 { x: (i % 16) as i32, y: ((i / 16) % 16) as i32, z: ((i / 256) % 16) as i32 }
}
pub open spec fn pos_idx(p: Vec3) -> int { p.x + 16 * p.y + 256 * p.z }
pub proof fn lemma_idx_pos(i: int)
    requires 0 <= i < 4096
    ensures pos_idx(idx_pos(i)) == i, idx_pos(i).within(0, 15)
{
}
pub proof fn lemma_pos_idx(p: Vec3)
    requires p.within(0, 15)
    ensures idx_pos(pos_idx(p)) == p, 0 <= pos_idx(p) < 4096
{
}
impl vstd::std_specs::ops::AddSpecImpl<Vec3> for Vec3 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Vec3) -> bool { Vec3::fits(self.x + o.x) && Vec3::fits(self.y + o.y) && Vec3::fits(self.z + o.z) }
    open spec fn add_spec(self, o: Vec3) -> Vec3 { Vec3::v(self.x + o.x, self.y + o.y, self.z + o.z) }
}
impl vstd::std_specs::ops::AddSpecImpl<i32> for Vec3 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: i32) -> bool { Vec3::fits(self.x + o) && Vec3::fits(self.y + o) && Vec3::fits(self.z + o) }
    open spec fn add_spec(self, o: i32) -> Vec3 { Vec3::v(self.x + o, self.y + o, self.z + o) }
}
impl vstd::std_specs::ops::SubSpecImpl<Vec3> for Vec3 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Vec3) -> bool { Vec3::fits(self.x - o.x) && Vec3::fits(self.y - o.y) && Vec3::fits(self.z - o.z) }
    open spec fn sub_spec(self, o: Vec3) -> Vec3 { Vec3::v(self.x - o.x, self.y - o.y, self.z - o.z) }
}
impl vstd::std_specs::ops::SubSpecImpl<i32> for Vec3 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: i32) -> bool { Vec3::fits(self.x - o) && Vec3::fits(self.y - o) && Vec3::fits(self.z - o) }
    open spec fn sub_spec(self, o: i32) -> Vec3 { Vec3::v(self.x - o, self.y - o, self.z - o) }
}
impl vstd::std_specs::ops::MulSpecImpl<Vec3> for Vec3 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Vec3) -> bool { Vec3::fits(self.x * o.x) && Vec3::fits(self.y * o.y) && Vec3::fits(self.z * o.z) }
    open spec fn mul_spec(self, o: Vec3) -> Vec3 { Vec3::v(self.x * o.x, self.y * o.y, self.z * o.z) }
}
impl vstd::std_specs::ops::MulSpecImpl<i32> for Vec3 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: i32) -> bool { Vec3::fits(self.x * o) && Vec3::fits(self.y * o) && Vec3::fits(self.z * o) }
    open spec fn mul_spec(self, o: i32) -> Vec3 { Vec3::v(self.x * o, self.y * o, self.z * o) }
}
>>>
fn Vec3::new
spec <<<
    ensures r == (Vec3 { x, y, z })
>>>
fn Vec3::from_block_key
spec <<<
    requires key_ok(key as int)
    ensures r == unkey(key as int), r.in_key_range(), r.key() == key
>>>
entry <<<
    proof { lemma_unpack_pack(key as int); }
>>>
fn Vec3::to_block_key
spec <<<
    requires self.in_key_range()
    ensures r == self.key(), key_ok(r as int), unkey(r as int) == *self
>>>
entry <<<
    proof { lemma_pack_unpack(*self); }
>>>
fn Vec3::to_block_key as=to_block_key_refusing assert=refuse
spec <<<
    ensures self.in_key_range(), r == self.key()
>>>
fn Vec3::from_u16_key
spec <<<
    ensures r == idx_pos(key as int), r.within(0, 15), key < 4096 ==> pos_idx(r) == key
>>>
entry <<<
    proof {
        assert((key & 0xF) == key % 16) by (bit_vector);
        assert(((key >> 4) & 0xF) == (key / 16) % 16) by (bit_vector);
        assert(((key >> 8) & 0xF) == (key / 256) % 16) by (bit_vector);
    }
>>>
fn Vec3::is_valid_block_pos
spec <<<
    ensures r == self.within(-1937, 1937)
>>>
fn Vec3::is_valid_node_pos
spec <<<
    ensures r == self.within(-31000, 31000)
>>>
fn Vec3::map
spec <<<
    requires forall|i: i32| call_requires(func, (i,))
    ensures call_ensures(func, (self.x,), r.x), call_ensures(func, (self.y,), r.y), call_ensures(func, (self.z,), r.z)
>>>
fn Vec3::add@Add<Self> keep_trait
fn Vec3::add@Add<i32> keep_trait
fn Vec3::sub@Sub<Self> keep_trait
fn Vec3::sub@Sub<i32> keep_trait
fn Vec3::mul@Mul<Self> keep_trait
fn Vec3::mul@Mul<i32> keep_trait

module area spatial/area.rs
struct AreaIterator
struct Area derive=copy
raw <<<
impl Area {
    pub open spec fn valid(self) -> bool { self.min.x <= self.max.x && self.min.y <= self.max.y && self.min.z <= self.max.z }
    /// Set semantics: the integer position is in the box.
    pub open spec fn has(self, x: int, y: int, z: int) -> bool {
        self.min.x <= x <= self.max.x && self.min.y <= y <= self.max.y && self.min.z <= z <= self.max.z
    }
    pub open spec fn hasv(self, p: Vec3) -> bool { self.has(p.x as int, p.y as int, p.z as int) }
    pub open spec fn within(self, lo: int, hi: int) -> bool { self.min.within(lo, hi) && self.max.within(lo, hi) }
    pub open spec fn dx(self) -> int { self.max.x - self.min.x + 1 }
    pub open spec fn dy(self) -> int { self.max.y - self.min.y + 1 }
    pub open spec fn dz(self) -> int { self.max.z - self.min.z + 1 }
    pub open spec fn vol(self) -> int { self.dx() * self.dy() * self.dz() }
    /// Every node of the block is in the area / some node of the block is.
    pub open spec fn covers(self, b: Vec3) -> bool {
        forall|x: int, y: int, z: int| in_block(b, x, y, z) ==> #[trigger] self.has(x, y, z)
    }
    pub open spec fn meets(self, b: Vec3) -> bool {
        exists|x: int, y: int, z: int| in_block(b, x, y, z) && #[trigger] self.has(x, y, z)
    }
    /// The same, as comparisons of corners.
    pub open spec fn covers_c(self, b: Vec3) -> bool {
        self.min.x <= 16 * b.x && 16 * b.x + 15 <= self.max.x
            && self.min.y <= 16 * b.y && 16 * b.y + 15 <= self.max.y
            && self.min.z <= 16 * b.z && 16 * b.z + 15 <= self.max.z
    }
    pub open spec fn meets_c(self, b: Vec3) -> bool {
        self.min.x <= 16 * b.x + 15 && 16 * b.x <= self.max.x
            && self.min.y <= 16 * b.y + 15 && 16 * b.y <= self.max.y
            && self.min.z <= 16 * b.z + 15 && 16 * b.z <= self.max.z
    }
}
/// The node (x, y, z) belongs to block b.
pub open spec fn in_block(b: Vec3, x: int, y: int, z: int) -> bool {
    16 * b.x <= x <= 16 * b.x + 15 && 16 * b.y <= y <= 16 * b.y + 15 && 16 * b.z <= z <= 16 * b.z + 15
}
pub open spec fn block_small(b: Vec3) -> bool { b.within(-0x800_0000, 0x7ff_ffff) }
pub proof fn lemma_covers(a: Area, b: Vec3)
    ensures a.covers(b) == a.covers_c(b)
{
    let (x, y, z) = (16 * b.x, 16 * b.y, 16 * b.z);
    if a.covers(b) {
        assert(a.has(x, y, z));
        assert(a.has(x + 15, y + 15, z + 15));
    }
}
pub proof fn lemma_meets(a: Area, b: Vec3)
    requires a.valid()
    ensures a.meets(b) == a.meets_c(b)
{
    let x = imax(16 * b.x, a.min.x as int);
    let y = imax(16 * b.y, a.min.y as int);
    let z = imax(16 * b.z, a.min.z as int);
    if a.meets_c(b) {
        assert(a.has(x, y, z) && in_block(b, x, y, z));
    }
}
// ---- iteration order ----------------------------------------------------------
/// Number of positions of the box that come before p (x fastest, then y, then z).
pub open spec fn lin(a: Area, p: Vec3) -> int {
    ((p.z - a.min.z) * a.dy() + (p.y - a.min.y)) * a.dx() + (p.x - a.min.x)
}
/// p comes before q in x-fastest, then y, then z order.
pub open spec fn before(p: Vec3, q: Vec3) -> bool {
    p.z < q.z || (p.z == q.z && (p.y < q.y || (p.y == q.y && p.x < q.x)))
}
pub proof fn lemma_lin_range(a: Area, p: Vec3)
    requires a.valid(), a.hasv(p)
    ensures 0 <= lin(a, p) < a.vol()
{
    let (x, y, z) = (p.x - a.min.x, p.y - a.min.y, p.z - a.min.z);
    let (dx, dy, dz) = (a.dx(), a.dy(), a.dz());
    assert(0 <= z * dy + y < dz * dy) by (nonlinear_arith)
        requires 0 <= z < dz, 0 <= y < dy;
    let w = z * dy + y;
    assert(0 <= w * dx + x < dz * dy * dx) by (nonlinear_arith)
        requires 0 <= w < dz * dy, 0 <= x < dx;
    assert(dz * dy * dx == dx * dy * dz) by (nonlinear_arith);
}
pub proof fn lemma_lin_order(a: Area, p: Vec3, q: Vec3)
    requires a.valid(), a.hasv(p), a.hasv(q), before(p, q)
    ensures lin(a, p) < lin(a, q)
{
    let (dx, dy) = (a.dx(), a.dy());
    let (x1, y1, z1) = (p.x - a.min.x, p.y - a.min.y, p.z - a.min.z);
    let (x2, y2, z2) = (q.x - a.min.x, q.y - a.min.y, q.z - a.min.z);
    let w1 = z1 * dy + y1;
    let w2 = z2 * dy + y2;
    if z1 < z2 {
        assert(w1 < w2) by (nonlinear_arith)
            requires z1 < z2, 0 <= y1 < dy, 0 <= y2 < dy, w1 == z1 * dy + y1, w2 == z2 * dy + y2;
    }
    if w1 < w2 {
        assert(w1 * dx + x1 < w2 * dx + x2) by (nonlinear_arith)
            requires w1 < w2, 0 <= x1 < dx, 0 <= x2 < dx;
    }
}
/// No two positions of the box have the same number: with lemma_lin_surjective,
/// `vol` is the number of positions in the box.
pub proof fn lemma_lin_injective(a: Area, p: Vec3, q: Vec3)
    requires a.valid(), a.hasv(p), a.hasv(q), lin(a, p) == lin(a, q)
    ensures p == q
{
    if before(p, q) { lemma_lin_order(a, p, q); }
    if before(q, p) { lemma_lin_order(a, q, p); }
}
pub open spec fn unlin(a: Area, n: int) -> Vec3 {
    Vec3 {
        x: (a.min.x + n % a.dx()) as i32,
        y: (a.min.y + (n / a.dx()) % a.dy()) as i32,
        z: (a.min.z + (n / a.dx()) / a.dy()) as i32,
    }
}
pub proof fn lemma_lin_surjective(a: Area, n: int)
    requires a.valid(), 0 <= n < a.vol()
    ensures a.hasv(unlin(a, n)), lin(a, unlin(a, n)) == n
{
    let (dx, dy, dz) = (a.dx(), a.dy(), a.dz());
    let m = n / dx;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, dx);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, dy);
    vstd::arithmetic::div_mod::lemma_mod_bound(n, dx);
    vstd::arithmetic::div_mod::lemma_mod_bound(m, dy);
    let (x, y, z) = (n % dx, m % dy, m / dy);
    assert(n == m * dx + x) by (nonlinear_arith) requires n == dx * m + x;
    assert(m == z * dy + y) by (nonlinear_arith) requires m == dy * z + y;
    assert(m >= 0) by (nonlinear_arith) requires n == m * dx + x, n >= 0, 0 <= x < dx;
    assert(m < dy * dz) by (nonlinear_arith)
        requires n == m * dx + x, n < dx * dy * dz, 0 <= x < dx, dx > 0;
    assert(0 <= z < dz) by (nonlinear_arith)
        requires m == z * dy + y, 0 <= m < dy * dz, 0 <= y < dy, dy > 0;
}
/// The position yielded after p: x fastest, then y, then z.
pub open spec fn succ(a: Area, p: Vec3) -> Vec3 {
    if p.x < a.max.x { Vec3::v(p.x + 1, p.y as int, p.z as int) }
    else if p.y < a.max.y { Vec3::v(a.min.x as int, p.y + 1, p.z as int) }
    else { Vec3::v(a.min.x as int, a.min.y as int, p.z + 1) }
}
impl AreaIterator {
    pub open spec fn area(self) -> Area { Area { min: self.min, max: self.max } }
    pub open spec fn bounded(self) -> bool {
        self.max.x < 0x7fff_ffff && self.max.y < 0x7fff_ffff && self.max.z < 0x7fff_ffff
    }
    pub open spec fn wf(self) -> bool {
        self.area().valid() && self.bounded()
            && self.min.x <= self.pos.x <= self.max.x && self.min.y <= self.pos.y <= self.max.y
            && self.min.z <= self.pos.z <= self.max.z + 1
            && (self.pos.z == self.max.z + 1 ==> self.pos.x == self.min.x && self.pos.y == self.min.y)
    }
    /// How many positions have been yielded.
    pub open spec fn done(self) -> int { lin(self.area(), self.pos) }
}
>>>
fn AreaIterator::new
spec <<<
    requires (Area { min, max }).valid(), max.within(-0x8000_0000, 0x7fff_fffe)
    ensures r.wf(), r.area() == (Area { min, max }), r.pos == min, r.done() == 0
>>>
entry <<<
    proof { let (dx, dy) = (max.x - min.x + 1, max.y - min.y + 1); assert((0 * dy + 0) * dx + 0 == 0) by (nonlinear_arith); }
>>>
fn AreaIterator::next@Iterator
spec <<<
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).area() == old(self).area(),
        // exactly the positions of the box, the n-th call the one numbered n
        match r {
            Some(p) => p == old(self).pos && old(self).area().hasv(p)
                && old(self).done() == lin(old(self).area(), p)
                && final(self).done() == old(self).done() + 1
                && old(self).done() < old(self).area().vol()
                && final(self).pos == succ(old(self).area(), p),
            None => old(self).done() == old(self).area().vol() && *final(self) == *old(self) && old(self).pos.z == old(self).max.z + 1,
        }
>>>
entry <<<
    proof {
        let a = self.area();
        let (dx, dy, dz) = (a.dx(), a.dy(), a.dz());
        let z = self.pos.z - a.min.z;
        let y = self.pos.y - a.min.y;
        if self.pos.z <= self.max.z { lemma_lin_range(a, self.pos); }
        assert((dz * dy + 0) * dx + 0 == dx * dy * dz) by (nonlinear_arith);
        assert((z * dy + y) * dx + dx == (z * dy + y + 1) * dx) by (nonlinear_arith);
        assert(z * dy + (dy - 1) + 1 == (z + 1) * dy) by (nonlinear_arith);
    }
>>>
fn Area::is_valid
spec <<<
    ensures r == self.valid()
>>>
fn Area::new
spec <<<
    requires (Area { min, max }).valid()
    ensures r == (Area { min, max }), r.valid()
>>>
fn Area::new as=new_refusing assert=refuse
spec <<<
    ensures r == (Area { min, max }), r.valid()
>>>
fn Area::from_unsorted
spec <<<
    ensures
        r.valid(), r.hasv(a), r.hasv(b),
        // no smaller box contains both corners
        forall|s: Area| #[trigger] s.hasv(a) && s.hasv(b) ==>
            forall|x: int, y: int, z: int| r.has(x, y, z) ==> s.has(x, y, z)
>>>
fn Area::volume
spec <<<
    requires self.valid(), self.dx() <= 0x20_0000, self.dy() <= 0x20_0000, self.dz() <= 0x20_0000
    ensures r == self.vol()
>>>
entry <<<
    proof {
        let (dx, dy, dz) = (self.dx(), self.dy(), self.dz());
        assert(0 <= dx * dy <= 0x20_0000 * 0x20_0000) by (nonlinear_arith) requires 0 <= dx <= 0x20_0000, 0 <= dy <= 0x20_0000;
        assert(0 <= (dx * dy) * dz <= 0x20_0000 * 0x20_0000 * 0x20_0000) by (nonlinear_arith) requires 0 <= dx * dy <= 0x20_0000 * 0x20_0000, 0 <= dz <= 0x20_0000;
    }
>>>
fn Area::intersection
spec <<<
    ensures
        match r {
            Some(i) => i.valid() && forall|x: int, y: int, z: int| #[trigger] i.has(x, y, z) == (self.has(x, y, z) && rhs.has(x, y, z)),
            None => forall|x: int, y: int, z: int| !(#[trigger] self.has(x, y, z) && rhs.has(x, y, z)),
        },
        r.is_some() == (imax(self.min.x as int, rhs.min.x as int) <= imin(self.max.x as int, rhs.max.x as int)
            && imax(self.min.y as int, rhs.min.y as int) <= imin(self.max.y as int, rhs.max.y as int)
            && imax(self.min.z as int, rhs.min.z as int) <= imin(self.max.z as int, rhs.max.z as int)),
        r matches Some(o) ==> o == (Area {
            min: Vec3::v(imax(self.min.x as int, rhs.min.x as int), imax(self.min.y as int, rhs.min.y as int), imax(self.min.z as int, rhs.min.z as int)),
            max: Vec3::v(imin(self.max.x as int, rhs.max.x as int), imin(self.max.y as int, rhs.max.y as int), imin(self.max.z as int, rhs.max.z as int)),
        })
>>>
fn Area::contains as=v_contains
spec <<<
    ensures r == self.hasv(pos)
>>>
fn Area::contains_block
spec <<<
    requires block_small(block_pos)
    ensures r == self.covers(block_pos), r == self.covers_c(block_pos)
>>>
entry <<<
    proof { lemma_covers(*self, block_pos); }
>>>
fn Area::touches_block
spec <<<
    requires block_small(block_pos), self.valid()
    ensures r == self.meets(block_pos), r == self.meets_c(block_pos)
>>>
entry <<<
    proof { lemma_meets(*self, block_pos); }
>>>
fn Area::to_contained_block_area
spec <<<
    requires self.within(-0x7fff_fff0, 0x7fff_fff0)
    ensures
        match r {
            Some(c) => c.valid() && c.within(-0x800_0000, 0x7ff_ffff)
                && forall|b: Vec3| #[trigger] c.hasv(b) == self.covers(b),
            None => forall|b: Vec3| !#[trigger] self.covers(b),
        }
>>>
entry <<<
    assert forall|b: Vec3| #[trigger] self.covers(b) == self.covers_c(b) by { lemma_covers(*self, b); }
>>>
fn Area::to_touching_block_area
spec <<<
    requires self.valid()
    ensures r.valid(), r.within(-0x800_0000, 0x7ff_ffff),
        forall|b: Vec3| #[trigger] r.hasv(b) == self.meets(b),
        forall|b: Vec3| #[trigger] r.hasv(b) == self.meets_c(b)
>>>
entry <<<
    assert forall|b: Vec3| #[trigger] self.meets(b) == self.meets_c(b) by { lemma_meets(*self, b); }
>>>
fn Area::abs_block_overlap
spec <<<
    requires block_small(block_pos)
    ensures
        match r {
            Some(o) => o.valid() && forall|x: int, y: int, z: int| #[trigger] o.has(x, y, z) == (self.has(x, y, z) && in_block(block_pos, x, y, z)),
            None => forall|x: int, y: int, z: int| !(#[trigger] self.has(x, y, z) && in_block(block_pos, x, y, z)),
        },
        self.valid() ==> r.is_some() == self.meets_c(block_pos),
        r matches Some(o) ==> o == (Area {
            min: Vec3::v(imax(self.min.x as int, 16 * block_pos.x), imax(self.min.y as int, 16 * block_pos.y), imax(self.min.z as int, 16 * block_pos.z)),
            max: Vec3::v(imin(self.max.x as int, 16 * block_pos.x + 15), imin(self.max.y as int, 16 * block_pos.y + 15), imin(self.max.z as int, 16 * block_pos.z + 15)),
        })
>>>
fn Area::rel_block_overlap
spec <<<
    requires
        block_small(block_pos),
        Vec3::fits(self.min.x - 16 * block_pos.x), Vec3::fits(self.min.y - 16 * block_pos.y), Vec3::fits(self.min.z - 16 * block_pos.z),
        Vec3::fits(self.max.x - 16 * block_pos.x), Vec3::fits(self.max.y - 16 * block_pos.y), Vec3::fits(self.max.z - 16 * block_pos.z),
    ensures
        match r {
            Some(o) => o.valid() && o.within(0, 15) && forall|x: int, y: int, z: int| #[trigger] o.has(x, y, z) ==
                (0 <= x <= 15 && 0 <= y <= 15 && 0 <= z <= 15 && self.has(x + 16 * block_pos.x, y + 16 * block_pos.y, z + 16 * block_pos.z)),
            None => forall|x: int, y: int, z: int| !(#[trigger] in_block(block_pos, x, y, z) && self.has(x, y, z)),
        },
        self.valid() ==> r.is_some() == self.meets_c(block_pos),
        r matches Some(o) ==> o == (Area {
            min: Vec3::v(imax(self.min.x - 16 * block_pos.x, 0), imax(self.min.y - 16 * block_pos.y, 0), imax(self.min.z - 16 * block_pos.z, 0)),
            max: Vec3::v(imin(self.max.x - 16 * block_pos.x, 15), imin(self.max.y - 16 * block_pos.y, 15), imin(self.max.z - 16 * block_pos.z, 15)),
        })
>>>
fn Area::into_iter@IntoIterator
spec <<<
    requires self.valid(), self.max.within(-0x8000_0000, 0x7fff_fffe)
    ensures r.wf(), r.area() == *self, r.pos == self.min, r.done() == 0
>>>
raw <<<
impl vstd::std_specs::ops::AddSpecImpl<Vec3> for Area {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Vec3) -> bool { vstd::std_specs::ops::AddSpec::<Vec3>::add_req(self.min, o) && vstd::std_specs::ops::AddSpec::<Vec3>::add_req(self.max, o) }
    open spec fn add_spec(self, o: Vec3) -> Area { Area { min: Vec3::v(self.min.x + o.x, self.min.y + o.y, self.min.z + o.z), max: Vec3::v(self.max.x + o.x, self.max.y + o.y, self.max.z + o.z) } }
}
impl vstd::std_specs::ops::SubSpecImpl<Vec3> for Area {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Vec3) -> bool { vstd::std_specs::ops::SubSpec::<Vec3>::sub_req(self.min, o) && vstd::std_specs::ops::SubSpec::<Vec3>::sub_req(self.max, o) }
    open spec fn sub_spec(self, o: Vec3) -> Area { Area { min: Vec3::v(self.min.x - o.x, self.min.y - o.y, self.min.z - o.z), max: Vec3::v(self.max.x - o.x, self.max.y - o.y, self.max.z - o.z) } }
}
>>>
fn Area::add@Add<Vec3> keep_trait
fn Area::sub@Sub<Vec3> keep_trait

module inv spatial/mod.rs
struct InverseBlockIterator
raw <<<
/// Index i of a block is in the box a (given relative to the block).
pub open spec fn inbox(a: Area, i: int) -> bool { a.has(i % 16, (i / 16) % 16, i / 256) }
/// The row of the box starting at p, and the gap after it up to the next row.
pub proof fn lemma_row(a: Area, p: Vec3, i: int)
    requires a.valid(), a.within(0, 15), a.hasv(p), p.x == a.min.x, pos_idx(p) <= i < 4096
    ensures
        i < pos_idx(p) + a.dx() ==> inbox(a, i),
        pos_idx(p) + a.dx() <= i && p.y < a.max.y && i < pos_idx(p) + 16 ==> !inbox(a, i),
        pos_idx(p) + a.dx() <= i && p.y == a.max.y && p.z < a.max.z
            && i < a.min.x + 16 * a.min.y + 256 * (p.z + 1) ==> !inbox(a, i),
        pos_idx(p) + a.dx() <= i && p.y == a.max.y && p.z == a.max.z ==> !inbox(a, i),
{
    let (x, y, z) = (i % 16, (i / 16) % 16, i / 256);
    assert(i == x + 16 * y + 256 * z && 0 <= x < 16 && 0 <= y < 16 && 0 <= z < 16);
}
pub proof fn lemma_rows(a: Area, p: Vec3)
    requires a.valid(), a.within(0, 15), a.hasv(p), p.x == a.min.x
    ensures
        pos_idx(p) + a.dx() <= 4096,
        forall|i: int| pos_idx(p) <= i < pos_idx(p) + a.dx() ==> #[trigger] inbox(a, i),
        forall|i: int| pos_idx(p) + a.dx() <= i < 4096 && p.y < a.max.y && i < pos_idx(p) + 16 ==> !#[trigger] inbox(a, i),
        forall|i: int| pos_idx(p) + a.dx() <= i < 4096 && p.y == a.max.y && p.z < a.max.z
            && i < a.min.x + 16 * a.min.y + 256 * (p.z + 1) ==> !#[trigger] inbox(a, i),
        forall|i: int| pos_idx(p) + a.dx() <= i < 4096 && p.y == a.max.y && p.z == a.max.z ==> !#[trigger] inbox(a, i),
{
    assert forall|i: int| pos_idx(p) <= i < 4096 implies
        (i < pos_idx(p) + a.dx() ==> #[trigger] inbox(a, i))
        && (pos_idx(p) + a.dx() <= i && p.y < a.max.y && i < pos_idx(p) + 16 ==> !inbox(a, i))
        && (pos_idx(p) + a.dx() <= i && p.y == a.max.y && p.z < a.max.z
            && i < a.min.x + 16 * a.min.y + 256 * (p.z + 1) ==> !inbox(a, i))
        && (pos_idx(p) + a.dx() <= i && p.y == a.max.y && p.z == a.max.z ==> !inbox(a, i))
    by { lemma_row(a, p, i); }
}
/// Nothing before the first row.
pub proof fn lemma_before_first(a: Area)
    requires a.valid(), a.within(0, 15)
    ensures forall|i: int| 0 <= i < pos_idx(a.min) ==> !#[trigger] inbox(a, i)
{
    assert forall|i: int| 0 <= i < pos_idx(a.min) implies !#[trigger] inbox(a, i) by {
        let (x, y, z) = (i % 16, (i / 16) % 16, i / 256);
        assert(i == x + 16 * y + 256 * z && 0 <= x < 16 && 0 <= y < 16 && 0 <= z < 16);
    }
}
impl InverseBlockIterator {
    pub open spec fn wf(self) -> bool {
        self.area.valid() && self.area.within(0, 15) && self.idx <= 4096
            && (self.can_skip ==> {
                &&& self.skip_len == self.area.dx()
                &&& self.skip_pos.x == self.area.min.x
                &&& self.area.hasv(self.skip_pos)
                &&& self.skip_idx == pos_idx(self.skip_pos)
                &&& self.idx <= self.skip_idx
                &&& forall|i: int| self.idx <= i < self.skip_idx ==> !#[trigger] inbox(self.area, i)
            })
            && (!self.can_skip ==> forall|i: int| self.idx <= i < 4096 ==> !#[trigger] inbox(self.area, i))
    }
}
>>>
fn InverseBlockIterator::new
spec <<<
    requires area.valid(), area.within(0, 15)
    ensures r.wf(), r.area == area, r.idx == 0
>>>
entry <<<
    proof { lemma_before_first(area); }
>>>
fn InverseBlockIterator::next@Iterator
spec <<<
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).area == old(self).area,
        match r {
            // the smallest remaining index outside the box
            Some(i) => old(self).idx <= i < 4096 && !inbox(old(self).area, i as int) && final(self).idx == i + 1
                && forall|j: int| old(self).idx <= j < i ==> #[trigger] inbox(old(self).area, j),
            None => final(self).idx == 4096 && forall|j: int| old(self).idx <= j < 4096 ==> #[trigger] inbox(old(self).area, j),
        }
>>>
loop 0 <<<
    invariant_except_break
        self.can_skip ==> {
            &&& self.skip_len == self.area.dx()
            &&& self.skip_pos.x == self.area.min.x
            &&& self.area.hasv(self.skip_pos)
            &&& self.skip_idx == pos_idx(self.skip_pos)
            &&& self.idx <= self.skip_idx
            &&& forall|i: int| self.idx <= i < self.skip_idx ==> !#[trigger] inbox(self.area, i)
        },
    invariant
        self.area == old(self).area, self.area.valid(), self.area.within(0, 15),
        old(self).idx <= self.idx <= 4096,
        forall|j: int| old(self).idx <= j < self.idx ==> #[trigger] inbox(self.area, j),
        !self.can_skip ==> forall|i: int| self.idx <= i < 4096 ==> !#[trigger] inbox(self.area, i),
    ensures
        self.can_skip ==> {
            &&& self.skip_len == self.area.dx()
            &&& self.skip_pos.x == self.area.min.x
            &&& self.area.hasv(self.skip_pos)
            &&& self.skip_idx == pos_idx(self.skip_pos)
            &&& self.idx < self.skip_idx
            &&& forall|i: int| self.idx <= i < self.skip_idx ==> !#[trigger] inbox(self.area, i)
        },
    decreases (if self.can_skip { 4096 - self.skip_idx } else { 0 }) as int
>>>
loop 0 head <<<
    proof { lemma_rows(self.area, self.skip_pos); }
>>>
raw <<<
/// The box moved by o.
pub open spec fn moved(a: Area, o: Vec3) -> Area { Area { min: Vec3::v(a.min.x + o.x, a.min.y + o.y, a.min.z + o.z), max: Vec3::v(a.max.x + o.x, a.max.y + o.y, a.max.z + o.z) } }
>>>
