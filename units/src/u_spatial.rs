#![allow(dead_code, unused_imports, unused_macros)]
include!("mods.rs");
#[path = "common.rs"]
mod common;
use common::*;
use spatial::*;
use vharness::gen::Rng;

fn v(a: [i32; 3]) -> Vec3 {
    Vec3::new(a[0], a[1], a[2])
}
fn arr(a: Vec3) -> [i32; 3] {
    [a.x, a.y, a.z]
}
fn c01(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for k in 0..4096u16 {
        let p = quiet(|| Vec3::from_u16_key(k));
        let want = [(k % 16) as i32, (k / 16 % 16) as i32, (k / 256) as i32];
        c.count(Some(hash(("u16", k))), || format!("from_u16_key({})", k));
        match p {
            Ok(p) if arr(p) == want => {}
            Ok(p) => c.fail(format!("from_u16_key({}) = {:?}, expected {:?}", k, arr(p), want)),
            Err(e) => c.fail(format!("from_u16_key({}) panics: {}", k, e)),
        }
    }
    let edge = [-2048, -2047, -1938, -1937, -129, -128, -1, 0, 1, 15, 16, 127, 128, 1937, 2046, 2047];
    let out = [-2049, 2048, 2049, -4096, 4096, i32::MIN, i32::MAX, 65536, -65536];
    let mut n = 0usize;
    while c.left() && n < 3_000_000 {
        let mut p = [0; 3];
        for i in 0..3 {
            p[i] = if n < 4096 { edge[(n >> (4 * i)) & 15] } else if r.chance(1, 2) { *r.pick(&edge) } else { r.range(-2048, 2047) };
        }
        let mut oob = false;
        if n >= 4096 && r.chance(1, 8) {
            p[r.below(3)] = *r.pick(&out);
            oob = true;
        }
        n += 1;
        let got = quiet(|| v(p).to_block_key());
        c.count(Some(hash(p)), || format!("to_block_key({:?})", p));
        if oob {
            if let Ok(k) = got {
                c.fail(format!("to_block_key({:?}) is out of range but was packed to {}", p, k));
            }
            continue;
        }
        let want = p[0] as i64 + 4096 * p[1] as i64 + 4096 * 4096 * p[2] as i64;
        match got {
            Ok(k) if k == want => {}
            g => c.fail(format!("to_block_key({:?}) = {:?}, expected {}", p, g, want)),
        }
        match quiet(|| Vec3::from_block_key(want)) {
            Ok(q) if arr(q) == p => {}
            g => c.fail(format!("from_block_key({}) = {:?}, expected {:?}", want, g.map(arr), p)),
        }
    }
}
type A = ([i32; 3], [i32; 3]);
fn mk(a: A) -> Area {
    Area { min: v(a.0), max: v(a.1) }
}
fn un(a: Area) -> A {
    (arr(a.min), arr(a.max))
}
/// intersection of integer boxes by definition; None when empty
fn inter(a: A, b: A) -> Option<A> {
    let mut r = a;
    for i in 0..3 {
        r.0[i] = if a.0[i] > b.0[i] { a.0[i] } else { b.0[i] };
        r.1[i] = if a.1[i] < b.1[i] { a.1[i] } else { b.1[i] };
        if r.0[i] > r.1[i] {
            return None;
        }
    }
    Some(r)
}
fn blockbox(b: [i32; 3]) -> A {
    let f = |k: i32| [b[0] * 16 + k, b[1] * 16 + k, b[2] * 16 + k];
    (f(0), f(15))
}
fn sub(a: A, o: [i32; 3]) -> A {
    let f = |x: [i32; 3]| [x[0] - o[0], x[1] - o[1], x[2] - o[2]];
    (f(a.0), f(a.1))
}
fn c02(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 2);
    let mut n = 0;
    while c.left() && n < 2_000_000 {
        n += 1;
        let big = r.chance(1, 3);
        let mut a: A = ([0; 3], [0; 3]);
        let mut b = [0; 3];
        for i in 0..3 {
            b[i] = if big { *r.pick(&[-3938, -1938, -1937, 1936, 1937, 3937, 0, -1]) + r.range(-1, 1) } else { r.range(-3, 3) };
            let base = b[i] * 16;
            let e = |r: &mut Rng| *r.pick(&[-33, -32, -31, -17, -16, -15, -1, 0, 1, 5, 14, 15, 16, 17, 30, 31, 32, 33, 47, 48]);
            let (x, y) = if r.chance(1, 10) { (-62000 - r.range(0, 31000), 62000 + r.range(0, 31000)) } else { (base + e(&mut r), base + e(&mut r)) };
            a.0[i] = x.min(y);
            a.1[i] = x.max(y);
        }
        c.count(Some(hash((a, b))), || format!("area {:?} block {:?}", a, b));
        let bb = blockbox(b);
        let ov = inter(a, bb);
        let res = quiet(|| {
            let ar = mk(a);
            let bp = v(b);
            let mut bad: Vec<String> = vec![];
            let mut chk = |name: &str, ok: bool, got: String| {
                if !ok {
                    bad.push(format!("{} = {}", name, got));
                }
            };
            chk("is_valid", ar.is_valid(), "false".into());
            let g = ar.contains_block(bp);
            chk("contains_block", g == (ov == Some(bb)), g.to_string());
            let g = ar.touches_block(bp);
            chk("touches_block", g == ov.is_some(), g.to_string());
            let g = ar.abs_block_overlap(bp).map(un);
            chk("abs_block_overlap", g == ov, format!("{:?}", g));
            let g = ar.rel_block_overlap(bp).map(un);
            chk("rel_block_overlap", g == ov.map(|o| sub(o, bb.0)), format!("{:?}", g));
            let vol: i128 = (0..3).map(|i| (a.1[i] - a.0[i] + 1) as i128).product();
            if vol < 1 << 60 {
                let g = ar.volume();
                chk("volume", g as i128 == vol, g.to_string());
            }
            // contained / touching block sets, per axis by definition
            let g = ar.to_touching_block_area();
            for i in 0..3 {
                let (lo, hi) = (arr(g.min)[i], arr(g.max)[i]);
                let t = |k: i32| a.0[i] <= 16 * k + 15 && 16 * k <= a.1[i];
                chk("to_touching_block_area", t(lo) && !t(lo - 1) && t(hi) && !t(hi + 1), format!("{:?}", un(g)));
            }
            let g = ar.to_contained_block_area();
            let co: Vec<Option<(i32, i32)>> = (0..3).map(|i| {
                // smallest k with 16k >= min, largest k with 16k+15 <= max
                let mut lo = a.0[i] / 16 - 2;
                while 16 * lo < a.0[i] { lo += 1 }
                let mut hi = a.1[i] / 16 + 2;
                while 16 * hi + 15 > a.1[i] { hi -= 1 }
                if lo <= hi { Some((lo, hi)) } else { None }
            }).collect();
            match g {
                None => chk("to_contained_block_area", co.iter().any(|x| x.is_none()), "None".into()),
                Some(g) => {
                    let ok = (0..3).all(|i| co[i] == Some((arr(g.min)[i], arr(g.max)[i])));
                    chk("to_contained_block_area", ok, format!("{:?}", un(g)));
                }
            }
            // position tests at the corners
            for k in 0..8 {
                for d in [-1, 0, 1] {
                    let p = [0, 1, 2].map(|i| if k >> i & 1 == 0 { a.0[i] + d } else { a.1[i] - d });
                    let want = (0..3).all(|i| a.0[i] <= p[i] && p[i] <= a.1[i]);
                    chk("contains", ar.contains(v(p)) == want, format!("{} at {:?}", !want, p));
                    // one axis only
                    for j in 0..3 {
                        let mut q = [0, 1, 2].map(|i| a.0[i]);
                        q[j] = p[j];
                        let want = (0..3).all(|i| a.0[i] <= q[i] && q[i] <= a.1[i]);
                        chk("contains", ar.contains(v(q)) == want, format!("{} at {:?}", !want, q));
                    }
                }
            }
            let o: A = (b.map(|x| x * 16 - 5), b.map(|x| x * 16 + 20));
            let g = ar.intersection(mk(o)).map(un);
            chk("intersection", g == inter(a, o), format!("{:?} with {:?}", g, o));
            let g = mk(o).intersection(ar).map(un);
            chk("intersection", g == inter(a, o), format!("{:?} with {:?}", g, o));
            let mut p = a.0;
            let mut q = a.1;
            for i in 0..3 {
                if (n >> i) & 1 == 1 {
                    std::mem::swap(&mut p[i], &mut q[i]);
                }
            }
            let g = un(Area::from_unsorted(v(p), v(q)));
            chk("from_unsorted", g == a, format!("{:?} for {:?} {:?}", g, p, q));
            let g = un(ar + v([1, -2, 3]));
            chk("area + vector", g == sub(a, [-1, 2, -3]), format!("{:?}", g));
            let g = un(ar - v([1, -2, 3]));
            chk("area - vector", g == sub(a, [1, -2, 3]), format!("{:?}", g));
            bad
        });
        match res {
            Ok(b) if b.is_empty() => {}
            Ok(x) => c.fail(format!("area {:?}, block {:?}: {}", a, b, x.join("; "))),
            Err(e) => c.fail(format!("area {:?}, block {:?}: panic: {}", a, b, e)),
        }
    }
}
fn c03(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 3);
    let mut n = 0;
    while c.left() && n < 60_000 {
        n += 1;
        let mut a: A = ([0; 3], [0; 3]);
        for i in 0..3 {
            let (x, y) = if r.chance(1, 2) { (r.range(0, 15), r.range(0, 15)) } else { (*r.pick(&[0, 15, 1, 14]), *r.pick(&[0, 15, 1, 14])) };
            a.0[i] = x.min(y);
            a.1[i] = x.max(y);
        }
        c.count(Some(hash(a)), || format!("box {:?}", a));
        let res = quiet(|| {
            let mut it = InverseBlockIterator::new(mk(a));
            let mut bad = None;
            for i in 0..4096usize {
                let p = [(i % 16) as i32, (i / 16 % 16) as i32, (i / 256) as i32];
                if (0..3).all(|j| a.0[j] <= p[j] && p[j] <= a.1[j]) {
                    continue;
                }
                let g = it.next();
                if g != Some(i) {
                    bad = Some(format!("complement of {:?}: {:?} instead of {}", a, g, i));
                    break;
                }
            }
            if bad.is_none() {
                for _ in 0..3 {
                    let g = it.next();
                    if g.is_some() {
                        bad = Some(format!("complement of {:?}: {:?} after the end", a, g));
                    }
                }
            }
            bad
        });
        match res {
            Ok(None) => {}
            Ok(Some(m)) => c.fail(m),
            Err(e) => c.fail(format!("complement of {:?}: panic {}", a, e)),
        }
        if n % 4 == 0 {
            let o = [r.range(-40, 40), r.range(-31000, 31000), r.range(-3, 3)];
            let lo = [0, 1, 2].map(|i| a.0[i] + o[i]);
            let hi = [0, 1, 2].map(|i| a.1[i] + o[i]);
            let res = quiet(|| {
                let ar = mk((lo, hi));
                let mut it = (&ar).into_iter();
                for z in lo[2]..=hi[2] {
                    for y in lo[1]..=hi[1] {
                        for x in lo[0]..=hi[0] {
                            let g = it.next().map(arr);
                            if g != Some([x, y, z]) {
                                return Some(format!("iteration of {:?}: {:?} instead of {:?}", (lo, hi), g, [x, y, z]));
                            }
                        }
                    }
                }
                for _ in 0..3 {
                    if let Some(g) = it.next() {
                        return Some(format!("iteration of {:?}: {:?} after the end", (lo, hi), arr(g)));
                    }
                }
                None
            });
            match res {
                Ok(None) => {}
                Ok(Some(m)) => c.fail(m),
                Err(e) => c.fail(format!("iteration of {:?}: panic {}", (lo, hi), e)),
            }
        }
    }
}
fn main() {
    let mut c = Ctx::new();
    match c.prop.as_str() {
        "C01" => c01(&mut c),
        "C02" => c02(&mut c),
        _ => c03(&mut c),
    }
    c.finish()
}
