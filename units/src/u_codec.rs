#![allow(dead_code, unused_imports, unused_macros)]
include!("mods.rs");
#[path = "common.rs"]
mod common;
use common::*;
use map_block::*;
use spatial::*;
use std::alloc::*;
use std::collections::BTreeMap;
use std::sync::atomic::*;
use vharness::codec::{self, Block, Meta, Obj, Timer};
use vharness::gen::*;

/// Largest single allocation request, to notice lengths trusted unchecked.
struct Peak;
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Peak {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        PEAK.fetch_max(l.size(), Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        PEAK.fetch_max(n, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Peak = Peak;

fn to_model(b: &MapBlock) -> Block {
    Block {
        version: b.version,
        flags: b.flags,
        lighting: b.lighting_complete,
        nodes: b.node_data.nodes.clone(),
        param1: b.node_data.param1.clone(),
        param2: b.node_data.param2.clone(),
        meta: b.metadata.iter().map(|(k, m)| (*k, Meta { vars: m.vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), inv: m.inv.clone() })).collect(),
        objects: b.static_objects.iter().map(|o| Obj { ty: o.obj_type, pos: [o.f_pos.x, o.f_pos.y, o.f_pos.z], data: o.data.clone() }).collect(),
        timestamp: b.timestamp,
        nimap: b.nimap.0.clone(),
        timers: b.node_timers.iter().map(|t| Timer { pos: t.pos, timeout: t.timeout, elapsed: t.elapsed }).collect(),
    }
}
fn hex(d: &[u8]) -> String {
    let s: String = d.iter().take(120).map(|b| format!("{:02x}", b)).collect();
    format!("{} bytes {}{}", d.len(), s, if d.len() > 120 { "..." } else { "" })
}
fn save(c: &Ctx, d: &[u8]) -> String {
    let p = c.rep.join(&c.prop);
    let _ = std::fs::create_dir_all(&p);
    let f = p.join("block.bin");
    let _ = std::fs::write(&f, d);
    f.to_str().unwrap().to_string()
}
fn opts(big: bool) -> Opts {
    Opts { dup_names: true, max_blocks: 1, undecodable: false, big }
}
fn edge_block(r: &mut Rng, i: usize) -> Block {
    let mut b = gen_block(r, [0, 0, 0], &opts(i % 3 == 0));
    b.version = *r.pick(&[25, 26, 27, 28, 29]);
    if b.version < 27 { b.lighting = 0xFFFF }
    if b.version < 28 {
        for m in b.meta.values_mut() { for v in m.vars.values_mut() { v.1 = false } }
    }
    let any = |b: &mut Block| -> u16 {
        let inv = b"EndInventory\n".to_vec();
        let k = b.meta.keys().next().cloned().unwrap_or(77);
        b.meta.entry(k).or_insert(Meta { inv, ..Default::default() });
        k
    };
    match i % 11 {
        0 => {
            let k = any(&mut b);
            let n = *r.pick(&[0usize, 1, 32767, 32768, 65535, 65536, 1 << 20]);
            let v = r.bytes(n);
            b.meta.get_mut(&k).unwrap().vars.insert(b"val".to_vec(), (v, b.version >= 28));
        }
        1 => {
            let k = any(&mut b);
            let n = *r.pick(&[0usize, 255, 256, 65535]);
            let v = r.bytes(n);
            b.meta.get_mut(&k).unwrap().vars.insert(v, (b"x".to_vec(), false));
        }
        2 => {
            let k = any(&mut b);
            let m = b.meta.get_mut(&k).unwrap();
            m.inv = if r.chance(1, 2) { b"List main 1\nItem a:b 1 0 ".to_vec() } else { b"List main 2\nItem a:EndInventory\nItem a:b 1 0 ".to_vec() };
            let n = *r.pick(&[100usize, 32768, 70000, 200000]);
            m.inv.extend(r.bytes(n).iter().map(|c| if *c == b'\n' { b'.' } else { *c }));
            m.inv.extend(b"\nEndInventoryList\nEndInventory\n");
        }
        3 => {
            // metadata entries with neither variables nor inventory
            for k in 0..r.below(5) as u16 {
                b.meta.insert(k * 700, Meta { inv: b"EndInventory\n".to_vec(), ..Default::default() });
            }
        }
        4 => {
            let n = *r.pick(&[0usize, 255, 256, 32767, 32768, 65535]);
            let d = r.bytes(n);
            b.objects.push(Obj { ty: r.next() as u8, pos: [i32::MIN, i32::MAX, -1], data: d });
        }
        5 => {
            let n = *r.pick(&[0usize, 255, 256, 4096, 65535]);
            b.timers = (0..n).map(|i| Timer { pos: (i % 4096) as u16, timeout: r.next() as u32, elapsed: r.next() as u32 }).collect();
        }
        6 => {
            let n = *r.pick(&[255usize, 256, 257, 4096]);
            b.nimap = (0..n).map(|i| (i as u16, format!("m:{}", i).into_bytes())).collect();
            for x in b.nodes.iter_mut() { *x = r.below(n) as u16 }
        }
        7 => {
            let n = *r.pick(&[0usize, 65535, 300]);
            let k = *b.nimap.keys().next().unwrap();
            let name = r.bytes(n);
            b.nimap.insert(k, name);
        }
        8 => {
            b.param1 = r.bytes(4096);
            b.param2 = r.bytes(4096);
        }
        9 => {
            let n = *r.pick(&[255usize, 256, 4096]);
            for k in 0..n {
                b.meta.insert(k as u16, Meta { inv: b"EndInventory\n".to_vec(), vars: vec![(b"k".to_vec(), (vec![k as u8], false))].into_iter().collect() });
            }
        }
        _ => {
            b.flags = r.next() as u8;
            b.lighting = if b.version >= 27 { *r.pick(&[0u16, 0xFFFF, 0x1234, 0xF0FF]) } else { 0xFFFF };
            b.timestamp = *r.pick(&[0u32, u32::MAX, 0x01020304]);
        }
    }
    b
}
fn c05(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 5);
    let mut n = 0;
    while c.left() && n < 5_000 {
        let b = edge_block(&mut r, n);
        n += 1;
        let enc = b.encode();
        c.count(Some(hash(&enc)), || format!("version {} block, {} bytes, {} metadata, {} objects, {} timers, {} names", b.version, enc.len(), b.meta.len(), b.objects.len(), b.timers.len(), b.nimap.len()));
        let res = quiet(|| -> Option<String> {
            let m = match MapBlock::deserialize(&enc) {
                Ok(m) => m,
                Err(e) => return Some(format!("a well-formed block is rejected: {:?}", e)),
            };
            let got = to_model(&m);
            if got.nimap != b.nimap {
                return Some("decoded name table differs".into());
            }
            if let Some(d) = codec::diff(&b, &got) {
                return Some(format!("decoding: {}", d));
            }
            let out = m.serialize();
            match codec::decode(&out) {
                Err(e) => Some(format!("the re-encoded block does not follow the format: {}", e)),
                Ok(g) => {
                    if g.nimap != b.nimap {
                        return Some("re-encoded name table differs".into());
                    }
                    if let Some(d) = codec::diff(&b, &g) {
                        return Some(format!("re-encoding: {}", d));
                    }
                    match MapBlock::deserialize(&out) {
                        Err(e) => Some(format!("the re-encoded block is rejected: {:?}", e)),
                        Ok(m2) => codec::diff(&b, &to_model(&m2)).map(|d| format!("second decoding: {}", d)),
                    }
                }
            }
        });
        let f = match res {
            Ok(f) => f,
            Err(e) => Some(format!("panic: {}", e)),
        };
        if let Some(m) = f {
            let p = save(c, &enc);
            c.fail(format!("{} -- block in {}", m, p));
        }
    }
}
/// Recompress a version-28 block whose inflated parts were changed.
fn deflate(d: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
fn hostile(r: &mut Rng, i: usize) -> Vec<u8> {
    let o = opts(false);
    match i % 8 {
        0 | 1 => gen_bad(r, [0, 0, 0], &o),
        2 => {
            // v29 with arbitrary damage inside the frame
            let mut b = gen_block(r, [0, 0, 0], &o);
            b.version = 29;
            let enc = b.encode();
            let mut raw = zstd::stream::decode_all(&enc[1..]).unwrap();
            // the structured part is around the 16 KiB of node data
            for _ in 0..1 + r.below(3) {
                let l = raw.len();
                let tail = l.saturating_sub(1 + r.below((l - 8000).max(1)));
                let p = if r.chance(1, 2) { r.below(60.min(l)) } else { tail };
                raw[p] = *r.pick(&[0u8, 1, 255, 127, 128, 8, 2, 3]);
            }
            if r.chance(1, 3) {
                let l = r.below(raw.len());
                raw.truncate(l);
            }
            let mut d = vec![29];
            d.extend(zstd::stream::encode_all(raw.as_slice(), 0).unwrap());
            d
        }
        3 => {
            // v28 with hostile metadata
            let mut m = vec![*r.pick(&[1u8, 2, 2, 3])];
            m.extend([0, 1]);
            m.extend([0, 5]);
            m.extend(r.pick(&[[0u8, 0, 0, 1], [255, 255, 255, 255], [0, 0, 0, 0]]));
            m.extend([0, 1, b'k']);
            m.extend(r.pick(&[[0u8, 0, 0, 1], [255, 255, 255, 255], [127, 255, 255, 255], [0, 0, 1, 0]]));
            m.extend(b"v\x00EndInventory\n");
            if r.chance(1, 3) {
                let l = r.below(m.len());
                m.truncate(l);
            }
            let mut d = vec![28u8, 0, 255, 255, 2, 2];
            let nodes = vec![0u8; 16384 + if r.chance(1, 5) { 1 } else { 0 } - if r.chance(1, 5) { 1 } else { 0 }];
            d.extend(deflate(&nodes));
            d.extend(deflate(&m));
            d.extend([0, 0, 0]);
            d.extend([0, 0, 0, 0]);
            d.extend([0, 0, 1, 0, 0, 0, 1, b'x']);
            d.extend([10, 0, 0]);
            if r.chance(1, 2) {
                let l = r.below(d.len());
                d[l] = r.next() as u8;
            }
            d
        }
        4 => {
            let mut b = gen_block(r, [0, 0, 0], &o);
            match r.below(3) {
                0 => { b.nimap.clear(); }
                1 => { let k = *r.pick(&[0usize, 4095]); b.nodes[k] = 0xFFFF; b.nimap.remove(&0xFFFF); }
                _ => { let p = *r.pick(&[4096u16, 65535]); b.timers.push(Timer { pos: p, timeout: 0, elapsed: 0 }); }
            }
            b.encode()
        }
        5 => {
            let n = r.below(40);
            let mut d = vec![*r.pick(&[25u8, 26, 27, 28, 29, 29])];
            d.extend(r.bytes(n));
            d
        }
        6 => {
            // width bytes, sub-versions
            let mut b = gen_block(r, [0, 0, 0], &o);
            b.version = *r.pick(&[25, 27, 28]);
            let mut d = b.encode();
            let p = if b.version >= 27 { 4 } else { 2 } + r.below(2);
            d[p] = *r.pick(&[0u8, 1, 3, 255]);
            d
        }
        _ => {
            let b = gen_block(r, [0, 0, 0], &o);
            let mut d = b.encode();
            let n = r.below(d.len() + 1);
            d.truncate(n);
            d
        }
    }
}
fn c06(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 6);
    let mut n = 0;
    while c.left() && n < 60_000 {
        let d = if n < 600 { (0..n % 30).map(|_| r.next() as u8).collect() } else { hostile(&mut r, n) };
        n += 1;
        c.count(Some(hash(&d)), || hex(&d));
        PEAK.store(0, Ordering::Relaxed);
        let res = quiet(|| {
            let m = MapBlock::deserialize(&d);
            let g = is_valid_generated(&d);
            (m.map(|m| to_model(&m)), g)
        });
        let peak = PEAK.load(Ordering::Relaxed);
        let want = codec::decode(&d);
        let f = match res {
            Err(e) => Some(format!("panic: {}", e)),
            Ok((m, g)) => {
                if g != codec::header_generated(&d) {
                    Some(format!("is_valid_generated = {}", g))
                } else if peak > 64 << 20 {
                    Some(format!("one allocation of {} bytes", peak))
                } else {
                    match (m, want) {
                        (Ok(m), Ok(w)) => codec::diff(&w, &m).map(|d| format!("decoding: {}", d)),
                        (Err(_), Err(_)) => None,
                        (Ok(m), Err(e)) => {
                            let odd = m.nodes.len() != 4096 || m.param1.len() != 4096 || m.param2.len() != 4096
                                || m.nodes.iter().any(|i| !m.nimap.contains_key(i))
                                || m.meta.keys().any(|k| *k > 4095) || m.timers.iter().any(|t| t.pos > 4095);
                            if odd { Some(format!("an ill-formed block is accepted ({})", e)) } else { Some(format!("malformed data is accepted ({})", e)) }
                        }
                        (Err(e), Ok(_)) => Some(format!("well-formed data is rejected: {:?}", e)),
                    }
                }
            }
        };
        if let Some(m) = f {
            let p = save(c, &d);
            c.fail(format!("{} -- data {} in {}", m, hex(&d), p));
        }
    }
}
fn names(b: &MapBlock) -> Vec<Option<Vec<u8>>> {
    b.node_data.nodes.iter().map(|i| b.nimap.0.get(i).cloned()).collect()
}
fn c12(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 12);
    let mut n = 0;
    while c.left() && n < 20_000 {
        n += 1;
        let mk = |r: &mut Rng| {
            let mut b = gen_block(r, [0, 0, 0], &opts(false));
            b.meta.clear();
            b.objects.clear();
            let ks: Vec<u16> = b.nimap.keys().cloned().collect();
            if r.chance(1, 2) {
                let nm = b.nimap[r.pick(&ks)].clone();
                let id = *r.pick(&[0u16, 5, 999, 21]);
                if !b.nimap.contains_key(&id) {
                    b.nimap.insert(id, nm);
                    b.nodes[r.below(4096)] = id;
                }
            }
            b
        };
        let (b1, b2) = (mk(&mut r), mk(&mut r));
        c.count(Some(hash((&b1.nimap, &b2.nimap, b1.nodes[0], n))), || format!("tables {:?} and {:?}", b1.nimap.keys().collect::<Vec<_>>(), b2.nimap.keys().collect::<Vec<_>>()));
        let mut lo = [0; 3];
        let mut hi = [0; 3];
        let mut dlo = [0; 3];
        for i in 0..3 {
            let (x, y) = (r.range(0, 15), r.range(0, 15));
            lo[i] = x.min(y);
            hi[i] = x.max(y);
            dlo[i] = r.range(0, 15 - (hi[i] - lo[i]));
        }
        let (e1, e2) = (b1.encode(), b2.encode());
        let res = quiet(|| -> Option<String> {
            let (m1, m2) = match (MapBlock::deserialize(&e1), MapBlock::deserialize(&e2)) {
                (Ok(a), Ok(b)) => (a, b),
                _ => return Some("well-formed block rejected".into()),
            };
            let clean = |m: &MapBlock, what: &str| -> Option<String> {
                let before = names(m);
                let mut x = m.clone();
                block_utils::clean_name_id_map(&mut x);
                if names(&x) != before {
                    let i = (0..4096).find(|i| names(&x)[*i] != before[*i]);
                    return Some(format!("{}: node {:?} changed its name", what, i));
                }
                let ids: Vec<u16> = x.nimap.0.keys().cloned().collect();
                if ids != (0..ids.len() as u16).collect::<Vec<_>>() {
                    return Some(format!("{}: ids are {:?}", what, ids));
                }
                let mut v: Vec<_> = x.nimap.0.values().cloned().collect();
                v.sort();
                if v.windows(2).any(|w| w[0] == w[1]) {
                    return Some(format!("{}: a name is listed twice", what));
                }
                if ids.iter().any(|i| !x.node_data.nodes.contains(i)) {
                    return Some(format!("{}: an unused name is kept", what));
                }
                if x.node_data.param1 != m.node_data.param1 || x.node_data.param2 != m.node_data.param2 || x.node_timers.len() != m.node_timers.len() {
                    return Some(format!("{}: something else changed", what));
                }
                None
            };
            if let Some(m) = clean(&m1, "clean_name_id_map") {
                return Some(m);
            }
            let mut d = m2.clone();
            let (sa, da) = (Area { min: Vec3::new(lo[0], lo[1], lo[2]), max: Vec3::new(hi[0], hi[1], hi[2]) },
                Area { min: Vec3::new(dlo[0], dlo[1], dlo[2]), max: Vec3::new(dlo[0] + hi[0] - lo[0], dlo[1] + hi[1] - lo[1], dlo[2] + hi[2] - lo[2]) });
            block_utils::merge_blocks(&m1, &mut d, sa, da);
            let (n1, n2, nd) = (names(&m1), names(&m2), names(&d));
            for i in 0..4096usize {
                let p = [(i % 16) as i32, (i / 16 % 16) as i32, (i / 256) as i32];
                let q = [0, 1, 2].map(|j| p[j] - dlo[j]);
                let ins = (0..3).all(|j| q[j] >= 0 && q[j] <= hi[j] - lo[j]);
                let want = if ins {
                    let s = ((lo[0] + q[0]) + 16 * (lo[1] + q[1]) + 256 * (lo[2] + q[2])) as usize;
                    (&n1[s], m1.node_data.param1[s], m1.node_data.param2[s])
                } else {
                    (&n2[i], m2.node_data.param1[i], m2.node_data.param2[i])
                };
                if (&nd[i], d.node_data.param1[i], d.node_data.param2[i]) != want {
                    return Some(format!("merge_blocks {:?}-{:?} to {:?}: node {} is {:?}, expected {:?}", lo, hi, dlo, i, nd[i], want.0));
                }
            }
            if let Some(m) = clean(&d, "clean_name_id_map after merge_blocks") {
                return Some(m);
            }
            // remove_shift of an unused id
            let mut s = m1.clone();
            let unused: Vec<u16> = s.nimap.0.keys().cloned().filter(|k| !s.node_data.nodes.contains(k)).collect();
            if let Some(k) = unused.first() {
                let before = s.nimap.0.clone();
                s.nimap.remove_shift(*k);
                let want: BTreeMap<u16, Vec<u8>> = before.into_iter().filter(|(i, _)| i != k).map(|(i, v)| (if i > *k { i - 1 } else { i }, v)).collect();
                if s.nimap.0 != want {
                    return Some(format!("remove_shift({}): ids {:?}, expected {:?}", k, s.nimap.0.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>()));
                }
            }
            None
        });
        let f = match res {
            Ok(f) => f,
            Err(e) => Some(format!("panic: {}", e)),
        };
        if let Some(m) = f {
            let p = save(c, &e1);
            let _ = std::fs::write(c.rep.join(&c.prop).join("block2.bin"), &e2);
            c.fail(format!("{} -- blocks in {} and block2.bin", m, p));
        }
    }
}
fn main() {
    let mut c = Ctx::new();
    match c.prop.as_str() {
        "C05" => c05(&mut c),
        "C06" => c06(&mut c),
        _ => c12(&mut c),
    }
    c.finish()
}
