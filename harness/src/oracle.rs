//! What each command must do, stated node by node over sets of positions.
use crate::codec::*;
use crate::gen::*;
use std::collections::BTreeMap;

#[derive(Clone)]
pub enum Exp {
    Bytes(Vec<u8>),
    Block(Box<Block>),
}
pub struct Expect {
    pub world: BTreeMap<i64, Exp>,
    /// (keyword in the log line, numbers in order)
    pub counts: Option<(&'static str, Vec<u64>)>,
    pub failed: Option<u64>,
    pub touched: usize,
    /// empty inventory lines are free (a rewritten inventory may drop them)
    pub loose_inv: bool,
}

type Ar = Option<(V3, V3)>;
pub fn inside(a: &(V3, V3), p: V3) -> bool {
    (0..3).all(|i| a.0[i] <= p[i] && p[i] <= a.1[i])
}
fn sel(a: &Ar, inv: bool, p: V3) -> bool {
    match a {
        None => true,
        Some(a) => inside(a, p) != inv,
    }
}
pub fn npos(bp: V3, i: usize) -> V3 {
    [bp[0] * 16 + (i % 16) as i32, bp[1] * 16 + (i / 16 % 16) as i32, bp[2] * 16 + (i / 256) as i32]
}
/// Does the block contain at least one / only selected nodes?
pub fn block_any(a: &Ar, inv: bool, bp: V3) -> bool {
    match a {
        None => true,
        Some(a) => {
            let touch = (0..3).all(|i| a.0[i] <= bp[i] * 16 + 15 && bp[i] * 16 <= a.1[i]);
            let cont = (0..3).all(|i| a.0[i] <= bp[i] * 16 && bp[i] * 16 + 15 <= a.1[i]);
            if inv { !cont } else { touch }
        }
    }
}
pub fn block_all(a: &Ar, inv: bool, bp: V3) -> bool {
    match a {
        None => true,
        Some(_) => !block_any(a, !inv, bp),
    }
}
fn has(h: &[u8], n: &[u8]) -> bool {
    n.len() <= h.len() && h.windows(n.len()).any(|w| w == n)
}
/// Is the block visited, given the search names?
pub fn visited(d: &[u8], names: &[Vec<u8>]) -> bool {
    if names.is_empty() || d.is_empty() || d[0] > 28 {
        return true;
    }
    names.iter().any(|n| {
        let mut w = W(vec![]);
        w.s16(n);
        has(d, &w.0)
    })
}

fn first_id(b: &Block, name: &[u8]) -> Option<u16> {
    b.nimap.iter().find(|(_, v)| v.as_slice() == name).map(|(k, _)| *k)
}
/// Give node i the name n.
fn set_name(b: &mut Block, i: usize, n: &[u8]) {
    let id = first_id(b, n).unwrap_or_else(|| {
        let id = (0..).find(|k| !b.nimap.contains_key(k)).unwrap();
        b.nimap.insert(id, n.to_vec());
        id
    });
    b.nodes[i] = id;
}

pub fn lua_name(o: &Obj) -> Option<(Vec<u8>, Vec<u8>)> {
    if o.ty != 7 {
        return None;
    }
    let mut r = Rd { d: &o.data, p: 0 };
    if r.u8().ok()? != 1 {
        return None;
    }
    Some((r.s16().ok()?, r.s32().ok()?))
}
pub fn item_name(d: &[u8]) -> Vec<u8> {
    if !d.starts_with(b"return") {
        return d.to_vec();
    }
    for pat in [&b"itemstring=\""[..], b"[\"itemstring\"] = \""] {
        if let Some(i) = d.windows(pat.len()).position(|w| w == pat) {
            return d[i + pat.len()..].iter().cloned().take_while(|c| *c != b' ' && *c != b'"').collect();
        }
    }
    vec![]
}

/// Rewrites one inventory; returns the number of stacks changed.
pub fn rewrite_inv(inv: &[u8], a: &Args) -> (Vec<u8>, u64) {
    let item = a.item.as_ref().unwrap().as_bytes();
    let mut out = vec![];
    let mut n = 0;
    let body = inv.strip_suffix(b"\n").unwrap_or(inv);
    for line in body.split(|c| *c == b'\n') {
        if line.is_empty() {
            continue;
        }
        let w: Vec<&[u8]> = line.splitn(5, |c| *c == b' ').collect();
        if w[0] == b"Item" && w.len() >= 2 && w[1] == item {
            n += 1;
            if a.delete {
                out.extend_from_slice(b"Empty");
            } else {
                out.extend_from_slice(b"Item ");
                out.extend_from_slice(a.new_item.as_ref().map(|s| s.as_bytes()).unwrap_or(item));
                if a.delete_meta {
                    let c = w.get(2).cloned().unwrap_or(b"1");
                    let we = w.get(3).cloned().unwrap_or(b"0");
                    if we != b"0" {
                        for p in [c, we] {
                            out.push(b' ');
                            out.extend_from_slice(p);
                        }
                    } else if c != b"1" {
                        out.push(b' ');
                        out.extend_from_slice(c);
                    }
                } else {
                    for p in &w[2..] {
                        out.push(b' ');
                        out.extend_from_slice(p);
                    }
                }
            }
        } else {
            out.extend_from_slice(line);
        }
        out.push(b'\n');
    }
    (out, n)
}

/// Copy node j of src (and its metadata) to node i of dst.
fn copy_node(dst: &mut Block, i: usize, src: &Block, j: usize) {
    let n = src.name(j).to_vec();
    set_name(dst, i, &n);
    dst.param1[i] = src.param1[j];
    dst.param2[i] = src.param2[j];
    dst.meta.remove(&(i as u16));
    if let Some(m) = src.meta.get(&(j as u16)) {
        dst.meta.insert(i as u16, m.clone());
    }
}

pub fn expect(c: &Case) -> Expect {
    let a = &c.args;
    let ar = a.sorted();
    let inv = a.invert;
    let b = |s: &Option<String>| s.as_ref().map(|s| s.as_bytes().to_vec());
    let node = b(&a.node);
    let nodes: Vec<Vec<u8>> = a.nodes.iter().map(|s| s.as_bytes().to_vec()).collect();
    let mut world: BTreeMap<i64, Exp> = c.main.iter().map(|(k, v)| (*k, Exp::Bytes(v.clone()))).collect();
    let mut failed = 0u64;
    let mut n1 = 0u64;
    let mut n2 = 0u64;
    let mut touched = 0;
    let cmd = a.cmd.as_str();
    let mut counts: Option<&'static str> = None;
    match cmd {
        "vacuum" => touched = c.main.len(),
        "deleteblocks" => {
            for k in c.main.keys() {
                if block_all(&ar, inv, unkey(*k)) {
                    world.remove(k);
                    touched += 1;
                }
            }
        }
        "clone" | "overlay" => {
            let of = a.offset.unwrap_or([0; 3]);
            if cmd == "overlay" && of == [0; 3] {
                for (k, src) in &c.input {
                    let bp = unkey(*k);
                    if !block_any(&ar, inv, bp) {
                        continue;
                    }
                    if block_all(&ar, inv, bp) {
                        if header_generated(src) {
                            world.insert(*k, Exp::Bytes(src.clone()));
                            touched += 1;
                        }
                        continue;
                    }
                    let dst = match c.main.get(k) {
                        Some(d) if header_generated(d) => d,
                        _ => continue,
                    };
                    let (s, d) = (decode(src), decode(dst));
                    match (s, d) {
                        (Ok(s), Ok(d)) => {
                            if !s.generated() {
                                continue;
                            }
                            touched += 1;
                            // Non-selected nodes come from the main map.
                            let mut out = if inv { s.clone() } else { d.clone() };
                            for i in 0..4096 {
                                let from = if sel(&ar, inv, npos(bp, i)) { &s } else { &d };
                                copy_node(&mut out, i, from, i);
                            }
                            world.insert(*k, Exp::Block(Box::new(out)));
                        }
                        _ => failed += 1,
                    }
                }
            } else {
                let srcw = if cmd == "clone" { &c.main } else { &c.input };
                let mut cache: BTreeMap<i64, Option<Block>> = BTreeMap::new();
                let dar: Ar = ar.map(|(p, q)| ([p[0] + of[0], p[1] + of[1], p[2] + of[2]], [q[0] + of[0], q[1] + of[1], q[2] + of[2]]));
                for (k, dst) in &c.main {
                    let bp = unkey(*k);
                    if !block_any(&dar, false, bp) || !header_generated(dst) {
                        continue;
                    }
                    let mut out = match decode(dst) {
                        Ok(d) => d,
                        Err(_) => {
                            failed += 1;
                            continue;
                        }
                    };
                    touched += 1;
                    for i in 0..4096 {
                        let p = npos(bp, i);
                        if !sel(&dar, false, p) {
                            continue;
                        }
                        let s = [p[0] - of[0], p[1] - of[1], p[2] - of[2]];
                        let sb = [s[0].div_euclid(16), s[1].div_euclid(16), s[2].div_euclid(16)];
                        if sb.iter().any(|v| v.abs() > 1937) {
                            continue;
                        }
                        let sk = key(sb);
                        let src = cache.entry(sk).or_insert_with(|| {
                            srcw.get(&sk).filter(|d| header_generated(d)).and_then(|d| decode(d).ok())
                        });
                        if let Some(src) = src {
                            let j = (s[0].rem_euclid(16) + 16 * s[1].rem_euclid(16) + 256 * s[2].rem_euclid(16)) as usize;
                            copy_node(&mut out, i, src, j);
                        }
                    }
                    world.insert(*k, Exp::Block(Box::new(out)));
                }
            }
        }
        _ => {
            let search: Vec<Vec<u8>> = match cmd {
                "fill" => vec![],
                "replaceininv" | "setmetavar" => nodes.clone(),
                "deleteobjects" => {
                    if a.items.is_some() {
                        vec![b"__builtin:item".to_vec()]
                    } else {
                        b(&a.object).into_iter().collect()
                    }
                }
                _ => node.iter().cloned().collect(),
            };
            for (k, data) in &c.main {
                let bp = unkey(*k);
                if !block_any(&ar, inv, bp) || !visited(data, &search) {
                    continue;
                }
                let blk = match decode(data) {
                    Ok(b) => b,
                    Err(_) => {
                        failed += 1;
                        continue;
                    }
                };
                touched += 1;
                let mut o = blk.clone();
                let s = |i: usize| sel(&ar, inv, npos(bp, i));
                let innode = |i: usize| node.as_ref().map_or(true, |n| blk.name(i) == n.as_slice());
                let innodes = |i: usize| nodes.is_empty() || nodes.iter().any(|n| n.as_slice() == blk.name(i));
                match cmd {
                    "fill" => {
                        counts = Some("filled");
                        if !blk.generated() {
                            touched -= 1;
                            continue;
                        }
                        let nn = b(&a.new_node).unwrap();
                        for i in 0..4096 {
                            if s(i) {
                                set_name(&mut o, i, &nn);
                                n1 += 1;
                            }
                        }
                    }
                    "replacenodes" => {
                        let nn = b(&a.new_node).unwrap();
                        for i in 0..4096 {
                            if s(i) && innode(i) {
                                set_name(&mut o, i, &nn);
                                n1 += 1;
                            }
                        }
                    }
                    "setparam2" => {
                        let Ok(v) = a.param2.as_ref().unwrap().parse::<u8>() else { world.insert(*k, Exp::Bytes(data.clone())); continue };
                        for i in 0..4096 {
                            if s(i) && innode(i) {
                                o.param2[i] = v;
                                n1 += 1;
                            }
                        }
                    }
                    "deletemeta" => {
                        for i in blk.meta.keys() {
                            if s(*i as usize) && innode(*i as usize) {
                                o.meta.remove(i);
                                n1 += 1;
                            }
                        }
                    }
                    "deletetimers" => {
                        o.timers.retain(|t| !(s(t.pos as usize) && innode(t.pos as usize)));
                        n1 += (blk.timers.len() - o.timers.len()) as u64;
                    }
                    "deleteobjects" => {
                        let want = if a.items.is_some() { Some(b"__builtin:item".to_vec()) } else { b(&a.object) };
                        let items = a.items.clone().unwrap_or_default();
                        o.objects.retain(|ob| {
                            let mut p = [0; 3];
                            for i in 0..3 {
                                p[i] = (ob.pos[i] as i64 + 5000).div_euclid(10000) as i32;
                            }
                            if !sel(&ar, inv, p) {
                                return true;
                            }
                            if let Some(w) = &want {
                                match lua_name(ob) {
                                    None => return true,
                                    Some((n, d)) => {
                                        if &n != w {
                                            return true;
                                        }
                                        if !items.is_empty() {
                                            let it = item_name(&d);
                                            if !items.iter().any(|i| i.as_bytes() == it.as_slice()) {
                                                return true;
                                            }
                                        }
                                    }
                                }
                            }
                            false
                        });
                        n1 += (blk.objects.len() - o.objects.len()) as u64;
                    }
                    "replaceininv" => {
                        for (i, m) in o.meta.iter_mut() {
                            if s(*i as usize) && innodes(*i as usize) {
                                let (v, n) = rewrite_inv(&m.inv, a);
                                if n > 0 {
                                    m.inv = v;
                                    n1 += n;
                                    n2 += 1;
                                }
                            }
                        }
                    }
                    "setmetavar" => {
                        let kk = b(&a.key).unwrap();
                        for (i, m) in o.meta.iter_mut() {
                            if s(*i as usize) && innodes(*i as usize) {
                                if let Some(v) = m.vars.get_mut(&kk) {
                                    n1 += 1;
                                    if a.delete {
                                        m.vars.remove(&kk);
                                    } else {
                                        v.0 = b(&a.value).unwrap();
                                    }
                                }
                            }
                        }
                    }
                    _ => panic!("unknown command {}", cmd),
                }
                world.insert(*k, if o == blk && data[0] == 0 { Exp::Bytes(data.clone()) } else { Exp::Block(Box::new(o)) });
            }
        }
    }
    counts = match cmd {
        "fill" => Some("filled"),
        "replacenodes" => Some("replaced"),
        "setparam2" => Some("param2"),
        "deletemeta" | "deletetimers" | "deleteobjects" => Some("eleted"),
        "replaceininv" => Some("eplaced"),
        "setmetavar" => Some("ariable"),
        _ => counts.and(None),
    };
    let nums = if cmd == "replaceininv" { vec![n1, n2] } else { vec![n1] };
    Expect { world, counts: counts.map(|c| (c, nums)), failed: if cmd == "vacuum" { None } else { Some(failed) }, touched, loose_inv: cmd == "replaceininv" }
}
