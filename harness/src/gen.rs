//! Deterministic generator of maps and command lines.
use crate::codec::*;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: i32, b: i32) -> i32 {
        a + self.below((b - a + 1) as usize) as i32
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub type V3 = [i32; 3];
pub fn key(p: V3) -> i64 {
    p[0] as i64 + p[1] as i64 * 4096 + p[2] as i64 * 16777216
}
pub fn unkey(k: i64) -> V3 {
    let ax = (k + 2048).rem_euclid(4096) - 2048;
    let k = (k - ax) / 4096;
    let ay = (k + 2048).rem_euclid(4096) - 2048;
    [ax as i32, ay as i32, ((k - ay) / 4096) as i32]
}

pub type World = BTreeMap<i64, Vec<u8>>;

#[derive(Clone, Debug, Default)]
pub struct Args {
    pub cmd: String,
    pub area: Option<(V3, V3)>,
    pub invert: bool,
    pub offset: Option<V3>,
    pub node: Option<String>,
    pub new_node: Option<String>,
    pub nodes: Vec<String>,
    pub object: Option<String>,
    pub items: Option<Vec<String>>,
    pub item: Option<String>,
    pub new_item: Option<String>,
    pub delete: bool,
    pub delete_meta: bool,
    pub key: Option<String>,
    pub value: Option<String>,
    pub param2: Option<String>,
}
impl Args {
    /// Arguments after the map path.
    pub fn to_argv(&self, input: &str) -> Vec<String> {
        let mut v = vec![self.cmd.clone()];
        let c = self.cmd.as_str();
        if c == "overlay" {
            v.push(input.into());
        }
        if c == "replacenodes" {
            v.extend(self.node.iter().cloned());
        }
        for o in [&self.new_node, &self.item, &self.new_item, &self.key, &self.value, &self.param2] {
            v.extend(o.iter().cloned());
        }
        if c != "replacenodes" {
            if let Some(n) = &self.node {
                v.push("--node".into());
                v.push(n.clone());
            }
        }
        if !self.nodes.is_empty() {
            v.push("--nodes".into());
            v.extend(self.nodes.iter().cloned());
        }
        if let Some(i) = &self.items {
            v.push("--items".into());
            v.extend(i.iter().cloned());
        }
        if let Some(o) = &self.object {
            v.push("--obj".into());
            v.push(o.clone());
        }
        let tri = |v: &mut Vec<String>, n: &str, p: &V3| {
            v.push(n.into());
            v.extend(p.iter().map(|c| c.to_string()));
        };
        if let Some((a, b)) = &self.area {
            tri(&mut v, "--p1", a);
            tri(&mut v, "--p2", b);
        }
        if let Some(o) = &self.offset {
            tri(&mut v, "--offset", o);
        }
        for (f, n) in [(self.invert, "--invert"), (self.delete, "--delete"), (self.delete_meta, "--deletemeta")] {
            if f {
                v.push(n.into());
            }
        }
        v
    }
    /// Sorted area.
    pub fn sorted(&self) -> Option<(V3, V3)> {
        self.area.map(|(a, b)| {
            let f = |g: fn(i32, i32) -> i32| [g(a[0], b[0]), g(a[1], b[1]), g(a[2], b[2])];
            (f(i32::min), f(i32::max))
        })
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub args: Args,
    pub main: World,
    pub input: World,
    pub note: String,
}

pub const NAMES: [&str; 10] = ["default:stone", "air", "default:dirt", "a:b", "default:chest",
    "default:stonebrick", "mod_2:x", "default:stone2", "ignore", "xdefault:stone"];
pub const OBJS: [&str; 4] = ["boats:boat", "carts:cart", "__builtin:item", "boats:boat2"];
pub const KEYS: [&str; 4] = ["infotext", "formspec", "owner", "info"];
pub const VALUES: [&str; 4] = ["x", "a longer value", "${v}", "infotext"];
pub const ITEMS: [&str; 6] = ["default:stone", "default:dirt", "bucket:lava", "a:b", "default:stonebrick", "bucket:lava2"];

pub struct Opts {
    pub dup_names: bool,
    pub max_blocks: usize,
    pub undecodable: bool,
    pub big: bool,
    /// more of something than fits in a byte
    pub many: bool,
}

fn gen_inv(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 3) {
        return b"EndInventory\n".to_vec();
    }
    let mut s = Vec::new();
    for l in 0..1 + r.below(2) {
        let n = r.below(6);
        s.extend(format!("List {} {}\nWidth 0\n", ["main", "craft", "Item"][l], n).bytes());
        for _ in 0..n {
            match r.below(5) {
                0 => s.extend(b"Empty\n"),
                k => {
                    let it = if r.chance(1, 25) { "mod:EndInventory" } else if r.chance(2, 3) { "default:stone" } else { *r.pick(&ITEMS) };
                    s.extend(format!("Item {}", it).bytes());
                    if k >= 2 {
                        s.extend(format!(" {}", r.pick(&["1", "5", "99", "0"])).bytes());
                    }
                    if k >= 3 {
                        s.extend(format!(" {}", r.pick(&["0", "100", "65535"])).bytes());
                    }
                    if k >= 4 {
                        s.extend(*r.pick(&[&b" \x01k\x02v\x03"[..], b" \"a b  c\"", b" x y z w", b" default:stone"]));
                    }
                    s.push(b'\n');
                }
            }
        }
        s.extend(b"EndInventoryList\n");
        if r.chance(1, 8) {
            s.push(b'\n');
        }
    }
    s.extend(b"EndInventory\n");
    s
}

fn gen_pos(r: &mut Rng) -> u16 {
    let c = |r: &mut Rng| *r.pick(&[0u16, 0, 1, 7, 8, 14, 15, 15, 3]);
    c(r) + 16 * c(r) + 256 * c(r)
}

fn gen_obj(r: &mut Rng, bp: V3) -> Obj {
    let mut pos = [0; 3];
    for i in 0..3 {
        let n = bp[i] * 16 + *r.pick(&[0, 15, 7, 3, 16, -1]);
        pos[i] = n.saturating_mul(10000).saturating_add(*r.pick(&[0, 4999, 5000, -5000, -5001, 1, -1, 2500]));
    }
    if r.chance(1, 60) {
        pos[r.below(3)] = *r.pick(&[i32::MAX, i32::MIN, i32::MAX - 4999, i32::MAX - 5000]);
    }
    let mut w = W(vec![]);
    let ty = if r.chance(1, 8) { *r.pick(&[0u8, 6, 8, 255]) } else { 7 };
    w.u8(if r.chance(1, 12) { *r.pick(&[0u8, 2]) } else { 1 });
    let name = if r.chance(1, 2) { "__builtin:item" } else { *r.pick(&OBJS) };
    w.s16(name.as_bytes());
    let it = *r.pick(&ITEMS);
    let d = match r.below(8) {
        0 => it.to_string(),
        1 => format!("return {{[\"itemstring\"] = \"{}\"}}", it),
        2 => format!("return {{[\"age\"] = 3.5, [\"itemstring\"] = \"{} 5\", [\"x\"] = 1}}", it),
        3 => format!("return {{itemstring=\"{}\"}}", it),
        4 => format!("return {{age=1,itemstring=\"{} 99 100\"}}", it),
        5 => format!("return {{[\"itemstring\"] = \"{}\", [\"y\"] = \"itemstring=\\\"\"}}", it),
        6 => "return {}".to_string(),
        _ => "".to_string(),
    };
    w.s32(d.as_bytes());
    if r.chance(1, 2) {
        let n = r.below(12);
        let b = r.bytes(n);
        w.0.extend(b);
    }
    if r.chance(1, 12) {
        let n = r.below(w.0.len() + 1);
        w.0.truncate(n);
    }
    Obj { ty, pos, data: w.0 }
}

pub fn gen_block(r: &mut Rng, bp: V3, o: &Opts) -> Block {
    let version = *r.pick(&[25u8, 26, 27, 28, 28, 28, 29, 29, 29, 29]);
    let mut names: Vec<&str> = NAMES.to_vec();
    for i in (1..names.len()).rev() {
        let j = r.below(i + 1);
        names.swap(i, j);
    }
    let k = 1 + r.below(6);
    names.truncate(k);
    if r.chance(1, 2) && !names.contains(&"default:stone") {
        names[0] = "default:stone";
    }
    if o.dup_names && k > 1 && r.chance(1, 4) {
        names[k - 1] = names[0];
    }
    let sparse = r.chance(1, 3);
    let mut nimap = BTreeMap::new();
    let mut ids = vec![];
    for (i, n) in names.iter().enumerate() {
        let mut id = i as u16;
        if sparse {
            loop {
                id = r.below(*r.clone().pick(&[8usize, 20, 300])) as u16;
                if !nimap.contains_key(&id) {
                    break;
                }
            }
        }
        nimap.insert(id, n.as_bytes().to_vec());
        ids.push(id);
    }
    if r.chance(1, 12) {
        let id = *r.pick(&ids);
        nimap.insert(id, match r.below(3) {
            0 => vec![],
            1 => b"mod:\xff\x00z".to_vec(),
            _ => vec![b'n'; 300],
        });
    }
    let used = if r.chance(1, 3) { 1 + r.below(k) } else { k };
    let main = ids[r.below(used)];
    let mode = r.below(4);
    let mut nodes = vec![main; 4096];
    match mode {
        0 => {}
        1 => {
            for _ in 0..1 + r.below(200) {
                nodes[r.below(4096)] = ids[r.below(used)];
            }
            for _ in 0..12 {
                nodes[gen_pos(r) as usize] = ids[r.below(used)];
            }
        }
        2 => {
            for n in nodes.iter_mut() {
                *n = ids[r.below(used)];
            }
        }
        _ => {
            let m = [1, 16, 256][r.below(3)];
            for i in 0..4096 {
                nodes[i] = ids[(i / m) % used];
            }
        }
    }
    let mut param1 = vec![r.next() as u8; 4096];
    let mut param2 = vec![r.next() as u8; 4096];
    if r.chance(2, 3) {
        let (a, b) = (r.next() as usize, r.next() as usize);
        for i in 0..4096 {
            param1[i] = ((i * 7 + a) % 251) as u8;
            param2[i] = ((i * 13 + b) % 241) as u8;
        }
    }
    let mut meta = BTreeMap::new();
    let nm = *r.pick(&[0usize, 0, 1, 2, 5, 12]);
    for _ in 0..nm {
        let mut m = Meta::default();
        m.inv = gen_inv(r);
        for _ in 0..r.below(4) {
            let v = r.pick(&VALUES).as_bytes().to_vec();
            m.vars.insert(r.pick(&KEYS).as_bytes().to_vec(), (v, version >= 28 && r.chance(1, 3)));
        }
        // unusual names and values
        if r.chance(1, 5) {
            let k = match r.below(4) {
                0 => vec![],
                1 => r.bytes(1),
                2 => b"owner\0\xff\n".to_vec(),
                _ => vec![b'k'; 255 + r.below(4)],
            };
            let n = r.below(3) * 130;
            m.vars.insert(k, (r.bytes(n), version >= 28 && r.chance(1, 2)));
        }
        if o.big && r.chance(1, 3) {
            let n = *r.pick(&[70_000usize, 140_000, 300_000]);
            m.vars.insert(b"big".to_vec(), (r.bytes(n), false));
        }
        meta.insert(gen_pos(r), m);
    }
    let mut objects = vec![];
    for _ in 0..*r.pick(&[0usize, 0, 1, 3, 6]) {
        objects.push(gen_obj(r, bp));
    }
    if o.big && r.chance(1, 3) {
        let mut ob = gen_obj(r, bp);
        ob.data = r.bytes(65_000);
        for _ in 0..3 {
            objects.push(ob.clone());
        }
    }
    let mut timers = vec![];
    for _ in 0..*r.pick(&[0usize, 0, 1, 2, 4, 9]) {
        timers.push(Timer { pos: gen_pos(r), timeout: r.next() as u32, elapsed: r.next() as u32 });
    }
    if o.many && r.chance(1, 2) {
        let n = 250 + r.below(60);
        match r.below(6) {
            0 => {
                // ids above 255
                let top = *nimap.keys().last().unwrap() + 1;
                for i in 0..n as u16 {
                    nimap.insert(top + i, format!("many:n{}", i).into_bytes());
                }
                if r.chance(2, 3) {
                    for _ in 0..500 {
                        nodes[r.below(4096)] = top + r.below(n) as u16;
                    }
                }
            }
            1 => timers = (0..n as u16).map(|i| Timer { pos: i * 13 % 4096, timeout: i as u32, elapsed: 7 }).collect(),
            2 => {
                for _ in 0..n {
                    objects.push(gen_obj(r, bp));
                }
            }
            3 => {
                for i in 0..n as u16 {
                    let mut m = Meta { inv: if i % 3 == 0 { gen_inv(r) } else { b"EndInventory\n".to_vec() }, ..Default::default() };
                    if i % 4 != 0 {
                        m.vars.insert(r.pick(&KEYS).as_bytes().to_vec(), (r.pick(&VALUES).as_bytes().to_vec(), version >= 28 && i % 5 == 0));
                    }
                    meta.insert(i * 17 % 4096, m);
                }
            }
            4 => {
                let mut m = Meta { inv: gen_inv(r), ..Default::default() };
                for i in 0..n {
                    m.vars.insert(format!("k{}", i).into_bytes(), (b"v".to_vec(), version >= 28 && i % 2 == 0));
                }
                m.vars.insert(r.pick(&KEYS).as_bytes().to_vec(), (b"owner".to_vec(), false));
                meta.insert(gen_pos(r), m);
            }
            _ => {
                let mut s = format!("List main {}\nWidth 8\n", n).into_bytes();
                for i in 0..n {
                    s.extend(match i % 5 {
                        0 => "Empty\n".to_string(),
                        1 => format!("Item {}\n", r.pick(&ITEMS)),
                        2 => format!("Item default:stone {}\n", 1 + r.below(65535)),
                        _ => format!("Item {} {} {}\n", r.pick(&ITEMS), 1 + r.below(300), r.below(65536)),
                    }.bytes());
                }
                s.extend(b"EndInventoryList\nEndInventory\n");
                meta.insert(gen_pos(r), Meta { inv: s, ..Default::default() });
            }
        }
    }
    let mut flags = (r.below(4) + if r.chance(1, 4) { 0x10 } else { 0 }) as u8;
    if r.chance(1, 10) {
        flags |= 8;
    }
    Block {
        version,
        flags,
        lighting: if version >= 27 { r.next() as u16 } else { 0xFFFF },
        nodes,
        param1,
        param2,
        meta,
        objects,
        timestamp: r.next() as u32,
        nimap,
        timers,
    }
}

pub fn gen_bad(r: &mut Rng, bp: V3, o: &Opts) -> Vec<u8> {
    let mut b = gen_block(r, bp, o);
    match r.below(9) {
        0 => vec![],
        1 => vec![*r.pick(&[25u8, 28, 29, 24, 30, 0])],
        2 => {
            let mut d = b.encode();
            d[0] = *r.pick(&[0u8, 24, 30, 31, 255]);
            d
        }
        3 | 4 => {
            let mut d = b.encode();
            let n = r.below(d.len());
            d.truncate(n);
            d
        }
        5 => {
            let mut d = b.encode();
            for _ in 0..1 + r.below(4) {
                let i = r.below(d.len());
                d[i] = r.next() as u8;
            }
            d
        }
        6 => {
            b.nimap.remove(&b.nodes[r.below(4096)]);
            b.encode()
        }
        7 => {
            if r.chance(1, 2) {
                b.timers.push(Timer { pos: *r.pick(&[4096u16, 65535, 5000]), timeout: 1, elapsed: 0 });
            } else {
                b.meta.insert(*r.pick(&[4096u16, 65535, 4099]), Meta { vars: vec![(b"infotext".to_vec(), (b"q".to_vec(), false))].into_iter().collect(), inv: b"Item default:stone 3\nEndInventory\n".to_vec() });
            }
            b.encode()
        }
        _ => {
            let n = r.below(60);
            let mut d = r.bytes(n + 2);
            d[0] = *r.pick(&[25u8, 27, 28, 29]);
            d
        }
    }
}

pub fn gen_blob(r: &mut Rng, bp: V3, o: &Opts) -> Vec<u8> {
    if o.undecodable && r.chance(1, 9) {
        gen_bad(r, bp, o)
    } else {
        gen_block(r, bp, o).encode()
    }
}

pub fn gen_world(r: &mut Rng, base: V3, o: &Opts) -> World {
    let mut w = World::new();
    let n = 1 + r.below(o.max_blocks);
    let spread = *r.pick(&[1, 1, 2, 3]);
    for _ in 0..n {
        let mut p = base;
        for c in p.iter_mut() {
            *c = (*c + r.range(-spread, spread)).max(-2048).min(2047);
        }
        let b = gen_blob(r, p, o);
        w.insert(key(p), b);
    }
    w
}

pub fn gen_base(r: &mut Rng) -> V3 {
    let mut p = [0; 3];
    for c in p.iter_mut() {
        *c = match r.below(10) {
            0..=4 => r.range(-1, 1),
            5 => r.range(-1937, 1937),
            6 => 1936,
            7 => -1936,
            8 => *r.pick(&[-2047, 2046, -128, 127, 128, 256, -256]),
            _ => r.range(-40, 40),
        };
    }
    p
}

fn clampc(v: i32) -> i32 {
    v.max(-31000).min(31000)
}

/// An area near block `b`.
pub fn gen_area(r: &mut Rng, b: V3) -> (V3, V3) {
    let mut a = [0; 3];
    let mut c = [0; 3];
    let style = r.below(8);
    for i in 0..3 {
        let e = |r: &mut Rng| *r.pick(&[-1, 0, 0, 1, 7, 14, 15, 15, 16, 17, 31, 32, -15, -16, -17]);
        let (x, y) = match style {
            0 => (-31000, 31000),
            1 => {
                // aligned
                let s = r.range(-1, 1) * 16;
                (b[i] * 16 + s, b[i] * 16 + s + 15 + 16 * r.range(0, 2))
            }
            2 => {
                // thin within the block
                let s = r.range(0, 15);
                (b[i] * 16 + s, b[i] * 16 + s + r.range(0, 2))
            }
            3 => {
                let s = r.range(0, 15);
                (b[i] * 16 + s, b[i] * 16 + r.range(s, 15))
            }
            4 => (b[i] * 16 + r.range(-40, 40), b[i] * 16 + r.range(-40, 40)),
            _ => (b[i] * 16 + e(r), b[i] * 16 + e(r)),
        };
        let (x, y) = if style != 0 && r.chance(1, 12) { (-31000, y) } else { (x, y) };
        a[i] = clampc(x);
        c[i] = clampc(y);
        if r.chance(1, 2) {
            let t = a[i];
            a[i] = c[i];
            c[i] = t;
        }
    }
    (a, c)
}

fn some_key_pos(r: &mut Rng, w: &World) -> V3 {
    let k: Vec<_> = w.keys().collect();
    if k.is_empty() {
        return [0, 0, 0];
    }
    unkey(**r.pick(&k))
}

fn maybe_area(r: &mut Rng, a: &mut Args, w: &World, num: usize, den: usize) {
    if r.chance(num, den) {
        let b = some_key_pos(r, w);
        a.area = Some(gen_area(r, b));
        a.invert = r.chance(2, 5);
    }
}

fn new_name(r: &mut Rng) -> String {
    match r.below(6) {
        0 => format!("brand_new:{}", "n".repeat(245 + r.below(60))),
        1 => "b:a".into(),
        _ => "brand_new:node".into(),
    }
}

pub fn gen_case(r: &mut Rng, cmd: &str, undecodable: bool) -> Case {
    gen_case_of(r, cmd, undecodable, false)
}

/// `wide`: more blocks than any command keeps in memory or counts in one go.
pub fn gen_case_of(r: &mut Rng, cmd: &str, undecodable: bool, wide: bool) -> Case {
    let geo = matches!(cmd, "clone" | "overlay");
    let o = Opts {
        dup_names: matches!(cmd, "clone" | "overlay" | "fill" | "deleteblocks" | "deleteobjects" | "vacuum"),
        max_blocks: if geo { 14 } else { *r.pick(&[1usize, 2, 4, 8]) },
        undecodable,
        big: cmd != "deleteblocks" && r.chance(1, 40),
        many: cmd != "deleteblocks" && r.chance(1, 12),
    };
    let wide = wide || r.chance(1, 400);
    let base = gen_base(r);
    let mut main = gen_world(r, base, &o);
    if cmd == "deleteblocks" && r.chance(1, 2) {
        // Many cheap blocks: geometry is all that matters.
        for _ in 0..60 {
            let p = [0, 1, 2].iter().map(|i| (base[*i] + r.range(-3, 3)).max(-2048).min(2047)).collect::<Vec<_>>();
            let n = r.below(5);
            let b = r.bytes(n);
            main.insert(key([p[0], p[1], p[2]]), b);
        }
    }
    if wide || o.many && r.chance(1, 8) {
        // many equal blocks
        let bl = gen_block(r, base, &Opts { big: false, many: false, dup_names: o.dup_names, ..o }).encode();
        let n = if wide { 1030 + r.below(40) } else { 260 + r.below(60) };
        let w = if wide { 11 } else { 8 };
        for i in 0..n as i32 {
            let p = [i % w - w / 2, i / w % w - w / 2, i / (w * w) - 2];
            let p: Vec<i32> = (0..3).map(|j| (base[j] + p[j]).max(-2048).min(2047)).collect();
            main.entry(key([p[0], p[1], p[2]])).or_insert(bl.clone());
        }
    }
    let mut input = World::new();
    let mut a = Args { cmd: cmd.into(), ..Default::default() };
    let nm = |r: &mut Rng| if r.chance(1, 2) { "default:stone".to_string() } else { r.pick(&NAMES).to_string() };
    match cmd {
        "fill" => {
            maybe_area(r, &mut a, &main, 1, 1);
            a.new_node = Some(if r.chance(1, 5) { new_name(r) } else { nm(r) });
        }
        "replacenodes" => {
            maybe_area(r, &mut a, &main, 2, 3);
            a.node = Some(nm(r));
            loop {
                a.new_node = Some(if r.chance(1, 4) { new_name(r) } else { r.pick(&NAMES).to_string() });
                if a.node != a.new_node {
                    break;
                }
            }
        }
        "setparam2" => {
            maybe_area(r, &mut a, &main, 2, 3);
            if a.area.is_none() || r.chance(1, 2) {
                a.node = Some(nm(r));
            }
            a.param2 = Some((r.next() as u8).to_string());
        }
        "deletemeta" | "deletetimers" => {
            maybe_area(r, &mut a, &main, 1, 2);
            if r.chance(1, 2) {
                a.node = Some(nm(r));
            }
        }
        "deleteobjects" => {
            maybe_area(r, &mut a, &main, 1, 2);
            match r.below(4) {
                0 => {}
                1 => a.object = Some(r.pick(&OBJS).to_string()),
                2 => a.items = Some(vec![]),
                _ => {
                    let n = 1 + r.below(2);
                    a.items = Some((0..n).map(|_| r.pick(&ITEMS).to_string()).collect());
                }
            }
        }
        "replaceininv" => {
            maybe_area(r, &mut a, &main, 1, 2);
            a.item = Some(if r.chance(2, 3) { "default:stone".into() } else { r.pick(&ITEMS).to_string() });
            for _ in 0..*r.pick(&[0usize, 0, 1, 2]) {
                let n = nm(r);
                a.nodes.push(n);
            }
            match r.below(4) {
                0 => a.delete = true,
                1 => a.delete_meta = true,
                2 => {
                    a.new_item = Some("zz:new".into());
                    a.delete_meta = r.chance(1, 2);
                }
                _ => {
                    a.new_item = Some(r.pick(&ITEMS).to_string());
                    a.delete_meta = a.new_item == a.item || r.chance(1, 2);
                }
            }
            if a.delete && r.chance(1, 4) {
                a.delete_meta = true;
            }
        }
        "setmetavar" => {
            maybe_area(r, &mut a, &main, 1, 2);
            a.key = Some(if r.chance(1, 12) { r.pick(&["schlüssel", "a key", "k"]).to_string() } else { r.pick(&KEYS).to_string() });
            if r.chance(1, 2) {
                a.delete = true
            } else {
                a.value = Some(match r.below(8) {
                    0 => " ".into(),
                    1 => "é€ \"q\" \\n".into(),
                    2 => "v\nw".into(),
                    3 => "long ".repeat(*r.pick(&[60usize, 13200])),
                    _ => r.pick(&VALUES).to_string(),
                })
            }
            for _ in 0..*r.pick(&[0usize, 0, 1, 2]) {
                let n = nm(r);
                a.nodes.push(n);
            }
        }
        "deleteblocks" => {
            maybe_area(r, &mut a, &main, 1, 1);
        }
        "clone" | "overlay" => {
            if cmd == "overlay" {
                input = gen_world(r, base, &o);
                // make overlaps frequent
                let keys: Vec<i64> = main.keys().cloned().collect();
                for k in keys {
                    if r.chance(1, 2) {
                        let b = gen_blob(r, unkey(k), &o);
                        input.insert(k, b);
                    }
                }
                maybe_area(r, &mut a, &input, 2, 3);
                if r.chance(1, 2) {
                    a.invert = false;
                }
            } else {
                maybe_area(r, &mut a, &main, 1, 1);
                a.invert = false;
            }
            if cmd == "clone" || (!a.invert && r.chance(1, 2)) {
                let mut of = [0; 3];
                let st = r.below(4);
                for c in of.iter_mut() {
                    *c = match st {
                        0 => *r.pick(&[0, 16, -16, 32, -32]),
                        1 => r.range(-40, 40),
                        2 => *r.pick(&[0, 0, 1, -1, 15, -15, 17]),
                        _ => *r.pick(&[0, 1, -1, 16, -16, 5, 30, -30]),
                    };
                }
                if r.chance(1, 25) {
                    of[r.below(3)] = *r.pick(&[62000, -62000, 31000, -31000]);
                }
                // The destination must touch the map.
                if let Some((lo, hi)) = a.sorted() {
                    for i in 0..3 {
                        if lo[i] + of[i] > 31000 || hi[i] + of[i] < -31000 {
                            of[i] = 0;
                        }
                    }
                }
                a.offset = Some(of);
            } else if a.invert && r.chance(1, 5) {
                a.offset = Some([0; 3]);
            }
        }
        _ => {}
    }
    if wide {
        if cmd == "overlay" && r.chance(1, 2) {
            std::mem::swap(&mut main, &mut input);
        }
        // all of it, or all but a little
        if let Some(_) = a.area {
            a.invert = a.invert && cmd != "fill" && a.offset.map_or(true, |o| o == [0; 3]);
            a.area = Some(if a.invert { ([0; 3], [3; 3]) } else { ([-31000; 3], [31000; 3]) });
        }
    }
    Case { args: a, main, input, note: String::new() }
}
