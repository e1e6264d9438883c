//! Independent mapblock codec, written from Minetest's world_format.txt.
use std::collections::BTreeMap;
use std::io::{Read, Write};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Meta {
    pub vars: BTreeMap<Vec<u8>, (Vec<u8>, bool)>,
    pub inv: Vec<u8>,
}
impl Meta {
    pub fn empty(&self) -> bool {
        self.vars.is_empty() && self.inv.starts_with(b"EndInventory\n")
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Obj {
    pub ty: u8,
    pub pos: [i32; 3],
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Timer {
    pub pos: u16,
    pub timeout: u32,
    pub elapsed: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Block {
    pub version: u8,
    pub flags: u8,
    pub lighting: u16,
    pub nodes: Vec<u16>,
    pub param1: Vec<u8>,
    pub param2: Vec<u8>,
    pub meta: BTreeMap<u16, Meta>,
    pub objects: Vec<Obj>,
    pub timestamp: u32,
    pub nimap: BTreeMap<u16, Vec<u8>>,
    pub timers: Vec<Timer>,
}

pub struct Rd<'a> {
    pub d: &'a [u8],
    pub p: usize,
}
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.d.len() - self.p < n {
            return Err(format!("short at {}", self.p));
        }
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok((b[0] as u16) << 8 | b[1] as u16)
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    pub fn s16(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    pub fn s32(&mut self) -> R<Vec<u8>> {
        let n = self.u32()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    /// Decompress a zlib stream starting here; returns the plain bytes.
    fn zlib(&mut self) -> R<Vec<u8>> {
        let mut z = flate2::bufread::ZlibDecoder::new(&self.d[self.p..]);
        let mut out = Vec::new();
        z.read_to_end(&mut out).map_err(|e| format!("zlib: {}", e))?;
        self.p += z.total_in() as usize;
        Ok(out)
    }
}

fn p_nodes(r: &mut Rd) -> R<(Vec<u16>, Vec<u8>, Vec<u8>)> {
    let mut n = Vec::with_capacity(4096);
    for _ in 0..4096 {
        n.push(r.u16()?);
    }
    Ok((n, r.take(4096)?.to_vec(), r.take(4096)?.to_vec()))
}
/// Where the line "EndInventory" starts.
fn end_line(h: &[u8]) -> Option<usize> {
    let e = b"EndInventory\n";
    (0..h.len()).find(|&i| h[i..].starts_with(e) && (i == 0 || h[i - 1] == b'\n'))
}
fn p_meta(r: &mut Rd) -> R<BTreeMap<u16, Meta>> {
    let v = r.u8()?;
    let mut m = BTreeMap::new();
    if v > 2 {
        return Err("meta version".into());
    }
    if v == 0 {
        return Ok(m);
    }
    for _ in 0..r.u16()? {
        let pos = r.u16()?;
        let mut e = Meta::default();
        for _ in 0..r.u32()? {
            let k = r.s16()?;
            let val = r.s32()?;
            let pr = if v >= 2 { r.u8()? != 0 } else { false };
            e.vars.insert(k, (val, pr));
        }
        let end = end_line(&r.d[r.p..]).ok_or("no EndInventory")?;
        e.inv = r.take(end + 13)?.to_vec();
        m.insert(pos, e);
    }
    Ok(m)
}
fn p_objs(r: &mut Rd) -> R<Vec<Obj>> {
    if r.u8()? != 0 {
        return Err("obj version".into());
    }
    let mut v = vec![];
    for _ in 0..r.u16()? {
        v.push(Obj {
            ty: r.u8()?,
            pos: [r.u32()? as i32, r.u32()? as i32, r.u32()? as i32],
            data: r.s16()?,
        });
    }
    Ok(v)
}
fn p_nimap(r: &mut Rd) -> R<BTreeMap<u16, Vec<u8>>> {
    if r.u8()? != 0 {
        return Err("nimap version".into());
    }
    let mut m = BTreeMap::new();
    for _ in 0..r.u16()? {
        let id = r.u16()?;
        m.insert(id, r.s16()?);
    }
    Ok(m)
}
fn p_timers(r: &mut Rd) -> R<Vec<Timer>> {
    if r.u8()? != 10 {
        return Err("timer len".into());
    }
    let mut v = vec![];
    for _ in 0..r.u16()? {
        v.push(Timer { pos: r.u16()?, timeout: r.u32()?, elapsed: r.u32()? });
    }
    Ok(v)
}

pub fn decode(data: &[u8]) -> R<Block> {
    let mut raw = Rd { d: data, p: 0 };
    let version = raw.u8()?;
    if version < 25 || version > 29 {
        return Err("version".into());
    }
    let plain;
    let mut r = if version == 29 {
        plain = zstd::stream::decode_all(&data[1..]).map_err(|e| format!("zstd: {}", e))?;
        Rd { d: &plain, p: 0 }
    } else {
        raw
    };
    let flags = r.u8()?;
    let lighting = if version >= 27 { r.u16()? } else { 0xFFFF };
    let (mut timestamp, mut nimap) = (0, BTreeMap::new());
    if version == 29 {
        timestamp = r.u32()?;
        nimap = p_nimap(&mut r)?;
    }
    if r.u8()? != 2 || r.u8()? != 2 {
        return Err("widths".into());
    }
    let (nodes, param1, param2);
    let meta;
    if version == 29 {
        let t = p_nodes(&mut r)?;
        nodes = t.0;
        param1 = t.1;
        param2 = t.2;
        meta = p_meta(&mut r)?;
    } else {
        let b = r.zlib()?;
        let mut s = Rd { d: &b, p: 0 };
        let t = p_nodes(&mut s)?;
        if s.p != b.len() {
            return Err("extra node data".into());
        }
        nodes = t.0;
        param1 = t.1;
        param2 = t.2;
        let b = r.zlib()?;
        meta = p_meta(&mut Rd { d: &b, p: 0 })?;
    }
    let objects = p_objs(&mut r)?;
    if version < 29 {
        timestamp = r.u32()?;
        nimap = p_nimap(&mut r)?;
    }
    let timers = p_timers(&mut r)?;
    let b = Block { version, flags, lighting, nodes, param1, param2, meta, objects, timestamp, nimap, timers };
    b.consistent()?;
    Ok(b)
}

pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(&mut self, v: u8) {
        self.0.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_be_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_be_bytes())
    }
    pub fn s16(&mut self, s: &[u8]) {
        self.u16(s.len() as u16);
        self.0.extend_from_slice(s)
    }
    pub fn s32(&mut self, s: &[u8]) {
        self.u32(s.len() as u32);
        self.0.extend_from_slice(s)
    }
    fn zlib(&mut self, s: &[u8]) {
        let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(1));
        e.write_all(s).unwrap();
        self.0.extend_from_slice(&e.finish().unwrap());
    }
}

impl Block {
    pub fn consistent(&self) -> R<()> {
        let mut ok = vec![false; 65536];
        for k in self.nimap.keys() {
            ok[*k as usize] = true;
        }
        if self.nodes.iter().any(|n| !ok[*n as usize]) {
            return Err("unnamed node id".into());
        }
        if self.meta.keys().any(|k| *k >= 4096) || self.timers.iter().any(|t| t.pos >= 4096) {
            return Err("position outside block".into());
        }
        Ok(())
    }
    fn w_nodes(&self, w: &mut W) {
        for n in &self.nodes {
            w.u16(*n)
        }
        w.0.extend_from_slice(&self.param1);
        w.0.extend_from_slice(&self.param2);
    }
    fn w_meta(&self, w: &mut W) {
        let mv = if self.version >= 28 { 2 } else { 1 };
        if self.meta.is_empty() {
            return w.u8(0);
        }
        w.u8(mv);
        w.u16(self.meta.len() as u16);
        for (p, m) in &self.meta {
            w.u16(*p);
            w.u32(m.vars.len() as u32);
            for (k, (v, pr)) in &m.vars {
                w.s16(k);
                w.s32(v);
                if mv == 2 {
                    w.u8(*pr as u8)
                }
            }
            w.0.extend_from_slice(&m.inv);
        }
    }
    fn w_objs(&self, w: &mut W) {
        w.u8(0);
        w.u16(self.objects.len() as u16);
        for o in &self.objects {
            w.u8(o.ty);
            for c in &o.pos {
                w.u32(*c as u32)
            }
            w.s16(&o.data);
        }
    }
    fn w_nimap(&self, w: &mut W) {
        w.u8(0);
        w.u16(self.nimap.len() as u16);
        for (k, v) in &self.nimap {
            w.u16(*k);
            w.s16(v);
        }
    }
    fn w_timers(&self, w: &mut W) {
        w.u8(10);
        w.u16(self.timers.len() as u16);
        for t in &self.timers {
            w.u16(t.pos);
            w.u32(t.timeout);
            w.u32(t.elapsed);
        }
    }
    /// Plain (uncompressed) section list, used to build the bytes.
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W(vec![]);
        if self.version == 29 {
            w.u8(self.flags);
            w.u16(self.lighting);
            w.u32(self.timestamp);
            self.w_nimap(&mut w);
            w.u8(2);
            w.u8(2);
            self.w_nodes(&mut w);
            self.w_meta(&mut w);
            self.w_objs(&mut w);
            self.w_timers(&mut w);
            let mut out = vec![29];
            out.extend(zstd::stream::encode_all(w.0.as_slice(), 0).unwrap());
            out
        } else {
            w.u8(self.version);
            w.u8(self.flags);
            if self.version >= 27 {
                w.u16(self.lighting)
            }
            w.u8(2);
            w.u8(2);
            let mut t = W(vec![]);
            self.w_nodes(&mut t);
            w.zlib(&t.0);
            let mut t = W(vec![]);
            self.w_meta(&mut t);
            w.zlib(&t.0);
            self.w_objs(&mut w);
            w.u32(self.timestamp);
            self.w_nimap(&mut w);
            self.w_timers(&mut w);
            w.0
        }
    }
    pub fn name(&self, i: usize) -> &[u8] {
        &self.nimap[&self.nodes[i]]
    }
    pub fn generated(&self) -> bool {
        self.flags & 8 == 0
    }
}

/// "Not generated exactly when its not-generated flag is set or its header
/// cannot be read."
pub fn header_generated(d: &[u8]) -> bool {
    if d.len() < 2 || d[0] < 25 || d[0] > 29 {
        return false;
    }
    let f = if d[0] == 29 {
        let mut z = zstd::stream::Decoder::new(&d[1..]).unwrap();
        let mut b = [0];
        if z.read_exact(&mut b).is_err() {
            return false;
        }
        b[0]
    } else {
        d[1]
    };
    f & 8 == 0
}

/// Semantic comparison: per-node names, everything else exact, empty metadata
/// entries ignored.  Returns a description of the first difference.
pub fn diff(want: &Block, got: &Block) -> Option<String> {
    if want.version != got.version {
        return Some(format!("version {} != {}", got.version, want.version));
    }
    if want.flags != got.flags {
        return Some(format!("flags {} != {}", got.flags, want.flags));
    }
    if want.lighting != got.lighting && want.version >= 27 {
        return Some(format!("lighting {} != {}", got.lighting, want.lighting));
    }
    if want.timestamp != got.timestamp {
        return Some(format!("timestamp {} != {}", got.timestamp, want.timestamp));
    }
    for i in 0..4096 {
        if want.name(i) != got.name(i) {
            return Some(format!("node {} is {:?}, expected {:?}", i,
                String::from_utf8_lossy(got.name(i)), String::from_utf8_lossy(want.name(i))));
        }
        if want.param1[i] != got.param1[i] {
            return Some(format!("param1[{}] is {}, expected {}", i, got.param1[i], want.param1[i]));
        }
        if want.param2[i] != got.param2[i] {
            return Some(format!("param2[{}] is {}, expected {}", i, got.param2[i], want.param2[i]));
        }
    }
    let strip = |b: &Block| -> BTreeMap<u16, Meta> {
        b.meta.iter().filter(|(_, m)| !m.empty()).map(|(k, m)| {
            let mut m = m.clone();
            if b.version < 28 {
                for v in m.vars.values_mut() {
                    v.1 = false
                }
            }
            (*k, m)
        }).collect()
    };
    let (a, b) = (strip(want), strip(got));
    if a != b {
        for k in a.keys().chain(b.keys()) {
            if a.get(k) != b.get(k) {
                return Some(format!("metadata at {}: {:.300} expected {:.300}", k, format!("{:?}", b.get(k)), format!("{:?}", a.get(k))));
            }
        }
    }
    if want.objects != got.objects {
        return Some(format!("objects {:.300} expected {:.300}", format!("{:?}", got.objects), format!("{:?}", want.objects)));
    }
    if want.timers != got.timers {
        return Some(format!("timers {:.300} expected {:.300}", format!("{:?}", got.timers), format!("{:?}", want.timers)));
    }
    None
}
