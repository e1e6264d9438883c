verus! {

// ---- memory at hand ----------------------------------------------------------------------------
/// How much data is held in memory: at least as much as any slice has elements.
pub uninterp spec fn mem() -> int;
pub broadcast axiom fn ax_mem(s: &[u8]) ensures #[trigger] s@.len() <= mem(), s@.len() <= isize::MAX;
/// A size that may be allocated: small, or backed by data that is there.
pub open spec fn may_alloc(n: int) -> bool { n <= 0x1_0000 || n <= mem() }

// ---- bytes and numbers, big-endian ---------------------------------------------------------------
pub open spec fn be32(n: u32) -> Bytes { seq![(n / 0x100_0000) as u8, (n / 0x1_0000 % 0x100) as u8, (n / 0x100 % 0x100) as u8, (n % 0x100) as u8] }
pub open spec fn bei32(n: i32) -> Bytes { be32(if n >= 0 { n as u32 } else { (n + 0x1_0000_0000) as u32 }) }
/// What a reader yields, and what is left.
pub type P<V> = Option<(V, Bytes)>;
pub open spec fn p_u8(s: Bytes) -> P<u8> { if s.len() < 1 { None } else { Some((s[0], s.skip(1))) } }
pub open spec fn p_u16(s: Bytes) -> P<u16> { if s.len() < 2 { None } else { Some(((s[0] * 0x100 + s[1]) as u16, s.skip(2))) } }
pub open spec fn p_u32(s: Bytes) -> P<u32> { if s.len() < 4 { None } else { Some(((s[0] * 0x100_0000 + s[1] * 0x1_0000 + s[2] * 0x100 + s[3]) as u32, s.skip(4))) } }
pub open spec fn signed(n: u32) -> i32 { if n < 0x8000_0000 { n as i32 } else { (n - 0x1_0000_0000) as i32 } }
pub open spec fn p_i32(s: Bytes) -> P<i32> { match p_u32(s) { None => None, Some((n, r)) => Some((signed(n), r)) } }
pub open spec fn p_n(s: Bytes, n: int) -> P<Bytes> { if s.len() < n { None } else { Some((s.take(n), s.skip(n))) } }

// ---- in-memory cursors (std::io::Cursor) -----------------------------------------------------------
pub struct Cursor<T> { pub inner: T, pub p: u64 }
impl<T> Cursor<T> {
    pub fn new(x: T) -> (r: Self) ensures r.inner == x, r.p == 0 { Cursor { inner: x, p: 0 } }
    pub fn get_ref(&self) -> (r: &T) ensures *r == self.inner { &self.inner }
    pub fn into_inner(self) -> (r: T) ensures r == self.inner { self.inner }
    pub fn position(&self) -> (r: u64) ensures r == self.p { self.p }
    pub fn set_position(&mut self, p: u64) ensures final(self).p == p, final(self).inner == old(self).inner { self.p = p; }
}

// ---- reading (std::io::Read with byteorder's ReadBytesExt) --------------------------------------------
pub trait Read: Sized {
    /// The position is inside the data.
    spec fn rwf(&self) -> bool;
    /// What is still to be read.
    spec fn rest(&self) -> Bytes;
    /// The same source, at another position.
    #[verifier::prophetic]
    spec fn rkin(&self, o: &Self) -> bool;
    proof fn rkin_trans(a: &Self, b: &Self, c: &Self) requires a.rkin(b), b.rkin(c) ensures a.rkin(c);
    fn read_u8(&mut self) -> (r: Result<u8, IoError>)
        requires old(self).rwf()
        ensures final(self).rwf(), final(self).rkin(old(self)),
            match p_u8(old(self).rest()) { Some((v, t)) => r == Ok::<u8, IoError>(v) && final(self).rest() == t, None => r.is_err() };
    fn read_u16(&mut self) -> (r: Result<u16, IoError>)
        requires old(self).rwf()
        ensures final(self).rwf(), final(self).rkin(old(self)),
            match p_u16(old(self).rest()) { Some((v, t)) => r == Ok::<u16, IoError>(v) && final(self).rest() == t, None => r.is_err() };
    fn read_u32(&mut self) -> (r: Result<u32, IoError>)
        requires old(self).rwf()
        ensures final(self).rwf(), final(self).rkin(old(self)),
            match p_u32(old(self).rest()) { Some((v, t)) => r == Ok::<u32, IoError>(v) && final(self).rest() == t, None => r.is_err() };
    fn read_i32(&mut self) -> (r: Result<i32, IoError>)
        requires old(self).rwf()
        ensures final(self).rwf(), final(self).rkin(old(self)),
            match p_i32(old(self).rest()) { Some((v, t)) => r == Ok::<i32, IoError>(v) && final(self).rest() == t, None => r.is_err() };
    fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<(), IoError>)
        requires old(self).rwf()
        ensures final(self).rwf(), final(self).rkin(old(self)), final(buf)@.len() == old(buf)@.len(),
            match p_n(old(self).rest(), old(buf)@.len() as int) { Some((v, t)) => r.is_ok() && final(buf)@ == v && final(self).rest() == t, None => r.is_err() };
}
impl<'a> Read for Cursor<&'a [u8]> {
    open spec fn rwf(&self) -> bool { self.p <= self.inner@.len() }
    open spec fn rest(&self) -> Bytes { self.inner@.skip(self.p as int) }
    #[verifier::prophetic]
    open spec fn rkin(&self, o: &Self) -> bool { self.inner == o.inner }
    proof fn rkin_trans(a: &Self, b: &Self, c: &Self) { }
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u16(&mut self) -> (r: Result<u16, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u32(&mut self) -> (r: Result<u32, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_i32(&mut self) -> (r: Result<i32, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<(), IoError>) { unimplemented!() }
}

// ---- writing (std::io::Write with byteorder's WriteBytesExt) --------------------------------------------
pub trait Write: Sized {
    spec fn wf(&self) -> bool;
    /// Everything written so far.
    spec fn sink(&self) -> Bytes;
    /// The same sink with more in it.
    #[verifier::prophetic]
    spec fn kin(&self, o: &Self) -> bool;
    proof fn kin_refl(a: &Self) ensures a.kin(a);
    proof fn kin_trans(a: &Self, b: &Self, c: &Self) requires a.kin(b), b.kin(c) ensures a.kin(c);
    // writing cannot fail (memory sinks and encoders over them)
    fn write_u8(&mut self, x: u8) -> (r: Result<(), IoError>)
        requires old(self).wf()
        ensures r.is_ok(), final(self).wf(), final(self).kin(old(self)), final(self).sink() == old(self).sink() + seq![x];
    fn write_u16(&mut self, x: u16) -> (r: Result<(), IoError>)
        requires old(self).wf()
        ensures r.is_ok(), final(self).wf(), final(self).kin(old(self)), final(self).sink() == old(self).sink() + be16(x);
    fn write_u32(&mut self, x: u32) -> (r: Result<(), IoError>)
        requires old(self).wf()
        ensures r.is_ok(), final(self).wf(), final(self).kin(old(self)), final(self).sink() == old(self).sink() + be32(x);
    fn write_i32(&mut self, x: i32) -> (r: Result<(), IoError>)
        requires old(self).wf()
        ensures r.is_ok(), final(self).wf(), final(self).kin(old(self)), final(self).sink() == old(self).sink() + bei32(x);
    fn write_all(&mut self, x: &[u8]) -> (r: Result<(), IoError>)
        requires old(self).wf()
        ensures r.is_ok(), final(self).wf(), final(self).kin(old(self)), final(self).sink() == old(self).sink() + x@;
}
impl Write for Vec<u8> {
    open spec fn wf(&self) -> bool { true }
    open spec fn sink(&self) -> Bytes { self@ }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { true }
    proof fn kin_refl(a: &Self) { }
    proof fn kin_trans(a: &Self, b: &Self, c: &Self) { }
    #[verifier::external_body]
    fn write_u8(&mut self, x: u8) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u16(&mut self, x: u16) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u32(&mut self, x: u32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_i32(&mut self, x: i32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, x: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}
impl Write for Cursor<Vec<u8>> {
    /// At the end of the data.
    open spec fn wf(&self) -> bool { self.p == self.inner@.len() }
    open spec fn sink(&self) -> Bytes { self.inner@ }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { true }
    proof fn kin_refl(a: &Self) { }
    proof fn kin_trans(a: &Self, b: &Self, c: &Self) { }
    #[verifier::external_body]
    fn write_u8(&mut self, x: u8) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u16(&mut self, x: u16) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u32(&mut self, x: u32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_i32(&mut self, x: i32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, x: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}

// ---- zlib (flate2, assumed) -------------------------------------------------------------------------
/// Decompressing from the start of some bytes: what comes out before the end or an error, whether the end
/// was reached, and how many of the bytes were used up to there.
pub struct ZlV { pub out: Bytes, pub ok: bool, pub used: int }
pub uninterp spec fn zl(s: Bytes) -> ZlV;
pub uninterp spec fn zip(s: Bytes) -> Bytes;
#[verifier::external_body]
pub proof fn ax_zl(s: Bytes) ensures zl(s).ok ==> 0 <= zl(s).used <= s.len() { }
#[verifier::external_body]
pub proof fn ax_zip(s: Bytes, post: Bytes) ensures zl(zip(s) + post) == (ZlV { out: s, ok: true, used: zip(s).len() as int }) { }
pub struct Compression { pub level: u32 }
impl Compression { pub fn default() -> Compression { Compression { level: 6 } } }
pub struct ZlibDecoder<'a, 'b> { pub src: &'a mut Cursor<&'b [u8]>, pub z: Ghost<ZlV>, pub left: Ghost<Bytes>, pub ended: Ghost<bool> }
impl<'a, 'b> ZlibDecoder<'a, 'b> {
    #[verifier::external_body]
    pub fn new(src: &'a mut Cursor<&'b [u8]>) -> (r: Self)
        requires old(src).rwf()
        ensures r.src.inner == old(src).inner, r.src.rwf(), *final(r.src) == *final(src),
            r.z@ == zl(old(src).rest()), r.left@ == r.z@.out, !r.ended@
    { unimplemented!() }
    /// 0: the end.
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8; 1]) -> (r: Result<usize, IoError>)
        requires old(self).rwf()
        ensures final(self).rwf(), final(self).rkin(old(self)),
            match r {
                Ok(n) => if old(self).left@.len() > 0 { n == 1 && final(self).left@ == old(self).left@.skip(1) } else { n == 0 && final(self).z@.ok && final(self).ended@ },
                Err(_) => old(self).left@.len() == 0 && !final(self).z@.ok,
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        requires old(self).rwf()
        ensures final(self).rwf(), final(self).rkin(old(self)), r.is_ok() == final(self).z@.ok,
            r.is_ok() ==> final(self).ended@ && final(self).left@.len() == 0 && final(buf)@ == old(buf)@ + old(self).left@
    { unimplemented!() }
    /// Meaningful once the end was seen.
    #[verifier::external_body]
    pub fn total_in(&self) -> (r: u64) ensures self.ended@ && self.z@.ok ==> r == self.z@.used { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: &'a mut Cursor<&'b [u8]>) ensures *r == *old(self.src), *final(r) == *final(self.src) { self.src }
}
impl<'a, 'b> Read for ZlibDecoder<'a, 'b> {
    open spec fn rwf(&self) -> bool { self.src.rwf() }
    open spec fn rest(&self) -> Bytes { self.left@ }
    #[verifier::prophetic]
    open spec fn rkin(&self, o: &Self) -> bool { self.src.inner == o.src.inner && *final(self.src) == *final(o.src) && self.z == o.z }
    proof fn rkin_trans(a: &Self, b: &Self, c: &Self) { }
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u16(&mut self) -> (r: Result<u16, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_u32(&mut self) -> (r: Result<u32, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_i32(&mut self) -> (r: Result<i32, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<(), IoError>) { unimplemented!() }
}
pub struct ZlibEncoder<'a, T> { pub dst: &'a mut T, pub buf: Ghost<Bytes> }
impl<'a, T: Write> ZlibEncoder<'a, T> {
    #[verifier::external_body]
    pub fn new(dst: &'a mut T, level: Compression) -> (r: Self)
        requires old(dst).wf()
        ensures *r.dst == *old(dst), *final(r.dst) == *final(dst), r.buf@ == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: Result<&'a mut T, IoError>)
        ensures r matches Ok(x) && (*x).wf() && (*x).kin(old(self.dst)) && (*x).sink() == (*old(self.dst)).sink() + zip(self.buf@) && *final(x) == *final(self.dst)
    { unimplemented!() }
}
impl<'a, T: Write> Write for ZlibEncoder<'a, T> {
    open spec fn wf(&self) -> bool { true }
    open spec fn sink(&self) -> Bytes { self.buf@ }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { *final(self.dst) == *final(o.dst) && *self.dst == *o.dst }
    proof fn kin_refl(a: &Self) { }
    proof fn kin_trans(a: &Self, b: &Self, c: &Self) { }
    #[verifier::external_body]
    fn write_u8(&mut self, x: u8) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u16(&mut self, x: u16) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_u32(&mut self, x: u32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_i32(&mut self, x: i32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, x: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}

// ---- zstd (assumed) -----------------------------------------------------------------------------------
pub struct ZsV { pub out: Bytes, pub ok: bool }
pub uninterp spec fn zs(s: Bytes) -> ZsV;
pub uninterp spec fn zzip(s: Bytes) -> Bytes;
#[verifier::external_body]
pub proof fn ax_zs() ensures zs(Seq::<u8>::empty()).out.len() == 0 { }
#[verifier::external_body]
pub proof fn ax_zzip(s: Bytes) ensures zs(zzip(s)) == (ZsV { out: s, ok: true }) { }
    #[verifier::external_body]
    pub fn decode_all<'a>(src: Cursor<&'a [u8]>) -> (r: Result<Vec<u8>, IoError>)
        ensures r.is_ok() == zs(src.rest()).ok, r matches Ok(v) ==> v@ == zs(src.rest()).out
    { unimplemented!() }
    pub struct Decoder { pub left: Ghost<Bytes> }
    impl Decoder {
        #[verifier::external_body]
        pub fn new<'a>(src: Cursor<&'a [u8]>) -> (r: Result<Decoder, IoError>) ensures r matches Ok(d) && d.left@ == zs(src.rest()).out { unimplemented!() }
    }
    impl Read for Decoder {
        open spec fn rwf(&self) -> bool { true }
        open spec fn rest(&self) -> Bytes { self.left@ }
        #[verifier::prophetic]
        open spec fn rkin(&self, o: &Self) -> bool { true }
        proof fn rkin_trans(a: &Self, b: &Self, c: &Self) { }
        #[verifier::external_body]
        fn read_u8(&mut self) -> (r: Result<u8, IoError>) { unimplemented!() }
        #[verifier::external_body]
        fn read_u16(&mut self) -> (r: Result<u16, IoError>) { unimplemented!() }
        #[verifier::external_body]
        fn read_u32(&mut self) -> (r: Result<u32, IoError>) { unimplemented!() }
        #[verifier::external_body]
        fn read_i32(&mut self) -> (r: Result<i32, IoError>) { unimplemented!() }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<(), IoError>) { unimplemented!() }
    }
    pub struct Encoder<W> { pub w: W, pub buf: Ghost<Bytes> }
    impl<W: Write> Encoder<W> {
        #[verifier::external_body]
        pub fn new(w: W, level: i32) -> (r: Result<Encoder<W>, IoError>) requires w.wf() ensures r matches Ok(e) && e.w == w && e.buf@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(self) -> (r: Result<W, IoError>) ensures r matches Ok(w) && w.wf() && w.sink() == self.w.sink() + zzip(self.buf@) { unimplemented!() }
    }
    impl<W: Write> Write for Encoder<W> {
        open spec fn wf(&self) -> bool { true }
        open spec fn sink(&self) -> Bytes { self.buf@ }
        #[verifier::prophetic]
        open spec fn kin(&self, o: &Self) -> bool { self.w == o.w }
        proof fn kin_refl(a: &Self) { }
        proof fn kin_trans(a: &Self, b: &Self, c: &Self) { }
        #[verifier::external_body]
        fn write_u8(&mut self, x: u8) -> (r: Result<(), IoError>) { unimplemented!() }
        #[verifier::external_body]
        fn write_u16(&mut self, x: u16) -> (r: Result<(), IoError>) { unimplemented!() }
        #[verifier::external_body]
        fn write_u32(&mut self, x: u32) -> (r: Result<(), IoError>) { unimplemented!() }
        #[verifier::external_body]
        fn write_i32(&mut self, x: i32) -> (r: Result<(), IoError>) { unimplemented!() }
        #[verifier::external_body]
        fn write_all(&mut self, x: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
    }

// ---- byteorder, slice forms (assumed) ---------------------------------------------------------------------
pub open spec fn u16s(b: Bytes) -> Seq<u16> { Seq::new((b.len() / 2) as nat, |i: int| (b[2 * i] * 0x100 + b[2 * i + 1]) as u16) }
pub open spec fn enc_u16s(v: Seq<u16>) -> Bytes { Seq::new(2 * v.len(), |i: int| if i % 2 == 0 { (v[i / 2] / 0x100) as u8 } else { (v[i / 2] % 0x100) as u8 }) }
pub struct BigEndian { pub e: u8 }
impl BigEndian {
    #[verifier::external_body]
    pub fn read_u16_into(src: &[u8], dst: &mut Vec<u16>)
        requires src@.len() == 2 * old(dst)@.len()
        ensures final(dst)@ == u16s(src@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u16_into(src: &[u16], dst: &mut [u8])
        requires old(dst)@.len() == 2 * src@.len()
        ensures final(dst)@ == enc_u16s(src@)
    { unimplemented!() }
}
/// &mut v[..n]
#[verifier::external_body]
pub fn v_to_mut<'a>(v: &'a mut Vec<u8>, n: usize) -> (r: &'a mut [u8])
    requires n <= old(v)@.len()
    ensures r@ == old(v)@.take(n as int), final(r)@.len() == n ==> final(v)@ == final(r)@ + old(v)@.skip(n as int)
{ &mut v[..n] }
/// v.shrink_to_fit()
pub trait VShrink { 
    spec fn shr(&self) -> Bytes;
    fn v_shrink(&mut self) ensures final(self).shr() == old(self).shr();
}
impl VShrink for Vec<u8> {
    open spec fn shr(&self) -> Bytes { self@ }
    #[verifier::external_body]
    fn v_shrink(&mut self) { self.shrink_to_fit() }
}

}
