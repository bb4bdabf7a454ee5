//! Independent encoder/decoder for the messages, written from the SPDM 1.1/1.2 tables and the
//! limits documented by the library. Nothing here uses the library's codec.

use crate::util::{Lim, NONCE};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    Trunc,
    Reserved,
    Field,
    TooLarge,
}
pub type R<T> = Result<T, Bad>;

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub o: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, o: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.o < n {
            return Err(Bad::Trunc);
        }
        let s = &self.b[self.o..self.o + n];
        self.o += n;
        Ok(s)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        let s = self.take(2)?;
        Ok(u16::from(s[0]) | u16::from(s[1]) << 8)
    }
    pub fn u24(&mut self) -> R<u32> {
        let s = self.take(3)?;
        Ok(u32::from(s[0]) | u32::from(s[1]) << 8 | u32::from(s[2]) << 16)
    }
    pub fn u32(&mut self) -> R<u32> {
        let s = self.take(4)?;
        Ok(u32::from(s[0]) | u32::from(s[1]) << 8 | u32::from(s[2]) << 16 | u32::from(s[3]) << 24)
    }
    /// Reserved bytes, one at a time: the first offence decides the kind.
    pub fn zero(&mut self, n: usize) -> R<()> {
        for _ in 0..n {
            if self.u8()? != 0 {
                return Err(Bad::Reserved);
            }
        }
        Ok(())
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.o
    }
}

fn le(v: &mut Vec<u8>, x: u64, n: usize) {
    for i in 0..n {
        v.push((x >> (8 * i)) as u8);
    }
}

pub const GET_VERSION: u8 = 0x84;
pub const VERSION: u8 = 0x04;
pub const GET_CAPABILITIES: u8 = 0xE1;
pub const CAPABILITIES: u8 = 0x61;
pub const NEGOTIATE_ALGORITHMS: u8 = 0xE3;
pub const ALGORITHMS: u8 = 0x63;
pub const GET_DIGESTS: u8 = 0x81;
pub const DIGESTS: u8 = 0x01;
pub const GET_CERTIFICATE: u8 = 0x82;
pub const CERTIFICATE: u8 = 0x02;
pub const CHALLENGE: u8 = 0x83;
pub const CHALLENGE_AUTH: u8 = 0x03;
pub const GET_MEASUREMENTS: u8 = 0xE0;
pub const MEASUREMENTS: u8 = 0x60;
pub const ERROR: u8 = 0x7F;

/// The header version byte this library documents for each message code.
pub fn ver_of(code: u8) -> u8 {
    match code {
        GET_VERSION | VERSION => 0x10,
        GET_MEASUREMENTS | MEASUREMENTS | ERROR => 0x12,
        _ => 0x11,
    }
}

pub fn hdr(code: u8) -> Vec<u8> {
    vec![ver_of(code), code]
}

pub fn digest_len(h: u32) -> usize {
    match h {
        1 | 8 => 32,
        2 | 0x10 => 48,
        4 | 0x20 => 64,
        _ => 0,
    }
}

pub fn sig_len(a: u32) -> usize {
    match a {
        1 | 2 => 256,
        4 | 8 => 384,
        0x10 => 64,
        0x20 | 0x40 => 512,
        0x80 => 96,
        0x100 => 132,
        _ => 0,
    }
}

// ---------------------------------------------------------------- version
pub fn get_version() -> Vec<u8> {
    vec![0x10, GET_VERSION, 0, 0]
}
/// entries: [major, minor, update, alpha]
pub fn version(entries: &[[u8; 4]]) -> Vec<u8> {
    let mut v = hdr(VERSION);
    v.extend_from_slice(&[0, 0, 0, entries.len() as u8]);
    for e in entries {
        v.push((e[3] & 15) | e[2] << 4);
        v.push((e[1] & 15) | e[0] << 4);
    }
    v
}
pub fn parse_version(body: &[u8]) -> R<(Vec<[u8; 4]>, usize)> {
    let mut c = Cur::new(body);
    c.zero(3)?;
    let n = c.u8()?;
    if n > 2 {
        return Err(Bad::Field);
    }
    let mut v = vec![];
    for _ in 0..n {
        let w = c.u16()?;
        v.push([(w >> 12) as u8, (w >> 8 & 15) as u8, (w >> 4 & 15) as u8, (w & 15) as u8]);
    }
    Ok((v, c.o))
}

// ---------------------------------------------------------------- capabilities
pub const REQ_MASK: u32 = 0x1FFC6;
pub const RSP_MASK: u32 = 0x1FFFF;

pub fn caps(code: u8, ct: u8, flags: u32) -> Vec<u8> {
    let mut v = hdr(code);
    v.extend_from_slice(&[0, 0, 0, ct, 0, 0]);
    le(&mut v, u64::from(flags), 4);
    v
}
pub fn parse_caps(body: &[u8], mask: u32) -> R<(u8, u32, usize)> {
    let mut c = Cur::new(body);
    c.zero(3)?;
    let ct = c.u8()?;
    c.zero(2)?;
    let f = c.u32()?;
    if f & !mask != 0 {
        return Err(Bad::Field);
    }
    Ok((ct, f, c.o))
}

// ---------------------------------------------------------------- algorithms
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AlgStruct {
    pub ty: u8,
    pub bits: u16,
    pub ext: u8,
}
pub fn alg_mask(ty: u8) -> u16 {
    match ty {
        2 => 0x3F,
        3 => 0x7,
        4 => 0x1FF,
        5 => 0x1,
        _ => 0,
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Negotiate {
    pub spec: u8,
    pub asym: u32,
    pub hash: u32,
    pub ext_asym: u8,
    pub ext_hash: u8,
    pub structs: Vec<AlgStruct>,
}
impl Negotiate {
    pub fn size(&self) -> usize {
        32 + 4 * (usize::from(self.ext_asym) + usize::from(self.ext_hash))
            + self.structs.iter().map(|s| 4 + 4 * usize::from(s.ext)).sum::<usize>()
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = hdr(NEGOTIATE_ALGORITHMS);
        v.push(self.structs.len() as u8);
        v.push(0);
        le(&mut v, self.size() as u64, 2);
        v.push(self.spec);
        v.push(0);
        le(&mut v, u64::from(self.asym), 4);
        le(&mut v, u64::from(self.hash), 4);
        v.extend_from_slice(&[0; 12]);
        v.push(self.ext_asym);
        v.push(self.ext_hash);
        v.extend_from_slice(&[0; 2]);
        for i in 0..(usize::from(self.ext_asym) + usize::from(self.ext_hash)) {
            v.extend_from_slice(&[i as u8, 0xEE, 0x5A, 0xFF]);
        }
        enc_structs(&mut v, &self.structs);
        v
    }
}
fn enc_structs(v: &mut Vec<u8>, s: &[AlgStruct]) {
    for a in s {
        v.push(a.ty);
        v.push(0x20 | a.ext);
        le(v, u64::from(a.bits), 2);
        for i in 0..a.ext {
            v.extend_from_slice(&[0xC0, i, 0x77, 0x01]);
        }
    }
}
fn dec_structs(c: &mut Cur, n: u8) -> R<Vec<AlgStruct>> {
    let mut out = vec![];
    for _ in 0..n {
        let ty = c.u8()?;
        if !(2..=5).contains(&ty) {
            return Err(Bad::Field);
        }
        let k = c.u8()?;
        if k >> 4 != 2 {
            return Err(Bad::Field);
        }
        let bits = c.u16()?;
        if bits & !alg_mask(ty) != 0 {
            return Err(Bad::Field);
        }
        c.take(4 * usize::from(k & 15))?;
        out.push(AlgStruct { ty, bits, ext: k & 15 });
    }
    Ok(out)
}
/// Returns the message, the declared length field and the bytes consumed.
pub fn parse_negotiate(body: &[u8]) -> R<(Negotiate, u16, usize)> {
    let mut c = Cur::new(body);
    let n = c.u8()?;
    if n > 4 {
        return Err(Bad::Field);
    }
    c.zero(1)?;
    let len = c.u16()?;
    if len > 128 {
        return Err(Bad::TooLarge);
    }
    let spec = c.u8()?;
    if spec & !1 != 0 {
        return Err(Bad::Field);
    }
    c.zero(1)?;
    let asym = c.u32()?;
    if asym & !0x1FF != 0 {
        return Err(Bad::Field);
    }
    let hash = c.u32()?;
    if hash & !0x3F != 0 {
        return Err(Bad::Field);
    }
    c.zero(12)?;
    let ea = c.u8()?;
    let eh = c.u8()?;
    c.zero(2)?;
    c.take(4 * (usize::from(ea) + usize::from(eh)))?;
    let structs = dec_structs(&mut c, n)?;
    Ok((Negotiate { spec, asym, hash, ext_asym: ea, ext_hash: eh, structs }, len, c.o))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Algs {
    pub spec: u8,
    pub meas_hash: u32,
    pub asym: u32,
    pub hash: u32,
    pub structs: Vec<AlgStruct>,
}
impl Algs {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = hdr(ALGORITHMS);
        v.push(self.structs.len() as u8);
        v.push(0);
        let len = 36 + self.structs.iter().map(|s| 4 + 4 * usize::from(s.ext)).sum::<usize>();
        le(&mut v, len as u64, 2);
        v.push(self.spec);
        v.push(0);
        le(&mut v, u64::from(self.meas_hash), 4);
        le(&mut v, u64::from(self.asym), 4);
        le(&mut v, u64::from(self.hash), 4);
        v.extend_from_slice(&[0; 16]);
        enc_structs(&mut v, &self.structs);
        v
    }
}
pub fn parse_algs(body: &[u8]) -> R<(Algs, u16, usize)> {
    let mut c = Cur::new(body);
    let n = c.u8()?;
    if n > 4 {
        return Err(Bad::Field);
    }
    c.zero(1)?;
    let len = c.u16()?;
    let spec = c.u8()?;
    if spec != 1 {
        return Err(Bad::Field);
    }
    c.zero(1)?;
    let one = |x: u32, m: u32| if x & !m != 0 || x.count_ones() != 1 { Err(Bad::Field) } else { Ok(x) };
    let meas_hash = one(c.u32()?, 0x3F)?;
    let asym = one(c.u32()?, 0x1FF)?;
    let hash = one(c.u32()?, 0x3F)?;
    c.zero(16)?;
    let structs = dec_structs(&mut c, n)?;
    if structs.iter().any(|s| s.bits.count_ones() != 1) {
        return Err(Bad::Field);
    }
    Ok((Algs { spec, meas_hash, asym, hash, structs }, len, c.o))
}

// ---------------------------------------------------------------- digests / certificates
pub fn get_digests() -> Vec<u8> {
    vec![0x11, GET_DIGESTS, 0, 0]
}
pub fn digests(mask: u8, ds: &[Vec<u8>]) -> Vec<u8> {
    let mut v = hdr(DIGESTS);
    v.push(0);
    v.push(mask);
    for d in ds {
        v.extend_from_slice(d);
    }
    v
}
pub fn parse_digests(body: &[u8], dlen: usize, lim: &Lim) -> R<(u8, Vec<Vec<u8>>, usize)> {
    let mut c = Cur::new(body);
    c.zero(1)?;
    let mask = c.u8()?;
    let mut ds = vec![];
    for i in 0..lim.slots.min(8) {
        if mask >> i & 1 == 1 {
            ds.push(c.take(dlen)?.to_vec());
        }
    }
    Ok((mask, ds, c.o))
}
pub fn get_cert(slot: u8, off: u16, len: u16) -> Vec<u8> {
    let mut v = hdr(GET_CERTIFICATE);
    v.push(slot);
    v.push(0);
    le(&mut v, u64::from(off), 2);
    le(&mut v, u64::from(len), 2);
    v
}
pub fn parse_get_cert(body: &[u8]) -> R<(u8, u16, u16, usize)> {
    let mut c = Cur::new(body);
    let s = c.u8()?;
    c.zero(1)?;
    Ok((s, c.u16()?, c.u16()?, c.o))
}
pub fn certificate(slot: u8, remainder: u16, chain: &[u8]) -> Vec<u8> {
    let mut v = hdr(CERTIFICATE);
    v.push(slot);
    v.push(0);
    le(&mut v, chain.len() as u64, 2);
    le(&mut v, u64::from(remainder), 2);
    v.extend_from_slice(chain);
    v
}
pub struct Cert {
    pub slot: u8,
    pub remainder: u16,
    pub chain: Vec<u8>,
    pub used: usize,
}
pub fn parse_certificate(body: &[u8], lim: &Lim) -> R<Cert> {
    let mut c = Cur::new(body);
    let slot = c.u8()?;
    c.zero(1)?;
    let n = usize::from(c.u16()?);
    if n > lim.chain {
        return Err(Bad::Field);
    }
    let remainder = c.u16()?;
    let chain = c.take(n)?.to_vec();
    Ok(Cert { slot, remainder, chain, used: c.o })
}
pub fn chain(root_hash: &[u8], certs: &[Vec<u8>]) -> Vec<u8> {
    let n = 4 + root_hash.len() + certs.iter().map(|c| c.len()).sum::<usize>();
    let mut v = vec![];
    le(&mut v, n as u64, 2);
    v.extend_from_slice(&[0, 0]);
    v.extend_from_slice(root_hash);
    for c in certs {
        v.extend_from_slice(c);
    }
    v
}
/// (root hash, certificates with the leaf last)
pub fn parse_chain(b: &[u8], dlen: usize, lim: &Lim) -> R<(Vec<u8>, Vec<Vec<u8>>)> {
    let mut c = Cur::new(b);
    if usize::from(c.u16()?) != b.len() {
        return Err(Bad::Field);
    }
    c.zero(2)?;
    let root = c.take(dlen)?.to_vec();
    let mut certs = vec![];
    loop {
        let start = c.o;
        if c.u8()? != 0x30 {
            return Err(Bad::Field);
        }
        let l = match c.u8()? {
            n @ 0..=0x7F => usize::from(n),
            0x81 => match c.u8()? {
                n @ 0x80..=0xFF => usize::from(n),
                _ => return Err(Bad::Field),
            },
            0x82 => {
                let h = usize::from(c.u8()?) << 8 | usize::from(c.u8()?);
                if h < 256 {
                    return Err(Bad::Field);
                }
                h
            }
            _ => return Err(Bad::Field),
        };
        if l > c.left() {
            return Err(Bad::Trunc);
        }
        let last = l == c.left();
        if !last && certs.len() == lim.depth {
            return Err(Bad::Field);
        }
        c.take(l)?;
        certs.push(b[start..c.o].to_vec());
        if last {
            return Ok((root, certs));
        }
    }
}

// ---------------------------------------------------------------- challenge
pub fn challenge(slot: u8, mt: u8, nonce: &[u8]) -> Vec<u8> {
    let mut v = hdr(CHALLENGE);
    v.push(slot);
    v.push(mt);
    v.extend_from_slice(nonce);
    v
}
pub fn parse_challenge(body: &[u8]) -> R<(u8, u8, Vec<u8>, usize)> {
    let mut c = Cur::new(body);
    let s = c.u8()?;
    let m = c.u8()?;
    if ![0, 1, 0xFF].contains(&m) {
        return Err(Bad::Field);
    }
    Ok((s, m, c.take(NONCE)?.to_vec(), c.o))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OElem {
    pub reg: u8,
    pub vid: Vec<u8>,
    pub data: Vec<u8>,
}
pub fn vid_len(reg: u8) -> usize {
    [0, 2, 2, 2, 4, 4, 2, 2, 2][usize::from(reg)]
}
pub fn opaque(es: &[OElem]) -> Vec<u8> {
    let mut v = vec![es.len() as u8, 0, 0, 0];
    for e in es {
        let s = v.len();
        v.push(e.reg);
        v.push(e.vid.len() as u8);
        v.extend_from_slice(&e.vid);
        le(&mut v, e.data.len() as u64, 2);
        v.extend_from_slice(&e.data);
        while (v.len() - s) % 4 != 0 {
            v.push(0);
        }
    }
    v
}
pub fn parse_opaque(c: &mut Cur, lim: &Lim) -> R<Vec<OElem>> {
    let n = usize::from(c.u8()?);
    c.zero(3)?;
    if n > lim.opq_elems {
        return Err(Bad::Field);
    }
    let mut v = vec![];
    for _ in 0..n {
        let reg = c.u8()?;
        if reg > 8 {
            return Err(Bad::Field);
        }
        let vl = usize::from(c.u8()?);
        if vl != vid_len(reg) {
            return Err(Bad::Field);
        }
        let vid = c.take(vl)?.to_vec();
        let dl = usize::from(c.u16()?);
        if dl > lim.opq_data {
            return Err(Bad::Field);
        }
        let data = c.take(dl)?.to_vec();
        let pad = (4 - (4 + vl + dl) % 4) % 4;
        c.zero(pad)?;
        v.push(OElem { reg, vid, data });
    }
    Ok(v)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Auth {
    pub slot: u8, // low 4 bits
    pub resv: u8, // 3 reserved bits
    pub mutual: bool,
    pub mask: u8,
    pub hash: Vec<u8>,
    pub nonce: Vec<u8>,
    pub meas: Vec<u8>,
    pub opaque: Vec<OElem>,
    pub sig: Vec<u8>,
}
impl Auth {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = hdr(CHALLENGE_AUTH);
        v.push(self.slot & 15 | (self.resv & 7) << 4 | (self.mutual as u8) << 7);
        v.push(self.mask);
        v.extend_from_slice(&self.hash);
        v.extend_from_slice(&self.nonce);
        v.extend_from_slice(&self.meas);
        let o = opaque(&self.opaque);
        le(&mut v, o.len() as u64, 2);
        v.extend_from_slice(&o);
        v.extend_from_slice(&self.sig);
        v
    }
}
/// Returns message, declared opaque length, actual opaque length, bytes consumed.
pub fn parse_auth(body: &[u8], dlen: usize, slen: usize, lim: &Lim) -> R<(Auth, usize, usize, usize)> {
    let mut c = Cur::new(body);
    let p = c.u8()?;
    let slot = p & 15;
    if usize::from(slot) >= lim.slots {
        return Err(Bad::Field);
    }
    let mask = c.u8()?;
    let hash = c.take(dlen)?.to_vec();
    let nonce = c.take(NONCE)?.to_vec();
    let meas = c.take(dlen)?.to_vec();
    let olen = usize::from(c.u16()?);
    if olen > 1024 {
        return Err(Bad::Field);
    }
    let s = c.o;
    let opaque = parse_opaque(&mut c, lim)?;
    let oact = c.o - s;
    let sig = c.take(slen)?.to_vec();
    Ok((
        Auth { slot, resv: p >> 4 & 7, mutual: p >> 7 == 1, mask, hash, nonce, meas, opaque, sig },
        olen,
        oact,
        c.o,
    ))
}

// ---------------------------------------------------------------- measurements
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct GetMeas {
    pub sig: bool,
    pub raw: bool,
    pub index: u8,
    pub nonce: Vec<u8>,
    pub slot: u8,
}
impl GetMeas {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = hdr(GET_MEASUREMENTS);
        v.push(self.sig as u8 | (self.raw as u8) << 1);
        v.push(self.index);
        if self.sig {
            v.extend_from_slice(&self.nonce);
            v.push(self.slot);
        }
        v
    }
}
pub fn parse_get_meas(body: &[u8], lim: &Lim) -> R<(GetMeas, usize)> {
    let mut c = Cur::new(body);
    let a = c.u8()?;
    if a & !3 != 0 {
        return Err(Bad::Reserved);
    }
    let index = c.u8()?;
    let mut g = GetMeas { sig: a & 1 == 1, raw: a & 2 == 2, index, nonce: vec![], slot: 0 };
    if g.sig {
        g.nonce = c.take(NONCE)?.to_vec();
        g.slot = c.u8()?;
        if usize::from(g.slot) >= lim.slots {
            return Err(Bad::Field);
        }
    }
    Ok((g, c.o))
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Block {
    pub index: u8,
    pub raw: bool,
    pub ty: u8,
    pub value: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meas {
    pub total: u8,
    pub slot: u8,
    pub changed: u8, // 0, 1, 2
    pub resv: u8,
    pub blocks: Vec<Block>,
    pub nonce: Vec<u8>,
    pub opaque: Vec<OElem>,
    pub sig: Option<Vec<u8>>,
}
impl Meas {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = hdr(MEASUREMENTS);
        v.push(self.total);
        v.push(self.slot & 15 | self.changed << 4 | self.resv << 6);
        v.push(self.blocks.len() as u8);
        let mut r = vec![];
        for b in &self.blocks {
            r.push(b.index);
            r.push(1);
            le(&mut r, b.value.len() as u64 + 3, 2);
            r.push(b.ty | (b.raw as u8) << 7);
            le(&mut r, b.value.len() as u64, 2);
            r.extend_from_slice(&b.value);
        }
        le(&mut v, r.len() as u64, 3);
        v.extend_from_slice(&r);
        v.extend_from_slice(&self.nonce);
        let o = opaque(&self.opaque);
        le(&mut v, o.len() as u64, 2);
        v.extend_from_slice(&o);
        if let Some(s) = &self.sig {
            v.extend_from_slice(s);
        }
        v
    }
}
pub fn parse_meas(body: &[u8], want_sig: Option<usize>, lim: &Lim) -> R<(Meas, usize, usize, usize)> {
    let mut c = Cur::new(body);
    let total = c.u8()?;
    if usize::from(total) > lim.blocks {
        return Err(Bad::Field);
    }
    let p = c.u8()?;
    let slot = p & 15;
    if usize::from(slot) >= lim.slots {
        return Err(Bad::Field);
    }
    let changed = p >> 4 & 3;
    if changed == 3 {
        return Err(Bad::Field);
    }
    let n = usize::from(c.u8()?);
    let size = c.u24()? as usize;
    if n > lim.blocks {
        return Err(Bad::Field);
    }
    let s = c.o;
    let mut blocks = vec![];
    for _ in 0..n {
        let index = c.u8()?;
        if c.u8()? != 1 {
            return Err(Bad::Field);
        }
        let bl = usize::from(c.u16()?);
        let t = c.u8()?;
        if t & 0x7F > 7 {
            return Err(Bad::Field);
        }
        let vl = usize::from(c.u16()?);
        let raw = t & 0x80 != 0;
        if vl > if raw { lim.meas } else { lim.digest } {
            return Err(Bad::Field);
        }
        let value = c.take(vl)?.to_vec();
        if bl != vl + 3 {
            return Err(Bad::Field);
        }
        blocks.push(Block { index, raw, ty: t & 0x7F, value });
    }
    if c.o - s != size {
        return Err(Bad::Field);
    }
    let nonce = c.take(NONCE)?.to_vec();
    let olen = usize::from(c.u16()?);
    if olen > 1024 {
        return Err(Bad::Field);
    }
    let s = c.o;
    let opaque = parse_opaque(&mut c, lim)?;
    let oact = c.o - s;
    let sig = match want_sig {
        Some(n) => Some(c.take(n)?.to_vec()),
        None => None,
    };
    Ok((Meas { total, slot, changed, resv: p >> 6, blocks, nonce, opaque, sig }, olen, oact, c.o))
}

// ---------------------------------------------------------------- error
/// Is `code` one of the error codes of the specification this library knows, and how many
/// extended bytes follow (None: vendor defined)?
pub fn error_ext(code: u8) -> Option<Option<usize>> {
    match code {
        1 | 3..=0xC | 0xE | 0x10 | 0x41 | 0x43 => Some(Some(0)),
        0xD => Some(Some(4)),
        0xF => Some(Some(1)),
        0x42 => Some(Some(4)),
        0xFF => Some(None),
        _ => None,
    }
}
pub fn error(code: u8, data: u8, ext: &[u8]) -> Vec<u8> {
    let mut v = hdr(ERROR);
    v.push(code);
    v.push(data);
    v.extend_from_slice(ext);
    v
}
