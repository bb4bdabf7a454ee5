//! Message codecs on their own: bytes to values and back, against the independent codec.

use crate::alloc;
use crate::ctx::{hex, Ctx};
use crate::gen;
use crate::peer::{full_opaque, rand_opaque};
use crate::refcodec as rc;
use crate::refcodec::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::util::*;
use spdm::msgs as lm;
use spdm::msgs::algorithms::AlgorithmRequest;
use spdm::msgs::common::{DigestBuf, DigestSize, SignatureBuf, SignatureSize};
use spdm::msgs::encoding::{Reader, Writer};
use spdm::msgs::Msg;
use std::convert::TryFrom;

/// What the independent codec says about a body.
pub enum Want {
    Reject,
    Either,
    /// Accept; the whole message as it has to be written again.
    Accept(Vec<u8>),
}

fn want<T>(p: R<T>, f: impl FnOnce(T) -> Want) -> Want {
    match p {
        Err(_) => Want::Reject,
        Ok(t) => f(t),
    }
}

/// A library call with the allocation counter armed.
fn call<T>(cx: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    let mut n = 0;
    let r = cx.lib(what, || {
        alloc::arm();
        let r = f();
        n = alloc::disarm();
        r
    });
    if n > 0 {
        cx.fail(&["C25"], format!("{what} allocated {n} times"));
    }
    r
}

#[derive(Clone, Copy)]
pub struct Tags {
    dec: &'static [&'static str],
    enc: &'static [&'static str],
}
const GEN: Tags = Tags { dec: &["C15"], enc: &["C14"] };
const MEAS: Tags = Tags { dec: &["C15", "C28"], enc: &["C14", "C28"] };
const ERRT: Tags = Tags { dec: &["C15", "C29"], enc: &["C14", "C29"] };
const AUTHT: Tags = Tags { dec: &["C15", "C29"], enc: &["C14", "C29"] };

/// Writing `m` must give exactly `canon`, whatever the buffer.
pub fn check_write<M: Msg>(cx: &mut Ctx, r: &mut Rng, t: Tags, m: &M, canon: &[u8]) {
    let name = M::NAME;
    let n = canon.len();
    for fill in [0u8, 0xFF] {
        let mut buf = vec![fill; n + 1 + r.below(40)];
        let Some(res) = call(cx, "write", || m.write(&mut buf).ok()) else { return };
        let ok = res == Some(n) && buf[..n] == *canon && buf[n..].iter().all(|b| *b == fill);
        cx.trace = mix(cx.trace ^ hash_bytes(&buf[..n.min(buf.len())]));
        if !cx.check(t.enc, ok, || {
            format!("{name} written as {res:?} {} instead of {} bytes {}", hex(&buf), n, hex(canon))
        }) {
            return;
        }
    }
    let mut exact = vec![0x5A; n];
    let Some(res) = call(cx, "write exact", || m.write(&mut exact).ok()) else { return };
    cx.check(t.enc, res == Some(n) && exact == canon, || format!("{name}: exactly fitting buffer of {n}: {res:?} {}", hex(&exact)));
    let sizes: Vec<usize> = if n <= 48 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..8).map(|_| r.below(n)).collect();
        v.extend([0, 1, n - 1]);
        v
    };
    for s in sizes {
        let mut b = vec![0xC3; s];
        let Some(res) = call(cx, "write small", || m.write(&mut b).is_ok()) else { return };
        if !cx.check(t.enc, !res, || format!("{name} of {n} bytes written into {s}")) {
            return;
        }
    }
    cx.count(&format!("written.{name}"));
}

pub fn decode<M: Msg, E>(
    cx: &mut Ctx,
    r: &mut Rng,
    t: Tags,
    body: &[u8],
    w: Want,
    parse: impl Fn(&[u8]) -> Result<M, E>,
    eq: impl Fn(&M, &M) -> bool,
    fields: impl FnOnce(&M) -> Result<(), String>,
) {
    let name = M::NAME;
    let Some(res) = call(cx, name, || parse(body).ok()) else { return };
    cx.distinct(mix(hash_bytes(body) ^ u64::from(M::SPDM_CODE)));
    cx.trace = mix(cx.trace ^ u64::from(res.is_some()));
    match (w, res) {
        (Want::Reject, None) => {
            cx.eval();
            cx.count(&format!("refused.{name}"));
        }
        (Want::Reject, Some(_)) => {
            cx.eval();
            cx.fail(t.dec, format!("malformed {name} accepted: {}", hex(body)));
        }
        (Want::Either, _) => cx.count(&format!("either.{name}")),
        (Want::Accept(_), None) => {
            cx.eval();
            cx.fail(t.dec, format!("well-formed {name} refused: {}", hex(body)));
        }
        (Want::Accept(canon), Some(m)) => {
            cx.count(&format!("decoded.{name}"));
            if let Err(e) = fields(&m) {
                cx.eval();
                cx.fail(t.dec, format!("{name} {}: {e}", hex(body)));
                return;
            }
            check_write(cx, r, t, &m, &canon);
            // lossless: what is written decodes to an equal value
            let Some(again) = call(cx, name, || parse(&canon[2..]).ok()) else { return };
            let ok = again.as_ref().map(|a| eq(a, &m)).unwrap_or(false);
            cx.check(t.dec, ok, || format!("{name} {} does not decode to the same value after encoding", hex(&canon)));
        }
    }
}

fn ck(ok: bool, what: &str, got: impl std::fmt::Debug, want: impl std::fmt::Debug) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(format!("{what}: decoded {got:?}, on the wire {want:?}"))
    }
}
macro_rules! same {
    ($what:expr, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        ck(a == b, $what, &a, &b)?;
    }};
}

fn structs_same(n: u8, a: &[AlgorithmRequest], b: &[AlgStruct]) -> Result<(), String> {
    same!("number of structures", usize::from(n), b.len());
    for (x, y) in a.iter().zip(b) {
        let (ty, bits) = match x {
            AlgorithmRequest::Dhe(a) => (2, a.supported.bits()),
            AlgorithmRequest::Aead(a) => (3, a.supported.bits()),
            AlgorithmRequest::ReqBaseAsym(a) => (4, a.supported.bits()),
            AlgorithmRequest::KeySchedule(a) => (5, a.supported.bits()),
        };
        same!("structure", (ty, bits), (y.ty, y.bits));
    }
    Ok(())
}

fn error_name(code: u8) -> &'static str {
    match code {
        1 => "InvalidRequest",
        3 => "Busy",
        4 => "UnexpectedRequest",
        5 => "Unspecified",
        6 => "DecryptError",
        7 => "UnsupportedRequest",
        8 => "RequestInFlight",
        9 => "InvalidResponseCode",
        0xA => "SessionLimitExceeded",
        0xB => "SessionRequired",
        0xC => "ResetRequired",
        0xD => "ResponseTooLarge",
        0xE => "RequestTooLarge",
        0xF => "LargeResponse",
        0x10 => "MessageLost",
        0x41 => "VersionMismatch",
        0x42 => "ResponseNotReady",
        0x43 => "RequestResynch",
        0xFF => "VendorDefined",
        _ => "?",
    }
}
fn lib_error_name(e: &lm::Error) -> &'static str {
    use lm::Error::*;
    match e {
        InvalidRequest => "InvalidRequest",
        Busy => "Busy",
        UnexpectedRequest => "UnexpectedRequest",
        Unspecified => "Unspecified",
        DecryptError => "DecryptError",
        UnsupportedRequest(_) => "UnsupportedRequest",
        RequestInFlight => "RequestInFlight",
        InvalidResponseCode => "InvalidResponseCode",
        SessionLimitExceeded => "SessionLimitExceeded",
        SessionRequired => "SessionRequired",
        ResetRequired => "ResetRequired",
        ResponseTooLarge(_) => "ResponseTooLarge",
        RequestTooLarge => "RequestTooLarge",
        LargeResponse(_) => "LargeResponse",
        MessageLost => "MessageLost",
        VersionMismatch => "VersionMismatch",
        ResponseNotReady(_) => "ResponseNotReady",
        RequestResynch => "RequestResynch",
        VendorDefined(..) => "VendorDefined",
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    GetVersion,
    Version,
    GetCaps,
    Caps,
    Negotiate,
    Algs,
    GetDigests,
    Digests,
    GetCert,
    Cert,
    Challenge,
    Auth,
    GetMeas,
    Meas,
    Error,
}
pub const KINDS: [Kind; 15] = [
    Kind::GetVersion,
    Kind::Version,
    Kind::GetCaps,
    Kind::Caps,
    Kind::Negotiate,
    Kind::Algs,
    Kind::GetDigests,
    Kind::Digests,
    Kind::GetCert,
    Kind::Cert,
    Kind::Challenge,
    Kind::Auth,
    Kind::GetMeas,
    Kind::Meas,
    Kind::Error,
];

/// Sizes negotiated before, which the codec needs to know.
#[derive(Clone, Copy)]
pub struct Sz {
    pub d: usize,
    pub s: usize,
    pub signed: bool,
}
impl Sz {
    fn new(r: &mut Rng) -> Sz {
        let ds: Vec<usize> = [32, 48, 64].into_iter().filter(|d| *d <= LIM.digest).collect();
        Sz {
            d: if r.chance(1, 6) { r.below(LIM.digest + 1) } else { *r.pick(&ds) },
            s: if r.chance(1, 6) { r.below(LIM.sig + 1) } else { LIM.sig },
            signed: r.chance(1, 2),
        }
    }
}

fn dsz(d: usize) -> DigestSize {
    DigestSize::try_from(d).expect("digest size")
}
fn ssz(d: usize) -> SignatureSize {
    SignatureSize::try_from(d).expect("signature size")
}

/// Give a body of this kind to the library and judge.
pub fn judge(cx: &mut Ctx, r: &mut Rng, k: Kind, body: &[u8], z: Sz) {
    match k {
        Kind::GetVersion => {
            let mut c = Cur::new(body);
            let w = want(c.zero(2), |_| Want::Accept(get_version()));
            decode(cx, r, GEN, body, w, lm::GetVersion::parse_body, |_, _| true, |_| Ok(()));
        }
        Kind::GetDigests => {
            let mut c = Cur::new(body);
            let w = want(c.zero(2), |_| Want::Accept(get_digests()));
            decode(cx, r, GEN, body, w, lm::GetDigests::parse_body, |_, _| true, |_| Ok(()));
        }
        Kind::Version => {
            let p = parse_version(body);
            let w = match &p {
                // more entries than this library supports: not required either way
                Err(Bad::Field) => Want::Either,
                Err(_) => Want::Reject,
                Ok((v, _)) => Want::Accept(version(v)),
            };
            decode(cx, r, GEN, body, w, lm::Version::parse_body, |a, b| a == b, |m| {
                let v = p.unwrap().0;
                same!("entries", usize::from(m.num_entries), v.len());
                for (e, x) in m.entries.iter().zip(&v) {
                    same!("entry", [e.major, e.minor, e.update, e.alpha], *x);
                }
                Ok(())
            });
        }
        Kind::GetCaps => {
            let p = parse_caps(body, REQ_MASK);
            let w = want(p, |(ct, f, _)| Want::Accept(caps(GET_CAPABILITIES, ct, f)));
            decode(cx, r, GEN, body, w, lm::GetCapabilities::parse_body, |a, b| a == b, |m| {
                let (ct, f, _) = p.unwrap();
                same!("CT exponent", m.ct_exponent, ct);
                same!("flags", m.flags.bits(), f);
                Ok(())
            });
        }
        Kind::Caps => {
            let p = parse_caps(body, RSP_MASK);
            let w = want(p, |(ct, f, _)| Want::Accept(caps(CAPABILITIES, ct, f)));
            decode(cx, r, GEN, body, w, lm::Capabilities::parse_body, |a, b| a == b, |m| {
                let (ct, f, _) = p.unwrap();
                same!("CT exponent", m.ct_exponent, ct);
                same!("flags", m.flags.bits(), f);
                Ok(())
            });
        }
        Kind::Negotiate => {
            let p = parse_negotiate(body);
            let w = want(p.clone(), |(mut n, len, _)| {
                if usize::from(len) != n.size() {
                    return Want::Either;
                }
                n.ext_asym = 0;
                n.ext_hash = 0;
                n.structs.iter_mut().for_each(|s| s.ext = 0);
                Want::Accept(n.enc())
            });
            decode(cx, r, GEN, body, w, lm::NegotiateAlgorithms::parse_body, |a, b| a == b, |m| {
                let n = p.unwrap().0;
                same!("spec", m.measurement_spec.bits(), n.spec);
                same!("asym", m.base_asym_algo.bits(), n.asym);
                same!("hash", m.base_hash_algo.bits(), n.hash);
                structs_same(m.num_algorithm_requests, &m.algorithm_requests, &n.structs)
            });
        }
        Kind::Algs => {
            let p = parse_algs(body);
            let w = want(p.clone(), |(mut n, len, used)| {
                if usize::from(len) != used + 2 {
                    return Want::Either;
                }
                n.structs.iter_mut().for_each(|s| s.ext = 0);
                Want::Accept(n.enc())
            });
            // ExtAsymSelCount and ExtHashSelCount are read as reserved
            decode(cx, r, GEN, body, w, lm::Algorithms::parse_body, |a, b| a == b, |m| {
                let n = p.unwrap().0;
                same!("spec", m.measurement_spec_selected.bits(), n.spec);
                same!("measurement hash", m.measurement_hash_algo_selected.bits(), n.meas_hash);
                same!("asym", m.base_asym_algo_selected.bits(), n.asym);
                same!("hash", m.base_hash_algo_selected.bits(), n.hash);
                structs_same(m.num_algorithm_responses, &m.algorithm_responses, &n.structs)
            });
        }
        Kind::Digests => {
            let p = parse_digests(body, z.d, &LIM);
            let w = want(p.clone(), |(mask, ds, _)| {
                if LIM.slots < 8 && mask >> LIM.slots != 0 {
                    return Want::Either;
                }
                Want::Accept(digests(mask, &ds))
            });
            decode(cx, r, GEN, body, w, |b| lm::Digests::parse_body(dsz(z.d), b), |a, b| a == b, |m| {
                let (mask, ds, _) = p.unwrap();
                same!("mask", m.slot_mask, mask);
                let mut i = 0;
                for s in 0..LIM.slots {
                    let d = m.digests[s].as_ref().map(|d| d.as_ref().to_vec());
                    let e = (mask >> s & 1 == 1).then(|| {
                        i += 1;
                        ds[i - 1].clone()
                    });
                    same!("digest", d, e);
                }
                Ok(())
            });
        }
        Kind::GetCert => {
            let p = parse_get_cert(body);
            let w = want(p, |(s, o, l, _)| Want::Accept(get_cert(s, o, l)));
            decode(cx, r, GEN, body, w, lm::GetCertificate::parse_body, |a, b| a == b, |m| {
                let (s, o, l, _) = p.unwrap();
                same!("slot", m.slot, s);
                same!("offset", m.offset, o);
                same!("length", m.length, l);
                Ok(())
            });
        }
        Kind::Cert => {
            let p = parse_certificate(body, &LIM);
            let w = match &p {
                Err(_) => Want::Reject,
                Ok(c) => Want::Accept(certificate(c.slot, c.remainder, &c.chain)),
            };
            decode(cx, r, GEN, body, w, lm::Certificate::parse_body, |a, b| a == b, |m| {
                let c = p.ok().unwrap();
                same!("slot", m.slot, c.slot);
                same!("length", usize::from(m.portion_length), c.chain.len());
                same!("remainder", m.remainder_length, c.remainder);
                if m.cert_chain[..c.chain.len()] != c.chain[..] {
                    return Err("chain bytes differ".into());
                }
                Ok(())
            });
        }
        Kind::Challenge => {
            let p = parse_challenge(body);
            let w = want(p.clone(), |(s, t, n, _)| Want::Accept(challenge(s, t, &n)));
            decode(cx, r, GEN, body, w, lm::Challenge::parse_body, |a, b| a == b, |m| {
                let (s, t, n, _) = p.unwrap();
                same!("slot", m.slot, s);
                same!("measurement type", m.measurement_hash_type as u8, t);
                same!("nonce", m.nonce.as_ref().to_vec(), n);
                Ok(())
            });
        }
        Kind::Auth => {
            let p = parse_auth(body, z.d, z.s, &LIM);
            let w = want(p.clone(), |(mut a, olen, oact, _)| {
                if olen != oact {
                    return Want::Either;
                }
                a.resv = 0;
                Want::Accept(a.enc())
            });
            decode(cx, r, AUTHT, body, w, |b| lm::ChallengeAuth::parse_body(b, dsz(z.d), ssz(z.s)), |a, b| a == b, |m| {
                let (a, _, oact, _) = p.unwrap();
                same!("slot", m.slot, a.slot);
                same!("mask", m.slot_mask, a.mask);
                same!("mutual", m.use_mutual_auth, a.mutual);
                same!("hash", m.cert_chain_hash.as_ref(), &a.hash[..]);
                same!("nonce", m.nonce.as_ref(), &a.nonce[..]);
                same!("measurement hash", m.measurement_summary_hash.as_ref(), &a.meas[..]);
                same!("opaque size", m.opaque_data.serialized_size(), oact);
                same!("signature", m.signature.as_ref(), &a.sig[..]);
                Ok(())
            });
        }
        Kind::GetMeas => {
            let p = parse_get_meas(body, &LIM);
            let w = want(p.clone(), |(g, _)| Want::Accept(g.enc()));
            decode(cx, r, MEAS, body, w, lm::GetMeasurements::parse_body, |a, b| a == b, |m| {
                let g = p.unwrap().0;
                let d = format!("{m:?}");
                for (f, v) in [("signature_requested: ", g.sig), ("raw_bit_stream_requested: ", g.raw)] {
                    if d.contains(f) {
                        same!(f, d.contains(&format!("{f}{v}")), true);
                    }
                }
                Ok(())
            });
        }
        Kind::Meas => {
            let p = parse_meas(body, z.signed.then_some(z.s), &LIM);
            let w = want(p.clone(), |(mut a, olen, oact, _)| {
                if olen != oact {
                    return Want::Either;
                }
                a.resv = 0;
                if !z.signed {
                    a.slot = 0;
                }
                Want::Accept(a.enc())
            });
            // the slot only travels with a signature
            let eq = |a: &lm::Measurements, b: &lm::Measurements| {
                if z.signed {
                    a == b
                } else {
                    let mut x = a.clone();
                    x.slot_id = b.slot_id;
                    x == *b
                }
            };
            decode(cx, r, MEAS, body, w, |b| lm::Measurements::parse_body(b, z.signed, ssz(z.s)), eq, |m| {
                let (a, _, oact, _) = p.unwrap();
                same!("total", m.total_blocks, a.total);
                same!("slot", m.slot_id, a.slot);
                same!("content changed", format!("{:?}", m.content_changed), ["NotSupported", "True", "False"][usize::from(a.changed)].to_string());
                same!("nonce", m.nonce.as_ref(), &a.nonce[..]);
                same!("opaque size", m.opaque_data.serialized_size(), oact);
                same!("signature", m.signature.as_ref().map(|s| s.as_ref().to_vec()), a.sig);
                same!("blocks", m.blocks.len, a.blocks.len());
                for (i, b) in a.blocks.iter().enumerate() {
                    let Some(x) = m.blocks.blocks[i].as_ref() else { return Err(format!("block {i} missing")) };
                    same!("block index", x.index, b.index);
                    same!("block spec", x.measurement_spec_selected.bits(), 1);
                    same!("block type", x.measurement.value_type as u8, b.ty);
                    same!("block representation", x.measurement.value_representation as u8, u8::from(b.raw) << 7);
                    same!("block length", x.measurement.value.len(), b.value.len());
                }
                Ok(())
            });
        }
        Kind::Error => {
            let (w, code, data) = error_want(body);
            decode(cx, r, ERRT, body, w, lm::Error::parse_body, |a, b| a == b, |m| {
                same!("error", lib_error_name(m), error_name(code));
                match m {
                    lm::Error::UnsupportedRequest(c) => same!("request code", *c, data),
                    lm::Error::ResponseTooLarge(n) => {
                        same!("size", n.to_le_bytes().to_vec(), body[2..6].to_vec())
                    }
                    lm::Error::LargeResponse(h) => same!("handle", *h, body[2]),
                    lm::Error::VendorDefined(v, _) => same!("registry", *v as u8, data),
                    _ => (),
                }
                Ok(())
            });
        }
    }
}

fn error_want(body: &[u8]) -> (Want, u8, u8) {
    let mut c = Cur::new(body);
    let (Ok(code), Ok(data)) = (c.u8(), c.u8()) else { return (Want::Reject, 0, 0) };
    let w = match error_ext(code) {
        None => Want::Reject,
        Some(Some(n)) => match c.take(n) {
            Err(_) => Want::Reject,
            Ok(x) => Want::Accept(error(code, if code == 7 { data } else { 0 }, x)),
        },
        Some(None) => {
            if data > 8 {
                Want::Reject
            } else {
                match c.u8() {
                    Ok(l) if usize::from(l) == vid_len(data) => match c.take(usize::from(l)) {
                        Ok(v) => {
                            let mut x = vec![l];
                            x.extend_from_slice(v);
                            Want::Accept(error(code, data, &x))
                        }
                        Err(_) => Want::Reject,
                    },
                    _ => Want::Reject,
                }
            }
        }
    };
    (w, code, data)
}

fn blocks(r: &mut Rng) -> Vec<Block> {
    let n = match r.below(4) {
        0 => LIM.blocks,
        _ => r.below(LIM.blocks.min(6) + 1),
    };
    let full = r.chance(1, 5);
    (0..n.min(255))
        .map(|_| {
            let raw = full || r.chance(1, 2);
            let max = if raw { LIM.meas } else { LIM.digest };
            let len = if full { max } else { r.len_near(&[0, 32, max], max) };
            Block { index: r.byte(), raw, ty: r.below(8) as u8, value: r.bytes(len) }
        })
        .collect()
}

fn meas_valid(r: &mut Rng, z: Sz) -> Meas {
    Meas {
        total: r.below(LIM.blocks.min(255) + 1) as u8,
        slot: if z.signed { r.below(LIM.slots) as u8 } else { 0 },
        changed: r.below(3) as u8,
        resv: 0,
        blocks: blocks(r),
        nonce: r.bytes(NONCE),
        opaque: rand_opaque(r, &LIM),
        sig: z.signed.then(|| r.bytes(z.s)),
    }
}

/// A well-formed message of this kind.
pub fn valid(r: &mut Rng, k: Kind, z: Sz) -> Vec<u8> {
    match k {
        Kind::GetVersion => get_version(),
        Kind::GetDigests => get_digests(),
        Kind::Version => {
            let n = r.below(3);
            let e: Vec<[u8; 4]> = (0..n).map(|_| [r.byte() & 15, r.byte() & 15, r.byte() & 15, r.byte() & 15]).collect();
            version(&e)
        }
        Kind::GetCaps => caps(GET_CAPABILITIES, r.byte(), r.next() as u32 & REQ_MASK),
        Kind::Caps => caps(CAPABILITIES, r.byte(), r.next() as u32 & RSP_MASK),
        Kind::Negotiate => {
            let mut n = gen::negotiate_valid(r);
            if r.chance(1, 3) {
                n.asym = r.next() as u32 & 0x1FF;
                n.hash = r.next() as u32 & 0x3F;
                // any order and repetition of structures
                for s in n.structs.iter_mut() {
                    s.ty = r.range(2, 5) as u8;
                    s.bits = r.next() as u16 & alg_mask(s.ty);
                }
            }
            n.enc()
        }
        Kind::Algs => {
            let n = r.below(5);
            let structs = (0..n)
                .map(|_| {
                    let ty = r.range(2, 5) as u8;
                    let bits: Vec<u16> = (0..16).map(|i| 1u16 << i).filter(|b| alg_mask(ty) & b != 0).collect();
                    AlgStruct { ty, bits: *r.pick(&bits), ext: if r.chance(1, 8) { r.below(16) as u8 } else { 0 } }
                })
                .collect();
            rc::Algs { spec: 1, meas_hash: 1 << r.below(6), asym: 1 << r.below(9), hash: 1 << r.below(6), structs }.enc()
        }
        Kind::Digests => {
            let all = if LIM.slots >= 8 { 0xFF } else { (1u8 << LIM.slots) - 1 };
            let mask = r.byte() & all;
            let ds: Vec<Vec<u8>> = (0..mask.count_ones()).map(|_| r.bytes(z.d)).collect();
            digests(mask, &ds)
        }
        Kind::GetCert => get_cert(r.byte(), r.next() as u16, r.next() as u16),
        Kind::Cert => {
            let max = LIM.chain.min(65535);
            let n = r.len_near(&[0, 256, max], max);
            let c = r.bytes(n);
            certificate(r.byte(), if r.chance(1, 2) { 0 } else { r.next() as u16 }, &c)
        }
        Kind::Challenge => {
            let n = r.bytes(NONCE);
            challenge(r.byte(), *r.pick(&[0, 1, 0xFF]), &n)
        }
        Kind::Auth => Auth {
            slot: r.below(LIM.slots) as u8,
            resv: if r.chance(1, 4) { r.below(8) as u8 } else { 0 },
            mutual: r.chance(1, 2),
            mask: r.byte(),
            hash: r.bytes(z.d),
            nonce: r.bytes(NONCE),
            meas: r.bytes(z.d),
            opaque: rand_opaque(r, &LIM),
            sig: r.bytes(z.s),
        }
        .enc(),
        Kind::GetMeas => GetMeas { sig: z.signed, raw: r.chance(1, 2), index: r.byte(), nonce: r.bytes(NONCE), slot: r.below(LIM.slots) as u8 }.enc(),
        Kind::Meas => meas_valid(r, z).enc(),
        Kind::Error => {
            let codes: Vec<u8> = (0..=255u8).filter(|c| error_ext(*c).is_some()).collect();
            let code = *r.pick(&codes);
            match error_ext(code).unwrap() {
                Some(n) => {
                    let x = r.bytes(n);
                    error(code, if code == 7 { r.byte() } else { 0 }, &x)
                }
                None => {
                    let reg = r.below(9) as u8;
                    let mut x = vec![vid_len(reg) as u8];
                    x.extend(r.bytes(vid_len(reg)));
                    error(code, reg, &x)
                }
            }
        }
    }
}

/// Structured oddities of one kind.
fn odd(r: &mut Rng, k: Kind, z: Sz) -> Vec<u8> {
    match k {
        Kind::Negotiate => {
            let mut v = gen::negotiate_odd(r).enc();
            if r.chance(1, 4) {
                v[2] = r.byte();
            }
            v
        }
        Kind::Meas => {
            let mut m = meas_valid(r, z);
            match r.below(6) {
                0 => {
                    // one block too many
                    while m.blocks.len() <= LIM.blocks && m.blocks.len() < 255 {
                        m.blocks.push(Block { index: 1, raw: true, ty: 0, value: vec![7; r.below(4)] });
                    }
                }
                1 => {
                    if m.blocks.is_empty() {
                        m.blocks.push(Block { index: 1, raw: true, ty: 0, value: vec![] });
                    }
                    let i = r.below(m.blocks.len());
                    let max = if m.blocks[i].raw { LIM.meas } else { LIM.digest };
                    m.blocks[i].value = vec![9; max + 1 + r.below(3)];
                }
                2 => m.changed = 3,
                3 => m.slot = r.range(LIM.slots.min(15), 15) as u8,
                4 => m.total = r.byte(),
                _ => {
                    if !m.blocks.is_empty() {
                        let i = r.below(m.blocks.len());
                        m.blocks[i].ty = r.range(8, 127) as u8;
                    }
                }
            }
            let room: usize = m.blocks.iter().map(|b| 7 + b.value.len()).sum();
            let at = 8 + room + NONCE;
            if r.chance(1, 4) {
                m = meas_valid(r, z);
                m.blocks.clear();
                let mut v = m.enc();
                opaque_len_odd(r, &mut v, 8 + NONCE, z.signed.then_some(z.s).unwrap_or(0));
                return v;
            }
            let mut v = m.enc();
            if r.chance(1, 8) && v.len() > at + 2 {
                let l = *r.pick(&OPAQUE_LENGTHS);
                v[at..at + 2].copy_from_slice(&l.to_le_bytes());
            }
            if r.chance(1, 4) && v.len() > 8 {
                // record length or block sizes a little off
                let i = r.range(4, v.len().min(16) - 1);
                v[i] = v[i].wrapping_add(*r.pick(&[1, 0xFF, 3, 0x80]));
            }
            v
        }
        Kind::Auth | Kind::GetMeas => {
            let mut v = valid(r, k, z);
            if k == Kind::Auth {
                v[2] = v[2] & 0xF0 | r.below(16) as u8;
                if r.chance(1, 2) {
                    let o = opaque_odd(r);
                    let at = 4 + 2 * z.d + NONCE;
                    v.truncate(at);
                    v.push(o.len() as u8);
                    v.push((o.len() >> 8) as u8);
                    v.extend(o);
                    v.extend(r.bytes(z.s));
                } else if r.chance(1, 2) {
                    v = valid(r, k, z);
                    opaque_len_odd(r, &mut v, 4 + 2 * z.d + NONCE, z.s);
                }
            } else {
                v[2] = r.byte();
                let n = v.len() - 1;
                if z.signed {
                    v[n] = r.below(12) as u8;
                }
            }
            v
        }
        Kind::Error => {
            let n = r.below(12);
            let mut v = hdr(ERROR);
            v.push(if r.chance(1, 3) { 0xFF } else { r.byte() });
            v.push(r.below(12) as u8);
            v.push(*r.pick(&[0, 2, 4, 1, 3, 6]));
            v.extend(r.bytes(n));
            v
        }
        Kind::Cert => {
            let max = LIM.chain.min(65535);
            let n = match r.below(3) {
                0 => (LIM.chain + 1 + r.below(3)).min(65535),
                _ => r.below(max + 1),
            };
            let c = r.bytes(n);
            let mut v = certificate(r.byte(), r.next() as u16, &c);
            if r.chance(1, 2) {
                let l = (n as u32).wrapping_add(*r.pick(&[1, 2, 256, u32::MAX]));
                v[4] = l as u8;
                v[5] = (l >> 8) as u8;
            }
            v
        }
        Kind::Version => {
            let n = r.below(6);
            let e: Vec<[u8; 4]> = (0..n).map(|_| [r.byte() & 15, r.byte() & 15, r.byte() & 15, r.byte() & 15]).collect();
            let mut v = version(&e);
            v[5] = r.below(5) as u8;
            v
        }
        _ => {
            let mut v = valid(r, k, z);
            gen::mutate(r, &mut v);
            v
        }
    }
}

/// Opaque data is at most 1024 bytes long.
const OPAQUE_LENGTHS: [u16; 6] = [1023, 1024, 1025, 1026, 2048, 0xFFFF];

/// Replace the opaque data from `at` on, in front of a signature of `sig` bytes, or only its length.
fn opaque_len_odd(r: &mut Rng, v: &mut Vec<u8>, at: usize, sig: usize) {
    let total = *r.pick(&[1020usize, 1024, 1028, 1032]);
    match full_opaque(r, &LIM, total) {
        Some(o) if r.chance(1, 2) => {
            v.truncate(at);
            v.extend((total as u16).to_le_bytes());
            v.extend(opaque(&o));
            v.extend(r.bytes(sig));
        }
        _ => {
            let l = *r.pick(&OPAQUE_LENGTHS);
            v[at..at + 2].copy_from_slice(&l.to_le_bytes());
        }
    }
}

pub fn opaque_odd(r: &mut Rng) -> Vec<u8> {
    let mut es = rand_opaque(r, &LIM);
    if es.is_empty() && LIM.opq_elems > 0 {
        es.push(OElem { reg: 0, vid: vec![], data: vec![] });
    }
    match r.below(6) {
        0 => {
            while es.len() <= LIM.opq_elems {
                es.push(OElem { reg: 3, vid: vec![1, 2], data: vec![] });
            }
            opaque(&es)
        }
        1 => {
            if let Some(e) = es.last_mut() {
                e.data = vec![0xEE; LIM.opq_data + 1 + r.below(2)];
            }
            opaque(&es)
        }
        2 => {
            if let Some(e) = es.last_mut() {
                e.vid = r.bytes(*r.clone().pick(&[0, 1, 2, 3, 4, 5]));
            }
            opaque(&es)
        }
        3 => {
            // non-zero padding
            if let Some(e) = es.last_mut() {
                let n = r.range(0, LIM.opq_data.min(3));
                e.data = vec![1; n];
            }
            let mut v = opaque(&es);
            if let Some(x) = v.last_mut() {
                *x ^= 1 << r.below(8);
            }
            v
        }
        _ => {
            let mut v = opaque(&es);
            gen::mutate(r, &mut v);
            v
        }
    }
}

fn one(cx: &mut Ctx, r: &mut Rng, k: Kind) {
    let z = Sz::new(r);
    let v = valid(r, k, z);
    if cx.log.len() < 8 {
        cx.ev(format!("{k:?}"), &v[..v.len().min(64)]);
    }
    let body = v[2..].to_vec();
    judge(cx, r, k, &body, z);
    // anything may follow
    let mut ext = body.clone();
    let n = r.range(1, 8);
    ext.extend(r.bytes(n));
    judge(cx, r, k, &ext, z);
    // cut short at every place (a sample of the places of a long one)
    if body.len() <= 120 {
        for n in 0..body.len() {
            judge(cx, r, k, &body[..n], z);
        }
    } else {
        for _ in 0..30 {
            let n = r.below(body.len());
            judge(cx, r, k, &body[..n], z);
        }
        judge(cx, r, k, &body[..body.len() - 1], z);
    }
    // every bit of the first bytes, and some of the others
    let mut b = body.clone();
    let top = if body.len() > 20_000 { 12 } else { 48 };
    for i in 0..body.len().min(top) {
        for bit in 0..8 {
            b[i] ^= 1 << bit;
            judge(cx, r, k, &b, z);
            b[i] ^= 1 << bit;
        }
        let old = b[i];
        b[i] = *r.pick(&[0, 0xFF, 0x7F, 0x80, 1]);
        judge(cx, r, k, &b, z);
        b[i] = old;
    }
    for _ in 0..6 {
        let mut m = v.clone();
        gen::mutate(r, &mut m);
        if r.chance(1, 2) {
            gen::mutate(r, &mut m);
        }
        if m.len() >= 2 {
            judge(cx, r, k, &m[2..], z);
        }
        let o = odd(r, k, z);
        if o.len() >= 2 {
            judge(cx, r, k, &o[2..], z);
        }
    }
    let n = r.below(80);
    let x = r.bytes(n);
    judge(cx, r, k, &x, z);
}

pub fn all(cx: &mut Ctx, r: &mut Rng) {
    let k = KINDS[cx.case as usize % KINDS.len()];
    one(cx, r, k);
    headers(cx, r);
}

pub fn meas(cx: &mut Ctx, r: &mut Rng) {
    let k = if cx.case % 4 == 0 { Kind::GetMeas } else { Kind::Meas };
    one(cx, r, k);
}

pub fn opaque_and_errors(cx: &mut Ctx, r: &mut Rng) {
    match cx.case % 4 {
        0 => one(cx, r, Kind::Error),
        1 => one(cx, r, Kind::Auth),
        _ => opaque_lists(cx, r),
    }
}

/// Opaque data lists on their own.
fn opaque_lists(cx: &mut Ctx, r: &mut Rng) {
    let base = opaque(&rand_opaque(r, &LIM));
    if cx.log.len() < 4 {
        cx.ev("opaque", &base);
    }
    let mut inputs = vec![base.clone()];
    for n in 0..base.len().min(100) {
        inputs.push(base[..n].to_vec());
    }
    for i in 0..base.len().min(100) {
        let mut v = base.clone();
        v[i] ^= 1 << r.below(8);
        inputs.push(v);
        let mut v = base.clone();
        v[i] = v[i].wrapping_add(1);
        inputs.push(v);
    }
    for _ in 0..10 {
        inputs.push(opaque_odd(r));
    }
    let mut last: Option<(lm::OpaqueData, Vec<u8>)> = None;
    for v in inputs {
        let mut c = Cur::new(&v);
        let p = parse_opaque(&mut c, &LIM);
        let used = c.o;
        let Some(res) = call(cx, "opaque read", || {
            let mut rd = Reader::new(&v);
            let d = lm::OpaqueData::read(&mut rd).ok();
            (d, rd.byte_offset())
        }) else {
            return;
        };
        cx.distinct(hash_bytes(&v));
        cx.trace = mix(cx.trace ^ u64::from(res.0.is_some()));
        match (p, res) {
            (Err(_), (None, at)) => {
                cx.count("refused.opaque");
                cx.check(&["C29", "C26"], at <= v.len(), || format!("cursor at {at} of {}", v.len()));
            }
            (Err(_), (Some(_), _)) => cx.fail(&["C29", "C15"], format!("malformed opaque data accepted: {}", hex(&v))),
            (Ok(_), (None, _)) => cx.fail(&["C29", "C15"], format!("well-formed opaque data refused: {}", hex(&v))),
            (Ok(es), (Some(d), at)) => {
                cx.count("decoded.opaque");
                let canon = opaque(&es);
                cx.check(&["C29", "C15"], at == used && d.serialized_size() == canon.len(), || {
                    format!("opaque data {}: read {at} of {used}, announces {} of {}", hex(&v), d.serialized_size(), canon.len())
                });
                let mut buf = vec![0xA5u8; canon.len() + 4];
                let Some((ok, off)) = call(cx, "opaque write", || {
                    let mut w = Writer::new(&mut buf);
                    (d.write(&mut w).is_ok(), w.offset())
                }) else {
                    return;
                };
                let n = canon.len();
                cx.check(&["C29", "C14"], ok && off == n && buf[..n] == canon[..] && buf[n..] == [0xA5; 4], || {
                    format!("opaque data {} written as {}", hex(&v), hex(&buf))
                });
                let m = r.below(n);
                let mut small = vec![0u8; m];
                let Some(ok) = call(cx, "opaque write small", || d.write(&mut Writer::new(&mut small)).is_ok()) else { return };
                cx.check(&["C29", "C14"], !ok, || format!("opaque data of {n} bytes written into {m}"));
                if let Some((e, b)) = &last {
                    let eq = *e == d;
                    cx.check(&["C29", "C15"], eq == (*b == canon), || format!("equality of opaque data {} and {}: {eq}", hex(b), hex(&canon)));
                }
                last = Some((d, canon));
            }
        }
    }
}

/// Which headers are taken for which message.
fn headers(cx: &mut Ctx, r: &mut Rng) {
    fn h<M: Msg>(cx: &mut Ctx, r: &mut Rng, code: u8) {
        for _ in 0..6 {
            let b0 = if r.chance(2, 3) { *r.pick(&[0x10, 0x11, 0x12]) } else { r.byte() };
            let b1 = if r.chance(1, 2) { code } else { *r.pick(&gen::CODES) };
            let b1 = if r.chance(1, 8) { r.byte() } else { b1 };
            let n = r.below(6);
            let mut b = vec![b0, b1];
            b.extend(r.bytes(n));
            b.truncate(if r.chance(1, 8) { r.below(3) } else { 99 });
            let Some(res) = call(cx, "parse_header", || M::parse_header(&b)) else { return };
            let want = b.len() >= 2 && b[1] == code && (b[0] == ver_of(code));
            let got = matches!(res, Ok(true));
            cx.check(&["C15"], got == want, || format!("header {} taken for {}: {got}", hex(&b), M::NAME));
            // a message of another type is reported as such, not as an error
            if b.len() >= 2 && b[1] != code {
                cx.check(&["C15"], matches!(res, Ok(false)), || format!("header {} offered to {}: {res:?}", hex(&b), M::NAME));
            }
        }
        let mut b = [0xEEu8; 4];
        let res = M::write_header(&mut Writer::new(&mut b)).is_ok();
        cx.check(&["C14"], res && b == [ver_of(code), code, 0xEE, 0xEE], || format!("header of {} written as {b:?}", M::NAME));
    }
    h::<lm::GetVersion>(cx, r, GET_VERSION);
    h::<lm::Version>(cx, r, VERSION);
    h::<lm::GetCapabilities>(cx, r, GET_CAPABILITIES);
    h::<lm::Capabilities>(cx, r, CAPABILITIES);
    h::<lm::NegotiateAlgorithms>(cx, r, NEGOTIATE_ALGORITHMS);
    h::<lm::Algorithms>(cx, r, ALGORITHMS);
    h::<lm::GetDigests>(cx, r, GET_DIGESTS);
    h::<lm::Digests>(cx, r, DIGESTS);
    h::<lm::GetCertificate>(cx, r, GET_CERTIFICATE);
    h::<lm::Certificate>(cx, r, CERTIFICATE);
    h::<lm::Challenge>(cx, r, CHALLENGE);
    h::<lm::ChallengeAuth>(cx, r, CHALLENGE_AUTH);
    h::<lm::GetMeasurements>(cx, r, GET_MEASUREMENTS);
    h::<lm::Measurements>(cx, r, MEASUREMENTS);
    h::<lm::Error>(cx, r, ERROR);
}

/// Values built through the public fields and constructors, written and read back.
pub fn built(cx: &mut Ctx, r: &mut Rng) {
    use spdm::msgs::algorithms::*;
    use spdm::msgs::capabilities::{ReqFlags, RspFlags};
    let z = Sz::new(r);
    // versions
    let e = || lm::VersionEntry { major: 0, minor: 0, update: 0, alpha: 0 };
    let mut es = [e(), e()];
    let mut want = vec![];
    for x in es.iter_mut() {
        let v = [r.byte() & 15, r.byte() & 15, r.byte() & 15, r.byte() & 15];
        x.major = v[0];
        x.minor = v[1];
        x.update = v[2];
        x.alpha = v[3];
        want.push(v);
    }
    let n = r.below(3);
    let mut v = lm::Version::default();
    v.num_entries = n as u8;
    v.entries = es;
    check_write(cx, r, GEN, &v, &version(&want[..n]));
    // capabilities
    let f = r.next() as u32;
    let ct = r.byte();
    let m = lm::GetCapabilities { ct_exponent: ct, flags: ReqFlags::from_bits_truncate(f) };
    check_write(cx, r, GEN, &m, &caps(GET_CAPABILITIES, ct, f & REQ_MASK));
    let m = lm::Capabilities { ct_exponent: ct, flags: RspFlags::from_bits_truncate(f) };
    check_write(cx, r, GEN, &m, &caps(CAPABILITIES, ct, f & RSP_MASK));
    // algorithms: entries beyond the count must not appear
    let mut reqs = [AlgorithmRequest::default(); 4];
    let mut st = vec![];
    for q in reqs.iter_mut() {
        let b = r.next() as u16;
        let ty = r.range(2, 5) as u8;
        *q = match ty {
            2 => AlgorithmRequest::Dhe(DheAlgorithm { supported: DheFixedAlgorithms::from_bits_truncate(b) }),
            3 => AlgorithmRequest::Aead(AeadAlgorithm { supported: AeadFixedAlgorithms::from_bits_truncate(b) }),
            4 => AlgorithmRequest::ReqBaseAsym(ReqBaseAsymAlgorithm { supported: ReqBaseAsymFixedAlgorithms::from_bits_truncate(b) }),
            _ => AlgorithmRequest::KeySchedule(KeyScheduleAlgorithm { supported: KeyScheduleFixedAlgorithms::from_bits_truncate(b) }),
        };
        st.push(AlgStruct { ty, bits: b & alg_mask(ty), ext: 0 });
    }
    let n = r.below(5);
    st.truncate(n);
    let (a, h, g) = (r.next() as u32 & 0x1FF, r.next() as u32 & 0x3F, r.next() as u32 & 0x3F);
    let m = lm::NegotiateAlgorithms {
        measurement_spec: MeasurementSpec::from_bits_truncate(1),
        base_asym_algo: BaseAsymAlgo::from_bits_truncate(a),
        base_hash_algo: BaseHashAlgo::from_bits_truncate(h),
        num_algorithm_requests: n as u8,
        algorithm_requests: reqs,
    };
    check_write(cx, r, GEN, &m, &Negotiate { spec: 1, asym: a, hash: h, ext_asym: 0, ext_hash: 0, structs: st.clone() }.enc());
    let m = lm::Algorithms {
        measurement_spec_selected: MeasurementSpec::from_bits_truncate(1),
        measurement_hash_algo_selected: BaseHashAlgo::from_bits_truncate(g),
        base_asym_algo_selected: BaseAsymAlgo::from_bits_truncate(a),
        base_hash_algo_selected: BaseHashAlgo::from_bits_truncate(h),
        num_algorithm_responses: n as u8,
        algorithm_responses: reqs,
    };
    check_write(cx, r, GEN, &m, &rc::Algs { spec: 1, meas_hash: g, asym: a, hash: h, structs: st }.enc());
    for (bit, d) in [(1u32, 32usize), (2, 48), (4, 64), (8, 32), (16, 48), (32, 64)] {
        if d <= LIM.digest {
            let got = usize::from(BaseHashAlgo::from_bits_truncate(bit).get_digest_size());
            cx.check(&["C14", "C15"], got == d, || format!("digest size of hash {bit:#x}: {got}"));
        }
    }
    for (bit, name, n) in [
        (1u32, "RSASSA_2048", 256usize),
        (2, "RSAPSS_2048", 256),
        (4, "RSASSA_3072", 384),
        (8, "RSAPSS_3072", 384),
        (0x10, "ECDSA_ECC_NIST_P256", 64),
        (0x20, "RSASSA_4096", 512),
        (0x40, "RSAPSS_4096", 512),
        (0x80, "ECDSA_ECC_NIST_P384", 96),
        (0x100, "ECDSA_ECC_NIST_P521", 132),
    ] {
        if n <= LIM.sig {
            let got = usize::from(BaseAsymAlgo::from_bits_truncate(bit).get_signature_size());
            cx.check(&["C14", "C15"], got == n, || format!("signature size of {name}: {got}"));
        }
        let b: Option<BaseAsymAlgo> = name.parse().ok();
        cx.check(&["C14", "C30"], b.map(|b| b.bits()) == Some(bit), || format!("{name} read as {b:?}"));
    }
    for (bit, name) in [(1u32, "SHA_256"), (2, "SHA_384"), (4, "SHA_512"), (8, "SHA3_256"), (0x10, "SHA3_384"), (0x20, "SHA3_512")] {
        let b: Option<BaseHashAlgo> = name.parse().ok();
        cx.check(&["C14", "C30"], b.map(|b| b.bits()) == Some(bit), || format!("{name} read as {b:?}"));
    }
    for (bit, name, both) in [
        (1u32, "CACHE_CAP", false),
        (2, "CERT_CAP", true),
        (4, "CHAL_CAP", true),
        (0x20, "MEAS_FRESH_CAP", false),
        (0x40, "ENCRYPT_CAP", true),
        (0x80, "MAC_CAP", true),
        (0x100, "MUT_AUTH_CAP", true),
        (0x200, "KEY_EX_CAP", true),
        (0x400, "PSK_CAP", true),
        (0x1000, "ENCAP_CAP", true),
        (0x2000, "HBEAT_CAP", true),
        (0x4000, "KEY_UPD_CAP", true),
        (0x8000, "HANDSHAKE_IN_THE_CLEAR_CAP", true),
        (0x10000, "PUB_KEY_ID_CAP", true),
    ] {
        let b: Option<RspFlags> = name.parse().ok();
        cx.check(&["C14", "C30"], b.map(|b| b.bits()) == Some(bit), || format!("responder's {name} read as {b:?}"));
        if both {
            let b: Option<ReqFlags> = name.parse().ok();
            cx.check(&["C14", "C30"], b.map(|b| b.bits()) == Some(bit), || format!("requester's {name} read as {b:?}"));
        }
    }
    #[cfg(feature = "peek")]
    named_flags(cx);
    // digests
    const NONE: Option<DigestBuf> = None;
    let mut ds = [NONE; LIM.slots];
    let mut mask = 0u8;
    let mut list = vec![];
    for (i, d) in ds.iter_mut().enumerate() {
        if r.chance(1, 2) {
            let b = r.bytes(z.d);
            *d = DigestBuf::try_from(&b[..]).ok();
            mask |= 1 << i;
            list.push(b);
        }
    }
    let m = lm::Digests { slot_mask: mask, digests: ds };
    check_write(cx, r, GEN, &m, &digests(mask, &list));
    // certificates
    let (s, o, l) = (r.byte(), r.next() as u16, r.next() as u16);
    check_write(cx, r, GEN, &lm::GetCertificate { slot: s, offset: o, length: l }, &get_cert(s, o, l));
    let max = LIM.chain.min(65535);
    let n = r.len_near(&[0, 1, 255, 256, max], max);
    let c = r.bytes(n);
    let mut cert_chain = [0xEEu8; LIM.chain];
    cert_chain[..n].copy_from_slice(&c);
    let m = lm::Certificate { slot: s, portion_length: n as u16, remainder_length: o, cert_chain };
    check_write(cx, r, GEN, &m, &certificate(s, o, &c));
    // challenges
    let mt = *r.pick(&[lm::MeasurementHashType::None, lm::MeasurementHashType::Tcb, lm::MeasurementHashType::All]);
    let m = lm::Challenge::new(s, mt);
    let nonce = m.nonce.as_ref().to_vec();
    // (their nonces are random, so the trace leaves these bytes out)
    let trace = cx.trace;
    check_write(cx, r, GEN, &m, &challenge(s, mt as u8, &nonce));
    cx.trace = trace;
    let es = rand_opaque(r, &LIM);
    let o = opaque(&es);
    let Some(Ok(od)) = call(cx, "opaque read", || lm::OpaqueData::read(&mut Reader::new(&o))) else { return };
    let (h1, h2, sg) = (r.bytes(z.d), r.bytes(z.d), r.bytes(z.s));
    let slot = if r.chance(1, 4) { r.range(LIM.slots, 255) as u8 } else { r.below(LIM.slots) as u8 };
    let mutual = r.chance(1, 2);
    let nn = lm::Challenge::new(0, mt).nonce;
    let nb = nn.as_ref().to_vec();
    let Some(m) = call(cx, "ChallengeAuth::new", || lm::ChallengeAuth::new(slot, mask, mutual, &h1, nn, &h2, od, &sg)) else { return };
    if usize::from(slot) >= LIM.slots {
        let mut b = vec![0u8; 4096];
        let Some(ok) = call(cx, "write", || m.write(&mut b).is_ok()) else { return };
        cx.check(&["C14"], !ok, || format!("CHALLENGE_AUTH for slot {slot} written"));
    } else {
        let w = Auth { slot, resv: 0, mutual, mask, hash: h1, nonce: nb, meas: h2, opaque: es, sig: sg };
        check_write(cx, r, AUTHT, &m, &w.enc());
        cx.trace = trace;
    }
    check_write(cx, r, GEN, &lm::GetVersion {}, &get_version());
    check_write(cx, r, GEN, &lm::GetDigests {}, &get_digests());
    // errors that can be built directly
    let n32 = r.next() as u32;
    use lm::Error as E;
    for (e, code, data, x) in [
        (E::InvalidRequest, 1, 0, vec![]),
        (E::Busy, 3, 0, vec![]),
        (E::UnexpectedRequest, 4, 0, vec![]),
        (E::Unspecified, 5, 0, vec![]),
        (E::DecryptError, 6, 0, vec![]),
        (E::UnsupportedRequest(s), 7, s, vec![]),
        (E::RequestInFlight, 8, 0, vec![]),
        (E::InvalidResponseCode, 9, 0, vec![]),
        (E::SessionLimitExceeded, 0xA, 0, vec![]),
        (E::SessionRequired, 0xB, 0, vec![]),
        (E::ResetRequired, 0xC, 0, vec![]),
        (E::ResponseTooLarge(n32), 0xD, 0, n32.to_le_bytes().to_vec()),
        (E::RequestTooLarge, 0xE, 0, vec![]),
        (E::LargeResponse(s), 0xF, 0, vec![s]),
        (E::MessageLost, 0x10, 0, vec![]),
        (E::VersionMismatch, 0x41, 0, vec![]),
        (E::RequestResynch, 0x43, 0, vec![]),
    ] {
        check_write(cx, r, ERRT, &e, &error(code, data, &x));
    }
    // sized buffers
    let n = r.len_near(&[0, 32, 48, 64, LIM.digest, LIM.sig], 100);
    let b = r.bytes(n);
    let Some(d) = call(cx, "DigestBuf", || DigestBuf::try_from(&b[..]).ok()) else { return };
    let Some(g) = call(cx, "SignatureBuf", || SignatureBuf::try_from(&b[..]).ok()) else { return };
    cx.check(&["C15"], d.is_some() == (n <= LIM.digest) && g.is_some() == (n <= LIM.sig), || format!("buffers of {n} bytes: {} {}", d.is_some(), g.is_some()));
    cx.check(&["C15"], DigestSize::try_from(n).is_ok() == (n <= LIM.digest) && SignatureSize::try_from(n).is_ok() == (n <= LIM.sig), || format!("sizes of {n} bytes"));
    let b2 = if r.chance(1, 2) {
        b.clone()
    } else {
        let mut x = b.clone();
        gen::mutate(r, &mut x);
        x
    };
    if let (Some(d), Ok(e)) = (&d, DigestBuf::try_from(&b2[..])) {
        cx.check(&["C15"], d.as_ref() == &b[..] && d.len() == n, || "digest buffer contents".into());
        cx.check(&["C15"], (*d == e) == (b == b2), || format!("digest equality of {} and {}", hex(&b), hex(&b2)));
    }
    if let (Some(d), Ok(e)) = (&g, SignatureBuf::try_from(&b2[..])) {
        cx.check(&["C15"], d.as_ref() == &b[..] && d.len() == n, || "signature buffer contents".into());
        cx.check(&["C15"], (*d == e) == (b == b2), || format!("signature equality of {} and {}", hex(&b), hex(&b2)));
    }
    cx.count("built");
}

/// The named flag constants a user builds messages from, against the
/// specification's bit assignments.
#[cfg(feature = "peek")]
fn named_flags(cx: &mut Ctx) {
    use spdm::msgs::algorithms::*;
    use spdm::msgs::capabilities::{ReqFlags, RspFlags};
    macro_rules! table {
        ($t:ident: $($n:ident = $v:expr),* $(,)?) => {
            $( cx.check(&["C14", "C15"], $t::$n.bits() as u32 == $v, || {
                format!("{}::{} is {:#x}, the specification says {:#x}", stringify!($t), stringify!($n), $t::$n.bits(), $v)
            }); )*
        };
    }
    table!(BaseAsymAlgo: RSASSA_2048 = 1, RSAPSS_2048 = 2, RSASSA_3072 = 4, RSAPSS_3072 = 8,
        ECDSA_ECC_NIST_P256 = 0x10, RSASSA_4096 = 0x20, RSAPSS_4096 = 0x40,
        ECDSA_ECC_NIST_P384 = 0x80, ECDSA_ECC_NIST_P521 = 0x100);
    table!(ReqBaseAsymFixedAlgorithms: RSASSA_2048 = 1, RSAPSS_2048 = 2, RSASSA_3072 = 4, RSAPSS_3072 = 8,
        ECDSA_ECC_NIST_P256 = 0x10, RSASSA_4096 = 0x20, RSAPSS_4096 = 0x40,
        ECDSA_ECC_NIST_P384 = 0x80, ECDSA_ECC_NIST_P521 = 0x100);
    table!(BaseHashAlgo: SHA_256 = 1, SHA_384 = 2, SHA_512 = 4, SHA3_256 = 8, SHA3_384 = 0x10, SHA3_512 = 0x20);
    table!(MeasurementSpec: DMTF = 1);
    table!(DheFixedAlgorithms: FFDHE_2048 = 1, FFDHE_3072 = 2, FFDHE_4096 = 4, SECP_256_R1 = 8,
        SECP_384_R1 = 0x10, SECP_521_R1 = 0x20);
    table!(AeadFixedAlgorithms: AES_128_GCM = 1, AES_256_GCM = 2, CHACHA20_POLY1305 = 4);
    table!(KeyScheduleFixedAlgorithms: SPDM = 1);
    table!(ReqFlags: CERT_CAP = 2, CHAL_CAP = 4, ENCRYPT_CAP = 0x40, MAC_CAP = 0x80, MUT_AUTH_CAP = 0x100,
        KEY_EX_CAP = 0x200, PSK_CAP = 0x400, ENCAP_CAP = 0x1000, HBEAT_CAP = 0x2000, KEY_UPD_CAP = 0x4000,
        HANDSHAKE_IN_THE_CLEAR_CAP = 0x8000, PUB_KEY_ID_CAP = 0x10000);
    table!(RspFlags: CACHE_CAP = 1, CERT_CAP = 2, CHAL_CAP = 4, MEAS_CAP_NO_SIG = 8, MEAS_CAP_SIG = 0x10,
        MEAS_FRESH_CAP = 0x20, ENCRYPT_CAP = 0x40, MAC_CAP = 0x80, MUT_AUTH_CAP = 0x100,
        KEY_EX_CAP = 0x200, PSK_CAP = 0x400, PSX_CAP_WITH_CONTEXT = 0x800, ENCAP_CAP = 0x1000, HBEAT_CAP = 0x2000,
        KEY_UPD_CAP = 0x4000, HANDSHAKE_IN_THE_CLEAR_CAP = 0x8000, PUB_KEY_ID_CAP = 0x10000);
    cx.count("codec.constants");
}
