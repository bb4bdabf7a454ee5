//! The compiled library against the configuration file it was built with.

use crate::ctx::{jstr, Ctx};
use crate::refcodec::*;
use crate::rng::{mix, Rng};
use crate::util::*;
use crate::world::*;
use spdm::config as c;
use spdm::msgs as lm;
use spdm::msgs::common::{DigestSize, SignatureSize};
use spdm::msgs::encoding::Reader;
use spdm::msgs::CertificateChain;
use spdm::Transcript;
use std::convert::TryFrom;

const T: &[&str] = &["C30"];

/// The constants of this build, as JSON.
pub fn dump() {
    let list = |l: &[&str]| l.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    println!(
        "{{\"n\":[{},{},{},{},{},{},{},{},{},{}],\"caps\":[{}],\"asym\":[{}]}}",
        c::NUM_SLOTS,
        c::MAX_CERT_CHAIN_SIZE,
        c::MAX_CERT_CHAIN_DEPTH,
        c::TRANSCRIPT_SIZE,
        c::MAX_DIGEST_SIZE,
        c::MAX_SIGNATURE_SIZE,
        c::MAX_OPAQUE_ELEMENT_DATA_SIZE,
        c::MAX_OPAQUE_ELEMENTS,
        c::MAX_MEASUREMENT_BLOCKS,
        c::MAX_MEASUREMENT_SIZE,
        list(c::CAPABILITIES),
        list(c::ALGORITHMS_ASYMMETRIC_SIGNING)
    );
}

/// Something of size `n`, exactly the limit or one beyond it, must be accepted or refused.
fn edge(cx: &mut Ctx, what: &str, lim: usize, n: usize, got: Option<bool>) {
    let Some(got) = got else { return };
    cx.ev(format!("{what}: {n} with a configured limit of {lim} -> {got}"), &[]);
    cx.check(T, got == (n <= lim), || {
        format!("{what}: {n} {} although the configured limit is {lim}", if got { "accepted" } else { "refused" })
    });
    cx.count(&format!("limit.{what}.{}", if n <= lim { "within" } else { "beyond" }));
    cx.distinct(mix(n as u64) ^ crate::rng::hash_bytes(what.as_bytes()));
}

fn around(r: &mut Rng, lim: usize) -> usize {
    match r.below(6) {
        0 | 1 => lim,
        2 | 3 => lim + 1,
        4 => lim + r.below(9),
        _ => r.below(lim + 1),
    }
}

pub fn limits(cx: &mut Ctx, r: &mut Rng) {
    let Some(l) = toml_lim() else { return };
    match cx.case % 13 {
        0 => {
            let n = around(r, l.slots - 1);
            if n <= 15 {
                let g = GetMeas { sig: true, raw: false, index: 1, nonce: r.bytes(NONCE), slot: n as u8 }.enc();
                let got = cx.lib("GetMeasurements::parse_body", || lm::GetMeasurements::parse_body(&g[2..]).is_ok());
                edge(cx, "slot in GET_MEASUREMENTS", l.slots - 1, n, got);
            }
        }
        1 => {
            let n = around(r, l.depth);
            let d = [32, 48, 64].into_iter().filter(|d| *d <= l.digest).max().unwrap_or(0);
            let certs: Vec<Vec<u8>> = (0..=n).map(|_| vec![0x30, 3, 2, 1, r.byte()]).collect();
            let b = chain(&r.bytes(d), &certs);
            if let Ok(ds) = DigestSize::try_from(d) {
                let got = cx.lib("CertificateChain::parse", || CertificateChain::parse(&b, ds).is_ok());
                edge(cx, "certificates above the leaf", l.depth, n, got);
            }
        }
        2 => {
            let n = around(r, l.chain);
            if n <= 65535 {
                let m = certificate(0, 0, &r.bytes(n));
                let got = cx.lib("Certificate::parse_body", || lm::Certificate::parse_body(&m[2..]).is_ok());
                edge(cx, "certificate chain bytes", l.chain, n, got);
            }
        }
        3 => {
            let n = around(r, l.transcript);
            let k = r.below(n + 1);
            let b = r.bytes(n);
            let got = cx.lib("Transcript::extend", || {
                let mut t = Box::new(Transcript::new());
                t.extend(&b[..k]).is_ok() && t.extend(&b[k..]).is_ok()
            });
            edge(cx, "transcript bytes", l.transcript, n, got);
        }
        4 => {
            let n = around(r, l.digest);
            let got = cx.lib("DigestSize", || DigestSize::try_from(n).is_ok());
            edge(cx, "digest size", l.digest, n, got);
            let n = around(r, l.sig);
            let got = cx.lib("SignatureSize", || SignatureSize::try_from(n).is_ok());
            edge(cx, "signature size", l.sig, n, got);
        }
        5 => {
            let n = around(r, l.opq_elems);
            if n <= 255 {
                let es: Vec<OElem> = (0..n)
                    .map(|_| {
                        let k = r.below(l.opq_data + 1);
                        OElem { reg: 1, vid: r.bytes(2), data: r.bytes(k) }
                    })
                    .collect();
                let o = opaque(&es);
                let got = cx.lib("OpaqueData::read", || lm::OpaqueData::read(&mut Reader::new(&o)).is_ok());
                edge(cx, "opaque elements", l.opq_elems, n, got);
            }
        }
        6 => {
            if l.opq_elems > 0 {
                let n = around(r, l.opq_data);
                let o = opaque(&[OElem { reg: 3, vid: r.bytes(2), data: r.bytes(n) }]);
                let got = cx.lib("OpaqueData::read", || lm::OpaqueData::read(&mut Reader::new(&o)).is_ok());
                edge(cx, "opaque element bytes", l.opq_data, n, got);
            }
        }
        7 => {
            let n = around(r, l.blocks);
            if n <= 255 {
                let blocks = (0..n)
                    .map(|i| {
                        let k = r.below(l.meas.min(40) + 1);
                        Block { index: i as u8, raw: true, ty: 1, value: r.bytes(k) }
                    })
                    .collect();
                let got = meas(cx, r, blocks);
                edge(cx, "measurement blocks", l.blocks, n, got);
            }
        }
        8 => {
            if l.blocks > 0 {
                let n = around(r, l.meas);
                if n <= 60000 {
                    let v = r.bytes(n);
                    let got = meas(cx, r, vec![Block { index: 1, raw: true, ty: 1, value: v }]);
                    edge(cx, "raw measurement bytes", l.meas, n, got);
                }
                let n = around(r, l.digest);
                let v = r.bytes(n);
                let got = meas(cx, r, vec![Block { index: 1, raw: false, ty: 1, value: v }]);
                edge(cx, "measurement digest bytes", l.digest, n, got);
            }
        }
        9 => {
            let mask = match r.below(3) {
                0 => ((1u32 << l.slots) - 1) as u8,
                _ => r.byte() & ((1u32 << l.slots) - 1) as u8,
            };
            let d = l.digest.min(32);
            let ds: Vec<Vec<u8>> = (0..mask.count_ones()).map(|_| r.bytes(d)).collect();
            let m = digests(mask, &ds);
            if let Ok(z) = DigestSize::try_from(d) {
                let got = cx.lib("Digests::parse_body", || lm::Digests::parse_body(z, &m[2..]).is_ok());
                edge(cx, "slots in DIGESTS", l.slots, mask.count_ones() as usize, got);
            }
        }
        10 => announced_by_responder(cx, r),
        11 => every_slot(cx, r, l.slots),
        _ => announced_by_requester(cx),
    }
    cx.count("limits");
}

fn meas(cx: &mut Ctx, r: &mut Rng, blocks: Vec<Block>) -> Option<bool> {
    let total = blocks.len().min(toml_lim().unwrap().blocks) as u8;
    let m = Meas { total, slot: 0, changed: 0, resv: 0, blocks, nonce: r.bytes(NONCE), opaque: vec![], sig: None }.enc();
    let z = SignatureSize::try_from(64).ok()?;
    cx.lib("Measurements::parse_body", || lm::Measurements::parse_body(&m[2..], false, z).is_ok())
}

/// CAPABILITIES and ALGORITHMS of a responder show exactly the configuration.
fn announced_by_responder(cx: &mut Ctx, r: &mut Rng) {
    let p = super::rsp::prov_small(r);
    let mut w = RspWorld::new(&p);
    w.step(cx, &get_version(), super::rsp::AMPLE);
    let s = w.step(cx, &caps(GET_CAPABILITIES, 0, REQ_MASK), super::rsp::AMPLE);
    let x = s.rsp;
    let f = x.get(8..12).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]));
    cx.check(T, f == Some(cfg().caps), || format!("CAPABILITIES announces {f:x?}, configured are {:x}", cfg().caps));
    let mut n = crate::gen::negotiate_valid(r);
    n.asym = 0x1FF; // everything SPDM 1.1 names
    n.hash = 7;
    let s = w.step(cx, &n.enc(), super::rsp::AMPLE);
    let x = s.rsp;
    if x.len() >= 20 && x[1] == ALGORITHMS {
        let a = u32::from_le_bytes([x[12], x[13], x[14], x[15]]);
        cx.check(T, a & cfg().asym != 0, || format!("ALGORITHMS selects {a:x}, configured are {:x}", cfg().asym));
    }
    cx.count("announced.responder");
}

fn announced_by_requester(cx: &mut Ctx) {
    let mut w = ReqWorld::new(0);
    let mut p = super::req::good_peer(&mut Rng::new(&[7, cx.case]));
    let mut seen = [0u32; 2];
    for _ in 0..3 {
        let Some(q) = w.next(cx, super::req::ROOM) else { return };
        if q.len() >= 12 && q[1] == GET_CAPABILITIES {
            seen[0] = u32::from_le_bytes([q[8], q[9], q[10], q[11]]);
            cx.check(T, seen[0] == cfg().caps, || format!("GET_CAPABILITIES announces {:x}, configured are {:x}", seen[0], cfg().caps));
        }
        if q.len() >= 16 && q[1] == NEGOTIATE_ALGORITHMS {
            seen[1] = u32::from_le_bytes([q[8], q[9], q[10], q[11]]);
            cx.check(T, seen[1] == cfg().asym, || format!("NEGOTIATE_ALGORITHMS offers {:x}, configured are {:x}", seen[1], cfg().asym));
        }
        let a = p.answer(&q);
        if w.deliver(cx, &a) != Some(true) && cx.diverged {
            return;
        }
    }
    cx.count("announced.requester");
}

/// Each configured slot can be filled, announced, served and (if configured) challenged.
fn every_slot(cx: &mut Ctx, r: &mut Rng, slots: usize) {
    if cfg().caps & CERT == 0 {
        return;
    }
    let mut p = super::rsp::prov_small(r);
    let all = super::rsp::prov_small(r);
    let k = if r.chance(1, 2) { slots - 1 } else { r.below(slots) };
    if p.slots[k].is_none() {
        p.slots[k] = match all.slots.into_iter().flatten().next() {
            Some(s) => Some(s),
            None => return,
        };
    }
    let want = (0..slots).filter(|i| p.slots[*i].is_some()).fold(0u8, |m, i| m | 1 << i);
    let mut w = RspWorld::new(&p);
    if !w.drive(cx, r, crate::model_rsp::Ph::IdAuth) || cx.diverged {
        return;
    }
    let room = |w: &RspWorld, n: usize| w.model.transcript.len() + n + 400 <= LIM.transcript;
    if room(&w, 4 + slots * 64) {
        let s = w.step(cx, &get_digests(), super::rsp::AMPLE);
        if s.lost || cx.diverged {
            return;
        }
        let x = s.rsp;
        cx.check(T, x.len() > 3 && x[1] == DIGESTS && x[3] == want, || {
            format!("DIGESTS is {}, the filled slots of {slots} are {want:08b}", hexs(&x))
        });
        cx.count("slots.announced");
    }
    let chain = p.slots[k].as_ref().unwrap().chain();
    if room(&w, chain.len()) && w.model.ph == crate::model_rsp::Ph::IdAuth {
        let s = w.step(cx, &get_cert(k as u8, 0, LIM.chain.min(65535) as u16), super::rsp::AMPLE);
        if s.lost || cx.diverged {
            return;
        }
        let x = s.rsp;
        cx.check(T, x.len() == 8 + chain.len() && x[1] == CERTIFICATE && x[8..] == chain[..], || {
            format!("slot {k} of {slots} is not served: {}", hexs(&x))
        });
        cx.count(if k == slots - 1 { "slots.last_served" } else { "slots.served" });
    }
}
