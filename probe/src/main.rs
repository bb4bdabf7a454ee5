//! What a build of the library does with the configuration it was given. Arguments: the ten
//! configured numbers. Prints one JSON object: constants, what each endpoint announces, and what
//! happens exactly at, just below and just beyond each limit.

use spdm::config as c;
use spdm::crypto::signing::{Error as SignError, Signature, Signer};
use spdm::crypto::FilledSlot;
use spdm::msgs as lm;
use spdm::msgs::common::{DigestSize, SignatureSize};
use spdm::msgs::encoding::Reader;
use spdm::msgs::CertificateChain;
use spdm::{RequesterInit, Responder, Transcript};
use std::convert::TryFrom;

struct NoSig;
impl AsRef<[u8]> for NoSig {
    fn as_ref(&self) -> &[u8] {
        &[]
    }
}
impl Signature for NoSig {}
struct NoSigner;
impl Signer for NoSigner {
    type Signature = NoSig;
    fn sign(&self, _: &[u8]) -> Result<NoSig, SignError> {
        Err(SignError {})
    }
}

type Slots = [Option<FilledSlot<'static, NoSigner>>; c::NUM_SLOTS];
fn none() -> Slots {
    std::array::from_fn(|_| None)
}

fn opaque(n: usize, len: usize) -> Vec<u8> {
    let mut l = vec![n as u8, 0, 0, 0];
    for _ in 0..n {
        let mut e = vec![1u8, 2, 0x7, 0x8];
        e.extend((len as u16).to_le_bytes());
        e.resize(e.len() + len, 0x33);
        while e.len() % 4 != 0 {
            e.push(0);
        }
        l.extend(e);
    }
    l
}

fn meas(lim: usize, raw: bool, blocks: &[usize]) -> Vec<u8> {
    let nonce = if cfg!(feature = "crypto") { 32 } else { 0 };
    let mut rec = vec![];
    for (i, n) in blocks.iter().enumerate() {
        rec.push(i as u8);
        rec.push(1);
        rec.extend(((n + 3) as u16).to_le_bytes());
        rec.push(1 | if raw { 0x80 } else { 0 });
        rec.extend((*n as u16).to_le_bytes());
        rec.resize(rec.len() + n, 0x44);
    }
    let mut m = vec![blocks.len().min(lim) as u8, 0, blocks.len() as u8];
    m.extend(&(rec.len() as u32).to_le_bytes()[..3]);
    m.extend(rec);
    m.resize(m.len() + nonce, 0x55);
    m.extend([4, 0, 0, 0, 0, 0]);
    m
}

fn main() {
    // large configurations need a large stack
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap();
    if t.join().is_err() {
        std::process::exit(1);
    }
}

fn run() {
    let n: Vec<usize> = std::env::args().skip(1).map(|a| a.parse().unwrap()).collect();
    // the announcements of a responder and of a requester
    let mut b = vec![0u8; 4096];
    let mut rsp = Box::new(Responder::new(none()));
    let ver = {
        let (o, r) = rsp.handle_msg(&[0x10, 0x84, 0, 0], &mut b);
        r.unwrap();
        o.to_vec()
    };
    let mut q = vec![0x11, 0xE1, 0, 0, 0, 0, 0, 0];
    q.extend([0; 4]); // no capability at all
    let caps = {
        let (o, r) = rsp.handle_msg(&q, &mut b);
        r.unwrap();
        o.to_vec()
    };
    let mut q = vec![0x11, 0xE3, 0, 0, 32, 0, 1, 0];
    q.extend(0x1FFu32.to_le_bytes());
    q.extend(7u32.to_le_bytes());
    q.resize(32, 0);
    let algs = {
        let (o, _) = rsp.handle_msg(&q, &mut b);
        o.to_vec()
    };
    let mut root = vec![0x30, 0x03, 2, 1, 1];
    root.push(0);
    let mut req = Box::new(RequesterInit::new(&root, none()));
    let _ = req.next_request(&mut b).unwrap();
    req.handle_msg(&ver).unwrap();
    let rcaps = req.next_request(&mut b).unwrap().to_vec();
    req.handle_msg(&caps).unwrap();
    let ralgs = req.next_request(&mut b).unwrap().to_vec();
    let w = |m: &[u8], at: usize| m.get(at..at + 4).map_or(-1, |b| i64::from(u32::from_le_bytes([b[0], b[1], b[2], b[3]])));
    // limits
    let mut e: Vec<(&str, usize, usize, usize, bool)> = vec![];
    let near = |l: usize, max: usize| -> Vec<usize> { [l.wrapping_sub(1), l, l + 1, l + 2].into_iter().filter(|x| *x <= max).collect() };
    for k in near(n[0] - 1, 15) {
        let mut g = vec![1u8, 1];
        g.resize(g.len() + if cfg!(feature = "crypto") { 32 } else { 0 }, 9);
        g.push(k as u8);
        e.push(("slot in GET_MEASUREMENTS", 0, n[0] - 1, k, lm::GetMeasurements::parse_body(&g).is_ok()));
    }
    let d = [32, 48, 64].into_iter().filter(|d| *d <= n[4]).max();
    if let Some((d, ds)) = d.and_then(|d| Some((d, DigestSize::try_from(d).ok()?))) {
        for k in near(n[2], 40) {
            let mut body = vec![7u8; d];
            for _ in 0..=k {
                body.extend([0x30, 3, 2, 1, 5]);
            }
            let mut ch = ((body.len() + 4) as u16).to_le_bytes().to_vec();
            ch.extend([0, 0]);
            ch.extend(body);
            e.push(("certificates above the leaf", 2, n[2], k, CertificateChain::parse(&ch, ds).is_ok()));
        }
    }
    for k in near(n[1], 65535) {
        let mut m = vec![0u8, 0];
        m.extend((k as u16).to_le_bytes());
        m.extend([0, 0]);
        m.resize(m.len() + k, 1);
        e.push(("certificate chain bytes", 1, n[1], k, lm::Certificate::parse_body(&m).is_ok()));
    }
    for k in near(n[3], usize::MAX) {
        let v = vec![3u8; k];
        let mut t = Box::new(Transcript::new());
        e.push(("transcript bytes", 3, n[3], k, t.extend(&v[..k / 2]).is_ok() && t.extend(&v[k / 2..]).is_ok()));
    }
    for k in near(n[4], usize::MAX) {
        e.push(("digest size", 4, n[4], k, DigestSize::try_from(k).is_ok()));
    }
    for k in near(n[7], 255) {
        if opaque(k, n[6]).len() < 60000 {
            let o = opaque(k, n[6]);
            e.push(("opaque elements", 7, n[7], k, lm::OpaqueData::read(&mut Reader::new(&o)).is_ok()));
        }
    }
    if n[7] > 0 {
        for k in near(n[6], 60000) {
            let o = opaque(1, k);
            e.push(("opaque element bytes", 6, n[6], k, lm::OpaqueData::read(&mut Reader::new(&o)).is_ok()));
        }
    }
    if let Ok(z) = SignatureSize::try_from(64) {
        for k in near(n[8], 255) {
            let m = meas(n[8], true, &vec![n[9].min(20); k]);
            e.push(("measurement blocks", 8, n[8], k, lm::Measurements::parse_body(&m, false, z).is_ok()));
        }
        if n[8] > 0 {
            for k in near(n[9], 60000) {
                let m = meas(n[8], true, &[k]);
                e.push(("raw measurement bytes", 9, n[9], k, lm::Measurements::parse_body(&m, false, z).is_ok()));
            }
            for k in near(n[4], 60000) {
                let m = meas(n[8], false, &[k]);
                e.push(("measurement digest bytes", 4, n[4], k, lm::Measurements::parse_body(&m, false, z).is_ok()));
            }
        }
    }
    println!(
        "{{\"n\":[{},{},{},{},{},{},{},{},{},{}],\"caps\":{:?},\"asym\":{:?},\"rsp_flags\":{},\"req_flags\":{},\"req_asym\":{},\"req_hash\":{},\"rsp_asym\":{},\"edges\":[{}]}}",
        c::NUM_SLOTS,
        c::MAX_CERT_CHAIN_SIZE,
        c::MAX_CERT_CHAIN_DEPTH,
        c::TRANSCRIPT_SIZE,
        c::MAX_DIGEST_SIZE,
        c::MAX_SIGNATURE_SIZE,
        c::MAX_OPAQUE_ELEMENT_DATA_SIZE,
        c::MAX_OPAQUE_ELEMENTS,
        c::MAX_MEASUREMENT_BLOCKS,
        c::MAX_MEASUREMENT_SIZE,
        c::CAPABILITIES,
        c::ALGORITHMS_ASYMMETRIC_SIGNING,
        w(&caps, 8),
        w(&rcaps, 8),
        w(&ralgs, 8),
        w(&ralgs, 12),
        if algs.get(1) == Some(&0x63) { w(&algs, 12) } else { -2 },
        e.iter().map(|(w, i, l, k, g)| format!("[{w:?},{i},{l},{k},{g}]")).collect::<Vec<_>>().join(",")
    );
}
