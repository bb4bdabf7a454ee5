//! An independently written responder: speaks the protocol from the specification tables, keeps
//! its own transcript and signs with ring directly.

use crate::certs::{self, pool, Hier};
use crate::refcodec::*;
use crate::rng::Rng;
use crate::sha2;
use crate::util::*;

#[derive(Clone, Debug)]
pub struct Peer {
    pub versions: Vec<[u8; 4]>,
    pub ct: u8,
    pub caps: u32,
    pub hash: u32,
    pub meas_hash: u32,
    pub asym: u32,
    pub structs: Vec<AlgStruct>,
    pub certs: Vec<Vec<u8>>,
    pub root_hash: Option<Vec<u8>>, // None: hash of root 0
    pub key: u8,
    pub mask: u8,
    pub digests_mask: u8,
    pub mutual: bool,
    pub opaque: Vec<OElem>,
    pub nonce: Vec<u8>,
    pub meas: u8,
    /// Announced in DIGESTS for slot 0, if not the hash of the chain.
    pub announced: Option<Vec<u8>>,
    /// Named in CHALLENGE_AUTH, if not the hash of the chain.
    pub named: Option<Vec<u8>>,
    pub transcript: Vec<u8>,
}

impl Peer {
    pub fn chain(&self) -> Vec<u8> {
        let rh = self.root_hash.clone().unwrap_or_else(|| sha2::hash(self.hash, &pool().roots[0].der));
        chain(&rh, &self.certs)
    }

    /// An honest peer that accepts what the requester offers, with everything left open by the
    /// protocol chosen at random.
    pub fn honest(r: &mut Rng, h: &Hier) -> Peer {
        let hashes: Vec<u32> = [1, 2, 4].into_iter().filter(|b| cfg().hashes & b != 0).collect();
        let mut versions = vec![*r.pick(&[[1, 1, 0, 0], [1, 0, 0, 0]])];
        if r.chance(1, 2) {
            let other = [
                *r.pick(&[[1u8, 0, 0, 0], [1, 1, 0, 0], [1, 2, 0, 0], [2, 0, 0, 0], [1, 1, 1, 0], [0, 9, 0, 0], [15, 15, 15, 15]]),
            ][0];
            let at = r.below(2);
            versions.insert(at, other);
        }
        let mut structs: Vec<AlgStruct> = vec![];
        for o in crate::model_req::OFFER {
            if r.chance(3, 4) {
                let bits: Vec<u16> = (0..16).map(|i| 1u16 << i).filter(|b| o.bits & b != 0).collect();
                structs.push(AlgStruct { ty: o.ty, bits: *r.pick(&bits), ext: 0 });
            }
        }
        let all = if LIM.slots >= 8 { 0xFF } else { (1u8 << LIM.slots) - 1 };
        let mask = (r.byte() & all) | 1;
        Peer {
            versions,
            ct: r.byte(),
            caps: (r.next() as u32 & RSP_MASK) | CERT | CHAL,
            hash: *r.pick(&hashes),
            meas_hash: *r.pick(&hashes),
            asym: 0x10,
            structs,
            certs: h.certs.clone(),
            root_hash: None,
            key: h.leaf_key,
            mask,
            digests_mask: mask,
            mutual: r.chance(1, 2),
            opaque: rand_opaque(r, &LIM),
            nonce: r.bytes(NONCE),
            meas: if r.chance(1, 2) { 0 } else { r.byte() },
            announced: None,
            named: None,
            transcript: vec![],
        }
    }

    /// The unsigned part of the challenge response.
    pub fn auth(&self) -> Auth {
        let dl = digest_len(self.hash);
        Auth {
            slot: 0,
            resv: 0,
            mutual: self.mutual,
            mask: self.mask,
            hash: self.named.clone().unwrap_or_else(|| sha2::hash(self.hash, &self.chain())),
            nonce: self.nonce.clone(),
            meas: vec![self.meas; dl],
            opaque: self.opaque.clone(),
            sig: vec![0; sig_len(self.asym)],
        }
    }

    pub fn algs(&self) -> Algs {
        Algs { spec: 1, meas_hash: self.meas_hash, asym: self.asym, hash: self.hash, structs: self.structs.clone() }
    }

    /// The answer to `req`, recorded.
    pub fn answer(&mut self, req: &[u8]) -> Vec<u8> {
        let rsp = match req[1] {
            GET_VERSION => {
                self.transcript.clear();
                version(&self.versions)
            }
            GET_CAPABILITIES => caps(CAPABILITIES, self.ct, self.caps),
            NEGOTIATE_ALGORITHMS => self.algs().enc(),
            GET_DIGESTS => {
                let ds: Vec<Vec<u8>> = (0..8)
                    .filter(|i| self.digests_mask >> i & 1 == 1)
                    .map(|i| if i == 0 { self.announced.clone().unwrap_or_else(|| sha2::hash(self.hash, &self.chain())) } else { vec![i as u8; digest_len(self.hash)] })
                    .collect();
                digests(self.digests_mask, &ds)
            }
            GET_CERTIFICATE => certificate(0, 0, &self.chain()),
            CHALLENGE => {
                self.transcript.extend_from_slice(req);
                let mut a = self.auth().enc();
                let n = a.len() - sig_len(self.asym);
                self.transcript.extend_from_slice(&a[..n]);
                let s = certs::sign_raw(self.key, &sha2::hash(self.hash, &self.transcript));
                a.truncate(n);
                a.extend_from_slice(&s);
                return a;
            }
            _ => error(4, 0, &[]),
        };
        self.transcript.extend_from_slice(req);
        self.transcript.extend_from_slice(&rsp);
        rsp
    }
}

pub fn rand_opaque(r: &mut Rng, lim: &Lim) -> Vec<OElem> {
    if r.chance(1, 2) || lim.opq_elems == 0 {
        return vec![];
    }
    if r.chance(1, 5) {
        if let Some(v) = full_opaque(r, lim, 1024) {
            return v;
        }
    }
    let most = if r.chance(1, 8) { 64 } else { 8 };
    let n = r.range(1, lim.opq_elems.min(most));
    let mut v: Vec<OElem> = vec![];
    for _ in 0..n {
        v.push(rand_oelem(r, lim));
    }
    // the opaque area is limited to 1024 bytes
    while opaque(&v).len() > 1024 {
        v.pop();
    }
    v
}

/// An opaque area of exactly `total` bytes, if the configuration allows for one.
pub fn full_opaque(r: &mut Rng, lim: &Lim, total: usize) -> Option<Vec<OElem>> {
    let max = 4 + (lim.opq_data + 3) / 4 * 4;
    if total < 8 || total % 4 != 0 || lim.opq_elems * max < total - 4 || lim.opq_data == 0 {
        return None;
    }
    let mut left = total - 4;
    let mut v = vec![];
    while left > 0 {
        let size = left.min(max);
        let data = (size - 4).min(lim.opq_data);
        v.push(OElem { reg: 0, vid: vec![], data: r.bytes(data) });
        left -= size;
    }
    Some(v)
}

pub fn rand_oelem(r: &mut Rng, lim: &Lim) -> OElem {
    let reg = r.below(9) as u8;
    let dl = r.len_near(&[0, 1, 2, 3, 4, 127, 128, 252, 255, 256, lim.opq_data], lim.opq_data);
    OElem { reg, vid: r.bytes(vid_len(reg)), data: r.bytes(dl) }
}
