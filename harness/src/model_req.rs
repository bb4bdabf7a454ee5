//! Reference model of a requester: the request it must produce, the responses it must accept or
//! refuse, what it records. Independent of the library's code.

use crate::certs::{chain_verdict, verify_leaf, Verdict};
use crate::refcodec::*;
use crate::sha2;
use crate::util::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rp {
    Version,
    Caps,
    Algs,
    Digests,
    Cert,
    Challenge,
    Done,
    Error,
}
impl Rp {
    pub fn name(self) -> &'static str {
        match self {
            Rp::Version => "Version",
            Rp::Caps => "Capabilities",
            Rp::Algs => "Algorithms",
            Rp::Digests | Rp::Cert => "IdAuth",
            Rp::Challenge => "Challenge",
            Rp::Done => "NewSession",
            Rp::Error => "Error",
        }
    }
    pub fn expects(self) -> u8 {
        match self {
            Rp::Version => VERSION,
            Rp::Caps => CAPABILITIES,
            Rp::Algs => ALGORITHMS,
            Rp::Digests => DIGESTS,
            Rp::Cert => CERTIFICATE,
            Rp::Challenge => CHALLENGE_AUTH,
            _ => 0,
        }
    }
    pub fn all() -> [Rp; 8] {
        [Rp::Version, Rp::Caps, Rp::Algs, Rp::Digests, Rp::Cert, Rp::Challenge, Rp::Done, Rp::Error]
    }
}

#[derive(Clone, Debug)]
pub struct ReqModel {
    pub ph: Rp,
    pub outstanding: bool,
    pub transcript: Vec<u8>,
    pub transcript_free: bool,
    pub root: usize,
    pub version: [u8; 4],
    pub ct: u8,
    pub caps: u32,
    pub asym: u32,
    pub hash: u32,
    pub algs: Option<Algs>,
    pub digests: Option<(u8, Vec<Vec<u8>>)>,
    pub chain: Vec<u8>,
    pub nonce: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RMust {
    Ok,
    Err,
    Either,
}

#[derive(Clone, Debug)]
pub struct RWant {
    pub must: RMust,
    pub why: &'static str,
    pub tags: &'static [&'static str],
    /// The code an unexpected-message error has to name (0: not judged).
    pub expected: u8,
}

pub const OFFER: [AlgStruct; 4] = [
    AlgStruct { ty: 2, bits: 0x12, ext: 0 },
    AlgStruct { ty: 3, bits: 0x6, ext: 0 },
    AlgStruct { ty: 4, bits: 0x90, ext: 0 },
    AlgStruct { ty: 5, bits: 0x1, ext: 0 },
];

fn w(must: RMust, why: &'static str, tags: &'static [&'static str]) -> RWant {
    RWant { must, why, tags, expected: 0 }
}
fn bad(b: Bad) -> RWant {
    match b {
        Bad::Trunc => w(RMust::Err, "truncated", &["C09", "C15", "C08"]),
        Bad::Reserved => w(RMust::Err, "reserved bytes", &["C09", "C15"]),
        _ => w(RMust::Err, "invalid field", &["C09", "C15"]),
    }
}

impl ReqModel {
    pub fn new(root: usize) -> ReqModel {
        ReqModel {
            ph: Rp::Version,
            outstanding: false,
            transcript: vec![],
            transcript_free: false,
            root,
            version: [0; 4],
            ct: 0,
            caps: 0,
            asym: 0,
            hash: 0,
            algs: None,
            digests: None,
            chain: vec![],
            nonce: vec![],
        }
    }

    /// The next request (nonce bytes zero), or None when no request may be produced.
    pub fn request(&self) -> Option<Vec<u8>> {
        Some(match self.ph {
            Rp::Version => get_version(),
            Rp::Caps => caps(GET_CAPABILITIES, 12, cfg().caps),
            Rp::Algs => Negotiate {
                spec: 1,
                asym: cfg().asym,
                hash: cfg().hashes,
                ext_asym: 0,
                ext_hash: 0,
                structs: OFFER.to_vec(),
            }
            .enc(),
            Rp::Digests => get_digests(),
            Rp::Cert => get_cert(0, 0, LIM.chain.min(0xFFFF) as u16),
            Rp::Challenge => challenge(0, 0, &[0; NONCE]),
            Rp::Done | Rp::Error => return None,
        })
    }

    /// Does a request of `len` bytes still fit the transcript?
    pub fn room(&self, len: usize) -> bool {
        let base = if self.ph == Rp::Version { 0 } else { self.transcript.len() };
        base + len <= LIM.transcript
    }

    pub fn sent(&mut self, req: &[u8]) {
        if self.ph == Rp::Version {
            self.transcript.clear();
        }
        if self.ph == Rp::Challenge {
            self.nonce = req[4..].to_vec();
        }
        self.transcript.extend_from_slice(req);
        self.outstanding = true;
    }

    pub fn predict(&self, rsp: &[u8]) -> RWant {
        match self.ph {
            Rp::Done => return w(RMust::Err, "session is complete", &["C09"]),
            Rp::Error => return w(RMust::Err, "terminated", &["C09"]),
            _ => (),
        }
        if !self.outstanding {
            return w(RMust::Err, "no request outstanding", &["C09", "C01"]);
        }
        if rsp.len() < 2 {
            return w(RMust::Err, "no header", &["C09", "C15"]);
        }
        let want = self.ph.expects();
        if rsp[1] != want {
            let mut x = w(RMust::Err, "unexpected message", &["C09", "C15", "C01"]);
            x.expected = want;
            if rsp.len() < 3 {
                x.expected = 0;
            }
            return x;
        }
        if rsp[0] != ver_of(want) {
            return w(RMust::Err, "header version", &["C09", "C15"]);
        }
        let body = &rsp[2..];
        let mut out = match self.ph {
            Rp::Version => match parse_version(body) {
                Err(b) => {
                    let mut x = bad(b);
                    x.tags = &["C09", "C15", "C12"];
                    x
                }
                Ok((v, used)) => {
                    if best(&v).is_none() {
                        return w(RMust::Err, "no common version", &["C12", "C09"]);
                    }
                    either(used < body.len(), w(RMust::Ok, "VERSION", &["C12", "C02"]))
                }
            },
            Rp::Caps => match parse_caps(body, RSP_MASK) {
                Err(b) => bad(b),
                Ok((_, _, used)) => either(used < body.len(), w(RMust::Ok, "CAPABILITIES", &["C13", "C02"])),
            },
            Rp::Algs => match parse_algs(body) {
                Err(b) => {
                    let mut x = bad(b);
                    if b == Bad::Field {
                        x.tags = &["C09", "C15", "C11"];
                    }
                    x
                }
                Ok((a, len, used)) => {
                    if a.asym & cfg().asym == 0
                        || a.hash & cfg().hashes == 0
                        || a.meas_hash & cfg().hashes == 0
                        || a.structs.iter().any(|s| OFFER.iter().any(|o| o.ty == s.ty && o.bits & s.bits == 0))
                    {
                        return w(RMust::Err, "selection was not offered", &["C11", "C09"]);
                    }
                    let odd = used < body.len()
                        || usize::from(len) != rsp.len()
                        || crate::model_rsp::dup_types(&a.structs)
                        || a.structs.iter().any(|s| s.ext != 0);
                    either(odd, w(RMust::Ok, "ALGORITHMS", &["C11", "C02"]))
                }
            },
            Rp::Digests => match parse_digests(body, digest_len(self.hash), &LIM) {
                Err(b) => bad(b),
                Ok((_, _, used)) => either(used < body.len(), w(RMust::Ok, "DIGESTS", &["C02", "C11"])),
            },
            Rp::Cert => match parse_certificate(body, &LIM) {
                Err(b) => bad(b),
                Ok(c) => {
                    if c.slot != 0 {
                        return w(RMust::Err, "certificate of a slot that was not requested", &["C09", "C01"]);
                    }
                    let odd = c.used < body.len()
                        || c.remainder != 0
                        || parse_chain(&c.chain, digest_len(self.hash), &LIM).is_err();
                    either(odd, w(RMust::Ok, "CERTIFICATE", &["C02"]))
                }
            },
            Rp::Challenge => self.judge_auth(rsp, body),
            Rp::Done | Rp::Error => unreachable!(),
        };
        if out.must == RMust::Err {
            return out;
        }
        let keep = if self.ph == Rp::Challenge { rsp.len() - sig_len(self.asym) } else { rsp.len() };
        if self.transcript.len() + keep > LIM.transcript {
            out = w(RMust::Err, "transcript is full", &["C27", "C04"]);
        }
        out
    }

    fn judge_auth(&self, rsp: &[u8], body: &[u8]) -> RWant {
        let (dl, sl) = (digest_len(self.hash), sig_len(self.asym));
        let (a, olen, oact, used) = match parse_auth(body, dl, sl, &LIM) {
            Err(b) => return bad(b),
            Ok(x) => x,
        };
        if used < body.len() {
            return w(RMust::Err, "bytes after the signature", &["C01", "C09"]);
        }
        if a.slot != 0 {
            return w(RMust::Err, "slot was not challenged", &["C01", "C09"]);
        }
        if a.mask & 1 == 0 {
            return w(RMust::Err, "slot not in mask", &["C01", "C09"]);
        }
        if a.hash != sha2::hash(self.hash, &self.chain) {
            return w(RMust::Err, "certificate chain hash", &["C01", "C09"]);
        }
        let certs = match parse_chain(&self.chain, dl, &LIM) {
            Err(_) => return w(RMust::Err, "malformed chain", &["C01", "C21", "C09"]),
            Ok((_, c)) => c,
        };
        let v = chain_verdict(&certs, self.root);
        if v == Verdict::Invalid {
            return w(RMust::Err, "chain does not verify", &["C01", "C22", "C09"]);
        }
        let mut t = self.transcript.clone();
        t.extend_from_slice(&rsp[..rsp.len() - sl]);
        if !verify_leaf(certs.last().unwrap(), &sha2::hash(self.hash, &t), &a.sig) {
            return w(RMust::Err, "signature over this session", &["C01", "C03", "C09"]);
        }
        let odd = a.resv != 0 || olen != oact || v == Verdict::Unclear;
        either(odd, w(RMust::Ok, "CHALLENGE_AUTH", &["C02", "C22", "C14", "C04"]))
    }

    /// Advance after an accepted response.
    pub fn accept(&mut self, rsp: &[u8]) {
        let body = &rsp[2..];
        self.outstanding = false;
        let mut keep = rsp.len();
        match self.ph {
            Rp::Version => {
                self.version = best(&parse_version(body).unwrap().0).unwrap();
                self.ph = Rp::Caps;
            }
            Rp::Caps => {
                let (ct, f, _) = parse_caps(body, RSP_MASK).unwrap();
                self.ct = ct;
                self.caps = f;
                self.ph = Rp::Algs;
            }
            Rp::Algs => {
                let a = parse_algs(body).unwrap().0;
                self.asym = a.asym;
                self.hash = a.hash;
                self.algs = Some(a);
                self.ph = if self.caps & cfg().caps & CERT != 0 { Rp::Digests } else { Rp::Done };
            }
            Rp::Digests => {
                let (m, d, _) = parse_digests(body, digest_len(self.hash), &LIM).unwrap();
                self.digests = Some((m, d));
                self.ph = Rp::Cert;
            }
            Rp::Cert => {
                self.chain = parse_certificate(body, &LIM).unwrap().chain;
                self.ph = if self.caps & cfg().caps & CHAL != 0 { Rp::Challenge } else { Rp::Done };
            }
            Rp::Challenge => {
                keep -= sig_len(self.asym);
                self.ph = Rp::Done;
            }
            _ => unreachable!(),
        }
        self.transcript.extend_from_slice(&rsp[..keep]);
    }

    pub fn refuse(&mut self) {
        if self.ph != Rp::Done {
            self.ph = Rp::Error;
            self.transcript_free = true;
        }
    }
}

fn either(odd: bool, x: RWant) -> RWant {
    if odd {
        RWant { must: RMust::Either, ..x }
    } else {
        x
    }
}

/// The highest announced version that the library supports (1.0 and 1.1).
pub fn best(v: &[[u8; 4]]) -> Option<[u8; 4]> {
    v.iter().filter(|e| **e == [1, 0, 0, 0] || **e == [1, 1, 0, 0]).max().copied()
}
