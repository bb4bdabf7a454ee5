//! Reference model of a responder: which requests are legal, what must be answered, what is
//! recorded. Independent of the library's code.

use crate::refcodec::*;
use crate::sha2;
use crate::util::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ph {
    Version,
    Caps,
    Algs,
    IdAuth,
    Challenge,
    Error,
}
impl Ph {
    pub fn name(self) -> &'static str {
        match self {
            Ph::Version => "Version",
            Ph::Caps => "Capabilities",
            Ph::Algs => "Algorithms",
            Ph::IdAuth => "IdAuth",
            Ph::Challenge => "Challenge",
            Ph::Error => "Error",
        }
    }
}

#[derive(Clone, Debug)]
pub struct SlotM {
    pub chain: Vec<u8>, // serialized, as provisioned
    pub key: usize,     // key id
}

#[derive(Clone, Debug)]
pub struct RspModel {
    pub ph: Ph,
    pub transcript: Vec<u8>,
    pub req_caps: u32,
    pub req_ct: u8,
    pub algs: Option<Algs>,
    pub asym: u32,
    pub hash: u32,
    pub slots: Vec<Option<SlotM>>,
    /// State or transcript can no longer be predicted (terminated: transcript content is free).
    pub transcript_free: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Must {
    Ok,
    Err,
    Either,
}

#[derive(Clone, Debug)]
pub struct Want {
    pub must: Must,
    pub why: &'static str,
    /// Length of the response when accepted.
    pub len: usize,
    /// ERROR code required when refused (None: any).
    pub code: Option<u8>,
    /// Codes an unexpected-message error may name as expected (empty: not judged).
    pub expected: &'static [u8],
    /// Refused only because the response does not fit / transcript is full / signer etc.
    pub kind: ErrKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrKind {
    None,
    Terminated,
    Order,
    Header,
    Malformed(Bad),
    Slot,
    NoCap,
    NoAlg,
    ChainTooBig,
    Buffer,
    Transcript,
}

fn want(must: Must, why: &'static str, len: usize, code: Option<u8>, kind: ErrKind) -> Want {
    Want { must, why, len, code, expected: &[], kind }
}
fn err(why: &'static str, code: Option<u8>, kind: ErrKind) -> Want {
    want(Must::Err, why, 0, code, kind)
}
fn bad(b: Bad) -> Want {
    let code = match b {
        Bad::Reserved | Bad::Field => Some(1),
        Bad::Trunc | Bad::TooLarge => None,
    };
    err("malformed", code, ErrKind::Malformed(b))
}

impl RspModel {
    pub fn new(slots: Vec<Option<SlotM>>) -> RspModel {
        RspModel {
            ph: Ph::Version,
            transcript: vec![],
            req_caps: 0,
            req_ct: 0,
            algs: None,
            asym: 0,
            hash: 0,
            slots,
            transcript_free: false,
        }
    }

    pub fn reset(&mut self) {
        self.ph = Ph::Version;
        self.transcript.clear();
        self.transcript_free = false;
    }

    pub fn mask(&self) -> u8 {
        (0..self.slots.len()).filter(|i| self.slots[*i].is_some()).fold(0, |a, i| a | 1 << i)
    }

    pub fn mutual(&self) -> bool {
        self.req_caps & MUT_AUTH != 0 && cfg().caps & MUT_AUTH != 0
    }

    fn fits(&self, mut w: Want, req: usize, rec_rsp: usize, buf: usize, base: usize) -> Want {
        if w.must == Must::Err {
            return w;
        }
        if w.len > buf {
            return Want { must: Must::Err, why: "response does not fit the buffer", code: None, kind: ErrKind::Buffer, ..w };
        }
        if base + req + rec_rsp > LIM.transcript {
            w = Want { must: Must::Err, why: "transcript is full", code: None, kind: ErrKind::Transcript, ..w };
        }
        w
    }

    /// What must happen when `req` is handled with a response buffer of `buf` bytes.
    pub fn predict(&self, req: &[u8], buf: usize) -> Want {
        if self.ph == Ph::Error {
            return err("terminated", None, ErrKind::Terminated);
        }
        if req.len() < 2 {
            return err("no header", None, ErrKind::Malformed(Bad::Trunc));
        }
        let (v, code, body) = (req[0], req[1], &req[2..]);
        if code == GET_VERSION {
            if v != 0x10 {
                return err("header version", None, ErrKind::Header);
            }
            if body.len() < 2 {
                // a cut-short message may be refused for any reason
                return err("malformed", None, ErrKind::Malformed(Bad::Trunc));
            }
            if body[..2] != [0, 0] {
                return bad(Bad::Reserved);
            }
            let w = self.loose(want(Must::Ok, "GET_VERSION", 10, None, ErrKind::None), body.len() > 2);
            return self.fits(w, req.len(), 10, buf, 0);
        }
        let legal: &'static [u8] = match self.ph {
            Ph::Version => &[GET_VERSION],
            Ph::Caps => &[GET_CAPABILITIES],
            Ph::Algs => &[NEGOTIATE_ALGORITHMS],
            Ph::IdAuth => &[GET_DIGESTS, GET_CERTIFICATE],
            Ph::Challenge => &[CHALLENGE],
            Ph::Error => &[],
        };
        if !legal.contains(&code) {
            let mut w = err("out of order or unknown", Some(4), ErrKind::Order);
            w.expected = legal;
            let gated = match self.ph {
                Ph::IdAuth => cfg().caps & CERT == 0,
                Ph::Challenge => cfg().caps & CHAL == 0,
                _ => false,
            };
            if gated || req.len() < 3 {
                w.code = None;
                w.expected = &[];
            }
            return w;
        }
        if v != 0x11 {
            return err("header version", None, ErrKind::Header);
        }
        let base = self.transcript.len();
        match code {
            GET_CAPABILITIES => match parse_caps(body, REQ_MASK) {
                Err(b) => bad(b),
                Ok((_, _, used)) => {
                    let w = want(Must::Ok, "GET_CAPABILITIES", 12, None, ErrKind::None);
                    self.fits(self.loose(w, used < body.len()), req.len(), 12, buf, base)
                }
            },
            NEGOTIATE_ALGORITHMS => match parse_negotiate(body) {
                Err(b) => bad(b),
                Ok((n, len, used)) => {
                    if n.asym & cfg().asym == 0
                        || n.hash & cfg().hashes == 0
                        || n.structs.iter().any(|s| s.bits == 0)
                    {
                        return err("no common algorithm", Some(1), ErrKind::NoAlg);
                    }
                    let l = 36 + 4 * n.structs.len();
                    let w = want(Must::Ok, "NEGOTIATE_ALGORITHMS", l, None, ErrKind::None);
                    let odd = used < body.len()
                        || usize::from(len) != n.size()
                        || dup_types(&n.structs);
                    self.fits(self.loose(w, odd), req.len(), l, buf, base)
                }
            },
            GET_DIGESTS => {
                if cfg().caps & CERT == 0 {
                    return err("certificates not advertised", None, ErrKind::NoCap);
                }
                if body.len() < 2 {
                    return bad(Bad::Trunc);
                }
                if body[..2] != [0, 0] {
                    return bad(Bad::Reserved);
                }
                if self.slots.iter().flatten().any(|s| s.chain.len() > LIM.chain) {
                    return err("chain too big", None, ErrKind::ChainTooBig);
                }
                let l = 4 + digest_len(self.hash) * self.slots.iter().flatten().count();
                let w = want(Must::Ok, "GET_DIGESTS", l, None, ErrKind::None);
                self.fits(self.loose(w, body.len() > 2), req.len(), l, buf, base)
            }
            GET_CERTIFICATE => {
                if cfg().caps & CERT == 0 {
                    return err("certificates not advertised", None, ErrKind::NoCap);
                }
                match parse_get_cert(body) {
                    Err(b) => bad(b),
                    Ok((slot, off, len, used)) => {
                        if usize::from(slot) >= self.slots.len() {
                            return err("slot out of range", Some(1), ErrKind::Slot);
                        }
                        let (n, odd) = match &self.slots[usize::from(slot)] {
                            Some(s) => {
                                if s.chain.len() > LIM.chain {
                                    return err("chain too big", None, ErrKind::ChainTooBig);
                                }
                                (s.chain.len(), false)
                            }
                            // an empty slot may be answered with an empty chain or refused
                            None => (0, true),
                        };
                        let odd = odd || off != 0 || usize::from(len) < n || used < body.len();
                        let w = want(Must::Ok, "GET_CERTIFICATE", 8 + n, None, ErrKind::None);
                        self.fits(self.loose(w, odd), req.len(), 8 + n, buf, base)
                    }
                }
            }
            CHALLENGE => {
                if cfg().caps & CHAL == 0 {
                    return err("challenges not advertised", None, ErrKind::NoCap);
                }
                match parse_challenge(body) {
                    Err(b) => bad(b),
                    Ok((slot, _, _, used)) => {
                        let s = match self.slots.get(usize::from(slot)) {
                            Some(Some(s)) => s,
                            _ => return err("no such slot", Some(1), ErrKind::Slot),
                        };
                        if s.chain.len() > LIM.chain {
                            return err("chain too big", None, ErrKind::ChainTooBig);
                        }
                        let l = 4 + 2 * digest_len(self.hash) + NONCE + 2 + 4 + sig_len(self.asym);
                        let w = want(Must::Ok, "CHALLENGE", l, None, ErrKind::None);
                        self.fits(self.loose(w, used < body.len()), req.len(), l - sig_len(self.asym), buf, base)
                    }
                }
            }
            _ => unreachable!(),
        }
    }

    /// Requests that a stricter reading may refuse: both answers are legal.
    fn loose(&self, w: Want, odd: bool) -> Want {
        if odd && w.must == Must::Ok {
            Want { must: Must::Either, ..w }
        } else {
            w
        }
    }

    /// Judge an accepted response. Returns divergences (property tags, message).
    pub fn judge(
        &self,
        req: &[u8],
        rsp: &[u8],
        verify: &dyn Fn(usize, &[u8], &[u8]) -> bool,
    ) -> Vec<(&'static [&'static str], String)> {
        let mut out: Vec<(&'static [&'static str], String)> = vec![];
        let code = req[1];
        match code {
            GET_VERSION => {
                let exp = version(&[[1, 0, 0, 0], [1, 1, 0, 0]]);
                if rsp != &exp[..] {
                    out.push((&["C12", "C14"], format!("VERSION response is {rsp:02x?}")));
                }
            }
            GET_CAPABILITIES => {
                let exp = caps(CAPABILITIES, 12, cfg().caps);
                // the timing exponent is implementation-defined, the rest is fixed
                let mut e = exp.clone();
                if rsp.len() == 12 {
                    e[5] = rsp[5];
                }
                if rsp != &e[..] {
                    out.push((&["C13", "C14", "C30"], format!("CAPABILITIES response is {rsp:02x?}, configured flags {:#x}", cfg().caps)));
                }
            }
            NEGOTIATE_ALGORITHMS => {
                let n = parse_negotiate(&req[2..]).unwrap().0;
                if rsp.len() < 2 || rsp[0] != 0x11 || rsp[1] != ALGORITHMS {
                    out.push((&["C10", "C14"], format!("not an ALGORITHMS response {rsp:02x?}")));
                    return out;
                }
                // measurement specification 0 is legal in the selection only if nothing was offered
                let mut tmp = rsp.to_vec();
                let spec = rsp.get(6).copied().unwrap_or(0);
                if tmp.len() > 6 {
                    tmp[6] = 1;
                }
                match parse_algs(&tmp[2..]) {
                    Err(e) => out.push((&["C10", "C14"], format!("ALGORITHMS response does not parse: {e:?} {rsp:02x?}"))),
                    Ok((mut a, _, used)) => {
                        a.spec = spec;
                        if used + 2 != rsp.len() || a.enc() != rsp {
                            out.push((&["C14", "C10"], format!("ALGORITHMS response is not well formed: {rsp:02x?}")));
                        }
                        if spec & !n.spec != 0 {
                            out.push((&["C10"], "measurement specification selected was not offered".into()));
                        }
                        if a.hash & n.hash & cfg().hashes == 0 {
                            out.push((&["C10"], format!("hash {:#x} selected, offered {:#x}, supported {:#x}", a.hash, n.hash, cfg().hashes)));
                        }
                        if a.meas_hash & n.hash & cfg().hashes == 0 {
                            out.push((&["C10"], format!("measurement hash {:#x} selected, offered {:#x}", a.meas_hash, n.hash)));
                        }
                        if a.asym & n.asym & cfg().asym == 0 {
                            out.push((&["C10"], format!("asymmetric {:#x} selected, offered {:#x}", a.asym, n.asym)));
                        }
                        let same = a.structs.len() == n.structs.len()
                            && a.structs.iter().zip(&n.structs).all(|(x, y)| x.ty == y.ty && x.bits & y.bits == x.bits && x.bits.count_ones() == 1);
                        if !same {
                            out.push((&["C10"], format!("algorithm structures {:?} answered with {:?}", n.structs, a.structs)));
                        }
                    }
                }
            }
            GET_DIGESTS => {
                let ds: Vec<Vec<u8>> = self.slots.iter().flatten().map(|s| sha2::hash(self.hash, &s.chain)).collect();
                let exp = digests(self.mask(), &ds);
                if rsp != &exp[..] {
                    out.push((&["C17", "C14", "C10"], diff("DIGESTS", rsp, &exp)));
                }
            }
            GET_CERTIFICATE => {
                let slot = req[2];
                let chain = self.slots[usize::from(slot)].as_ref().map(|s| s.chain.clone()).unwrap_or_default();
                let exp = certificate(slot, 0, &chain);
                if rsp != &exp[..] {
                    out.push((&["C17", "C14"], diff("CERTIFICATE", rsp, &exp)));
                }
            }
            CHALLENGE => {
                let (slot, _, _, _) = parse_challenge(&req[2..]).unwrap();
                let (dl, sl) = (digest_len(self.hash), sig_len(self.asym));
                if rsp.len() < 2 || rsp[0] != 0x11 || rsp[1] != CHALLENGE_AUTH {
                    out.push((&["C18", "C14"], format!("not a CHALLENGE_AUTH {rsp:02x?}")));
                    return out;
                }
                match parse_auth(&rsp[2..], dl, sl, &LIM) {
                    Err(e) => out.push((&["C18", "C14"], format!("CHALLENGE_AUTH does not parse: {e:?}"))),
                    Ok((a, olen, oact, used)) => {
                        let s = self.slots[usize::from(slot)].as_ref().unwrap();
                        if used + 2 != rsp.len() || olen != oact || a.enc() != rsp {
                            out.push((&["C14", "C18"], "CHALLENGE_AUTH is not well formed".into()));
                        }
                        if a.slot != slot || a.resv != 0 {
                            out.push((&["C18", "C14"], format!("CHALLENGE_AUTH param1 {:#04x} for slot {slot}", rsp[2])));
                        }
                        if a.mutual != self.mutual() {
                            out.push((&["C18", "C14"], format!("mutual authentication flag is {}, agreed {}", a.mutual, self.mutual())));
                        }
                        if a.mask != self.mask() {
                            out.push((&["C18"], format!("slot mask {:#04x}, provisioned {:#04x}", a.mask, self.mask())));
                        }
                        if a.hash != sha2::hash(self.hash, &s.chain) {
                            out.push((&["C18", "C10"], "certificate chain hash".into()));
                        }
                        if a.meas.iter().any(|b| *b != 0) || !a.opaque.is_empty() {
                            out.push((&["C18", "C14"], "unexpected measurement summary or opaque data".into()));
                        }
                        let mut t = self.transcript.clone();
                        t.extend_from_slice(req);
                        t.extend_from_slice(&rsp[..rsp.len() - sl]);
                        let h = sha2::hash(self.hash, &t);
                        if !verify(s.key, &h, &a.sig) {
                            out.push((&["C18", "C10", "C01", "C19"], format!("signature does not verify under slot {slot}'s key over the transcript")));
                        }
                    }
                }
            }
            _ => {}
        }
        out
    }

    /// Advance after an accepted request.
    pub fn accept(&mut self, req: &[u8], rsp: &[u8]) {
        match req[1] {
            GET_VERSION => {
                self.transcript.clear();
                self.transcript_free = false;
                self.transcript.extend_from_slice(req);
                self.transcript.extend_from_slice(rsp);
                self.ph = Ph::Caps;
                return;
            }
            GET_CAPABILITIES => {
                let c = parse_caps(&req[2..], REQ_MASK).unwrap();
                self.req_ct = c.0;
                self.req_caps = c.1;
                self.ph = Ph::Algs;
            }
            NEGOTIATE_ALGORITHMS => {
                let mut t = rsp.to_vec();
                if t.len() > 6 {
                    t[6] = 1;
                }
                if let Ok((a, _, _)) = parse_algs(&t[2.min(t.len())..]) {
                    self.asym = a.asym;
                    self.hash = a.hash;
                    self.algs = Some(a);
                }
                self.ph = Ph::IdAuth;
            }
            GET_CERTIFICATE => self.ph = Ph::Challenge,
            _ => {}
        }
        self.transcript.extend_from_slice(req);
        let keep = if req[1] == CHALLENGE { rsp.len().saturating_sub(sig_len(self.asym)) } else { rsp.len() };
        self.transcript.extend_from_slice(&rsp[..keep]);
    }

    pub fn refuse(&mut self) {
        self.ph = Ph::Error;
        self.transcript_free = true;
    }
}

pub fn dup_types(s: &[AlgStruct]) -> bool {
    // the specification requires ascending, distinct types
    s.windows(2).any(|w| w[0].ty >= w[1].ty)
}

pub fn diff(what: &str, got: &[u8], exp: &[u8]) -> String {
    let i = got.iter().zip(exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
    format!(
        "{what}: {} bytes instead of {}, first difference at {i} (got {:02x?}, want {:02x?})",
        got.len(),
        exp.len(),
        got.get(i..(i + 8).min(got.len())).unwrap_or(&[]),
        exp.get(i..(i + 8).min(exp.len())).unwrap_or(&[])
    )
}
