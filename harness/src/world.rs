//! The library under observation: a responder and a requester wrapped so that every call is
//! compared with the reference models, inside guarded buffers.

use crate::alloc;
use crate::certs;
use crate::ctx::Ctx;
use crate::model_req::*;
use crate::model_rsp::*;
use crate::refcodec::*;
use crate::rng::Rng;
use crate::sha2;
use crate::util::*;
use spdm::crypto::signing::{Error as SignError, Signature, Signer};
use spdm::crypto::FilledSlot;
use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
use spdm::msgs::CertificateChain;
#[cfg(feature = "peek")]
use spdm::requester::AllStates as QS;
#[cfg(feature = "peek")]
use spdm::responder::AllStates as RS;
use spdm::{RequesterError, RequesterInit, Responder, ResponderError};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ signer
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    Fail,
    Len(usize),
    Garbage(u8),
    WrongKey(u8),
}

#[derive(Default, Debug)]
pub struct SignLog {
    pub calls: Vec<(u8, Vec<u8>, Vec<u8>)>, // slot, message, returned bytes
    pub faults: Vec<Option<Fault>>,         // by slot
}

pub struct Sig {
    buf: [u8; 1024],
    len: usize,
}
impl AsRef<[u8]> for Sig {
    fn as_ref(&self) -> &[u8] {
        &self.buf[..self.len]
    }
}
impl Signature for Sig {}

pub struct MonSigner {
    pub slot: u8,
    pub key: u8,
    pub log: Arc<Mutex<SignLog>>,
}

impl Signer for MonSigner {
    type Signature = Sig;
    fn sign(&self, msg: &[u8]) -> Result<Sig, SignError> {
        alloc::paused(|| {
            let mut l = self.log.lock().unwrap();
            let fault = l.faults.get(usize::from(self.slot)).copied().flatten().unwrap_or(Fault::None);
            let bytes = match fault {
                Fault::None => certs::sign_raw(self.key, msg),
                Fault::Fail => {
                    l.calls.push((self.slot, msg.to_vec(), vec![]));
                    return Err(SignError {});
                }
                Fault::Len(n) => vec![0x5A; n.min(1024)],
                Fault::Garbage(b) => vec![b; 64],
                Fault::WrongKey(k) => certs::sign_raw(k, msg),
            };
            l.calls.push((self.slot, msg.to_vec(), bytes.clone()));
            let mut buf = [0; 1024];
            buf[..bytes.len()].copy_from_slice(&bytes);
            Ok(Sig { buf, len: bytes.len() })
        })
    }
}

// ------------------------------------------------------------------ provisioning
#[derive(Clone, Debug)]
pub struct SlotP {
    pub root_hash: Vec<u8>,
    pub certs: Vec<Vec<u8>>, // leaf last
    pub key: u8,
}
impl SlotP {
    pub fn chain(&self) -> Vec<u8> {
        chain(&self.root_hash, &self.certs)
    }
}
#[derive(Clone, Debug, Default)]
pub struct Prov {
    pub slots: Vec<Option<SlotP>>,
}

impl Prov {
    pub fn empty() -> Prov {
        Prov { slots: (0..LIM.slots).map(|_| None).collect() }
    }
    /// Arbitrary population: the responder does not interpret certificates.
    pub fn gen(r: &mut Rng) -> Prov {
        let mut p = Prov::empty();
        let dense = r.below(4);
        for i in 0..LIM.slots {
            let fill = match dense {
                0 => r.chance(1, 4),
                1 => true,
                _ => r.chance(1, 2) || i == 0,
            };
            if fill {
                p.slots[i] = Some(rand_slot(r, i as u8));
            }
        }
        p
    }
    pub fn fill<'a>(&'a self, log: &Arc<Mutex<SignLog>>) -> [Option<FilledSlot<'a, MonSigner>>; LIM.slots] {
        std::array::from_fn(|i| {
            self.slots[i].as_ref().map(|s| {
                let leaf = s.certs.last().unwrap();
                let mut c = CertificateChain::new(&s.root_hash, leaf);
                for x in &s.certs[..s.certs.len() - 1] {
                    c.append_intermediate_cert(x).unwrap();
                }
                FilledSlot {
                    signing_algorithm: BaseAsymAlgo::ECDSA_ECC_NIST_P256,
                    hash_algorithm: BaseHashAlgo::SHA_256,
                    cert_chain: c,
                    signer: MonSigner { slot: i as u8, key: s.key, log: log.clone() },
                }
            })
        })
    }
    pub fn model(&self) -> Vec<Option<SlotM>> {
        self.slots
            .iter()
            .map(|s| s.as_ref().map(|s| SlotM { chain: s.chain(), key: usize::from(s.key) }))
            .collect()
    }
}

/// Some bytes that look like a DER sequence of `n` content bytes.
pub fn blob(r: &mut Rng, total: usize) -> Vec<u8> {
    if total < 2 {
        return vec![0x30, 0];
    }
    for h in [2usize, 3, 4] {
        if total < h {
            break;
        }
        let body = r.bytes(total - h);
        let v = crate::der::tlv(0x30, &body);
        if v.len() == total {
            return v;
        }
    }
    let body = r.bytes(total.saturating_sub(3));
    crate::der::tlv(0x30, &body)
}

pub fn rand_slot(r: &mut Rng, i: u8) -> SlotP {
    let key = 20 + i + 10 * r.below(10) as u8;
    let dl = *r.pick(&[32, 32, 48, 64]);
    if r.chance(1, 3) {
        // genuine certificates
        let v = certs::pool().valid();
        let h = *r.pick(&v);
        if h.certs.len() - 1 <= LIM.depth {
            return SlotP { root_hash: sha2::hash(1, &certs::pool().roots[0].der), certs: h.certs.clone(), key: h.leaf_key };
        }
    }
    let n = 1 + r.below(LIM.depth.min(8) + 1);
    let mut certs = vec![];
    // mostly within the buffer, sometimes exactly full, sometimes too big
    let budget = LIM.chain.saturating_sub(4 + dl);
    let total = match r.below(8) {
        0 => budget,
        1 => budget + r.range(1, 40),
        2 => budget - r.below(3).min(budget),
        _ => r.len_near(&[127, 130, 256, 260], budget.max(1)),
    }
    .min(65000);
    let mut left = total;
    for j in 0..n {
        let share = if j + 1 == n { left } else { r.below(left / 2 + 1) };
        let b = blob(r, share);
        left = left.saturating_sub(b.len());
        certs.push(b);
    }
    SlotP { root_hash: r.bytes(dl), certs, key }
}

// ------------------------------------------------------------------ guarded buffers
pub const GUARD: usize = 64;
/// Changes what buffers hold before a call (no result may depend on it).
pub static FILL: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);

pub struct Guarded {
    mem: Vec<u8>,
    len: usize,
    fill: u8,
}
impl Guarded {
    pub fn new(len: usize, fill: u8) -> Guarded {
        let fill = fill ^ FILL.load(std::sync::atomic::Ordering::Relaxed);
        Guarded { mem: vec![fill; len + 2 * GUARD], len, fill }
    }
    pub fn buf(&mut self) -> &mut [u8] {
        let n = self.len;
        &mut self.mem[GUARD..GUARD + n]
    }
    pub fn bytes(&self) -> &[u8] {
        &self.mem[GUARD..GUARD + self.len]
    }
    pub fn guards_ok(&self) -> bool {
        self.mem[..GUARD].iter().chain(&self.mem[GUARD + self.len..]).all(|b| *b == self.fill)
    }
    pub fn clean_from(&self, at: usize) -> bool {
        self.bytes()[at.min(self.len)..].iter().all(|b| *b == self.fill)
    }
}

/// In some cases the buffers that are ample anyway are larger than 16 bits can say.
fn stretch(cx: &mut Ctx, buf: usize, ample: usize) -> usize {
    if buf < ample || cx.case % 32 != 7 {
        return buf;
    }
    let n = [65536, 131072, 65535, 65537, 65536 + 300][(cx.case / 32 % 5) as usize];
    cx.count("buffers.beyond_16_bits");
    if n < buf {
        131072
    } else {
        n
    }
}

/// The challenge response with nonce and signature blanked (they are fresh by design).
pub fn masked(rsp: &[u8], hash: u32) -> Vec<u8> {
    let mut v = rsp.to_vec();
    if v.len() > 2 && v[1] == CHALLENGE_AUTH && NONCE > 0 {
        let a = 4 + digest_len(hash);
        let n = v.len();
        for i in a..(a + NONCE).min(n) {
            v[i] = 0;
        }
        for i in n.saturating_sub(64)..n {
            v[i] = 0;
        }
    }
    v
}

// ------------------------------------------------------------------ responder
pub struct RspWorld<'a> {
    pub lib: Box<Responder<'a, MonSigner>>,
    pub model: RspModel,
    pub log: Arc<Mutex<SignLog>>,
    pub fill: u8,
    pub after_reset: bool,
    pub last_nonce: Option<Vec<u8>>,
}

pub struct Step {
    pub ok: bool,
    pub rsp: Vec<u8>,
    pub err: Option<ResponderError>,
    pub lost: bool, // panicked or diverged in the result class: the case must end
    pub want: Want,
}

impl<'a> RspWorld<'a> {
    pub fn new(p: &'a Prov) -> RspWorld<'a> {
        let log = Arc::new(Mutex::new(SignLog { calls: vec![], faults: vec![None; LIM.slots] }));
        RspWorld {
            lib: Box::new(Responder::new(p.fill(&log))),
            model: RspModel::new(p.model()),
            log,
            fill: 0xA5,
            after_reset: false,
            last_nonce: None,
        }
    }

    pub fn fault(&self, slot: usize, f: Fault) {
        let mut l = self.log.lock().unwrap();
        if slot < l.faults.len() {
            l.faults[slot] = Some(f);
        }
    }

    pub fn reset(&mut self, cx: &mut Ctx) {
        let lib = &mut self.lib;
        let n = cx.lib("responder.reset", || {
            alloc::arm();
            lib.reset();
            alloc::disarm()
        });
        cx.check(&["C25"], n.unwrap_or(0) == 0, || "reset allocated".into());
        self.model.reset();
        self.after_reset = true;
        cx.ev("reset", &[]);
        cx.count("responder.resets");
        self.observe(cx, &["C06", "C05"]);
    }

    /// State name and transcript against the model.
    pub fn observe(&mut self, cx: &mut Ctx, extra: &[&'static str]) {
        let lib = &self.lib;
        let got = match cx.lib("responder.state", || (lib.state().name(), lib.transcript().get().to_vec(), lib.transcript().len())) {
            Some(x) => x,
            None => return,
        };
        let mut tags = vec!["C05"];
        tags.extend_from_slice(extra);
        let want = self.model.ph.name();
        cx.check(&tags, got.0 == want, || format!("responder state is {} instead of {want}", got.0));
        if !self.model.transcript_free {
            let mut tags = vec!["C04"];
            tags.extend_from_slice(extra);
            let t = &self.model.transcript;
            cx.check(&tags, got.1 == *t, || diff("responder transcript", &got.1, t));
        }
        cx.check(&["C27", "C04"], got.1.len() == got.2 && got.2 <= LIM.transcript, || "transcript length".into());
        self.remembered(cx, extra);
    }

    #[cfg(not(feature = "peek"))]
    fn remembered(&self, _: &mut Ctx, _: &[&'static str]) {}

    /// What the state remembers.
    #[cfg(feature = "peek")]
    fn remembered(&self, cx: &mut Ctx, extra: &[&'static str]) {
        let lib = &self.lib;
        let m = &self.model;
        let caps = |ct: u8, req: u32, rsp: u32| ct == m.req_ct && req == m.req_caps && rsp == cfg().caps;
        let algs = |a: &spdm::msgs::Algorithms| {
            m.algs.as_ref().is_none_or(|w| {
                a.base_hash_algo_selected.bits() == w.hash
                    && a.base_asym_algo_selected.bits() == w.asym
                    && a.measurement_hash_algo_selected.bits() == w.meas_hash
                    && usize::from(a.num_algorithm_responses) == w.structs.len()
            })
        };
        let (c, a) = match lib.state() {
            RS::Algorithms(s) => (caps(s.requester_ct_exponent, s.requester_cap.bits(), s.responder_cap.bits()), true),
            RS::IdAuth(s) => (caps(s.requester_ct_exponent, s.requester_cap.bits(), s.responder_cap.bits()), algs(&s.algorithms)),
            RS::Challenge(s) => (caps(s.requester_ct_exponent, s.requester_cap.bits(), s.responder_cap.bits()), algs(&s.algorithms)),
            _ => return,
        };
        let mut t = vec!["C13", "C15"];
        t.extend_from_slice(extra);
        cx.check(&t, c, || format!("responder remembers other capabilities than {:#x} (exponent {}) and its own {:#x}", m.req_caps, m.req_ct, cfg().caps));
        let mut t = vec!["C10"];
        t.extend_from_slice(extra);
        cx.check(&t, a, || format!("responder remembers other algorithms than it selected: {:?}", m.algs));
    }

    pub fn step(&mut self, cx: &mut Ctx, req: &[u8], buf: usize) -> Step {
        let buf = stretch(cx, buf, 8192);
        let want = self.model.predict(req, buf);
        let mut g = Guarded::new(buf, self.fill);
        let signed = self.log.lock().unwrap().calls.len();
        let from = self.model.ph.name();
        // digests are compared between runs: fresh nonces are not part of them
        let quiet = cx.digests.is_some();
        let fresh = quiet && req.len() > 4 && (req[1] == CHALLENGE || from == "Challenge");
        cx.ev(format!("request buf={buf}"), if fresh { &req[..4] } else { req });
        let lib = &mut self.lib;
        let gb = g.buf();
        let base = gb.as_ptr() as usize;
        let r = cx.lib("responder.handle_msg", || {
            alloc::arm();
            let (out, res) = lib.handle_msg(req, gb);
            let n = alloc::disarm();
            (out.as_ptr() as usize, out.len(), res, n)
        });
        let (ptr, len, res, allocs) = match r {
            Some(x) => x,
            None => {
                // the state is gone: nothing more can be asked of this responder
                return Step { ok: false, rsp: vec![], err: None, lost: true, want };
            }
        };
        cx.count("responder.requests");
        let off = if len == 0 { 0 } else { ptr.wrapping_sub(base) };
        if !cx.check(&["C16"], off.checked_add(len).map_or(false, |e| e <= buf), || {
            format!("response is not a part of the buffer (offset {off}, length {len}, buffer {buf})")
        }) {
            return Step { ok: res.is_ok(), rsp: vec![], err: res.err(), lost: true, want };
        }
        let rsp = g.bytes()[off..off + len].to_vec();
        let ok = res.is_ok();
        let shown = if cx.digests.is_some() { masked(&rsp, self.model.hash) } else { rsp.clone() };
        cx.ev(if ok { "response Ok".to_string() } else { format!("response {:?}", res) }, &shown);
        cx.check(&["C25"], allocs == 0, || format!("handle_msg allocated {allocs} times"));
        cx.check(&["C16"], g.guards_ok(), || "bytes outside the buffer were written".into());
        let key = format!("responder.{}.{}.{}", from, if req.len() > 1 { name_of(req[1]) } else { "short" }, if ok { "ok" } else { "err" });
        cx.count(&key);
        let new: Vec<(u8, Vec<u8>, Vec<u8>)> = self.log.lock().unwrap().calls[signed..].to_vec();
        let fault = if req.len() > 2 {
            self.log.lock().unwrap().faults.get(usize::from(req[2])).copied().flatten().unwrap_or(Fault::None)
        } else {
            Fault::None
        };
        let challenge_ok = req.len() > 1 && req[1] == CHALLENGE && self.model.ph == Ph::Challenge && want.must != Must::Err;
        let sign_fault = challenge_ok && (fault == Fault::Fail || matches!(fault, Fault::Len(n) if n != 64));
        let mut lost = false;
        cx.eval();
        if ok {
            if want.must == Must::Err || sign_fault {
                let mut tags: Vec<&str> = vec!["C05"];
                if sign_fault {
                    tags = vec!["C19", "C05"];
                } else {
                    match want.kind {
                        ErrKind::Header | ErrKind::Malformed(_) => tags.push("C15"),
                        ErrKind::Slot => tags.extend_from_slice(&["C17", "C18"]),
                        ErrKind::NoCap => tags.push("C13"),
                        ErrKind::NoAlg => tags = vec!["C10", "C05"],
                        ErrKind::ChainTooBig => tags.push("C17"),
                        ErrKind::Buffer => tags.push("C16"),
                        ErrKind::Transcript => tags.extend_from_slice(&["C27", "C04"]),
                        _ => (),
                    }
                    if want.kind == ErrKind::Order && self.after_reset {
                        tags.push("C06");
                    }
                }
                cx.fail(&tags, format!("{} answered in phase {from}, must be refused: {}", name_of(req[1]), if sign_fault { "signing fault" } else { want.why }));
                lost = true;
            } else {
                if want.len != len && want.kind == ErrKind::None {
                    cx.fail(&["C14", "C16"], format!("response of {len} bytes, expected {}", want.len));
                }
                cx.check(&["C16", "C14"], off == 0 && g.clean_from(off + len), || "bytes after the response were written".into());
                let garbage = matches!(fault, Fault::Garbage(_) | Fault::WrongKey(_) | Fault::Len(_));
                let sig_bytes = new.last().map(|c| c.2.clone());
                let verify = |k: usize, h: &[u8], s: &[u8]| -> bool {
                    if garbage {
                        sig_bytes.as_deref() == Some(s)
                    } else {
                        certs::verify_raw(k as u8, h, s)
                    }
                };
                for (tags, msg) in self.model.judge(req, &rsp, &verify) {
                    cx.eval();
                    let mut t = tags.to_vec();
                    if self.after_reset {
                        t.push("C06");
                    }
                    cx.fail(&t, msg);
                }
                if req[1] == CHALLENGE {
                    let a = 4 + digest_len(self.model.hash);
                    self.last_nonce = rsp.get(a..a + NONCE).map(|n| n.to_vec());
                    cx.check(&["C19", "C18"], new.len() == 1 && new[0].0 == req[2], || {
                        format!("signers asked for one challenge of slot {}: {:?}", req[2], new.iter().map(|c| c.0).collect::<Vec<_>>())
                    });
                    if let Some(s) = &sig_bytes {
                        cx.check(&["C19", "C18"], rsp.ends_with(s), || "the response does not carry the signer's signature".into());
                    }
                } else {
                    cx.check(&["C19", "C18"], new.is_empty(), || "a signer was asked without a challenge".into());
                }
                self.model.accept(req, &rsp);
                if req[1] == GET_VERSION {
                    self.after_reset |= from != "Version";
                }
            }
        } else {
            if want.must == Must::Ok && !sign_fault {
                let mut tags: Vec<&str> = vec!["C02", "C05"];
                match req[1] {
                    GET_VERSION => tags.extend_from_slice(&["C12", "C06"]),
                    GET_CAPABILITIES => tags.extend_from_slice(&["C13"]),
                    NEGOTIATE_ALGORITHMS => tags.extend_from_slice(&["C10"]),
                    GET_DIGESTS | GET_CERTIFICATE => tags.extend_from_slice(&["C17"]),
                    CHALLENGE => tags.extend_from_slice(&["C18", "C19"]),
                    _ => (),
                }
                tags.push("C15");
                if buf <= want.len + 8 {
                    tags.push("C16");
                }
                if self.model.transcript.len() + req.len() + want.len + 80 > LIM.transcript {
                    tags.push("C27");
                }
                if self.after_reset {
                    tags.push("C06");
                }
                cx.fail(&tags, format!("legal {} refused in phase {from}: {:?}", name_of(req[1]), res));
                lost = true;
            }
            self.judge_error(cx, req, buf, &rsp, &want, sign_fault, &res, off);
            let untouched = match want.kind {
                ErrKind::Terminated | ErrKind::Order | ErrKind::Header | ErrKind::Malformed(_) | ErrKind::Slot | ErrKind::NoAlg | ErrKind::NoCap => true,
                _ => false,
            };
            if untouched && !rsp.is_empty() {
                cx.check(&["C16"], g.clean_from(off + len), || "bytes after the error message were written".into());
            }
            if !challenge_ok {
                let asked = new.len();
                let may = usize::from(want.kind == ErrKind::Buffer || want.kind == ErrKind::Transcript);
                cx.check(&["C18", "C19"], asked <= may, || format!("a signer was asked although the request was refused ({})", want.why));
            } else {
                cx.check(&["C19", "C18"], new.len() <= 1 && new.iter().all(|c| c.0 == req[2]), || "wrong signer asked".into());
            }
            self.model.refuse();
        }
        if !lost {
            let extra: &[&'static str] = if self.after_reset { &["C06"] } else { &[] };
            self.observe(cx, extra);
        }
        cx.distinct(crate::rng::mix(
            crate::rng::hash_bytes(from.as_bytes()) ^ crate::rng::hash_bytes(&req[..req.len().min(48)]) ^ (ok as u64) << 1 ^ (buf.min(4096) as u64) << 20,
        ));
        Step { ok, rsp, err: res.err(), lost, want }
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_error(&mut self, cx: &mut Ctx, req: &[u8], buf: usize, rsp: &[u8], want: &Want, sign_fault: bool, res: &Result<(), ResponderError>, off: usize) {
        cx.eval();
        if rsp.is_empty() {
            let need = if sign_fault || want.code.is_some() { 4 } else { 8 };
            if buf >= need {
                cx.fail(&["C20", "C16", "C19"], format!("no ERROR message although the buffer holds {buf} bytes"));
            }
        } else {
            let head = rsp.len() >= 4 && (0x10..=0x12).contains(&rsp[0]) && rsp[1] == ERROR;
            let complete = head
                && match error_ext(rsp[2]) {
                    Some(Some(n)) => rsp.len() == 4 + n,
                    Some(None) => true,
                    None => false,
                };
            if off != 0 || !complete {
                cx.fail(&["C20", "C16", "C19"], format!("not a complete ERROR message: {rsp:02x?}"));
            } else {
                let dec = cx.lib("Error::parse_body", || spdm::msgs::Error::parse_body(&rsp[2..]).is_ok());
                if dec == Some(false) {
                    cx.fail(&["C20"], format!("the library does not decode its own ERROR message {rsp:02x?}"));
                }
                let code = if sign_fault { if want.must == Must::Ok { Some(5) } else { None } } else { want.code };
                // a request that does not fit the transcript may be refused for that reason
                let full = self.model.transcript.len() + req.len() > LIM.transcript;
                let code = if full && !matches!(want.kind, ErrKind::Order | ErrKind::Terminated) { None } else { code };
                // a refusal for lack of room is reported as such, whatever the cause would have been
                if let Some(c) = code {
                    if rsp[2] != c {
                        let t: &[&str] = if sign_fault { &["C20", "C19"] } else { &["C20"] };
                        cx.fail(t, format!("ERROR code {:#04x} instead of {c:#04x} for {} ({})", rsp[2], hexs(req), want.why));
                    }
                }
            }
        }
        if let Err(ResponderError::UnexpectedMsgCode { expected, got }) = res {
            if req.len() >= 2 && want.kind == ErrKind::Order {
                let e = want.expected.is_empty() || want.expected.contains(expected);
                if *got != req[1] || !e {
                    cx.fail(&["C20"], format!("unexpected-message error names expected {expected:#04x} and got {got:#04x}, received {:#04x}, legal {:02x?}", req[1], want.expected));
                }
            }
        }
    }

    /// Drive the model's next legal requests until `to` is reached.
    pub fn drive(&mut self, cx: &mut Ctx, r: &mut Rng, to: Ph) -> bool {
        for _ in 0..12 {
            if self.model.ph == to {
                return true;
            }
            if self.model.ph == Ph::Error {
                self.reset(cx);
                if to == Ph::Version {
                    return true;
                }
            }
            let q = match self.model.ph {
                Ph::IdAuth if r.chance(1, 2) => get_digests(),
                _ => crate::gen::req_valid(r, &self.model),
            };
            let s = self.step(cx, &q, 8192 + LIM.chain);
            if s.lost || !s.ok {
                return to == Ph::Error && !s.lost && self.model.ph == Ph::Error;
            }
        }
        self.model.ph == to
    }
}

pub fn hexs(b: &[u8]) -> String {
    crate::ctx::hex(&b[..b.len().min(40)])
}

pub fn name_of(c: u8) -> &'static str {
    match c {
        GET_VERSION => "GET_VERSION",
        VERSION => "VERSION",
        GET_CAPABILITIES => "GET_CAPABILITIES",
        CAPABILITIES => "CAPABILITIES",
        NEGOTIATE_ALGORITHMS => "NEGOTIATE_ALGORITHMS",
        ALGORITHMS => "ALGORITHMS",
        GET_DIGESTS => "GET_DIGESTS",
        DIGESTS => "DIGESTS",
        GET_CERTIFICATE => "GET_CERTIFICATE",
        CERTIFICATE => "CERTIFICATE",
        CHALLENGE => "CHALLENGE",
        CHALLENGE_AUTH => "CHALLENGE_AUTH",
        GET_MEASUREMENTS => "GET_MEASUREMENTS",
        MEASUREMENTS => "MEASUREMENTS",
        ERROR => "ERROR",
        _ => "other",
    }
}

// ------------------------------------------------------------------ requester
pub struct ReqWorld<'a> {
    pub lib: Box<RequesterInit<'a, MonSigner>>,
    pub model: ReqModel,
    pub fill: u8,
    pub failed_before: bool,
    pub completions: u32,
}

impl ReqWorld<'static> {
    pub fn new(root: usize) -> ReqWorld<'static> {
        let slots = std::array::from_fn(|_| None);
        ReqWorld {
            lib: Box::new(RequesterInit::new(&certs::pool().roots[root].der, slots)),
            model: ReqModel::new(root),
            fill: 0x3C,
            failed_before: false,
            completions: 0,
        }
    }
}

impl<'a> ReqWorld<'a> {
    pub fn with_root(der: &'a [u8], root: usize) -> ReqWorld<'a> {
        let slots = std::array::from_fn(|_| None);
        ReqWorld {
            lib: Box::new(RequesterInit::new(der, slots)),
            model: ReqModel::new(root),
            fill: 0x3C,
            failed_before: false,
            completions: 0,
        }
    }

    /// Ask for the next request with a buffer of `buf` bytes.
    pub fn next(&mut self, cx: &mut Ctx, buf: usize) -> Option<Vec<u8>> {
        let exp = self.model.request();
        let buf = stretch(cx, buf, 512);
        let mut g = Guarded::new(buf, self.fill);
        let gb = g.buf();
        let base = gb.as_ptr() as usize;
        let lib = &mut self.lib;
        let ph = self.model.ph;
        let r = cx.lib("requester.next_request", || {
            alloc::arm();
            let r = lib.next_request(gb).map(|b| (b.as_ptr() as usize, b.len()));
            let n = alloc::disarm();
            (r, n)
        });
        let (r, allocs) = r?;
        cx.count("requester.requests");
        cx.check(&["C25"], allocs == 0, || format!("next_request allocated {allocs} times"));
        cx.check(&["C16"], g.guards_ok(), || "bytes outside the buffer were written".into());
        cx.eval();
        match r {
            Ok((ptr, len)) => {
                let off = if len == 0 { 0 } else { ptr.wrapping_sub(base) };
                if off.checked_add(len).map_or(true, |e| e > buf) {
                    cx.fail(&["C16"], "request is not a part of the buffer");
                    return None;
                }
                let q = g.bytes()[off..off + len].to_vec();
                let mut shown = q.clone();
                if cx.digests.is_some() && ph == Rp::Challenge {
                    shown.truncate(4);
                }
                cx.ev(format!("requester sends buf={buf}"), &shown);
                cx.count(&format!("requester.sends.{}", name_of(*q.get(1).unwrap_or(&0))));
                let e = match exp {
                    None => {
                        cx.fail(&["C09", "C08"], format!("a request is produced in phase {}: {}", ph.name(), hexs(&q)));
                        return None;
                    }
                    Some(e) => e,
                };
                if e.len() > buf {
                    cx.fail(&["C16"], format!("a request of {} bytes was produced in a buffer of {buf}", e.len()));
                }
                if !self.model.room(len) {
                    cx.fail(&["C27", "C04"], "a request was produced that does not fit the transcript");
                }
                let mut m = q.clone();
                if ph == Rp::Challenge {
                    for b in m.iter_mut().skip(4) {
                        *b = 0;
                    }
                }
                if m != e {
                    let mut t: Vec<&str> = vec!["C14"];
                    match ph {
                        Rp::Version => t.push("C12"),
                        Rp::Caps => t.extend_from_slice(&["C13", "C30"]),
                        Rp::Algs => t.extend_from_slice(&["C11", "C30"]),
                        _ => t.extend_from_slice(&["C02", "C09"]),
                    }
                    if self.failed_before {
                        t.push("C16");
                    }
                    cx.fail(&t, diff(&format!("request in phase {}", ph.name()), &m, &e));
                }
                cx.check(&["C16", "C14"], g.clean_from(off + len), || "bytes after the request were written".into());
                self.model.sent(&q);
                self.failed_before = false;
                self.observe(cx, &[]);
                if cx.diverged && q.len() < 2 {
                    return None;
                }
                Some(q)
            }
            Err(e) => {
                cx.ev(format!("requester sends nothing buf={buf}: {e:?}"), &[]);
                cx.count("requester.next_err");
                match &exp {
                    None => {
                        if ph == Rp::Done {
                            cx.check(&["C09"], e == RequesterError::InitializationComplete, || format!("completion is reported as {e:?}"));
                        }
                    }
                    Some(x) => {
                        if x.len() <= buf && self.model.room(x.len()) {
                            let mut t: Vec<&str> = vec!["C02"];
                            if x.len() + 4 > buf || self.failed_before {
                                t.push("C16");
                            }
                            if self.model.transcript.len() + x.len() + 4 > LIM.transcript {
                                t.push("C27");
                            }
                            match ph {
                                Rp::Version => t.extend_from_slice(&["C12", "C06"]),
                                Rp::Caps => t.push("C13"),
                                Rp::Algs => t.push("C11"),
                                _ => (),
                            }
                            cx.fail(&t, format!("no request in phase {}: {e:?}", ph.name()));
                            return None;
                        }
                        self.failed_before = true;
                    }
                }
                self.observe(cx, &["C16"]);
                None
            }
        }
    }

    /// Deliver a response. Some(completed) when accepted, None when refused.
    pub fn deliver(&mut self, cx: &mut Ctx, rsp: &[u8]) -> Option<bool> {
        let want = self.model.predict(rsp);
        let ph = self.model.ph;
        let lib = &mut self.lib;
        // digests are compared between runs: fresh nonces and signatures are not part of them
        let quiet = cx.digests.is_some() && (ph == Rp::Challenge || rsp.get(1) == Some(&CHALLENGE_AUTH));
        cx.ev("requester receives", if quiet { &rsp[..rsp.len().min(4)] } else { rsp });
        let r = cx.lib("requester.handle_msg", || {
            alloc::arm();
            let r = lib.handle_msg(rsp);
            let n = alloc::disarm();
            (r, n)
        });
        let (r, allocs) = match r {
            Some(x) => x,
            None => {
                // cannot go on with this one
                self.model.ph = Rp::Error;
                self.model.transcript_free = true;
                return None;
            }
        };
        cx.ev(if quiet { format!("result {}", r.is_ok()) } else { format!("result {r:?}") }, &[]);
        cx.count("requester.responses");
        cx.check(&["C25"], allocs == 0, || format!("handle_msg allocated {allocs} times"));
        let key = format!("requester.{}.{}.{}", ph.name(), if rsp.len() > 1 { name_of(rsp[1]) } else { "short" }, if r.is_ok() { "ok" } else { "err" });
        cx.count(&key);
        if want.must == RMust::Err {
            cx.count(&format!("requester.refusal.{}", want.why.replace(' ', "_")));
        }
        cx.eval();
        cx.distinct(crate::rng::mix(crate::rng::hash_bytes(ph.name().as_bytes()) ^ crate::rng::hash_bytes(&rsp[..rsp.len().min(64)]) ^ r.is_ok() as u64));
        match r {
            Ok(done) => {
                if want.must == RMust::Err {
                    let mut t = want.tags.to_vec();
                    if done && !t.contains(&"C01") && self.model.caps & cfg().caps & (CERT | CHAL) == CERT | CHAL {
                        t.push("C01");
                    }
                    cx.fail(&t, format!("{} accepted in phase {} (completed: {done}), must be refused: {}", hexs(rsp), ph.name(), want.why));
                    self.model.ph = Rp::Error;
                    self.model.transcript_free = true;
                    return Some(done);
                }
                self.model.accept(rsp);
                if done {
                    self.completions += 1;
                    cx.count("requester.completions");
                    cx.check(&["C02", "C09"], self.completions == 1, || "completion reported twice".into());
                }
                cx.check(&["C13", "C02", "C01"], done == (self.model.ph == Rp::Done), || {
                    format!("completion reported: {done}, phase must be {} (caps {:#x})", self.model.ph.name(), self.model.caps)
                });
                self.observe(cx, &[]);
                Some(done)
            }
            Err(e) => {
                if want.must == RMust::Ok {
                    let mut t = want.tags.to_vec();
                    if !t.contains(&"C02") {
                        t.push("C02");
                    }
                    t.push("C15");
                    if self.model.transcript.len() + rsp.len() + 80 > LIM.transcript {
                        t.push("C27");
                    }
                    cx.fail(&t, format!("good {} refused in phase {}: {e:?}", want.why, ph.name()));
                }
                if let RequesterError::UnexpectedMsgCode { expected, got } = &e {
                    if want.expected != 0 {
                        cx.check(&["C20"], *expected == want.expected && *got == rsp[1], || {
                            format!("unexpected-message error names expected {expected:#04x} and got {got:#04x}; it was {:#04x} and {:#04x}", want.expected, rsp[1])
                        });
                    }
                }
                self.model.refuse();
                self.observe(cx, &["C09"]);
                None
            }
        }
    }

    pub fn observe(&mut self, cx: &mut Ctx, extra: &[&'static str]) {
        let lib = &self.lib;
        let got = match cx.lib("requester.state", || (lib.state().name(), lib.transcript().get().to_vec(), lib.transcript().len())) {
            Some(x) => x,
            None => return,
        };
        let mut tags = vec!["C09", "C13"];
        tags.extend_from_slice(extra);
        let want = self.model.ph.name();
        cx.check(&tags, got.0 == want, || format!("requester state is {} instead of {want}", got.0));
        if !self.model.transcript_free {
            let mut tags = vec!["C04"];
            tags.extend_from_slice(extra);
            let t = &self.model.transcript;
            cx.check(&tags, got.1 == *t, || diff("requester transcript", &got.1, t));
        }
        cx.check(&["C27", "C04"], got.1.len() == got.2 && got.2 <= LIM.transcript, || "transcript length".into());
        self.remembered(cx);
    }

    #[cfg(not(feature = "peek"))]
    fn remembered(&self, _: &mut Ctx) {}

    /// What the state remembers.
    #[cfg(feature = "peek")]
    fn remembered(&self, cx: &mut Ctx) {
        let lib = &self.lib;
        let m = &self.model;
        let ver = |v: &spdm::msgs::VersionEntry| [v.major, v.minor, v.update, v.alpha] == m.version;
        let mut bad: Vec<(&'static [&'static str], &'static str)> = vec![];
        match lib.state() {
            QS::Capabilities(s) => {
                if !ver(&s.version) {
                    bad.push((&["C12"], "version"));
                }
            }
            QS::Algorithms(s) => {
                if !ver(&s.version) {
                    bad.push((&["C12"], "version"));
                }
                if s.responder_cap.bits() != m.caps || s.responder_ct_exponent != m.ct {
                    bad.push((&["C13", "C15"], "responder capabilities"));
                }
                if s.requester_cap.bits() != cfg().caps {
                    bad.push((&["C13", "C30"], "own capabilities"));
                }
            }
            QS::IdAuth(s) => {
                let a = m.algs.as_ref().unwrap();
                if s.algorithms.base_hash_algo_selected.bits() != a.hash
                    || s.algorithms.base_asym_algo_selected.bits() != a.asym
                    || s.algorithms.measurement_hash_algo_selected.bits() != a.meas_hash
                    || usize::from(s.algorithms.num_algorithm_responses) != a.structs.len()
                {
                    bad.push((&["C11", "C15"], "selected algorithms"));
                }
                if !ver(&s.version) || s.responder_cap.bits() != m.caps || s.responder_ct_exponent != m.ct || s.requester_cap.bits() != cfg().caps {
                    bad.push((&["C12", "C13"], "negotiated values"));
                }
                if let (Some(d), Some((mask, ds))) = (&s.digests, &m.digests) {
                    let lib_ds: Vec<&[u8]> = d.digests.iter().flatten().map(|x| x.as_ref()).collect();
                    let slots: Vec<usize> = (0..LIM.slots).filter(|i| d.digests[*i].is_some()).collect();
                    let want: Vec<usize> = (0..LIM.slots.min(8)).filter(|i| mask >> i & 1 == 1).collect();
                    if d.slot_mask != *mask || slots != want || lib_ds.len() != ds.len() || lib_ds.iter().zip(ds).any(|(a, b)| *a != &b[..]) {
                        bad.push((&["C15"], "digests"));
                    }
                }
            }
            QS::Challenge(s) => {
                if s.cert_slot != 0 || s.cert_chain.get(..usize::from(s.cert_chain_size)) != Some(&m.chain[..]) {
                    bad.push((&["C15", "C01"], "certificate chain"));
                }
                if !ver(&s.version) || s.responder_cap.bits() != m.caps || s.responder_ct_exponent != m.ct || s.requester_cap.bits() != cfg().caps {
                    bad.push((&["C12", "C13"], "negotiated values"));
                }
                let a = m.algs.as_ref().unwrap();
                if s.algorithms.base_hash_algo_selected.bits() != a.hash || s.algorithms.base_asym_algo_selected.bits() != a.asym {
                    bad.push((&["C11", "C01"], "selected algorithms"));
                }
            }
            _ => (),
        }
        cx.eval();
        for (t, w) in bad {
            cx.fail(t, format!("requester remembers wrong {w}"));
        }
    }

    /// Honest exchange with `peer` until the phase is reached.
    pub fn drive(&mut self, cx: &mut Ctx, peer: &mut crate::peer::Peer, to: Rp) -> bool {
        for _ in 0..8 {
            if self.model.ph == to {
                return true;
            }
            let q = match self.next(cx, 512) {
                Some(q) => q,
                None => return false,
            };
            let a = peer.answer(&q);
            if self.deliver(cx, &a).is_none() {
                return false;
            }
        }
        self.model.ph == to
    }
}
