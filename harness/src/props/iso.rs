//! Independence of sessions: the same session alone, among others on one thread, on several
//! threads with migration between calls, and alone in a process of its own.

use super::req::{fits, good_peer, has_cert, ROOM};
use super::rsp::{prov_small, AMPLE};
use crate::certs::{self, pool};
use crate::ctx::{hex, Ctx};
use crate::gen;
use crate::model_req::Rp;
use crate::model_rsp::Ph;
use crate::peer::Peer;
use crate::refcodec::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::sha2;
use crate::util::*;
use crate::world::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const T: &[&str] = &["C24"];

// Whether a type can be sent, as a value, so that a type that cannot is a finding here rather than
// a harness that does not build.
macro_rules! sendable {
    ($t:ty) => {{
        #[allow(dead_code)]
        trait No {
            const YES: bool = false;
        }
        impl<T: ?Sized> No for Is<T> {}
        #[allow(dead_code)]
        struct Is<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + Send> Is<T> {
            const YES: bool = true;
        }
        <Is<$t>>::YES
    }};
}

enum Kind {
    Responder(RspWorld<'static>),
    Requester(ReqWorld<'static>, Peer, bool),
    Pair(RspWorld<'static>, ReqWorld<'static>, bool),
}

/// One session with everything it needs, so that it can be advanced anywhere.
struct Sess {
    cx: Ctx,
    r: Rng,
    kind: Option<Kind>,
    prov: *mut Prov,
    left: usize,
    over: bool,
    log: Vec<(String, Vec<u8>)>,
    /// certificates made for this session: the oracle's register of them is per thread
    made: Vec<(Vec<u8>, certs::Meta)>,
}

struct Movable(Sess);
// The harness moves sessions even when the compiler would not let it: whether the library's types
// can be sent is checked separately (`sendable!`).
unsafe impl Send for Movable {}

impl Drop for Sess {
    fn drop(&mut self) {
        self.kind = None;
        if !self.prov.is_null() {
            drop(unsafe { Box::from_raw(self.prov) });
        }
    }
}

fn peer(r: &mut Rng) -> Peer {
    good_peer(r)
}

fn made(p: &Peer) -> Vec<(Vec<u8>, certs::Meta)> {
    p.certs.iter().filter_map(|c| certs::lookup(c).map(|m| (c.clone(), m))).collect()
}

fn provision(r: &mut Rng) -> Prov {
    let mut p = prov_small(r);
    if CRYPTO && r.chance(2, 3) {
        let v = pool().valid();
        let h = *r.pick(&v);
        let hash = super::pair::common_hash();
        if fits(h, digest_len(hash)) {
            p.slots[0] = Some(SlotP { root_hash: sha2::hash(hash, &pool().roots[0].der), certs: h.certs.clone(), key: h.leaf_key });
        }
    }
    p
}

impl Sess {
    fn new(seed: u64, case: u64, idx: u64) -> Sess {
        let mut r = Rng::new(&[seed, 0x150_1a7e, case, idx]);
        let mut cx = Ctx::new("C24", false, seed, std::time::Instant::now());
        cx.workload = "iso".into();
        let mut prov: *mut Prov = std::ptr::null_mut();
        let mut leak = |p: Prov| -> &'static Prov {
            prov = Box::into_raw(Box::new(p));
            unsafe { &*prov }
        };
        let kind = match r.below(3) {
            0 => {
                let p = leak(provision(&mut r));
                Kind::Responder(RspWorld::new(p))
            }
            1 if has_cert() || r.chance(1, 2) => {
                let wild = r.chance(1, 2);
                let p = peer(&mut r);
                Kind::Requester(ReqWorld::new(0), p, wild)
            }
            _ => {
                let p = leak(provision(&mut r));
                Kind::Pair(RspWorld::new(p), ReqWorld::new(0), r.chance(1, 3))
            }
        };
        let left = r.range(8, 30);
        let made = match &kind {
            Kind::Requester(_, p, _) => made(p),
            _ => vec![],
        };
        Sess { cx, r, kind: Some(kind), prov, left, over: false, log: vec![], made }
    }

    fn note(&mut self, t: impl Into<String>, b: &[u8]) {
        self.log.push((t.into(), b.to_vec()));
    }

    fn hash(&self) -> u64 {
        self.log.iter().fold(1, |h, (t, b)| mix(mix(h ^ hash_bytes(t.as_bytes())) ^ hash_bytes(b)))
    }

    /// One call or exchange.
    fn step(&mut self) {
        if self.over || self.left == 0 {
            self.over = true;
            return;
        }
        self.left -= 1;
        let mut kind = self.kind.take().unwrap();
        self.cx.log.clear();
        for (c, m) in &self.made {
            certs::register(c, m.clone());
        }
        match &mut kind {
            Kind::Responder(w) => {
                let tame = self.r.chance(3, 4);
                let q = if tame { gen::req_valid(&mut self.r, &w.model) } else { gen::req_any(&mut self.r, &w.model) };
                let buf = if self.r.chance(7, 8) {
                    AMPLE
                } else {
                    let need = w.model.predict(&q, usize::MAX).len;
                    gen::bufsize(&mut self.r, need)
                };
                self.answer(w, &q, buf);
            }
            Kind::Requester(w, p, wild) => {
                if self.r.chance(1, 10) {
                    // a request that gets lost, or does not fit
                    let b = if self.r.chance(1, 2) { ROOM } else { self.r.below(40) };
                    self.ask(w, b);
                }
                let q = self.ask(w, ROOM);
                match q {
                    None => self.over = true,
                    Some(q) => {
                        let h = p.answer(&q);
                        let a = if *wild && self.r.chance(1, 4) { gen::rsp_any(&mut self.r, w.model.ph, p, &h) } else { h };
                        self.give(w, &a);
                    }
                }
                if matches!(w.model.ph, Rp::Done | Rp::Error) && !self.over {
                    *w = ReqWorld::new(0);
                    *p = peer(&mut self.r);
                    self.made = made(p);
                }
            }
            Kind::Pair(s, q, wild) => match self.ask(q, ROOM) {
                None => self.over = true,
                Some(m) => {
                    if *wild && self.r.chance(1, 6) {
                        // somebody else asks in between
                        let x = gen::req_any(&mut self.r, &s.model);
                        self.answer(s, &x, AMPLE);
                    }
                    let a = self.answer(s, &m, AMPLE);
                    let done = self.give(q, &a);
                    if done != Some(false) && !self.over {
                        *q = ReqWorld::new(0);
                    }
                }
            },
        }
        self.kind = Some(kind);
    }

    fn answer(&mut self, w: &mut RspWorld<'static>, q: &[u8], buf: usize) -> Vec<u8> {
        let hash = w.model.hash;
        let a = w.step(&mut self.cx, q, buf);
        self.note(format!("responder ok {} lost {}", a.ok, a.lost), &masked(&a.rsp, hash));
        if a.lost || self.cx.diverged {
            // this session is not what its model says: of no concern here, but its sequel is undefined
            self.over = true;
            return a.rsp;
        }
        let st = w.lib.state().name();
        self.note(st, &(w.lib.transcript().len() as u64).to_le_bytes());
        if w.model.ph == Ph::Error {
            w.reset(&mut self.cx);
        }
        a.rsp
    }

    fn ask(&mut self, w: &mut ReqWorld<'static>, buf: usize) -> Option<Vec<u8>> {
        let q = w.next(&mut self.cx, buf);
        let shown: Vec<u8> = q.as_ref().map(|v| if v.len() > 1 && v[1] == CHALLENGE { v[..4.min(v.len())].to_vec() } else { v.clone() }).unwrap_or_default();
        self.note(format!("requester asks {}", q.is_some()), &shown);
        if self.cx.diverged {
            self.over = true;
        }
        let st = w.lib.state().name();
        self.note(st, &(w.lib.transcript().len() as u64).to_le_bytes());
        q.filter(|v| v.len() > 1)
    }

    fn give(&mut self, w: &mut ReqWorld<'static>, a: &[u8]) -> Option<bool> {
        let d = w.deliver(&mut self.cx, a);
        self.note(format!("requester takes {d:?}"), &[]);
        if self.cx.diverged {
            self.over = true;
            return d;
        }
        let st = w.lib.state().name();
        self.note(st, &(w.lib.transcript().len() as u64).to_le_bytes());
        d
    }

    fn run(mut self) -> Sess {
        while !self.over {
            self.step();
        }
        self
    }
}

/// `mon SOLO seed case idx`: one session alone in its process.
pub fn solo(seed: u64, case: u64, idx: u64) {
    let s = Sess::new(seed, case, idx).run();
    println!("{:016x} {}", s.hash(), s.log.len());
    if std::env::var("SOLO_LOG").is_ok() {
        for (t, b) in &s.log {
            println!("{t} {}", hex(b));
        }
    }
}

fn compare(cx: &mut Ctx, how: &str, i: usize, solo: &Sess, other: &Sess) -> bool {
    let same = solo.log == other.log;
    cx.check(T, same, || {
        let k = solo.log.iter().zip(&other.log).take_while(|(a, b)| a == b).count();
        let show = |s: &Sess| s.log.get(k).map_or("nothing".into(), |(t, b)| format!("{t} {}", hex(&b[..b.len().min(60)])));
        format!("session {i} behaves differently {how}, at its observation {k}: {} instead of {}", show(other), show(solo))
    })
}

/// Sessions of this case, by index.
fn fresh(cx: &Ctx, k: usize, tag: u64) -> Vec<Sess> {
    (0..k)
        .map(|i| {
            let mut s = Sess::new(cx.seed, cx.case ^ tag << 40, i as u64);
            s.cx.beat = cx.beat.clone();
            s.cx.t0 = cx.t0;
            s
        })
        .collect()
}

fn absorb(cx: &mut Ctx, s: &Sess) {
    cx.lib_calls += s.cx.lib_calls;
    cx.add("iso.observations", s.log.len() as u64);
    cx.add("iso.completed", s.cx.counters.get("requester.completions").copied().unwrap_or(0));
    for f in &s.cx.findings {
        cx.fail(T, f.msg.clone());
    }
    cx.distinct(s.hash());
}

pub fn interleaved(cx: &mut Ctx, r: &mut Rng) {
    let k = r.range(2, 5);
    let alone: Vec<Sess> = fresh(cx, k, 0).into_iter().map(|s| s.run()).collect();
    let mut mixed = fresh(cx, k, 0);
    let mut switches = 0u64;
    let mut last = usize::MAX;
    let mut order = 0u64;
    let burst = r.chance(1, 3);
    while mixed.iter().any(|s| !s.over) {
        let i = r.below(k);
        let n = if burst { r.range(1, 4) } else { 1 };
        for _ in 0..n {
            if !mixed[i].over {
                mixed[i].step();
                if i != last {
                    switches += 1;
                }
                last = i;
                order = mix(order ^ i as u64);
            }
        }
    }
    cx.add("iso.switches", switches);
    cx.distinct(order);
    for (i, (a, b)) in alone.iter().zip(&mixed).enumerate() {
        if !compare(cx, "among others on one thread", i, a, b) {
            for (t, x) in &b.log {
                cx.ev(t.clone(), x);
            }
        }
        absorb(cx, a);
        absorb(cx, b);
    }
    if let Some(b) = mixed.first() {
        let l: Vec<_> = b.log.iter().take(6).cloned().collect();
        for (t, x) in l {
            cx.ev(t, &x);
        }
    }
    cx.count("iso.interleaved");
}

/// Many sessions alive at the same time, advanced in rounds, while others come and go.
pub fn many(cx: &mut Ctx, r: &mut Rng) {
    let k = r.range(40, 260);
    let alone: Vec<Sess> = fresh(cx, k, 2).into_iter().map(|s| s.run()).collect();
    let mut mixed = fresh(cx, k, 2);
    let mut order: Vec<usize> = (0..k).collect();
    let mut rounds = 0u64;
    while mixed.iter().any(|s| !s.over) {
        if r.chance(1, 2) {
            for i in (1..k).rev() {
                order.swap(i, r.below(i + 1));
            }
        }
        let n = r.range(1, 3);
        for &i in &order {
            for _ in 0..n {
                mixed[i].step();
            }
        }
        // a few more sessions that begin, and end early or late
        if r.chance(1, 3) {
            for s in fresh(cx, r.range(1, 4), 3 + rounds) {
                let mut s = s;
                for _ in 0..r.range(0, 12) {
                    s.step();
                }
            }
        }
        rounds += 1;
    }
    cx.add("iso.rounds", rounds);
    cx.add("iso.alive_together", k as u64);
    for (i, (a, b)) in alone.iter().zip(&mixed).enumerate() {
        if !compare(cx, "among many on one thread", i, a, b) {
            for (t, x) in &b.log {
                cx.ev(t.clone(), x);
            }
        }
        absorb(cx, b);
    }
    cx.count("iso.many");
}

pub fn threads(cx: &mut Ctx, r: &mut Rng) {
    let k = r.range(3, 8);
    let nt = r.range(2, 4);
    let alone: Vec<Sess> = fresh(cx, k, 1).into_iter().map(|s| s.run()).collect();
    let shared: Arc<Vec<Mutex<Option<Movable>>>> =
        Arc::new(fresh(cx, k, 1).into_iter().map(|s| Mutex::new(Some(Movable(s)))).collect());
    let (tx, rx) = std::sync::mpsc::channel::<(u64, u64)>();
    for t in 0..nt {
        let shared = shared.clone();
        let tx = tx.clone();
        let mut r = Rng::new(&[r.next(), t as u64]);
        std::thread::Builder::new()
            .stack_size(96 << 20)
            .spawn(move || {
                let (mut steps, mut moves) = (0u64, 0u64);
                let me = t as u64 + 1;
                loop {
                    let mut live = false;
                    for _ in 0..shared.len() * 2 {
                        let i = r.below(shared.len());
                        let mut slot = match shared[i].try_lock() {
                            Ok(g) => g,
                            Err(_) => {
                                live = true;
                                continue;
                            }
                        };
                        // taken out of the shared place and moved through this thread's stack
                        let mut m = slot.take().unwrap();
                        if !m.0.over {
                            live = true;
                            for _ in 0..r.range(1, 3) {
                                m.0.step();
                                steps += 1;
                            }
                            if m.0.cx.trace != me {
                                moves += 1;
                            }
                            m.0.cx.trace = me;
                        }
                        *slot = Some(m);
                        drop(slot);
                        if r.chance(1, 5) {
                            std::thread::yield_now();
                        }
                    }
                    if !live && shared.iter().all(|s| s.lock().unwrap().as_ref().map_or(true, |m| m.0.over)) {
                        break;
                    }
                }
                let _ = tx.send((steps, moves));
            })
            .unwrap();
    }
    drop(tx);
    for _ in 0..nt {
        match rx.recv_timeout(Duration::from_secs(45)) {
            Ok((_, m)) => cx.add("iso.migrations", m),
            Err(e) => {
                cx.fail(T, format!("sessions on {nt} threads do not finish ({e})"));
                return;
            }
        }
    }
    for (i, a) in alone.iter().enumerate() {
        let m = shared[i].lock().unwrap().take().unwrap();
        compare(cx, "on several threads", i, a, &m.0);
        absorb(cx, &m.0);
    }
    cx.count("iso.threads");
}

/// The same session alone in a process of its own.
pub fn process(cx: &mut Ctx, _: &mut Rng) {
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(_) => return,
    };
    let k = 3;
    let mut mixed = fresh(cx, k, 0);
    while mixed.iter().any(|s| !s.over) {
        for s in mixed.iter_mut() {
            s.step();
        }
    }
    for (i, s) in mixed.iter().enumerate() {
        let o = std::process::Command::new(&exe)
            .args(["SOLO", &cx.seed.to_string(), &cx.case.to_string(), &i.to_string()])
            .stderr(std::process::Stdio::null())
            .output();
        let o = match o {
            Ok(o) => String::from_utf8_lossy(&o.stdout).trim().to_string(),
            Err(e) => panic!("cannot start a process: {e}"),
        };
        let want = format!("{:016x} {}", s.hash(), s.log.len());
        cx.check(T, o == want, || {
            format!("session {i} behaves differently among others than in a process of its own ({want} / {o})")
        });
        absorb(cx, s);
    }
    cx.count("iso.process");
}

pub fn types(cx: &mut Ctx, _: &mut Rng) {
    for (n, ok) in [
        ("Responder", sendable!(spdm::Responder<'static, MonSigner>)),
        ("RequesterInit", sendable!(spdm::RequesterInit<'static, MonSigner>)),
        ("RequesterSession", sendable!(spdm::RequesterSession<'static, MonSigner>)),
        ("Transcript", sendable!(spdm::Transcript)),
        ("requester state", sendable!(spdm::requester::AllStates)),
        ("responder state", sendable!(spdm::responder::AllStates)),
    ] {
        cx.check(T, ok, || format!("{n} cannot be sent to another thread"));
        cx.count("iso.send");
        cx.distinct(hash_bytes(n.as_bytes()));
    }
    // the probe itself must be able to say no
    if sendable!(std::rc::Rc<u8>) {
        panic!("the Send probe does not work");
    }
}

/// Keys, signatures and verifications used by several threads at once, each thread with its own.
#[cfg(feature = "crypto")]
pub fn signers(cx: &mut Ctx, r: &mut Rng) {
    use spdm::crypto::pki::EndEntityCert;
    use spdm::crypto::digest::Digests;
    use spdm::crypto::ring::signing::new_signer;
    use spdm::crypto::{new_end_entity_cert, ProvidedDigests, Signer};
    use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
    const P256: BaseAsymAlgo = BaseAsymAlgo::ECDSA_ECC_NIST_P256;
    let leaves: Vec<(u8, Vec<u8>)> = pool()
        .hiers
        .iter()
        .filter(|h| h.valid && !h.certs.is_empty())
        .map(|h| (h.leaf_key, h.certs.last().unwrap().clone()))
        .collect();
    let gate = std::sync::Barrier::new(4);
    let seed = r.next();
    let bad: Vec<String> = std::thread::scope(|sc| {
        let (leaves, gate) = (&leaves, &gate);
        let jobs: Vec<_> = (0..4u64)
            .map(|t| {
                sc.spawn(move || {
                    let mut r = Rng::new(&[seed, t]);
                    let (key, leaf) = leaves[r.below(leaves.len())].clone();
                    gate.wait();
                    let s = match new_signer(P256, certs::pkcs8(key)) {
                        Ok(s) => s,
                        Err(_) => return vec![format!("no signer for key {key}")],
                    };
                    let mut bad = vec![];
                    for i in 0..24 {
                        let m = r.bytes(20 + i * 7);
                        let d = ProvidedDigests::digest(BaseHashAlgo::SHA_256, &m[..]);
                        if d.as_ref() != &sha2::hash(1, &m)[..] {
                            bad.push(format!("digest {}", hex(d.as_ref())));
                        }
                        let g = match s.sign(d.as_ref()) {
                            Ok(g) => g.as_ref().to_vec(),
                            Err(_) => {
                                bad.push("signing failed".to_string());
                                continue;
                            }
                        };
                        let mut h = g.clone();
                        h[r.below(64)] ^= 1;
                        let yes = new_end_entity_cert(&leaf).map_or(false, |c| c.verify_signature(P256, d.as_ref(), &g));
                        let no = new_end_entity_cert(&leaf).map_or(true, |c| c.verify_signature(P256, d.as_ref(), &h));
                        if !yes || no || !certs::verify_raw(key, d.as_ref(), &g) {
                            bad.push(format!("signature {} verified: {yes}, damaged: {no}", hex(&g)));
                        }
                    }
                    bad
                })
            })
            .collect();
        jobs.into_iter().flat_map(|j| j.join().unwrap_or_else(|_| vec!["panic".into()])).collect()
    });
    cx.ev(format!("4 threads, seed {seed}"), &[]);
    cx.check(T, bad.is_empty(), || format!("among other threads: {}", bad[0]));
    cx.count("iso.signers");
    cx.distinct(seed);
}

#[cfg(not(feature = "crypto"))]
pub fn signers(_: &mut Ctx, _: &mut Rng) {}
