//! Workloads with both sides: two libraries, a library and an independent peer, an attacker
//! between two libraries; freshness of the random values they exchange.

use super::req::{cost, fits, good_peer, has_cert, has_chal, phases, ROOM};
use super::rsp::AMPLE;
use crate::certs::{self, pool, Hier};
use crate::ctx::Ctx;
use crate::gen;
use crate::model_req::*;
use crate::refcodec::*;
use crate::rng::Rng;
use crate::sha2;
use crate::util::*;
use crate::world::*;
use std::collections::HashSet;
use std::sync::Mutex;

/// The hash two libraries of this configuration agree on: the first one both support.
pub fn common_hash() -> u32 {
    [1u32, 2, 4].into_iter().find(|b| cfg().hashes & b != 0).unwrap_or(1)
}

/// A population whose slot 0 holds a genuine chain of the given hierarchy.
pub fn genuine(r: &mut Rng, h: &Hier) -> Prov {
    let hash = common_hash();
    let mut p = super::rsp::prov_small(r);
    if r.chance(1, 3) {
        p = Prov::empty();
    }
    p.slots[0] = Some(SlotP { root_hash: sha2::hash(hash, &pool().roots[0].der), certs: h.certs.clone(), key: h.leaf_key });
    p
}

pub fn good_hier(r: &mut Rng) -> Hier {
    let dl = digest_len(common_hash());
    // what a whole session records besides the chain
    let rest = 700.min(LIM.transcript / 2) + LIM.slots * dl;
    let max = LIM.chain.min(65535).min(LIM.transcript.saturating_sub(rest));
    for _ in 0..60 {
        if r.chance(1, 3) && CRYPTO {
            let d = r.below(LIM.depth.min(6) + 1);
            let t = if r.chance(1, 2) { max } else { r.range(200.min(max), max) };
            let h = certs::sized(d, dl, t, r);
            if fits(&h, dl) && 4 + dl + h.certs.iter().map(|c| c.len()).sum::<usize>() <= max {
                return h;
            }
        } else {
            let v = pool().valid();
            let h = *r.pick(&v);
            if fits(h, dl) && 4 + dl + h.certs.iter().map(|c| c.len()).sum::<usize>() <= max {
                return Hier { name: h.name.clone(), certs: h.certs.clone(), leaf_key: h.leaf_key, valid: true };
            }
        }
    }
    let h = pool().get("ok0");
    Hier { name: h.name.clone(), certs: h.certs.clone(), leaf_key: h.leaf_key, valid: true }
}

fn same_transcripts(cx: &mut Ctx, q: &ReqWorld, s: &RspWorld) {
    let eq = {
        let (a, b) = (&q.lib, &s.lib);
        cx.lib("transcript comparison", || (a.transcript() == b.transcript(), b.transcript() == a.transcript(), a.transcript().get() == b.transcript().get()))
    };
    if let Some((e1, e2, bytes)) = eq {
        cx.check(&["C04", "C02"], bytes, || "the two sides recorded different conversations".into());
        cx.check(&["C04", "C27"], e1 == bytes && e2 == bytes, || format!("transcripts compare {e1}/{e2} but their contents compare {bytes}"));
    }
}

/// One honest session. True when it completed.
fn session(cx: &mut Ctx, r: &mut Rng, q: &mut ReqWorld, s: &mut RspWorld, exact: bool) -> bool {
    let mut codes = vec![];
    for _ in 0..8 {
        let need = match q.model.request() {
            Some(x) => x.len(),
            None => break,
        };
        let m = match q.next(cx, if exact { need } else { ROOM }) {
            Some(m) if m.len() > 1 => m,
            _ => return false,
        };
        codes.push(m[1]);
        let mut buf = AMPLE;
        if exact {
            buf = s.model.predict(&m, usize::MAX).len;
        }
        let a = s.step(cx, &m, buf);
        if a.lost {
            return false;
        }
        if !cx.check(&["C02"], a.ok, || format!("the responder refuses {}: {:?}", name_of(m[1]), a.err)) {
            return false;
        }
        // C20 etc. are judged inside the worlds; here: the other library accepts it
        match q.deliver(cx, &a.rsp) {
            None => {
                cx.fail(&["C02"], format!("the requester refuses the answer to {}", name_of(m[1])));
                return false;
            }
            Some(true) => {
                same_transcripts(cx, q, s);
                let mut want = vec![GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS];
                if has_cert() {
                    want.extend([GET_DIGESTS, GET_CERTIFICATE]);
                }
                if has_chal() {
                    want.push(CHALLENGE);
                }
                cx.check(&["C02", "C13"], codes == want, || format!("exchanges were {codes:02x?}, expected {want:02x?}"));
                cx.count("pair.completed");
                if !cx.diverged {
                    // the user takes the next step; nothing more is asked
                    if r.chance(1, 2) {
                        q.next(cx, ROOM);
                    }
                }
                return !cx.diverged;
            }
            Some(false) => same_transcripts(cx, q, s),
        }
        if cx.diverged {
            return false;
        }
    }
    cx.fail(&["C02"], "the session does not complete");
    false
}

/// Two libraries, honest, with restarts.
pub fn honest(cx: &mut Ctx, r: &mut Rng) {
    let h = good_hier(r);
    let p = genuine(r, &h);
    let mut s = RspWorld::new(&p);
    s.fill = r.byte();
    let n = r.range(1, 4);
    for i in 0..n {
        let mut q = ReqWorld::new(0);
        q.fill = r.byte();
        // abandoned attempts before the real one
        for _ in 0..r.below(3) {
            let mut q0 = ReqWorld::new(0);
            let stop = r.below(7);
            for _ in 0..stop {
                let m = match q0.next(cx, ROOM) {
                    Some(m) if m.len() > 1 => m,
                    _ => break,
                };
                let a = s.step(cx, &m, AMPLE);
                if a.lost || cx.diverged {
                    return;
                }
                if q0.deliver(cx, &a.rsp) != Some(false) {
                    break;
                }
            }
            cx.count("pair.abandoned");
            if cx.diverged {
                return;
            }
            if r.chance(1, 4) {
                // trouble in between: the responder gives up and has to be reset
                let x = gen::req_any(r, &s.model);
                if s.step(cx, &x, AMPLE).lost {
                    return;
                }
            }
        }
        if s.model.ph == crate::model_rsp::Ph::Error {
            s.reset(cx);
        }
        // version requests that got lost
        for _ in 0..r.below(3) {
            if let Some(m) = q.next(cx, ROOM) {
                if r.chance(1, 2) {
                    s.step(cx, &m, AMPLE);
                }
            }
        }
        if cx.diverged {
            return;
        }
        let exact = r.chance(1, 4);
        if !session(cx, r, &mut q, &mut s, exact) {
            return;
        }
        cx.distinct(crate::rng::mix(crate::rng::hash_bytes(&p.slots[0].as_ref().unwrap().chain()) ^ i as u64));
        cx.add(&format!("pair.depth.{}", h.certs.len() - 1), 1);
    }
    // the finished requester can be turned into a session
    cx.count("pair.cases");
}

/// Library requester, independent peer.
pub fn peer(cx: &mut Ctx, r: &mut Rng) {
    let mut p = good_peer(r);
    if r.chance(1, 3) {
        p.caps = r.next() as u32 & RSP_MASK;
    }
    let common = p.caps & cfg().caps;
    let mut want = vec![GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS];
    if common & CERT != 0 {
        want.extend([GET_DIGESTS, GET_CERTIFICATE]);
        if common & CHAL != 0 {
            want.push(CHALLENGE);
        }
    }
    let mut w = ReqWorld::new(0);
    w.fill = r.byte();
    let mut codes = vec![];
    let mut done = false;
    for _ in 0..60 {
        let q = match w.next(cx, ROOM) {
            Some(q) if q.len() > 1 => q,
            _ => break,
        };
        if q[1] == GET_VERSION && r.chance(1, 4) {
            // this one got lost
            continue;
        }
        codes.push(q[1]);
        let a = p.answer(&q);
        match w.deliver(cx, &a) {
            Some(true) => {
                done = true;
                break;
            }
            None => break,
            _ => (),
        }
        if cx.diverged {
            return;
        }
    }
    cx.check(&["C02"], done && codes == want, || format!("with an independent peer: completed {done}, exchanges {codes:02x?}, expected {want:02x?}"));
    if done && want.last() == Some(&CHALLENGE) && !cx.diverged {
        cx.check(&["C04"], p.transcript == w.model.transcript, || "the peer recorded something else".into());
        cx.count("peer.authenticated");
    }
    cx.count("peer.sessions");
}

// ---------------------------------------------------------------- attacker in the middle
/// Everything crosses an attacker. Whenever the requester completes with a challenge, some
/// signing operation of the genuine responder must have covered exactly its conversation.
pub fn mitm(cx: &mut Ctx, r: &mut Rng) {
    if !has_chal() {
        return;
    }
    let h = good_hier(r);
    let p = genuine(r, &h);
    let mut s = RspWorld::new(&p);
    let mut requests: Vec<Vec<u8>> = vec![];
    let mut responses: Vec<Vec<u8>> = vec![];
    let mut used: HashSet<usize> = HashSet::new();
    let calm = r.range(1, 12);
    for _ in 0..r.range(1, 4) {
        let mut q = ReqWorld::new(0);
        if s.model.ph == crate::model_rsp::Ph::Error && r.chance(3, 4) {
            s.reset(cx);
        }
        for _ in 0..14 {
            let ph = q.model.ph;
            if matches!(ph, Rp::Done | Rp::Error) {
                break;
            }
            let m = match q.next(cx, ROOM) {
                Some(m) if m.len() > 1 => m,
                _ => break,
            };
            requests.push(m.clone());
            // what reaches the responder
            let mut ask: Vec<Vec<u8>> = vec![m.clone()];
            if r.chance(1, calm) {
                cx.count("mitm.request_attacks");
                match r.below(7) {
                    0 => ask.clear(),
                    1 => ask = vec![m.clone(), m.clone()],
                    2 => ask = vec![r.pick(&requests).clone(), m.clone()],
                    3 => {
                        gen::mutate(r, &mut ask[0]);
                    }
                    4 => ask = vec![r.pick(&requests).clone()],
                    5 => ask = vec![gen::req_valid(r, &s.model)],
                    _ => ask.insert(0, gen::req_any(r, &s.model)),
                }
            }
            let mut ans: Option<Vec<u8>> = None;
            for a in &ask {
                let t = s.step(cx, a, AMPLE);
                if t.lost || cx.diverged {
                    return;
                }
                responses.push(t.rsp.clone());
                ans = Some(t.rsp);
            }
            // what reaches the requester
            let mut give: Vec<Vec<u8>> = ans.into_iter().collect();
            if r.chance(1, calm) || give.is_empty() {
                cx.count("mitm.response_attacks");
                let fitting: Vec<&Vec<u8>> = responses.iter().filter(|x| x.len() > 1 && x[1] == ph.expects()).collect();
                match r.below(6) {
                    0 => give.clear(),
                    1 if !fitting.is_empty() => give = vec![(*r.pick(&fitting)).clone()],
                    2 if !responses.is_empty() => give = vec![r.pick(&responses).clone()],
                    3 if !give.is_empty() => {
                        gen::mutate(r, &mut give[0]);
                    }
                    4 if !give.is_empty() => give = vec![give[0].clone(), give[0].clone()],
                    _ => {
                        let mut pe = crate::peer::Peer::honest(r, &h);
                        pe.key = 250;
                        give = vec![super::req::rsp_for(r, ph, &mut pe)];
                    }
                }
            }
            for g in &give {
                let d = q.deliver(cx, g);
                if cx.diverged {
                    return;
                }
                if d == Some(true) && q.model.caps & cfg().caps & (CERT | CHAL) == CERT | CHAL {
                    // agreement with one signing operation of the genuine device
                    let t = q.lib.transcript().get().to_vec();
                    let want = sha2::hash(q.model.hash, &t);
                    let log = s.log.lock().unwrap();
                    let hit = log.calls.iter().enumerate().position(|(i, c)| c.0 == 0 && c.1 == want && !used.contains(&i));
                    drop(log);
                    match hit {
                        Some(i) => {
                            used.insert(i);
                            cx.count("mitm.authenticated");
                        }
                        None => cx.fail(&["C01", "C04", "C03"], "completed although the genuine device never signed this conversation"),
                    }
                    let certs = parse_chain(&q.model.chain, digest_len(q.model.hash), &LIM).map(|x| x.1).unwrap_or_default();
                    cx.check(&["C01"], certs::chain_verdict(&certs, 0) != certs::Verdict::Invalid, || "completed with a chain that does not verify".into());
                }
            }
        }
        cx.count(&format!("mitm.end.{}", q.model.ph.name()));
        if cx.diverged {
            return;
        }
    }
}

// ---------------------------------------------------------------- freshness
static SEEN: Mutex<Option<HashSet<Vec<u8>>>> = Mutex::new(None);
static WORDS: Mutex<Option<HashSet<[u8; 8]>>> = Mutex::new(None);

fn fresh(cx: &mut Ctx, n: &[u8], who: &str) {
    cx.check(&["C03"], n.len() == 32, || format!("{who} nonce has {} bytes", n.len()));
    let mut g = SEEN.lock().unwrap();
    let s = g.get_or_insert_with(HashSet::new);
    let new = s.insert(n.to_vec());
    drop(g);
    cx.check(&["C03"], new, || format!("{who} nonce repeats: {}", crate::ctx::hex(n)));
    let mut g = WORDS.lock().unwrap();
    let s = g.get_or_insert_with(HashSet::new);
    let mut rep = 0;
    for w in n.chunks_exact(8) {
        if !s.insert(w.try_into().unwrap()) {
            rep += 1;
        }
    }
    drop(g);
    cx.check(&["C03"], rep == 0, || format!("a part of the {who} nonce repeats: {}", crate::ctx::hex(n)));
    cx.count(&format!("nonces.{who}"));
}

/// Statistics over a sample: every bit balanced, consecutive values independent, bytes and pairs
/// of bytes free of structure. Thresholds at seven standard deviations.
fn statistics(cx: &mut Ctx, v: &[Vec<u8>], what: &str) {
    let n = v.len() as f64;
    if v.len() < 200 {
        return;
    }
    let off = |c: u64, mean: f64, var: f64| (c as f64 - mean).abs() > 7.0 * var.sqrt();
    for bit in 0..256 {
        let g = |x: &Vec<u8>| x[bit / 8] >> (bit % 8) & 1;
        let ones = v.iter().filter(|x| g(x) == 1).count() as u64;
        cx.check(&["C03"], !off(ones, n / 2.0, n / 4.0), || format!("{what}: bit {bit} is set in {ones} of {n}"));
        let flips = v.windows(2).filter(|w| g(&w[0]) != g(&w[1])).count() as u64;
        cx.check(&["C03"], !off(flips, (n - 1.0) / 2.0, n / 4.0), || format!("{what}: bit {bit} changes {flips} times in {n}"));
        // equality with the neighbouring bit
        let o = (bit + 1) % 256;
        let g2 = |x: &Vec<u8>| x[o / 8] >> (o % 8) & 1;
        let same = v.iter().filter(|x| g(x) == g2(x)).count() as u64;
        cx.check(&["C03"], !off(same, n / 2.0, n / 4.0), || format!("{what}: bits {bit} and {o} agree in {same} of {n}"));
    }
    for i in 0..32 {
        for j in i + 1..32 {
            let same = v.iter().filter(|x| x[i] == x[j]).count() as u64;
            let comp = v.iter().filter(|x| x[i] == !x[j]).count() as u64;
            let lim = |c: u64| c as f64 > n / 256.0 + 7.0 * (n / 256.0).sqrt() + 4.0;
            cx.check(&["C03"], !lim(same) && !lim(comp), || format!("{what}: bytes {i} and {j} are related ({same}/{comp} of {n})"));
        }
        let mut hist = [0u64; 256];
        v.iter().for_each(|x| hist[usize::from(x[i])] += 1);
        let top = *hist.iter().max().unwrap() as f64;
        cx.check(&["C03"], top < n / 256.0 + 8.0 * (n / 256.0).sqrt() + 8.0, || format!("{what}: byte {i} takes one value {top} times of {n}"));
    }
    cx.count("nonces.statistics");
}

pub fn nonces(cx: &mut Ctx, r: &mut Rng) {
    if NONCE == 0 || !has_chal() {
        return;
    }
    let h = good_hier(r);
    let p = genuine(r, &h);
    let mut s = RspWorld::new(&p);
    let (mut qs, mut rs): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (vec![], vec![]);
    let hash = common_hash();
    let at = 4 + digest_len(hash);
    for _ in 0..40 {
        let mut q = ReqWorld::new(0);
        while q.model.ph != Rp::Challenge {
            let m = match q.next(cx, ROOM) {
                Some(m) if m.len() > 1 => m,
                _ => return,
            };
            let a = s.step(cx, &m, AMPLE);
            if a.lost || q.deliver(cx, &a.rsp).is_none() {
                return;
            }
        }
        // several requests in one session
        let mut last = None;
        for _ in 0..r.range(2, 8) {
            let room = q.model.transcript.len() + 4 * (4 + NONCE) + 300 + LIM.opq_elems * 8 < LIM.transcript;
            if !room && last.is_some() {
                break;
            }
            match q.next(cx, ROOM) {
                Some(m) if m.len() == 4 + NONCE => {
                    fresh(cx, &m[4..], "requester");
                    qs.push(m[4..].to_vec());
                    last = Some(m);
                }
                Some(m) => {
                    cx.fail(&["C03"], format!("a challenge of {} bytes", m.len()));
                    return;
                }
                None => break,
            }
            if cx.diverged {
                return;
            }
        }
        let last = match last {
            Some(l) => l,
            None => return,
        };
        // the same and different requests, in one responder session
        let sameq = r.chance(1, 2);
        for k in 0..3 {
            let ask = if k == 0 || sameq {
                last.clone()
            } else {
                let b = *r.pick(&[0u8, 0xFF, 7]);
                challenge(0, 0, &[b; NONCE])
            };
            let before = s.log.lock().unwrap().calls.len();
            let a = s.step(cx, &ask, AMPLE);
            if a.lost || !a.ok {
                break;
            }
            cx.check(&["C03"], s.log.lock().unwrap().calls.len() == before + 1, || "a challenge response without a signing operation".into());
            if a.rsp.len() < at + NONCE {
                break;
            }
            let n = a.rsp[at..at + NONCE].to_vec();
            fresh(cx, &n, "responder");
            // nothing of the request shows up in it
            let hit = (0..29).any(|i| ask[4..].windows(4).any(|w| w == &n[i..i + 4]));
            if hit {
                cx.count("nonces.overlap");
            }
            rs.push(n);
            if cx.diverged {
                return;
            }
        }
        if s.model.ph == crate::model_rsp::Ph::Error {
            s.reset(cx);
        }
    }
    // the same words again, to responders that know nothing of the first time
    let mut q = ReqWorld::new(0);
    let mut said: Vec<Vec<u8>> = vec![];
    s.reset(cx);
    while let Some(m) = q.next(cx, ROOM) {
        said.push(m.clone());
        let a = s.step(cx, &m, AMPLE);
        if a.lost || !a.ok || q.deliver(cx, &a.rsp) != Some(false) {
            break;
        }
    }
    if cx.diverged || said.last().map_or(true, |m| m[1] != CHALLENGE) {
        return;
    }
    for k in 0..4 {
        let mut other = RspWorld::new(&p);
        let w = match k {
            0 | 1 => &mut other,
            2 => {
                s.reset(cx);
                &mut s
            }
            // GET_VERSION starts again as well
            _ => &mut s,
        };
        for m in &said {
            let a = w.step(cx, m, AMPLE);
            if a.lost || !a.ok {
                break;
            }
            if m[1] == CHALLENGE && a.rsp.len() >= at + NONCE {
                fresh(cx, &a.rsp[at..at + NONCE], "responder");
                cx.count("nonces.repeated_sessions");
            }
        }
        if cx.diverged {
            return;
        }
    }
    // 120 samples times 29 * 29 windows of 4 bytes: an accidental match has probability 3e-5
    let over = cx.counters.get("nonces.overlap").copied().unwrap_or(0);
    cx.check(&["C03"], over < 4, || format!("responder nonces contain parts of the requester's nonce ({over})"));
    STAT_Q.lock().unwrap().extend(qs);
    STAT_R.lock().unwrap().extend(rs);
    for (m, what) in [(&STAT_Q, "requester nonces"), (&STAT_R, "responder nonces")] {
        let mut g = m.lock().unwrap();
        if g.len() >= 4000 {
            let v: Vec<Vec<u8>> = g.drain(..).collect();
            drop(g);
            statistics(cx, &v, what);
        }
    }
}
static STAT_Q: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
static STAT_R: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());

/// Very many nonces as the library makes them: a generator that is seeded with few bits repeats.
#[cfg(feature = "peek")]
pub fn many_nonces(cx: &mut Ctx, _: &mut Rng) {
    static ALL: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    if NONCE == 0 {
        return;
    }
    const N: usize = 400_000;
    {
        // at most 16 million are remembered
        let mut g = ALL.lock().unwrap();
        if g.len() >= 40 * N {
            g.clear();
        }
    }
    let mut first = Vec::with_capacity(N);
    let v = cx.armed("Nonce::new", || {
        let mut sum = [0u64; 4];
        for _ in 0..N {
            let n = spdm::crypto::Nonce::new();
            let b: &[u8] = n.as_ref();
            let w = |i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
            for i in 0..4 {
                sum[i] = sum[i].wrapping_add(u64::from(w(i).count_ones()));
            }
            first.push(w(0));
        }
        sum
    });
    let Some(sum) = v else { return };
    for (i, s) in sum.iter().enumerate() {
        // mean 32 N, deviation 4 sqrt N
        let d = (*s as f64 - 32.0 * N as f64).abs() / (4.0 * (N as f64).sqrt());
        cx.check(&["C03"], d < 8.0, || format!("word {i} of {N} nonces has {s} bits set, {d:.1} standard deviations off"));
    }
    let mut g = ALL.lock().unwrap();
    g.extend(&first);
    g.sort_unstable();
    let rep = g.windows(2).filter(|w| w[0] == w[1]).count();
    let n = g.len();
    if rep > 0 {
        g.clear();
    }
    drop(g);
    // 16 million 64-bit values: an accident has probability below 1e-5, two below 1e-10
    cx.check(&["C03"], rep < 2, || format!("the first 8 bytes of {rep} of {n} nonces repeat"));
    cx.count("nonces.many");
    cx.distinct(first[0]);
}

/// `mon NONCES`: the first nonces of a fresh process, for comparison between processes.
pub fn print_nonces() {
    let mut cx = Ctx::new("NONCES", false, 1, std::time::Instant::now());
    let mut r = cx.begin("nonces", 0, 0);
    for x in collect(&mut cx, &mut r) {
        println!("{}", crate::ctx::hex(&x));
    }
}

fn collect(cx: &mut Ctx, r: &mut Rng) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if NONCE == 0 || !has_chal() {
        return out;
    }
    let h = pool().get("ok0");
    let mut p = Prov::empty();
    p.slots[0] = Some(SlotP { root_hash: sha2::hash(common_hash(), &pool().roots[0].der), certs: h.certs.clone(), key: h.leaf_key });
    let _ = r;
    for _ in 0..4 {
        let mut s = RspWorld::new(&p);
        let mut q = ReqWorld::new(0);
        for _ in 0..6 {
            let m = match q.next(cx, ROOM) {
                Some(m) => m,
                None => return out,
            };
            if m[1] == CHALLENGE {
                out.push(m[4..].to_vec());
            }
            let a = s.step(cx, &m, AMPLE);
            if m[1] == CHALLENGE && a.rsp.len() > 100 {
                let at = 4 + digest_len(common_hash());
                out.push(a.rsp[at..at + NONCE].to_vec());
            }
            if q.deliver(cx, &a.rsp) != Some(false) {
                break;
            }
        }
    }
    out
}

/// Fresh processes and fresh threads do not start from the same point.
pub fn starts(cx: &mut Ctx, r: &mut Rng) {
    if NONCE == 0 || !has_chal() {
        return;
    }
    if cx.case == 0 && !cfg!(miri) {
        let exe = std::env::current_exe().unwrap();
        for _ in 0..3 {
            let o = std::process::Command::new(&exe).arg("NONCES").output().unwrap();
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let l: Vec<&str> = t.lines().collect();
            if l.len() != 8 {
                // the session itself fails: judged elsewhere
                cx.count("nonces.process_without_session");
                continue;
            }
            for x in l {
                let b: Vec<u8> = (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect();
                fresh(cx, &b, "process");
            }
        }
        return;
    }
    let hs: Vec<_> = (0..4)
        .map(|_| {
            let seed = r.next();
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn(move || {
                    let mut c = Ctx::new("NONCES", false, seed, std::time::Instant::now());
                    let mut r = c.begin("nonces", 0, 0);
                    collect(&mut c, &mut r)
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        for x in h.join().unwrap() {
            fresh(cx, &x, "thread");
        }
    }
}

/// Two conversations that differ in one place leave transcripts that compare unequal, whatever
/// happened before in the same buffers.
pub fn compare(cx: &mut Ctx, r: &mut Rng) {
    let mk = |r: &mut Rng| {
        let mut p = good_peer(r);
        p.versions = vec![[1, 1, 0, 0]];
        p
    };
    let mut p1 = mk(r);
    let mut p2 = p1.clone();
    let differ = r.chance(1, 2);
    if differ {
        p2.ct = p1.ct ^ (1 << r.below(8));
    }
    let mut a = ReqWorld::new(0);
    let mut b = ReqWorld::new(0);
    // leave different rubbish behind the recorded part of one of them
    for _ in 0..r.below(20) {
        a.next(cx, ROOM);
    }
    if r.chance(1, 2) {
        b.next(cx, ROOM);
    }
    let ps: Vec<Rp> = phases().into_iter().filter(|x| !matches!(x, Rp::Version | Rp::Challenge | Rp::Done)).collect();
    let to = *r.pick(&ps);
    if !a.drive(cx, &mut p1, to) || !b.drive(cx, &mut p2, to) {
        return;
    }
    let (x, y) = (&a.lib, &b.lib);
    let res = cx.lib("transcript comparison", || (x.transcript() == y.transcript(), y.transcript() == x.transcript(), x.transcript().get() == y.transcript().get()));
    if let Some((e, f, bytes)) = res {
        cx.check(&["C04"], e == bytes && f == bytes, || format!("transcripts compare {e}/{f} but their contents compare {bytes}"));
        cx.count(if bytes { "compare.equal" } else { "compare.different" });
        let want = !differ || to == Rp::Caps;
        cx.check(&["C04"], bytes == want, || "recorded contents".into());
    }
    let _ = cost(&p1);
}
