//! Workloads that observe a requester.

use crate::certs::{self, pool, Hier};
use crate::ctx::Ctx;
use crate::gen;
use crate::model_req::*;
use crate::peer::Peer;
use crate::refcodec::*;
use crate::rng::Rng;
use crate::sha2;
use crate::util::*;
use crate::world::*;

/// Request buffer that holds every request.
pub const ROOM: usize = 512;

pub fn has_cert() -> bool {
    cfg().caps & CERT != 0
}
pub fn has_chal() -> bool {
    cfg().caps & (CERT | CHAL) == CERT | CHAL
}

/// Phases an honest session passes through, the finished one last.
pub fn phases() -> Vec<Rp> {
    let mut v = vec![Rp::Version, Rp::Caps, Rp::Algs];
    if has_cert() {
        v.extend([Rp::Digests, Rp::Cert]);
    }
    if has_chal() {
        v.push(Rp::Challenge);
    }
    v.push(Rp::Done);
    v
}

/// Upper bound of what a session with this peer records.
pub fn cost(p: &Peer) -> usize {
    let dl = digest_len(p.hash);
    let slots = p.digests_mask.count_ones() as usize;
    let auth = p.auth().enc().len();
    4 + 6 + 2 * p.versions.len() + 24 + 48 + p.algs().enc().len() + 4 + 4 + slots * dl + 8 + 8 + p.chain().len() + 4 + NONCE + auth
}

pub fn fits(h: &Hier, dl: usize) -> bool {
    h.certs.len() - 1 <= LIM.depth && 4 + dl + h.certs.iter().map(|c| c.len()).sum::<usize>() <= LIM.chain.min(65535)
}

/// A peer whose session the configured limits allow.
pub fn good_peer(r: &mut Rng) -> Peer {
    for i in 0..40 {
        let h: Hier;
        let hr: &Hier = if r.chance(1, 3) && CRYPTO && i < 8 {
            let depth = r.below(LIM.depth.min(6) + 1);
            let max = LIM.chain.min(65535).min(LIM.transcript.saturating_sub(500));
            let target = if r.chance(1, 2) { max } else { r.range(200.min(max), max) };
            h = certs::sized(depth, *r.pick(&[32, 48, 64]), target, r);
            &h
        } else {
            let v = pool().valid();
            *r.pick(&v)
        };
        let mut p = Peer::honest(r, hr);
        if !fits(hr, digest_len(p.hash)) {
            continue;
        }
        if cost(&p) > LIM.transcript {
            p.opaque.clear();
        }
        if cost(&p) <= LIM.transcript {
            return p;
        }
    }
    let mut p = Peer::honest(r, pool().get("ok0"));
    p.opaque.clear();
    p.mask = 1;
    p.digests_mask = 1;
    p
}

/// Anything from the other side, at any time.
pub fn any(cx: &mut Ctx, r: &mut Rng) {
    for _ in 0..4 {
        let mut p = good_peer(r);
        let mut w = ReqWorld::new(if r.chance(1, 8) { r.below(3) } else { 0 });
        w.fill = r.byte();
        let ps = phases();
        let to = *r.pick(&ps);
        if !w.drive(cx, &mut p, to) {
            if cx.diverged {
                return;
            }
            continue;
        }
        for _ in 0..r.range(1, 7) {
            if cx.diverged {
                return;
            }
            let ph = w.model.ph;
            match r.below(8) {
                0 => {
                    let h = rsp_for(r, ph, &mut p);
                    let x = if r.chance(1, 2) { h } else { gen::rsp_any(r, ph, &p, &h) };
                    w.deliver(cx, &x);
                }
                1 => {
                    w.next(cx, ROOM);
                    w.next(cx, ROOM);
                }
                2 => {
                    let n = r.below(60);
                    w.next(cx, n);
                }
                3 | 4 => {
                    if let Some(q) = w.next(cx, ROOM) {
                        if q.len() < 2 {
                            return;
                        }
                        let a = p.answer(&q);
                        w.deliver(cx, &a);
                    }
                }
                _ => {
                    let a = match w.next(cx, ROOM) {
                        Some(q) if q.len() > 1 => p.clone().answer(&q),
                        _ => rsp_for(r, ph, &mut p),
                    };
                    let x = gen::rsp_any(r, ph, &p, &a);
                    w.deliver(cx, &x);
                }
            }
        }
    }
}

/// What an honest peer would say in this phase without having been asked.
pub fn rsp_for(r: &mut Rng, ph: Rp, p: &mut Peer) -> Vec<u8> {
    let q = match ph {
        Rp::Version => get_version(),
        Rp::Caps => caps(GET_CAPABILITIES, 12, cfg().caps),
        Rp::Algs => Negotiate { spec: 1, asym: cfg().asym, hash: cfg().hashes, ext_asym: 0, ext_hash: 0, structs: OFFER.to_vec() }.enc(),
        Rp::Digests => get_digests(),
        Rp::Cert => get_cert(0, 0, 1024),
        Rp::Challenge => challenge(0, 0, &r.bytes(NONCE)),
        _ => get_version(),
    };
    p.clone().answer(&q)
}

/// Every phase against every message code, before and after the request was made.
pub fn order(cx: &mut Ctx, r: &mut Rng) {
    let ps = phases();
    let n = cx.case as usize;
    let to = ps[n % ps.len()];
    let code = gen::CODES[(n / ps.len()) % gen::CODES.len()];
    let asked = (n / ps.len() / gen::CODES.len()) % 2 == 1;
    let mut p = good_peer(r);
    let mut w = ReqWorld::new(0);
    if !w.drive(cx, &mut p, to) {
        return;
    }
    let mut honest = rsp_for(r, to, &mut p);
    if asked {
        match w.next(cx, ROOM) {
            Some(q) if q.len() > 1 => honest = p.answer(&q),
            _ => (),
        }
    }
    let kind = Rp::all().into_iter().find(|x| x.expects() == code);
    let mut x = match kind {
        Some(k) if k == to => honest.clone(),
        Some(k) => rsp_for(r, k, &mut p.clone()),
        None => {
            let mut x = honest.clone();
            if x.len() > 1 {
                x[1] = code;
                x[0] = ver_of(code);
            }
            x
        }
    };
    if r.chance(1, 6) {
        x[0] = *r.pick(&[0x10, 0x11, 0x12, 0x00, 0xFF]);
    }
    if r.chance(1, 8) {
        gen::tail(r, &mut x);
        cx.count("order.long");
    }
    let took = w.deliver(cx, &x);
    cx.count(if took.is_some() { "order.accepted" } else { "order.refused" });
    if cx.diverged {
        return;
    }
    // a refusal is final; an acceptance needs a new request first
    for _ in 0..2 {
        let ph = w.model.ph;
        let y = rsp_for(r, ph, &mut p);
        w.deliver(cx, &y);
        w.deliver(cx, &honest);
        w.next(cx, ROOM);
        if cx.diverged {
            return;
        }
        w.deliver(cx, &honest);
    }
}

/// Selections of algorithms.
pub fn algs(cx: &mut Ctx, r: &mut Rng) {
    let n = cx.case as usize;
    let mut p = good_peer(r);
    let bit = |i: usize, top: usize| if i >= top { 0 } else { 1u32 << i };
    let grid = 11 * 8 * 8;
    if n < grid {
        p.asym = bit(n % 11, 10);
        p.hash = bit(n / 11 % 8, 7);
        p.meas_hash = bit(n / 88, 7);
    } else if n < grid + 4 * 16 {
        let i = n - grid;
        p.structs = vec![AlgStruct { ty: 2 + (i / 16) as u8, bits: 1 << (i % 16), ext: 0 }];
    } else if n < grid + 4 * 16 + 4 * 64 {
        // several bits in one structure
        let i = n - grid - 64;
        p.structs = vec![AlgStruct { ty: 2 + (i / 64) as u8, bits: ((i % 64) as u16) << r.below(4), ext: 0 }];
    } else {
        match r.below(4) {
            0 => {
                p.asym = 1 << r.below(10);
            }
            1 => p.hash = if r.chance(1, 2) { 1 << r.below(7) } else { r.below(128) as u32 },
            2 => p.meas_hash = if r.chance(1, 2) { 1 << r.below(7) } else { r.below(128) as u32 },
            _ => (),
        }
        if r.chance(1, 2) {
            // up to four structures of any kinds, offered algorithms except in at most one of them
            let k = r.range(1, 4);
            p.structs = (0..k)
                .map(|_| {
                    let o = r.pick(&crate::model_req::OFFER);
                    let bits: Vec<u16> = (0..16).map(|i| 1 << i).filter(|b| o.bits & b != 0).collect();
                    AlgStruct { ty: o.ty, bits: *r.pick(&bits), ext: 0 }
                })
                .collect();
            if r.chance(1, 2) {
                p.structs.sort_by_key(|s| s.ty);
            }
            if r.chance(2, 3) {
                let s = &mut p.structs[if r.chance(1, 2) { k - 1 } else { r.below(k) }];
                let o = crate::model_req::OFFER.iter().find(|o| o.ty == s.ty).unwrap().bits;
                let defined = [0x3F, 0x7, 0x1FF, 0x1][usize::from(s.ty) - 2];
                let bits: Vec<u16> = (0..16).map(|i| 1 << i).filter(|b| defined & !o & b != 0).collect();
                if !bits.is_empty() {
                    s.bits = *r.pick(&bits);
                    cx.count("algs.one_not_offered");
                }
            }
        } else if r.chance(1, 2) {
            p.structs.clear();
            for _ in 0..r.below(5) {
                let ty = r.range(1, 6) as u8;
                p.structs.push(AlgStruct { ty, bits: if r.chance(4, 5) { 1 << r.below(9) } else { r.next() as u16 & 0x1FF }, ext: 0 });
            }
        }
    }
    let mut w = ReqWorld::new(0);
    if !w.drive(cx, &mut p.clone(), Rp::Algs) {
        return;
    }
    let q = match w.next(cx, ROOM) {
        Some(q) => q,
        None => return,
    };
    // the offer itself, judged independently of the model's comparison
    if q.len() >= 36 {
        let h = u32::from_le_bytes([q[12], q[13], q[14], q[15]]);
        let a = u32::from_le_bytes([q[8], q[9], q[10], q[11]]);
        cx.check(&["C11"], h != 0 && a != 0 || !CRYPTO, || "an empty offer".into());
        cx.check(&["C11"], [(1, 32), (2, 48), (4, 64)].iter().all(|(b, n)| h & b == 0 || *n <= LIM.digest), || {
            format!("hash offer {h:#x} exceeds the digest size {}", LIM.digest)
        });
    }
    let a = p.algs().enc();
    let got = w.deliver(cx, &a);
    cx.count(if got.is_some() { "algs.accepted" } else { "algs.refused" });
    if got == Some(false) && !cx.diverged && p.structs.iter().all(|s| s.ext == 0) {
        // a session with an accepted selection goes on with it
        let hash = p.hash;
        if hash.count_ones() == 1 && p.asym == 0x10 && fits_len(&p) && has_cert() {
            let mut q = p.clone();
            q.transcript = w.model.transcript.clone();
            let to = *phases().last().unwrap();
            if w.drive(cx, &mut q, to) {
                cx.count("algs.completed");
            }
        }
    }
}

fn fits_len(p: &Peer) -> bool {
    p.chain().len() <= LIM.chain && cost(p) <= LIM.transcript
}

/// Version lists.
pub fn versions(cx: &mut Ctx, r: &mut Rng) {
    let n = cx.case as usize;
    // every single entry that fits its nibbles: 16 per case in 4096 cases
    if n < 4096 {
        for low in 0..16u8 {
            let e = [(n >> 8) as u8 & 15, (n >> 4) as u8 & 15, n as u8 & 15, low];
            one_version(cx, r, &[e], 0);
            if cx.diverged {
                return;
            }
        }
        return;
    }
    let near = [[1u8, 1, 0, 0], [1, 0, 0, 0], [1, 2, 0, 0], [1, 1, 1, 0], [1, 1, 0, 1], [1, 0, 1, 0], [1, 0, 0, 1], [0, 1, 0, 0], [2, 0, 0, 0], [2, 1, 0, 0], [15, 15, 15, 15], [1, 15, 0, 0]];
    for _ in 0..8 {
        let k = r.below(4);
        let l: Vec<[u8; 4]> = (0..k)
            .map(|_| {
                if r.chance(3, 4) {
                    *r.pick(&near)
                } else {
                    let v = r.next();
                    [v as u8 & 15, (v >> 8) as u8 & 15, (v >> 16) as u8 & 15, (v >> 24) as u8 & 15]
                }
            })
            .collect();
        let count = if r.chance(1, 6) { r.byte() } else { 0 };
        one_version(cx, r, &l, count);
        if cx.diverged {
            return;
        }
    }
}

fn one_version(cx: &mut Ctx, r: &mut Rng, l: &[[u8; 4]], count: u8) {
    let mut w = ReqWorld::new(0);
    if w.next(cx, ROOM).is_none() {
        return;
    }
    let mut v = version(l);
    if count != 0 {
        v[5] = count;
    }
    match w.deliver(cx, &v) {
        Some(_) => {
            cx.count("versions.accepted");
            if r.chance(1, 16) {
                w.next(cx, ROOM);
            }
        }
        None => cx.count("versions.refused"),
    }
}

/// Every subset of the peer's capabilities, sessions to the end.
pub fn caps_wl(cx: &mut Ctx, r: &mut Rng) {
    let mut p = good_peer(r);
    let n = cx.case as u32;
    // spread the bits of the case number over the defined flags
    let mut f = 0;
    let mut k = 0;
    for b in 0..32 {
        if RSP_MASK >> b & 1 == 1 {
            if n >> k & 1 == 1 {
                f |= 1 << b;
            }
            k += 1;
        }
    }
    // the deciding flags first: bits 1 and 2 of the word always follow the lowest case bits
    f = f & !(CERT | CHAL) | if n & 1 == 0 { CERT } else { 0 } | if n >> 1 & 1 == 0 { CHAL } else { 0 };
    if n >= 64 && r.chance(1, 2) {
        f = f & (CERT | CHAL) | r.next() as u32 & RSP_MASK & !(CERT | CHAL);
    }
    if r.chance(1, 10) {
        f |= 1 << r.below(32);
    }
    p.caps = f;
    p.ct = r.byte();
    let mut w = ReqWorld::new(0);
    if w.drive(cx, &mut p, Rp::Done) {
        cx.count(&format!("caps.done.{}{}", if f & CERT != 0 { "C" } else { "-" }, if f & CHAL != 0 { "H" } else { "-" }));
    } else if !cx.diverged {
        cx.count("caps.refused");
    }
}

/// Too small buffers before every request; the session must not notice.
pub fn buffers(cx: &mut Ctx, r: &mut Rng) {
    let mut p = good_peer(r);
    let mut w = ReqWorld::new(0);
    w.fill = r.byte();
    for _ in 0..8 {
        let need = match w.model.request() {
            Some(q) => q.len(),
            None => break,
        };
        for _ in 0..r.below(4) {
            let n = if r.chance(1, 2) { need - 1 } else { r.below(need) };
            w.next(cx, n);
            cx.count("buffers.small");
            if cx.diverged {
                return;
            }
        }
        let q = match w.next(cx, need + if r.chance(1, 2) { 0 } else { r.below(40) }) {
            Some(q) if q.len() > 1 => q,
            _ => return,
        };
        cx.count("buffers.retried");
        let again = if w.model.ph == Rp::Version { 2 } else { 10 };
        let q = if r.chance(1, again) {
            // asked again while a response is outstanding
            let mut last = q;
            for _ in 0..r.range(1, 3) {
                let n = if r.chance(1, 2) { r.below(need) } else { need + r.below(4) };
                if let Some(again) = w.next(cx, n) {
                    last = again;
                }
                cx.count("buffers.asked_again");
                if cx.diverged {
                    return;
                }
            }
            last
        } else {
            q
        };
        let a = p.answer(&q);
        if w.deliver(cx, &a).is_none() {
            return;
        }
    }
    if w.model.ph == Rp::Done {
        cx.count("buffers.completed");
        // nothing more is produced, in any buffer
        let n = r.below(100);
        w.next(cx, n);
    }
}

/// Certificate chains of every kind, signed with the key of the last certificate.
pub fn chains(cx: &mut Ctx, r: &mut Rng) {
    if !has_cert() {
        return;
    }
    let n = cx.case as usize;
    let hs = &pool().hiers;
    let mut p = Peer::honest(r, &hs[n % hs.len()]);
    if r.chance(3, 4) {
        p.opaque.clear();
    }
    let mode = n / hs.len();
    let mut raw: Option<Vec<u8>> = None;
    match if mode < 2 { 0 } else { r.range(1, 7) } {
        0 => (),
        1 => {
            // a damaged certificate
            let i = r.below(p.certs.len());
            let c = &mut p.certs[i];
            let k = r.below(c.len());
            c[k] ^= 1 << r.below(8);
        }
        2 => {
            // certificates of two hierarchies
            let o = r.pick(hs);
            let i = r.below(p.certs.len() + 1);
            let c = r.pick(&o.certs).clone();
            p.certs.insert(i, c);
            if i + 1 == p.certs.len() && r.chance(1, 2) {
                if let Some(m) = certs::lookup(p.certs.last().unwrap()) {
                    p.key = m.key;
                }
            }
        }
        3 => {
            let i = r.below(p.certs.len());
            let j = r.below(p.certs.len());
            p.certs.swap(i, j);
            if let Some(m) = certs::lookup(p.certs.last().unwrap()) {
                p.key = m.key;
            }
        }
        4 => {
            let n = r.below(LIM.chain + 8);
            raw = Some(gen::der_soup(r, digest_len(p.hash), n));
        }
        5 => {
            let mut c = p.chain();
            gen::mutate(r, &mut c);
            if r.chance(1, 2) && c.len() >= 2 {
                let l = c.len();
                c[0] = l as u8;
                c[1] = (l >> 8) as u8;
            }
            raw = Some(c);
        }
        6 => {
            // empty, or a certificate cut short
            if r.chance(1, 3) {
                p.certs.clear();
                p.certs.push(vec![]);
            } else {
                let i = r.below(p.certs.len());
                let l = p.certs[i].len();
                let k = r.below(l);
                p.certs[i].truncate(k);
            }
        }
        _ => {
            // the root itself delivered as well
            p.certs.insert(0, pool().roots[r.below(3)].der.clone());
        }
    }
    let root = if r.chance(1, 6) { r.range(1, 2) } else { 0 };
    let mut w = ReqWorld::new(root);
    if !w.drive(cx, &mut p, Rp::Cert) {
        return;
    }
    let q = match w.next(cx, ROOM) {
        Some(q) => q,
        None => return,
    };
    p.transcript = w.model.transcript.clone();
    let ch = match raw {
        Some(c) => c,
        None => {
            if p.chain().len() > 65535 {
                return;
            }
            p.chain()
        }
    };
    let _ = q;
    let a = certificate(0, 0, &ch);
    match w.deliver(cx, &a) {
        None => {
            cx.count("chains.refused_early");
            return;
        }
        Some(true) => return,
        Some(false) => (),
    }
    let q = match w.next(cx, ROOM) {
        Some(q) => q,
        None => return,
    };
    // the answer, for the chain as delivered
    let mut t = w.model.transcript.clone();
    let _ = &q;
    let mut au = p.auth();
    au.hash = sha2::hash(p.hash, &ch);
    let mut m = au.enc();
    let n = m.len() - 64;
    t.extend_from_slice(&m[..n]);
    m.truncate(n);
    m.extend(certs::sign_raw(p.key, &sha2::hash(p.hash, &t)));
    match w.deliver(cx, &m) {
        Some(_) => cx.count("chains.accepted"),
        None => cx.count("chains.refused"),
    }
}

/// Every position of every honest response: cut there, or changed there.
pub fn sweep(cx: &mut Ctx, r: &mut Rng) {
    let mut ps = phases();
    ps.pop();
    let n = cx.case as usize;
    let to = ps[n % ps.len()];
    let pos = n / ps.len();
    let base = good_peer(r);
    // what the genuine key signs may be edited as well: the answer of another
    // slot, another mask, another chain hash
    let ops = if to == Rp::Challenge { 8 } else { 4 };
    for op in 0..ops {
        let mut p = base.clone();
        let mut w = ReqWorld::new(0);
        if !w.drive(cx, &mut p, to) {
            return;
        }
        let q = match w.next(cx, ROOM) {
            Some(q) if q.len() > 1 => q,
            _ => return,
        };
        let mut a = p.answer(&q);
        let at = pos % a.len();
        match op {
            0 => a.truncate(at),
            1 => a[at] ^= 1,
            2 => a[at] ^= 0x80,
            3 => a[at] = r.byte(),
            _ => {
                let n = a.len() - 64;
                let at = pos % n;
                match op {
                    4 => a[at] ^= 1 << r.below(8),
                    5 => a[at] = r.byte(),
                    6 => a[2] = (a[2] & 0xf0) | (pos % 16) as u8,
                    _ => {
                        a[2] = (a[2] & 0xf0) | r.below(16) as u8;
                        a[3] = if r.chance(1, 2) { 1 << (a[2] & 7) } else { r.byte() };
                    }
                }
                let mut t = w.model.transcript.clone();
                t.extend_from_slice(&a[..n]);
                a.truncate(n);
                a.extend(certs::sign_raw(p.key, &sha2::hash(p.hash, &t)));
                cx.count("sweep.resigned");
            }
        }
        match w.deliver(cx, &a) {
            Some(_) => cx.count("sweep.accepted"),
            None => cx.count("sweep.refused"),
        }
        if cx.diverged {
            return;
        }
    }
}

/// Requests repeated until the transcript is full.
pub fn long(cx: &mut Ctx, r: &mut Rng) {
    let mut p = good_peer(r);
    let mut w = ReqWorld::new(0);
    let mut ps = phases();
    ps.pop();
    let to = ps[cx.case as usize % ps.len()];
    if !w.drive(cx, &mut p, to) {
        return;
    }
    let need = w.model.request().unwrap().len();
    let times = LIM.transcript / need + 3;
    let stop = if r.chance(1, 2) { times } else { r.below(times) };
    for _ in 0..stop.min(6000) {
        if w.next(cx, ROOM).is_none() {
            break;
        }
        if cx.diverged {
            return;
        }
    }
    if !w.model.room(need) {
        cx.count("long.full");
    }
    p.transcript = w.model.transcript.clone();
    // the last one is answered
    if !w.model.outstanding {
        return;
    }
    let mut a = rsp_for(r, to, &mut p);
    if to == Rp::Challenge {
        let mut t = w.model.transcript.clone();
        let n = a.len() - 64;
        t.extend_from_slice(&a[..n]);
        a.truncate(n);
        a.extend(certs::sign_raw(p.key, &sha2::hash(p.hash, &t)));
    }
    match w.deliver(cx, &a) {
        Some(_) => cx.count("long.accepted"),
        None => cx.count("long.refused"),
    }
}

// ---------------------------------------------------------------- attacks
/// What an attacker without the genuine key can try. Each class must fail.
const ATTACKS: &[&str] = &[
    "none", "wrong-key", "bad-chain", "other-root", "drop-message", "repeat-message", "no-challenge", "unhashed",
    "other-hash", "nonce-after", "replay", "zero-sig", "const-sig", "der-sig", "edge-sig", "trailing", "cut",
    "chain-hash", "chain-hash-other", "slot", "mask", "see-version", "see-caps", "see-algs", "see-digests",
    "see-cert", "sent-changed", "leaf-as-ca", "appended-leaf", "swapped-leaf", "skip-challenge", "skip-cert",
    "unsolicited", "damaged-cert", "damaged-auth", "other-nonce", "previous-session", "cert-slot", "rand-sig",
    "announced", "named-only", "bad-root",
];

pub fn attacks(cx: &mut Ctx, r: &mut Rng) {
    if !has_chal() {
        return;
    }
    let class = ATTACKS[cx.case as usize % ATTACKS.len()];
    let mut p = good_peer(r);
    let mut root = 0;
    let mut anchor: Vec<u8> = vec![];
    let attacker = 240 + r.below(4) as u8;
    // what the requester is told may differ from what is signed
    let mut see: Option<(Rp, usize)> = None;
    let mut applies = true;
    match class {
        "wrong-key" => p.key = attacker,
        "bad-chain" => {
            let bad: Vec<&Hier> = pool().hiers.iter().filter(|h| !h.valid && fits(h, 64)).collect();
            let h = *r.pick(&bad);
            p.certs = h.certs.clone();
            p.key = h.leaf_key;
            cx.count(&format!("attack.chain.{}", h.name));
        }
        "announced" | "named-only" => {
            // signed by the genuine key, but about another chain than the one sent
            let h = match r.below(5) {
                0 => sha2::hash(p.hash, p.certs.last().unwrap()),
                1 => sha2::hash(p.hash, &p.certs.concat()),
                2 => sha2::hash(p.hash, &p.chain()[4..]),
                3 => sha2::hash(p.hash, &pool().roots[0].der),
                _ => r.bytes(digest_len(p.hash)),
            };
            if class != "named-only" {
                p.announced = Some(h.clone());
                p.digests_mask |= 1;
            }
            p.named = Some(h);
        }
        "other-root" => root = r.range(1, 2),
        "bad-root" => {
            root = certs::NO_ROOT;
            let d = &pool().roots[0].der;
            anchor = match r.below(7) {
                0 => vec![],
                1 => {
                    let k = r.below(100);
                    r.bytes(k)
                }
                2 => d[..r.below(d.len())].to_vec(),
                3 => d[r.range(1, d.len() - 1)..].to_vec(),
                4 => vec![0; d.len()],
                5 => {
                    let k = r.below(100);
                    crate::der::tlv(0x30, &r.bytes(k))
                }
                _ => {
                    // every byte is there
                    d.iter().rev().copied().collect()
                }
            };
            if r.chance(1, 2) {
                // a chain of the attacker's own, every certificate in it issued properly
                let mut list = vec![];
                let n = r.range(1, LIM.depth.min(3) + 1);
                for i in 0..n {
                    let (sub, iss) = (format!("M{i}"), format!("M{}", i.saturating_sub(1)));
                    let s = certs::spec(&sub, &iss, attacker, attacker, i + 1 < n);
                    let (c, mm) = certs::build(&s);
                    certs::register(&c, mm);
                    list.push(c);
                }
                p.certs = list;
                p.key = attacker;
            }
        }
        "see-version" => see = Some((Rp::Version, 0)),
        "see-caps" => see = Some((Rp::Caps, 0)),
        "see-algs" => see = Some((Rp::Algs, 0)),
        "see-digests" => see = Some((Rp::Digests, 0)),
        "see-cert" => see = Some((Rp::Cert, 0)),
        "leaf-as-ca" => {
            // a certificate issued with the genuine leaf's key
            let m = certs::lookup(p.certs.last().unwrap()).unwrap();
            let s = certs::spec("Mallory", &m.subject, attacker, m.key, false);
            let (c, mm) = certs::build(&s);
            certs::register(&c, mm);
            p.certs.push(c);
            p.key = attacker;
        }
        "appended-leaf" => {
            let s = certs::spec("Mallory", "Mallory", attacker, attacker, r.chance(1, 2));
            let (c, mm) = certs::build(&s);
            certs::register(&c, mm);
            p.certs.push(c);
            p.key = attacker;
        }
        "swapped-leaf" => {
            let m = certs::lookup(p.certs.last().unwrap()).unwrap();
            let s = certs::spec(&m.subject, &m.issuer, attacker, attacker, false);
            let (c, mm) = certs::build(&s);
            certs::register(&c, mm);
            *p.certs.last_mut().unwrap() = c;
            p.key = attacker;
        }
        "damaged-cert" => {
            let i = r.below(p.certs.len());
            let k = r.below(p.certs[i].len());
            p.certs[i][k] ^= 1 << r.below(8);
        }
        _ => (),
    }
    if p.certs.len() - 1 > LIM.depth || p.chain().len() > LIM.chain || cost(&p) > LIM.transcript {
        if class == "leaf-as-ca" || class == "appended-leaf" {
            cx.count("attack.too_long");
        } else {
            return;
        }
    }
    // an earlier session with the genuine device, recorded by the attacker
    let mut recorded: Vec<Vec<u8>> = vec![];
    if matches!(class, "replay" | "previous-session") {
        let mut p0 = p.clone();
        let mut w0 = ReqWorld::new(root);
        loop {
            let q = match w0.next(cx, ROOM) {
                Some(q) if q.len() > 1 => q,
                _ => break,
            };
            let a = p0.answer(&q);
            recorded.push(a.clone());
            match w0.deliver(cx, &a) {
                Some(true) | None => break,
                _ => (),
            }
        }
        if cx.diverged || recorded.len() != 6 {
            return;
        }
    }
    let mut w = match root {
        certs::NO_ROOT => ReqWorld::with_root(&anchor, root),
        _ => ReqWorld::new(root),
    };
    let mut done = false;
    for i in 0..8usize {
        let ph = w.model.ph;
        if ph == Rp::Error || ph == Rp::Done {
            break;
        }
        let mut q = match w.next(cx, ROOM) {
            Some(q) if q.len() > 1 => q,
            _ => break,
        };
        let here = *r.pick(&[Rp::Caps, Rp::Algs, Rp::Digests, Rp::Cert, Rp::Version, Rp::Challenge]);
        if class == "sent-changed" && ph == here && see.is_none() {
            // the device receives something else (it is signed as received)
            let k = r.range(2, q.len() - 1);
            q[k] ^= 1 << r.below(8);
            see = Some((ph, 1));
        }
        let mut a = p.answer(&q);
        if let Some((sp, kind)) = see {
            if sp == ph && kind == 0 {
                let before = a.clone();
                tamper(r, ph, &mut a, &p);
                if a == before {
                    applies = false;
                }
            }
        }
        if ph == Rp::Cert && class == "cert-slot" {
            a[2] = r.range(1, 15) as u8;
        }
        if ph == Rp::Digests && class == "skip-cert" {
            // straight to the end
            let x = p.clone().answer(&challenge(0, 0, &r.bytes(NONCE)));
            a = x;
        }
        if ph == Rp::Cert && class == "skip-challenge" {
            a = p.clone().answer(&challenge(0, 0, &r.bytes(NONCE)));
        }
        if matches!(class, "replay") {
            a = recorded[i].clone();
        }
        if ph == Rp::Challenge {
            let n = a.len();
            let dl = digest_len(p.hash);
            let t = p.transcript.clone(); // up to and including the unsigned part
            let tbs = a[..n - 64].to_vec();
            let sign = |k: u8, b: &[u8]| certs::sign_raw(k, &sha2::hash(p.hash, b));
            let set = |a: &mut Vec<u8>, s: &[u8]| a.splice(n - 64.., s.iter().copied()).for_each(drop);
            match class {
                "drop-message" => {
                    // leave out a stretch of what was exchanged
                    let cuts = [4, 12, 16, 24, 36];
                    let c = *r.pick(&cuts);
                    let s = sign(p.key, &t[c.min(t.len())..]);
                    set(&mut a, &s);
                }
                "repeat-message" => {
                    let mut u = get_version();
                    u.extend_from_slice(&t);
                    let s = sign(p.key, &u);
                    set(&mut a, &s);
                }
                "no-challenge" => {
                    let u = t[..t.len() - tbs.len() - 4 - NONCE].to_vec();
                    let mut v = u.clone();
                    if r.chance(1, 2) {
                        v.extend_from_slice(&tbs);
                    }
                    let s = sign(p.key, &v);
                    set(&mut a, &s);
                }
                "unhashed" => {
                    let s = certs::sign_raw(p.key, &t);
                    set(&mut a, &s);
                }
                "other-hash" => {
                    let o = *r.pick(&[1u32, 2, 4]);
                    if o == p.hash {
                        applies = false;
                    }
                    let s = certs::sign_raw(p.key, &sha2::hash(o, &t));
                    set(&mut a, &s);
                }
                "nonce-after" => {
                    let k = 4 + dl + r.below(NONCE);
                    a[k] ^= 1 << r.below(8);
                }
                "zero-sig" => set(&mut a, &[0; 64]),
                "const-sig" => {
                    let b = r.byte();
                    set(&mut a, &[b; 64]);
                }
                "rand-sig" => {
                    let b = r.bytes(64);
                    set(&mut a, &b);
                }
                "der-sig" => {
                    let d = certs::sign_der(p.key, &sha2::hash(p.hash, &t));
                    if r.chance(1, 2) {
                        a.truncate(n - 64);
                        a.extend(&d);
                    } else {
                        let mut d = d;
                        d.resize(64, 0);
                        set(&mut a, &d);
                    }
                }
                "edge-sig" => {
                    const N: [u8; 32] = [
                        0xFF, 0xFF, 0xFF, 0xFF, 0, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xBC, 0xE6, 0xFA, 0xAD, 0xA7, 0x17, 0x9E, 0x84,
                        0xF3, 0xB9, 0xCA, 0xC2, 0xFC, 0x63, 0x25, 0x51,
                    ];
                    let mut s = a[n - 64..].to_vec();
                    match r.below(6) {
                        0 => s[..32].fill(0),
                        1 => s[32..].fill(0),
                        2 => s[..32].copy_from_slice(&N),
                        3 => s[32..].copy_from_slice(&N),
                        4 => {
                            let (x, y) = s.split_at_mut(32);
                            x.swap_with_slice(y);
                        }
                        _ => s.reverse(),
                    }
                    set(&mut a, &s);
                }
                "trailing" => {
                    let k = r.range(1, 64);
                    let x = r.bytes(k);
                    a.extend(x);
                }
                "cut" => {
                    let k = r.range(1, 64.min(n - 2));
                    a.truncate(n - k);
                }
                "chain-hash" | "chain-hash-other" | "slot" | "mask" => {
                    let mut au = p.auth();
                    match class {
                        "chain-hash" => {
                            let k = r.below(dl);
                            au.hash[k] ^= 1 << r.below(8);
                        }
                        "chain-hash-other" => {
                            let other = match r.below(4) {
                                0 => sha2::hash(p.hash, p.certs.last().unwrap()),
                                1 => vec![0; dl],
                                2 => {
                                    let c = p.chain();
                                    sha2::hash(p.hash, &c[4 + dl..])
                                }
                                _ => sha2::hash(p.hash, &pool().roots[0].der),
                            };
                            au.hash = other;
                        }
                        "slot" => {
                            au.slot = r.range(1, 15) as u8;
                            au.mask = 0xFF;
                        }
                        _ => au.mask &= !1,
                    }
                    let mut m = au.enc();
                    let k = m.len() - 64;
                    let mut u = t[..t.len() - tbs.len()].to_vec();
                    u.extend_from_slice(&m[..k]);
                    let s = sign(p.key, &u);
                    m.truncate(k);
                    m.extend(s);
                    a = m;
                }
                "damaged-auth" => {
                    let k = r.below(a.len());
                    a[k] ^= 1 << r.below(8);
                }
                "other-nonce" => {
                    // signed for another challenge value
                    let at = t.len() - tbs.len() - NONCE;
                    let mut u = t.clone();
                    let k = at + r.below(NONCE);
                    u[k] ^= 1 << r.below(8);
                    let s = sign(p.key, &u);
                    set(&mut a, &s);
                }
                "previous-session" => {
                    a = recorded[5].clone();
                }
                "unsolicited" => {
                    // delivered twice, or before asking
                    let mut w2 = ReqWorld::new(root);
                    let mut p2 = p.clone();
                    if w2.drive(cx, &mut p2, Rp::Challenge) {
                        let x = rsp_for(r, Rp::Challenge, &mut p2);
                        let d = w2.deliver(cx, &x);
                        cx.check(&["C01"], d != Some(true), || "an unsolicited response authenticated the peer".into());
                    }
                    if cx.diverged {
                        return;
                    }
                }
                _ => (),
            }
        }
        match w.deliver(cx, &a) {
            Some(true) => {
                done = true;
                break;
            }
            Some(false) => (),
            None => break,
        }
        if cx.diverged {
            return;
        }
    }
    if class == "sent-changed" && see.is_none() {
        applies = false;
    }
    let honest = matches!(class, "none" | "unsolicited");
    if honest {
        if !cx.check(&["C01", "C02"], done, || "control: the genuine session does not complete".into()) {
            return;
        }
        cx.count("attack.control_completed");
    } else if applies {
        cx.check(&["C01"], !done, || format!("attack {class} succeeded"));
        cx.count(&format!("attack.{class}"));
    }
    cx.distinct(crate::rng::mix(cx.case ^ (done as u64) << 60));
}

/// Change a response without making it unacceptable in itself.
fn tamper(r: &mut Rng, ph: Rp, a: &mut Vec<u8>, p: &Peer) {
    match ph {
        Rp::Version => {
            let mut v = p.versions.clone();
            if v.len() > 1 && r.chance(1, 2) {
                v.retain(|e| *e == [1, 1, 0, 0] || *e == [1, 0, 0, 0]);
                v.truncate(1);
            } else {
                v = if v[0] == [1, 0, 0, 0] { vec![[1, 1, 0, 0]] } else { vec![[1, 0, 0, 0]] };
            }
            *a = version(&v);
        }
        Rp::Caps => match r.below(2) {
            0 => a[5] ^= 1 << r.below(8),
            _ => {
                // another flag
                let opts: Vec<usize> = (0..32).filter(|b| RSP_MASK >> b & 1 == 1 && ![1, 2].contains(b)).collect();
                let b = *r.pick(&opts);
                a[8 + b / 8] ^= 1 << (b % 8);
            }
        },
        Rp::Algs => {
            let mut x = p.algs();
            if x.structs.is_empty() {
                x.structs.push(AlgStruct { ty: 2, bits: 0x10, ext: 0 });
            } else {
                x.structs.pop();
            }
            *a = x.enc();
        }
        Rp::Digests => {
            if a.len() > 8 {
                let k = r.range(4, a.len() - 1);
                a[k] ^= 1 << r.below(8);
            }
        }
        Rp::Cert => {
            // another valid chain, for which the attacker has no key; or a changed root hash
            if r.chance(1, 2) {
                let k = 8 + 4 + r.below(digest_len(p.hash));
                a[k] ^= 1 << r.below(8);
            } else {
                let hs: Vec<&Hier> = pool().valid().into_iter().filter(|h| fits(h, 64) && h.leaf_key != p.key).collect();
                let h = *r.pick(&hs);
                let ch = chain(&sha2::hash(p.hash, &pool().roots[0].der), &h.certs);
                if ch.len() <= p.chain().len() {
                    *a = certificate(0, 0, &ch);
                } else {
                    let k = 8 + 4 + r.below(digest_len(p.hash));
                    a[k] ^= 1 << r.below(8);
                }
            }
        }
        _ => (),
    }
}
