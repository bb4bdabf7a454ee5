//! Workloads that observe a responder.

use crate::ctx::Ctx;
use crate::gen;
use crate::model_rsp::*;
use crate::refcodec::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;

pub const AMPLE: usize = 8192 + LIM.chain;

pub fn phases() -> Vec<Ph> {
    let mut v = vec![Ph::Version, Ph::Caps, Ph::Algs, Ph::IdAuth];
    if cfg().caps & CERT != 0 {
        v.push(Ph::Challenge);
    }
    v
}

/// A population in which every chain fits the buffer (and the session the transcript, if small).
pub fn prov_small(r: &mut Rng) -> Prov {
    let mut p = Prov::gen(r);
    for i in 0..LIM.slots {
        if let Some(s) = &mut p.slots[i] {
            while s.chain().len() > LIM.chain || s.chain().len() > LIM.transcript / 4 {
                if s.certs.len() > 1 {
                    s.certs.remove(0);
                } else {
                    let n = s.certs[0].len() / 2;
                    s.certs[0] = blob(r, n.max(8));
                }
            }
        }
    }
    p
}

fn filled(m: &RspModel) -> Vec<u8> {
    (0..m.slots.len()).filter(|i| m.slots[*i].is_some()).map(|i| i as u8).collect()
}

fn rand_fault(r: &mut Rng) -> Fault {
    match r.below(8) {
        0 | 1 => Fault::Fail,
        2 => Fault::Len(*r.pick(&[0, 1, 32, 63, 65, 96, 128, 1024])),
        3 => Fault::Len(r.below(200)),
        4 => Fault::Garbage(r.byte()),
        5 => Fault::WrongKey(200 + r.below(4) as u8),
        _ => Fault::None,
    }
}

/// Anything at any time.
pub fn any(cx: &mut Ctx, r: &mut Rng) {
    let p = if r.chance(1, 2) { prov_small(r) } else { Prov::gen(r) };
    let mut w = RspWorld::new(&p);
    w.fill = r.byte();
    let faulty = r.chance(1, 4);
    let tame = r.chance(1, 2);
    if r.chance(2, 3) {
        let ps = phases();
        let to = *r.pick(&ps);
        w.drive(cx, r, to);
    }
    for _ in 0..r.range(3, 25) {
        if cx.diverged {
            return;
        }
        if faulty && r.chance(1, 3) {
            w.fault(r.below(LIM.slots), rand_fault(r));
        }
        let q = if tame && r.chance(2, 3) { gen::req_valid(r, &w.model) } else { gen::req_any(r, &w.model) };
        let need = w.model.predict(&q, usize::MAX).len;
        let buf = if tame { AMPLE } else { gen::bufsize(r, need) };
        let s = w.step(cx, &q, buf);
        if s.lost {
            return;
        }
        if w.model.ph == Ph::Error && r.chance(2, 3) {
            w.reset(cx);
        }
    }
}

/// Every phase against every message code, then proof that the session is over.
pub fn order(cx: &mut Ctx, r: &mut Rng) {
    let p = prov_small(r);
    let mut w = RspWorld::new(&p);
    let ps = phases();
    let to = ps[cx.case as usize % ps.len()];
    if !w.drive(cx, r, to) {
        return;
    }
    // a few legal repetitions first
    if to == Ph::IdAuth || to == Ph::Challenge {
        for _ in 0..r.below(3) {
            let q = if to == Ph::IdAuth { get_digests() } else { gen::req_valid(r, &w.model) };
            if w.step(cx, &q, AMPLE).lost {
                return;
            }
        }
    }
    if w.model.ph == Ph::Error {
        w.reset(cx);
    }
    let code = gen::CODES[(cx.case as usize / ps.len()) % gen::CODES.len()];
    let q = {
        let mut m = w.model.clone();
        m.ph = match code {
            GET_VERSION => Ph::Version,
            GET_CAPABILITIES => Ph::Caps,
            NEGOTIATE_ALGORITHMS => Ph::Algs,
            GET_DIGESTS | GET_CERTIFICATE => Ph::IdAuth,
            CHALLENGE => Ph::Challenge,
            _ => Ph::Error,
        };
        match code {
            GET_DIGESTS => get_digests(),
            GET_CERTIFICATE => get_cert(*filled(&m).first().unwrap_or(&0), 0, LIM.chain.min(65535) as u16),
            c if m.ph == Ph::Error => {
                let n = r.below(60);
                let mut v = hdr(c);
                v.extend(if r.chance(1, 2) { vec![0; n] } else { r.bytes(n) });
                if c == GET_MEASUREMENTS {
                    v = GetMeas { sig: r.chance(1, 2), raw: false, index: r.byte(), nonce: vec![1; NONCE], slot: 0 }.enc();
                }
                v
            }
            _ => gen::req_valid(r, &m),
        }
    };
    let mut q = q;
    if r.chance(1, 8) {
        gen::tail(r, &mut q);
        cx.count("order.long");
    }
    if w.step(cx, &q, AMPLE).lost || cx.diverged {
        return;
    }
    if w.model.ph == Ph::Error {
        // terminated: nothing is answered any more, however legal
        for i in 0..6u8 {
            let q = if i % 2 == 0 { get_version() } else { gen::req_other(r, &w.model) };
            if w.step(cx, &q, AMPLE).lost || cx.diverged {
                return;
            }
            cx.count("responder.sticky_refusals");
        }
        w.reset(cx);
    }
    let last = *ps.last().unwrap();
    if w.model.ph != Ph::Version || r.chance(1, 2) {
        w.drive(cx, r, last);
    }
}

/// Every truncation, and every byte altered, of a legal request in every phase.
pub fn sweep(cx: &mut Ctx, r: &mut Rng) {
    let p = prov_small(r);
    let ps = phases();
    let to = ps[cx.case as usize % ps.len()];
    let mut w = RspWorld::new(&p);
    if !w.drive(cx, r, to) || cx.diverged {
        return;
    }
    let base = if to == Ph::IdAuth && r.chance(1, 2) { get_digests() } else { gen::req_valid(r, &w.model) };
    let mut variants: Vec<Vec<u8>> = vec![];
    for n in 0..base.len() {
        variants.push(base[..n].to_vec());
    }
    for i in 0..base.len().min(80) {
        let mut v = base.clone();
        v[i] ^= 1 << r.below(8);
        variants.push(v);
        let mut v = base.clone();
        v[i] = r.byte();
        variants.push(v);
    }
    for v in variants {
        if w.step(cx, &v, AMPLE).lost || cx.diverged {
            return;
        }
        if r.chance(1, 2) {
            w.reset(cx);
        } else if w.model.ph != Ph::Error {
            let s = w.step(cx, &get_version(), AMPLE);
            if s.lost {
                return;
            }
        }
        if !w.drive(cx, r, to) || cx.diverged {
            return;
        }
    }
}

pub fn algs(cx: &mut Ctx, r: &mut Rng) {
    let p = prov_small(r);
    let mut w = RspWorld::new(&p);
    for _ in 0..8 {
        if !w.drive(cx, r, Ph::Algs) || cx.diverged {
            return;
        }
        let q = match r.below(6) {
            0 => gen::negotiate_odd(r).enc(),
            1 => gen::req_odd(r, &w.model),
            2 => {
                // exactly one offered bit of each
                let mut n = gen::negotiate_valid(r);
                n.asym = 1 << r.below(9);
                n.hash = 1 << r.below(6);
                for s in &mut n.structs {
                    s.bits = 1 << r.below(match s.ty { 2 => 6, 3 => 3, 4 => 9, _ => 1 });
                }
                n.enc()
            }
            3 => {
                let mut n = gen::negotiate_valid(r);
                n.asym = (r.next() as u32) & 0x1FF;
                n.hash = (r.next() as u32) & 0x3F;
                n.enc()
            }
            4 => {
                // the requester of this library
                let mut m = crate::model_req::ReqModel::new(0);
                m.ph = crate::model_req::Rp::Algs;
                m.request().unwrap()
            }
            _ => gen::negotiate_valid(r).enc(),
        };
        let s = w.step(cx, &q, AMPLE);
        if s.lost || cx.diverged {
            return;
        }
        if s.ok {
            cx.count(&format!("algs.offer_{:02x}_selected_hash_{:x}", q.get(12).copied().unwrap_or(0) & 0x3F, w.model.hash));
            // the selected hash is used from here on
            if cfg().caps & CERT != 0 {
                if w.step(cx, &get_digests(), AMPLE).lost || cx.diverged {
                    return;
                }
            }
            if cfg().caps & CERT != 0 && cfg().caps & CHAL != 0 && w.model.ph == Ph::IdAuth && !filled(&w.model).is_empty() {
                if w.drive(cx, r, Ph::Challenge) {
                    let c = gen::req_valid(r, &w.model);
                    if w.step(cx, &c, AMPLE).lost || cx.diverged {
                        return;
                    }
                }
            }
            cx.sample(|| format!("negotiate {} -> hash {:#x}", hexs(&q), w.model.hash));
        }
        restart(cx, r, &mut w);
    }
}

fn restart(cx: &mut Ctx, r: &mut Rng, w: &mut RspWorld) {
    if w.model.ph == Ph::Error || r.chance(1, 2) {
        w.reset(cx);
    } else {
        w.step(cx, &get_version(), AMPLE);
    }
}

/// Every combination of offered hashes and signing algorithms (the case number selects it).
pub fn algs_all(cx: &mut Ctx, r: &mut Rng) {
    let p = prov_small(r);
    let mut w = RspWorld::new(&p);
    let hash = (cx.case & 0x3F) as u32;
    let asym = ((cx.case >> 6) & 0x1FF) as u32;
    if !w.drive(cx, r, Ph::Algs) || cx.diverged {
        return;
    }
    let mut n = gen::negotiate_valid(r);
    n.hash = hash;
    n.asym = asym;
    for s in &mut n.structs {
        s.bits = (r.next() as u16) & alg_mask(s.ty);
        if s.bits == 0 && r.chance(7, 8) {
            s.bits = alg_mask(s.ty);
        }
    }
    if w.step(cx, &n.enc(), AMPLE).lost || cx.diverged {
        return;
    }
    if cfg().caps & CERT != 0 {
        w.step(cx, &get_digests(), AMPLE);
    }
}

pub fn caps_wl(cx: &mut Ctx, r: &mut Rng) {
    let p = prov_small(r);
    let mut w = RspWorld::new(&p);
    for _ in 0..6 {
        if !w.drive(cx, r, Ph::Caps) || cx.diverged {
            return;
        }
        let f = match r.below(4) {
            0 => 1 << r.below(32),
            1 => r.next() as u32 & REQ_MASK,
            2 => r.next() as u32,
            _ => cfg().caps & r.next() as u32,
        };
        let q = caps(GET_CAPABILITIES, r.byte(), f);
        if w.step(cx, &q, AMPLE).lost || cx.diverged {
            return;
        }
        // what follows: phases whose capability is missing are refused
        if w.model.ph != Ph::Error && w.drive(cx, r, Ph::IdAuth) {
            let q = match r.below(3) {
                0 => get_digests(),
                1 => get_cert(0, 0, 0xFFFF),
                _ => gen::req_other(r, &w.model),
            };
            if w.step(cx, &q, AMPLE).lost || cx.diverged {
                return;
            }
            if w.model.ph == Ph::Challenge {
                let c = gen::req_valid(r, &w.model);
                if w.step(cx, &c, AMPLE).lost || cx.diverged {
                    return;
                }
            }
        }
        restart(cx, r, &mut w);
    }
}

/// Digests and certificates of every slot.
pub fn ident(cx: &mut Ctx, r: &mut Rng) {
    let p = if r.chance(1, 4) { Prov::gen(r) } else { prov_small(r) };
    let mut w = RspWorld::new(&p);
    let mut order: Vec<u8> = (0..LIM.slots as u8 + 1).collect();
    for i in (1..order.len()).rev() {
        let j = r.below(i + 1);
        order.swap(i, j);
    }
    for s in order {
        if !w.drive(cx, r, Ph::IdAuth) || cx.diverged {
            return;
        }
        for _ in 0..r.below(3) {
            if w.step(cx, &get_digests(), AMPLE).lost || cx.diverged {
                return;
            }
            if w.model.ph == Ph::Error {
                break;
            }
        }
        if w.model.ph == Ph::IdAuth {
            let slot = if r.chance(1, 10) { r.byte() } else { s };
            let len = if r.chance(1, 8) { r.next() as u16 } else { 0xFFFF };
            let q = get_cert(slot, 0, len);
            let st = w.step(cx, &q, AMPLE);
            if st.lost || cx.diverged {
                return;
            }
            if st.ok {
                cx.count(&format!("certificate.slot{slot}.{}", if st.rsp.len() > 8 { "filled" } else { "empty" }));
            }
        }
        restart(cx, r, &mut w);
    }
}

/// Challenge after challenge, to any slot, with faults.
pub fn challenges(cx: &mut Ctx, r: &mut Rng) {
    let p = prov_small(r);
    let mut w = RspWorld::new(&p);
    let faulty = r.chance(1, 3);
    for _ in 0..3 {
        if !w.drive(cx, r, Ph::Challenge) || cx.diverged {
            return;
        }
        for _ in 0..r.range(1, 8) {
            if faulty && r.chance(1, 2) {
                w.fault(r.below(LIM.slots), rand_fault(r));
            }
            let q = if r.chance(7, 8) { gen::req_valid(r, &w.model) } else { gen::req_odd(r, &w.model) };
            let st = w.step(cx, &q, AMPLE);
            if st.lost || cx.diverged {
                return;
            }
            if st.ok {
                cx.count(&format!("challenge.slot{}.hash{}", q[2], w.model.hash));
                cx.sample(|| format!("CHALLENGE {} answered {} bytes", hexs(&q), st.rsp.len()));
            }
            if w.model.ph != Ph::Challenge {
                break;
            }
        }
        restart(cx, r, &mut w);
    }
}

/// A fault on one slot, then recovery: the later session works and other slots are unaffected.
pub fn faults(cx: &mut Ctx, r: &mut Rng) {
    let mut p = prov_small(r);
    if p.slots.iter().all(|s| s.is_none()) {
        p.slots[0] = Some(SlotP { root_hash: r.bytes(32), certs: vec![blob(r, 60)], key: 33 });
    }
    let mut w = RspWorld::new(&p);
    let fs = filled(&w.model);
    let kinds = [
        Fault::Fail, Fault::Len(0), Fault::Len(1), Fault::Len(63), Fault::Len(65), Fault::Len(96), Fault::Len(48), Fault::Len(128),
        Fault::Len(1024), Fault::Garbage(0), Fault::Garbage(0xFF), Fault::WrongKey(222),
    ];
    let mut before = 0;
    for round in 0..4 {
        if !w.drive(cx, r, Ph::Challenge) || cx.diverged {
            return;
        }
        for _ in 0..r.below(3) {
            let q = challenge(*r.pick(&fs), 0, &r.bytes(NONCE));
            if w.step(cx, &q, AMPLE).lost || cx.diverged {
                return;
            }
        }
        if w.model.ph != Ph::Challenge {
            w.reset(cx);
            continue;
        }
        let bad = *r.pick(&fs);
        let k = kinds[(cx.case as usize + round) % kinds.len()];
        for s in 0..LIM.slots {
            w.fault(s, Fault::None);
        }
        // all the other slots are broken when this one works, and the other way round
        let other = r.chance(1, 2);
        if other {
            for s in &fs {
                if *s != bad {
                    w.fault(usize::from(*s), k);
                }
            }
        } else {
            w.fault(usize::from(bad), k);
        }
        let q = challenge(bad, *r.pick(&[0, 1, 0xFF]), &r.bytes(NONCE));
        let st = w.step(cx, &q, if r.chance(1, 8) { 1024 } else { AMPLE });
        if st.lost || cx.diverged {
            return;
        }
        cx.count(&format!("signer_fault.{}.{}", if other { "elsewhere".into() } else { format!("{k:?}") }, if st.ok { "answered" } else { "refused" }));
        if w.model.ph == Ph::Error {
            let q = challenge(bad, 0, &r.bytes(NONCE));
            if w.step(cx, &q, AMPLE).lost || cx.diverged {
                return;
            }
        }
        for s in 0..LIM.slots {
            w.fault(s, Fault::None);
        }
        let n = w.log.lock().unwrap().calls.len();
        cx.add("signer_calls", (n - before) as u64);
        before = n;
        restart(cx, r, &mut w);
    }
}

/// Buffer sizes around the exact need, in every phase.
pub fn buffers(cx: &mut Ctx, r: &mut Rng) {
    let p = prov_small(r);
    let ps = phases();
    let to = ps[cx.case as usize % ps.len()];
    let mut w = RspWorld::new(&p);
    w.fill = r.byte();
    for k in 0..14usize {
        if !w.drive(cx, r, to) || cx.diverged {
            return;
        }
        let q = if to == Ph::IdAuth && r.chance(1, 2) { get_digests() } else { gen::req_valid(r, &w.model) };
        let need = w.model.predict(&q, usize::MAX).len;
        let buf = match k {
            0 => need,
            1 => need.saturating_sub(1),
            2 => need + 1,
            3..=9 => k - 3,
            _ => r.below(need + 4),
        };
        let s = w.step(cx, &q, buf);
        if s.lost || cx.diverged {
            return;
        }
        cx.count(if buf >= need { "buffer.sufficient" } else { "buffer.too_small" });
        if buf == need {
            cx.count("buffer.exact");
        }
        // refusals in small buffers
        if w.model.ph == Ph::Error {
            let b = r.below(9);
            if w.step(cx, &get_version(), b).lost || cx.diverged {
                return;
            }
        }
        w.reset(cx);
    }
}

/// Sessions long enough to fill the transcript.
pub fn long(cx: &mut Ctx, r: &mut Rng) {
    let mut p = prov_small(r);
    if r.chance(1, 3) {
        // short answers, many of them
        p.slots.iter_mut().for_each(|s| *s = None);
    }
    let mut w = RspWorld::new(&p);
    if cfg().caps & CERT == 0 {
        // fill it with a long request instead
        if !w.drive(cx, r, Ph::Algs) {
            return;
        }
        return;
    }
    if !w.drive(cx, r, Ph::IdAuth) || cx.diverged {
        return;
    }
    let to_challenge = cfg().caps & CHAL != 0 && r.chance(1, 2) && !filled(&w.model).is_empty();
    if to_challenge && !w.drive(cx, r, Ph::Challenge) {
        return;
    }
    let mut n = 0;
    while w.model.ph != Ph::Error && n < 4000 {
        // a padded request allows an exact fill
        let q = if to_challenge { gen::req_valid(r, &w.model) } else { get_digests() };
        let want = w.model.predict(&q, AMPLE);
        let left = LIM.transcript - w.model.transcript.len();
        let tail = if to_challenge { sig_len(w.model.asym) } else { 0 };
        if want.must != Must::Err && left > q.len() + want.len - tail && left <= 2 * (q.len() + want.len - tail) {
            cx.count("transcript.near_full");
        }
        let s = w.step(cx, &q, AMPLE);
        if s.lost || cx.diverged {
            return;
        }
        if s.ok && w.model.transcript.len() == LIM.transcript {
            cx.count("transcript.exactly_full");
        }
        n += 1;
    }
    cx.count("transcript.overflowed");
    if n > 256 {
        cx.count("session.beyond_256_requests");
    }
    // full transcripts do not survive a restart
    w.reset(cx);
    w.drive(cx, r, Ph::IdAuth);
}

/// Requests padded so that the transcript is exactly filled, or exceeded by one byte.
pub fn exact_fill(cx: &mut Ctx, r: &mut Rng) {
    let p = prov_small(r);
    let mut w = RspWorld::new(&p);
    let ps = phases();
    let to = *r.pick(&ps);
    if !w.drive(cx, r, to) || cx.diverged {
        return;
    }
    let base = if to == Ph::Version { 0 } else { w.model.transcript.len() };
    let q0 = if to == Ph::IdAuth && r.chance(1, 2) { get_digests() } else { gen::req_valid(r, &w.model) };
    let want = w.model.predict(&q0, AMPLE);
    if want.must == Must::Err {
        return;
    }
    let rec = want.len - if to == Ph::Challenge { sig_len(w.model.asym) } else { 0 };
    let room = match LIM.transcript.checked_sub(base + rec) {
        Some(x) if x >= q0.len() => x,
        _ => return,
    };
    let n = match r.below(5) {
        0 => room,
        1 => room + 1,
        2 => room.saturating_sub(1),
        3 => room + rec,
        _ => room + rec + 1,
    };
    if n < q0.len() {
        return;
    }
    let mut q = q0.clone();
    let x = r.bytes(n - q0.len());
    q.extend(x);
    let s = w.step(cx, &q, AMPLE);
    if s.lost || cx.diverged {
        return;
    }
    cx.count(if s.ok { "transcript.padded_ok" } else { "transcript.padded_refused" });
    if w.model.ph == Ph::Error || r.chance(1, 2) {
        w.reset(cx);
    }
    w.drive(cx, r, to);
}

/// The same history on a restarted and on a fresh responder.
pub fn restart_diff(cx: &mut Ctx, r: &mut Rng) {
    let p = if r.chance(1, 3) { Prov::gen(r) } else { prov_small(r) };
    let mut x = RspWorld::new(&p);
    // an arbitrary past
    let cramped = r.chance(1, 4);
    let ps = phases();
    let to = *r.pick(&ps);
    x.drive(cx, r, to);
    for _ in 0..r.below(8) {
        let q = if r.chance(2, 3) { gen::req_valid(r, &x.model) } else { gen::req_any(r, &x.model) };
        let room = if cramped && r.chance(1, 3) { r.below(40) } else { AMPLE };
        if x.step(cx, &q, room).lost {
            return;
        }
        if x.model.ph == Ph::Error && r.chance(1, 2) {
            break;
        }
    }
    if cx.diverged {
        return;
    }
    cx.count(&format!("restart.from.{}", x.model.ph.name()));
    if x.model.ph == Ph::Error || r.chance(1, 2) {
        x.reset(cx);
        cx.count("restart.by_reset");
    } else {
        cx.count("restart.by_get_version");
    }
    let mut y = RspWorld::new(&p);
    let mut q = get_version();
    for _ in 0..r.range(2, 12) {
        let room = if r.chance(1, 8) { r.below(300) } else { AMPLE };
        let a = x.step(cx, &q, room);
        let b = y.step(cx, &q, room);
        if a.lost || b.lost {
            if a.lost != b.lost {
                cx.fail(&["C06"], "a restarted responder diverges from its model, a fresh one does not");
            }
            return;
        }
        let h = y.model.hash;
        cx.check(&["C06"], a.ok == b.ok && masked(&a.rsp, h) == masked(&b.rsp, h), || {
            format!("after a restart {} is answered {} (fresh: {})", hexs(&q), hexs(&a.rsp), hexs(&b.rsp))
        });
        cx.check(&["C06"], format!("{:?}", a.err) == format!("{:?}", b.err), || "errors differ after a restart".into());
        let (sx, sy) = (x.lib.state(), y.lib.state());
        cx.check(&["C06"], sx == sy, || format!("state after a restart {sx:?}, fresh {sy:?}"));
        let (tx, ty) = (x.lib.transcript().len(), y.lib.transcript().len());
        cx.check(&["C06"], tx == ty, || format!("transcript of {tx} bytes after a restart, fresh {ty}"));
        if cx.diverged {
            return;
        }
        q = if r.chance(3, 4) { gen::req_valid(r, &y.model) } else { gen::req_any(r, &y.model) };
    }
    cx.count("restart.compared");
}

/// Restarts in the middle of everything, with full sessions in between.
pub fn restarts(cx: &mut Ctx, r: &mut Rng) {
    let p = prov_small(r);
    let mut w = RspWorld::new(&p);
    if cx.case % 256 == 255 {
        // one object for very many sessions
        let q = get_version();
        for i in 0..66_000 {
            if i % 9_000 == 300 && !w.drive(cx, r, *phases().last().unwrap()) {
                return;
            }
            if w.step(cx, &q, AMPLE).lost || cx.diverged {
                return;
            }
        }
        cx.count("restart.beyond_65536");
    }
    for _ in 0..r.range(2, 6) {
        let ps = phases();
        let to = *r.pick(&ps);
        if !w.drive(cx, r, to) || cx.diverged {
            return;
        }
        if r.chance(1, 3) {
            let q = gen::req_any(r, &w.model);
            if w.step(cx, &q, AMPLE).lost || cx.diverged {
                return;
            }
        }
        cx.count(&format!("restart.from.{}", w.model.ph.name()));
        restart(cx, r, &mut w);
    }
    let last = *phases().last().unwrap();
    if w.drive(cx, r, last) && last == Ph::Challenge && cfg().caps & CHAL != 0 {
        let q = gen::req_valid(r, &w.model);
        w.step(cx, &q, AMPLE);
    }
}
