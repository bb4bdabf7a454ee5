//! The requester's phase types are public: a user can identify and challenge any slot with them,
//! not only the one `RequesterInit` uses.

use crate::certs::{self, pool};
use crate::ctx::{hex, Ctx};
use crate::peer::rand_opaque;
use crate::refcodec::*;
use crate::rng::{hash_bytes, Rng};
use crate::sha2;
use crate::util::*;
use spdm::msgs::algorithms::{BaseAsymAlgo, BaseHashAlgo};
use spdm::msgs::capabilities::{ReqFlags, RspFlags};
use spdm::msgs::{Algorithms, VersionEntry};
use spdm::requester::{challenge, id_auth};
use spdm::Transcript;


pub fn slots(cx: &mut Ctx, r: &mut Rng) {
    let hs: Vec<_> = pool().hiers.iter().filter(|h| h.valid).collect();
    let slot = (cx.case as usize % LIM.slots) as u8;
    let hashes: Vec<u32> = [1, 2, 4].into_iter().filter(|b| cfg().hashes & b != 0).collect();
    let hash = *r.pick(&hashes);
    let dl = digest_len(hash);
    let h = *r.pick(&hs);
    let ch = chain(&sha2::hash(hash, &pool().roots[0].der), &h.certs);
    if ch.len() > LIM.chain || h.certs.len() > LIM.depth + 1 {
        cx.count("direct.too_large");
        return;
    }
    let others: Vec<u8> = (0..LIM.slots as u8).filter(|s| *s != slot).collect();
    let mut st = id_auth::State {
        version: VersionEntry { major: 1, minor: 1, update: 0, alpha: 0 },
        requester_ct_exponent: r.byte(),
        requester_cap: ReqFlags::from_bits_truncate(r.next() as u32),
        responder_ct_exponent: r.byte(),
        responder_cap: RspFlags::from_bits_truncate(r.next() as u32),
        algorithms: Algorithms {
            base_hash_algo_selected: BaseHashAlgo::from_bits_truncate(hash),
            base_asym_algo_selected: BaseAsymAlgo::from_bits_truncate(0x10),
            ..Default::default()
        },
        digests: None,
        cert_chain: None,
    };
    let mut t = Transcript::new();
    let mut mine: Vec<u8> = vec![];
    let before = r.below(200);
    let b = r.bytes(before);
    let _ = t.extend(&b);
    mine.extend(&b);
    let mut buf = vec![r.byte(); 200];
    macro_rules! same {
        ($what:expr) => {
            if !cx.check(&["C04"], t.get() == &mine[..], || format!("transcript after {} of slot {slot}: {} bytes, expected {}", $what, t.len(), mine.len())) {
                return;
            }
        };
    }
    // DIGESTS
    match cx.lib("write_get_digests_msg", || st.write_get_digests_msg(&mut buf, &mut t).map(|b| b.to_vec())) {
        Some(Ok(q)) if q == get_digests() => mine.extend(&q),
        None => return,
        Some(x) => return cx.fail(&["C02", "C14"], format!("GET_DIGESTS: {x:?}")),
    }
    let mask = r.byte() & (((1u16 << LIM.slots) - 1) as u8) | 1 << slot;
    let ds: Vec<Vec<u8>> = (0..8).filter(|i| mask >> i & 1 == 1).map(|i| if i == slot { sha2::hash(hash, &ch) } else { r.bytes(dl) }).collect();
    let a = digests(mask, &ds);
    match cx.armed("handle_digests", || st.handle_digests(&a, &mut t)) {
        Some(Ok(())) => mine.extend(&a),
        None => return,
        Some(Err(e)) => return cx.fail(&["C02"], format!("good DIGESTS refused: {e:?}")),
    }
    same!("DIGESTS");
    // CERTIFICATE
    let mut want = vec![0x11, GET_CERTIFICATE, slot, 0, 0, 0];
    want.extend_from_slice(&(LIM.chain.min(65535) as u16).to_le_bytes());
    match cx.lib("write_get_certificate_msg", || st.write_get_certificate_msg(slot, &mut buf, &mut t).map(|b| b.to_vec())) {
        Some(Ok(q)) => {
            if !cx.check(&["C02", "C14"], q == want, || format!("GET_CERTIFICATE for slot {slot}: {}", hex(&q))) {
                return;
            }
            mine.extend(&q)
        }
        None => return,
        Some(x) => return cx.fail(&["C02"], format!("GET_CERTIFICATE: {x:?}")),
    }
    if !others.is_empty() && r.chance(1, 5) {
        // the chain, but announced for another slot
        let o = *r.pick(&others);
        let a = certificate(o, 0, &ch);
        cx.distinct(hash_bytes(&a[..40]));
        if let Some(x) = cx.armed("handle_certificate", || st.handle_certificate(slot, &a, &mut t)) {
            cx.check(&["C01", "C09"], x.is_err(), || format!("CERTIFICATE of slot {o} accepted for slot {slot}"));
            cx.count("direct.refused.certificate_slot");
        }
        return;
    }
    let a = certificate(slot, 0, &ch);
    match cx.armed("handle_certificate", || st.handle_certificate(slot, &a, &mut t)) {
        Some(Ok(())) => mine.extend(&a),
        None => return,
        Some(Err(e)) => return cx.fail(&["C02"], format!("good CERTIFICATE of slot {slot} refused: {e:?}")),
    }
    same!("CERTIFICATE");
    // CHALLENGE
    let mut st = match cx.armed("challenge::State::from", || challenge::State::from(st)) {
        Some(s) => s,
        None => return,
    };
    let q = match cx.lib("write_msg", || st.write_msg(&mut buf, &mut t).map(|b| b.to_vec())) {
        Some(Ok(q)) => q,
        None => return,
        Some(x) => return cx.fail(&["C02"], format!("CHALLENGE: {x:?}")),
    };
    if !cx.check(&["C02", "C14"], q.len() == 36 && q[..3] == [0x11, CHALLENGE, slot], || format!("CHALLENGE of slot {slot}: {}", hex(&q))) {
        return;
    }
    mine.extend(&q);
    same!("CHALLENGE");
    // CHALLENGE_AUTH, properly signed whatever it says
    let mut au = Auth {
        slot,
        resv: 0,
        mutual: r.chance(1, 2),
        mask,
        hash: sha2::hash(hash, &ch),
        nonce: r.bytes(NONCE),
        meas: r.bytes(dl),
        opaque: rand_opaque(r, &LIM),
        sig: vec![0; 64],
    };
    let mut key = h.leaf_key;
    let mut signed = mine.clone();
    let what = match r.below(8) {
        0 if !others.is_empty() => {
            au.slot = *r.pick(&others);
            au.mask |= 1 << au.slot;
            "slot"
        }
        1 => {
            au.mask &= !(1 << slot);
            "mask"
        }
        2 => {
            let k = r.below(dl);
            au.hash[k] ^= 1 << r.below(8);
            "hash"
        }
        3 => {
            key = if key == 1 { 2 } else { 1 };
            "key"
        }
        4 => {
            let k = r.below(signed.len());
            signed[k] ^= 1 << r.below(8);
            "transcript"
        }
        _ => "good",
    };
    let mut a = au.enc();
    let n = a.len() - 64;
    signed.extend(&a[..n]);
    let s = certs::sign_raw(key, &sha2::hash(hash, &signed));
    a[n..].copy_from_slice(&s);
    cx.distinct(hash_bytes(&a));
    let fits = mine.len() + n <= LIM.transcript;
    let root = &pool().roots[0].der;
    if let Some(x) = cx.armed("handle_msg", || st.handle_msg(&a, &mut t, root)) {
        if what == "good" && fits {
            cx.check(&["C02"], x.is_ok(), || format!("good CHALLENGE_AUTH of slot {slot} refused: {x:?}"));
            mine.extend(&a[..n]);
            same!("CHALLENGE_AUTH");
            cx.count(&format!("direct.authenticated.slot{slot}"));
        } else {
            cx.check(&["C01", "C09"], x.is_err(), || format!("CHALLENGE_AUTH of slot {slot} accepted with a wrong {what}"));
            cx.count(&format!("direct.refused.{what}"));
        }
    }
}
