//! Keys, certificates with known properties, and an independent opinion on which chains are valid.

use crate::der;
use crate::rng::Rng;
use std::collections::HashMap;
use std::sync::{OnceLock, RwLock};

/// The library's fixed validation time (2021-12-01).
pub const T: u64 = 1_638_316_800;

#[cfg(feature = "crypto")]
mod keys {
    use ring::signature::*;
    use ring::test::rand::FixedByteRandom;
    use std::sync::OnceLock;

    pub struct Key {
        pub private: Vec<u8>,
        pub public: Vec<u8>,
        pub pkcs8: Vec<u8>,
    }
    pub fn key(id: u8) -> &'static Key {
        static K: OnceLock<Vec<OnceLock<Key>>> = OnceLock::new();
        let v = K.get_or_init(|| (0..=255).map(|_| OnceLock::new()).collect());
        v[usize::from(id)].get_or_init(|| {
            let rng = FixedByteRandom { byte: id };
            let p8 = EcdsaKeyPair::generate_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, &rng).unwrap();
            let fixed = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, p8.as_ref()).unwrap();
            let public = fixed.public_key().as_ref().to_vec();
            let k = Key { private: p8.as_ref()[36..68].to_vec(), public, pkcs8: p8.as_ref().to_vec() };
            // the table signatures are real ones
            let s = crate::p256::sign(&k.private, b"self-test");
            assert!(UnparsedPublicKey::new(&ECDSA_P256_SHA256_FIXED, &k.public).verify(b"self-test", &s).is_ok(), "oracle key {id}");
            k
        })
    }
    pub fn public(id: u8) -> Vec<u8> {
        key(id).public.clone()
    }
    pub fn sign_der(id: u8, msg: &[u8]) -> Vec<u8> {
        let s = sign_raw(id, msg);
        crate::der::seq(&[crate::der::int(&s[..32]), crate::der::int(&s[32..])])
    }
    /// Without a key of its own (NO_KEY) a certificate's holder signs with another.
    pub fn sign_raw(id: u8, msg: &[u8]) -> Vec<u8> {
        crate::p256::sign(&key(id.max(1)).private, msg)
    }
    pub fn verify_raw(id: u8, msg: &[u8], sig: &[u8]) -> bool {
        id != 0 && UnparsedPublicKey::new(&ECDSA_P256_SHA256_FIXED, &key(id).public).verify(msg, sig).is_ok()
    }
    pub fn pkcs8(id: u8) -> &'static [u8] {
        &key(id).pkcs8
    }
}

#[cfg(not(feature = "crypto"))]
mod keys {
    pub fn public(id: u8) -> Vec<u8> {
        vec![id; 65]
    }
    pub fn sign_der(id: u8, _: &[u8]) -> Vec<u8> {
        vec![id; 70]
    }
    pub fn sign_raw(id: u8, _: &[u8]) -> Vec<u8> {
        vec![id; 64]
    }
    pub fn verify_raw(_: u8, _: &[u8], _: &[u8]) -> bool {
        false
    }
    #[allow(dead_code)]
    pub fn pkcs8(_: u8) -> &'static [u8] {
        &[]
    }
}
pub use keys::*;

#[derive(Clone, Debug)]
pub struct Meta {
    pub subject: String,
    pub issuer: String,
    pub key: u8,
    pub signer: u8,
    pub nb: u64,
    pub na: u64,
    pub ca: bool,
    pub pathlen: Option<u8>,
    pub sig_ok: bool,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub subject: String,
    pub issuer: String,
    pub key: u8,
    pub signer: u8,
    pub nb: u64,
    pub na: u64,
    pub bc: Option<bool>,
    pub pathlen: Option<u8>,
    pub eku: bool,
    pub pad: usize,
    pub break_sig: bool,
    /// a key nobody can sign with under the negotiated algorithm (kinds 1..=7, see `alien_key`)
    pub alien: u8,
}

/// Key id of an alien key in `Meta`: no signature verifies under it.
pub const NO_KEY: u8 = 0;

/// Public keys of other kinds, or that are none: P-384, Ed25519, RSA, a point off the curve, a
/// compressed point, P-521, a key without curve.
pub fn alien_key(kind: u8, seed: u8) -> Vec<u8> {
    let mut r = Rng::new(&[0xA11E, u64::from(seed), u64::from(kind)]);
    match kind {
        1 => [vec![4], r.bytes(96)].concat(),
        2 => r.bytes(32),
        3 => {
            let mut n = r.bytes(256);
            n[0] |= 0x80;
            n[255] |= 1;
            der::seq(&[der::int(&n), der::int(&[1, 0, 1])])
        }
        4 => [vec![4], r.bytes(64)].concat(),
        5 => [vec![2], r.bytes(32)].concat(),
        6 => [vec![4], r.bytes(132)].concat(),
        _ => public(seed.max(1)),
    }
}

pub const Y3000: u64 = 32_503_680_000;

pub fn spec(subject: &str, issuer: &str, key: u8, signer: u8, ca: bool) -> Spec {
    Spec {
        subject: subject.into(),
        issuer: issuer.into(),
        key,
        signer,
        nb: T - 35 * 86_400,
        na: T + 4000 * 86_400,
        bc: if ca { Some(true) } else { None },
        pathlen: None,
        eku: false,
        pad: 0,
        break_sig: false,
        alien: 0,
    }
}

pub fn build(s: &Spec) -> (Vec<u8>, Meta) {
    let t = der::tbs(&der::Tbs {
        serial: 1 + u32::from(s.key),
        issuer: &s.issuer,
        subject: &s.subject,
        nb: s.nb,
        na: s.na,
        pubkey: &if s.alien == 0 { public(s.key) } else { alien_key(s.alien, s.key) },
        alien: s.alien,
        ca: s.bc,
        pathlen: s.pathlen,
        eku: s.eku,
        pad: s.pad,
    });
    let mut sig = sign_der(s.signer, &t);
    if s.break_sig {
        let n = sig.len();
        // more than one bit, so that damage elsewhere in a test cannot mend it
        sig[n - 3] ^= 0x10;
        sig[n - 7] ^= 0x24;
        sig[n - 11] ^= 0x03;
    }
    let c = der::cert(&t, &sig);
    let m = Meta {
        subject: s.subject.clone(),
        issuer: s.issuer.clone(),
        key: if s.alien == 0 { s.key } else { NO_KEY },
        signer: s.signer,
        nb: s.nb,
        na: s.na,
        ca: s.bc == Some(true),
        pathlen: s.pathlen,
        sig_ok: !s.break_sig,
    };
    (c, m)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Valid,
    Invalid,
    /// valid hierarchies with superfluous or unordered certificates: both answers are legal
    Unclear,
}

/// RFC 5280 path search over certificates whose properties are known by construction.
pub fn path_verdict(certs: &[Option<Meta>], root_subject: &str, root_key: u8, at: u64) -> Verdict {
    let n = certs.len();
    if n == 0 {
        return Verdict::Invalid;
    }
    let leaf = match &certs[n - 1] {
        Some(m) => m,
        None => return Verdict::Invalid,
    };
    if leaf.ca || at < leaf.nb || at > leaf.na {
        return Verdict::Invalid;
    }
    // `used`: indexes of the path from the leaf upwards
    fn go(certs: &[Option<Meta>], used: &mut Vec<usize>, rs: &str, rk: u8, at: u64, found: &mut Vec<Vec<usize>>) {
        let cur = certs[*used.last().unwrap()].as_ref().unwrap();
        if cur.issuer == rs && cur.signer == rk && cur.sig_ok {
            found.push(used.clone());
        }
        for i in 0..certs.len() - 1 {
            if used.contains(&i) {
                continue;
            }
            if let Some(c) = &certs[i] {
                let depth = used.len() - 1; // CAs already below this one
                if c.subject == cur.issuer
                    && c.key == cur.signer
                    && cur.sig_ok
                    && c.ca
                    && at >= c.nb
                    && at <= c.na
                    && c.pathlen.map_or(true, |p| depth <= usize::from(p))
                    && depth < 6
                {
                    used.push(i);
                    go(certs, used, rs, rk, at, found);
                    used.pop();
                }
            }
        }
    }
    let mut found = vec![];
    go(certs, &mut vec![n - 1], root_subject, root_key, at, &mut found);
    let full: Vec<usize> = (0..n).rev().collect();
    if found.contains(&full) && leaf.key == NO_KEY {
        // whether the key is looked at here or only when it is used is open
        Verdict::Unclear
    } else if found.contains(&full) {
        // every certificate is part of the one ordered path
        Verdict::Valid
    } else if found.is_empty() {
        Verdict::Invalid
    } else {
        Verdict::Unclear
    }
}

pub struct Root {
    pub subject: &'static str,
    pub key: u8,
    pub der: Vec<u8>,
}

pub struct Hier {
    pub name: String,
    pub certs: Vec<Vec<u8>>,
    pub leaf_key: u8,
    /// valid under root 0 at the fixed time
    pub valid: bool,
}

pub struct Pool {
    pub roots: Vec<Root>,
    pub hiers: Vec<Hier>,
    pub metas: HashMap<Vec<u8>, Meta>,
}

impl Pool {
    pub fn valid(&self) -> Vec<&Hier> {
        self.hiers.iter().filter(|h| h.valid).collect()
    }
    pub fn get(&self, name: &str) -> &Hier {
        self.hiers.iter().find(|h| h.name == name).unwrap()
    }
}

/// Certificates made during the run. Entries outlive at least the next 4000 new ones, so none
/// disappears under a case which still uses it.
#[derive(Default)]
struct Extra {
    young: HashMap<Vec<u8>, Meta>,
    old: HashMap<Vec<u8>, Meta>,
}

static EXTRA: OnceLock<RwLock<Extra>> = OnceLock::new();

pub fn register(der: &[u8], m: Meta) {
    let e = EXTRA.get_or_init(RwLock::default);
    if e.read().unwrap().young.contains_key(der) {
        return;
    }
    let mut e = e.write().unwrap();
    if e.young.len() >= 4000 {
        e.old = std::mem::take(&mut e.young);
    }
    e.young.insert(der.to_vec(), m);
}

pub fn lookup(der: &[u8]) -> Option<Meta> {
    if let Some(m) = pool().metas.get(der) {
        return Some(m.clone());
    }
    let e = EXTRA.get_or_init(RwLock::default).read().unwrap();
    e.young.get(der).or_else(|| e.old.get(der)).cloned()
}

/// The "root" of a requester whose anchor is not a certificate at all.
pub const NO_ROOT: usize = usize::MAX;

pub fn chain_verdict(certs: &[Vec<u8>], root: usize) -> Verdict {
    if root == NO_ROOT {
        // nothing verifies under an anchor that is not a certificate
        return Verdict::Invalid;
    }
    let m: Vec<Option<Meta>> = certs.iter().map(|c| lookup(c)).collect();
    let r = &pool().roots[root];
    path_verdict(&m, r.subject, r.key, T)
}

/// Verification of a raw signature under the key of a known leaf.
pub fn verify_leaf(leaf: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    match lookup(leaf) {
        Some(m) => m.key != NO_KEY && verify_raw(m.key, msg, sig),
        None => false,
    }
}

struct B {
    hiers: Vec<Hier>,
    metas: HashMap<Vec<u8>, Meta>,
}
impl B {
    fn add(&mut self, name: &str, specs: &[Spec], root_ok: bool) {
        let mut certs = vec![];
        for s in specs {
            let (c, m) = build(s);
            self.metas.insert(c.clone(), m);
            certs.push(c);
        }
        self.hiers.push(Hier {
            name: name.into(),
            certs,
            leaf_key: specs.last().unwrap().key,
            valid: root_ok,
        });
    }
}

/// A plain hierarchy of `depth` intermediates under root 0, keys starting at `k`.
pub fn plain(depth: usize, k: u8, tag: &str) -> Vec<Spec> {
    let mut v = vec![];
    let (mut iss, mut ik) = ("Root".to_string(), 1u8);
    for i in 0..depth {
        let n = format!("I{tag}{i}");
        v.push(spec(&n, &iss, k + i as u8, ik, true));
        iss = n;
        ik = k + i as u8;
    }
    v.push(spec(&format!("L{tag}"), &iss, k + depth as u8, ik, false));
    v
}

pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut roots = vec![];
        for (s, k) in [("Root", 1u8), ("Root", 2), ("Stranger", 3)] {
            let (der, _) = build(&spec(s, s, k, k, true));
            roots.push(Root { subject: s, key: k, der });
        }
        let mut b = B { hiers: vec![], metas: HashMap::new() };
        // -------- valid
        for d in 0..=6 {
            b.add(&format!("ok{d}"), &plain(d, 10 + 8 * d as u8, &d.to_string()), true);
        }
        let with = |d: usize, k: u8, f: &dyn Fn(&mut Vec<Spec>)| {
            let mut v = plain(d, k, &format!("x{k}"));
            f(&mut v);
            v
        };
        b.add("ok-nb", &with(1, 70, &|v| { v[0].nb = T; v[1].nb = T }), true);
        b.add("ok-na", &with(1, 72, &|v| { v[0].na = T; v[1].na = T }), true);
        b.add("ok-3000", &with(0, 74, &|v| v[0].na = Y3000), true);
        b.add("ok-eku", &with(1, 75, &|v| { v[0].eku = true; v[1].eku = true }), true);
        b.add("ok-bcfalse", &with(0, 77, &|v| v[0].bc = Some(false)), true);
        b.add("ok-pathlen", &with(2, 78, &|v| { v[0].pathlen = Some(1); v[1].pathlen = Some(0) }), true);
        b.add("ok-samekey", &with(0, 81, &|v| v[0].pad = 40), true);
        for (i, pad) in [1usize, 60, 127, 200].iter().enumerate() {
            b.add(&format!("ok-pad{pad}"), &with(0, 82 + i as u8, &|v| v[0].pad = *pad), true);
        }
        // -------- not valid under root 0
        b.add("bad-otherroot", &with(0, 90, &|v| v[0].signer = 2), false);
        b.add("bad-otherroot1", &with(1, 92, &|v| v[0].signer = 2), false);
        b.add("bad-stranger", &with(0, 95, &|v| { v[0].issuer = "Stranger".into(); v[0].signer = 3 }), false);
        b.add("bad-self", &with(0, 96, &|v| { v[0].issuer = v[0].subject.clone(); v[0].signer = v[0].key }), false);
        b.add("bad-selfnamed", &with(0, 97, &|v| v[0].signer = v[0].key), false);
        b.add("bad-expired", &with(0, 98, &|v| v[0].na = T - 1), false);
        b.add("bad-notyet", &with(0, 99, &|v| v[0].nb = T + 1), false);
        b.add("bad-iexpired", &with(1, 100, &|v| v[0].na = T - 1), false);
        b.add("bad-inotyet", &with(1, 102, &|v| v[0].nb = T + 1), false);
        b.add("bad-notca", &with(1, 104, &|v| v[0].bc = None), false);
        b.add("bad-cafalse", &with(1, 106, &|v| v[0].bc = Some(false)), false);
        b.add("bad-caleaf", &with(0, 108, &|v| v[0].bc = Some(true)), false);
        b.add("bad-pathlen", &with(2, 110, &|v| v[0].pathlen = Some(0)), false);
        b.add("bad-sig", &with(0, 114, &|v| v[0].break_sig = true), false);
        b.add("bad-isig", &with(1, 116, &|v| v[0].break_sig = true), false);
        b.add("bad-missing", &with(2, 118, &|v| { v.remove(1); }), false);
        b.add("bad-missing1", &with(1, 122, &|v| { v.remove(0); }), false);
        b.add("bad-wrongsigner", &with(1, 124, &|v| v[1].signer = 1), false);
        b.add("bad-wrongissuer", &with(1, 126, &|v| v[1].issuer = "Root".into()), false);
        b.add("bad-otherca", &with(1, 128, &|v| { v[0].issuer = "Stranger".into(); v[0].signer = 3 }), false);
        for kind in 1..=7u8 {
            b.add(&format!("bad-alien{kind}"), &with(usize::from(kind % 2), 129 + kind, &|v| v.last_mut().unwrap().alien = kind), false);
        }
        // an authority with such a key: what it issued cannot be verified
        b.add("bad-ialien", &with(1, 137, &|v| v[0].alien = 1), false);
        Pool { roots, hiers: b.hiers, metas: b.metas }
    })
}

/// A valid hierarchy of `depth` intermediates whose serialized chain (with `dlen` bytes of root
/// hash) is as close to `target` bytes as possible without exceeding it.
pub fn sized(depth: usize, dlen: usize, target: usize, r: &mut Rng) -> Hier {
    let k = 140 + r.below(20) as u8;
    let mut specs = plain(depth, k, &format!("s{k}"));
    let at = r.below(specs.len());
    let total = |s: &[Spec]| 4 + dlen + s.iter().map(|x| build(x).0.len()).sum::<usize>();
    let mut n = total(&specs);
    if n < target {
        specs[at].pad = 1;
        n = total(&specs);
        let mut tries = 0;
        let mut best = (0usize, 0usize);
        while tries < 24 {
            if n <= target && n > best.0 {
                best = (n, specs[at].pad);
            }
            if n == target {
                break;
            }
            let d = target as isize - n as isize;
            specs[at].pad = (specs[at].pad as isize + d).max(1) as usize;
            // signature lengths vary with the contents: shake when going in circles
            if tries > 4 {
                specs[at].nb -= 1;
            }
            n = total(&specs);
            tries += 1;
        }
        if n > target {
            specs[at].pad = best.1.saturating_sub(12);
        }
    }
    let mut certs = vec![];
    for s in &specs {
        let (c, m) = build(s);
        register(&c, m);
        certs.push(c);
    }
    Hier { name: format!("sized{depth}"), certs, leaf_key: specs.last().unwrap().key, valid: true }
}
