/// Limits the library was configured with (array sizes come from the build itself).
#[derive(Clone, Copy, Debug)]
pub struct Lim {
    pub slots: usize,
    pub chain: usize,
    pub depth: usize,
    pub transcript: usize,
    pub digest: usize,
    pub sig: usize,
    pub opq_data: usize,
    pub opq_elems: usize,
    pub blocks: usize,
    pub meas: usize,
}

pub const LIM: Lim = Lim {
    slots: spdm::config::NUM_SLOTS,
    chain: spdm::config::MAX_CERT_CHAIN_SIZE,
    depth: spdm::config::MAX_CERT_CHAIN_DEPTH,
    transcript: spdm::config::TRANSCRIPT_SIZE,
    digest: spdm::config::MAX_DIGEST_SIZE,
    sig: spdm::config::MAX_SIGNATURE_SIZE,
    opq_data: spdm::config::MAX_OPAQUE_ELEMENT_DATA_SIZE,
    opq_elems: spdm::config::MAX_OPAQUE_ELEMENTS,
    blocks: spdm::config::MAX_MEASUREMENT_BLOCKS,
    meas: spdm::config::MAX_MEASUREMENT_SIZE,
};

pub const CRYPTO: bool = cfg!(feature = "crypto");
/// Nonces have no bytes when the library is built without a random number provider.
pub const NONCE: usize = if CRYPTO { 32 } else { 0 };

/// Capability bits by configuration name (SPDM 1.1 tables; the same position in both directions).
pub fn cap_bit(s: &str) -> u32 {
    match s {
        "CERT_CAP" => 0x2,
        "CHAL_CAP" => 0x4,
        "ENCRYPT_CAP" => 0x40,
        "MAC_CAP" => 0x80,
        "MUT_AUTH_CAP" => 0x100,
        "KEY_EX_CAP" => 0x200,
        "KEY_UPD_CAP" => 0x4000,
        _ => panic!("harness: capability {s}"),
    }
}

pub fn asym_bit(s: &str) -> u32 {
    match s {
        "ECDSA_ECC_NIST_P256" => 0x10,
        _ => panic!("harness: algorithm {s}"),
    }
}

/// Flags both sides must advertise. Read from the configuration file the build used when given,
/// so that the expectation does not come from the code under test.
pub struct Cfg {
    pub caps: u32,
    pub asym: u32,
    pub hashes: u32,
}

pub fn cfg() -> &'static Cfg {
    static C: std::sync::OnceLock<Cfg> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let path = std::env::var("MON_CONFIG").unwrap_or_default();
        let (mut caps, mut asym) = (0, 0);
        match std::fs::read_to_string(&path) {
            Ok(t) => {
                for l in t.lines() {
                    let l = l.trim();
                    let list = || -> Vec<String> {
                        l.split('"').skip(1).step_by(2).map(|s| s.to_string()).collect()
                    };
                    if l.starts_with("capabilities") {
                        caps = list().iter().map(|s| cap_bit(s)).fold(0, |a, b| a | b);
                    }
                    if l.starts_with("asymmetric_signing") {
                        asym = list().iter().map(|s| asym_bit(s)).fold(0, |a, b| a | b);
                    }
                }
            }
            Err(_) => {
                caps = spdm::config::CAPABILITIES.iter().map(|s| cap_bit(s)).fold(0, |a, b| a | b);
                asym = spdm::config::ALGORITHMS_ASYMMETRIC_SIGNING
                    .iter()
                    .map(|s| asym_bit(s))
                    .fold(0, |a, b| a | b);
            }
        }
        let mut hashes = 0;
        if CRYPTO {
            for (b, n) in [(1, 32), (2, 48), (4, 64)] {
                if n <= LIM.digest {
                    hashes |= b;
                }
            }
        } else {
            hashes = 1;
        }
        Cfg { caps, asym, hashes }
    })
}

/// The limits as the configuration file states them (None without a configuration file).
pub fn toml_lim() -> Option<&'static Lim> {
    static L: std::sync::OnceLock<Option<Lim>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let t = std::fs::read_to_string(std::env::var("MON_CONFIG").ok()?).ok()?;
        let (mut sec, mut m) = (String::new(), std::collections::BTreeMap::new());
        for l in t.lines() {
            let l = l.trim();
            if l.starts_with('[') {
                sec = l.trim_matches(|c| c == '[' || c == ']').to_string();
            } else if let Some((k, v)) = l.split_once('=') {
                if let Ok(n) = v.trim().parse::<usize>() {
                    m.insert(format!("{sec}.{}", k.trim()), n);
                }
            }
        }
        let g = |k: &str| *m.get(k).unwrap_or_else(|| panic!("harness: {k} is not in the configuration"));
        Some(Lim {
            slots: g("cert_chains.num_slots"),
            chain: g("cert_chains.buf_size"),
            depth: g("cert_chains.max_depth"),
            transcript: g("transcript.buf_size"),
            digest: g("algorithms.max_digest_size"),
            sig: 64,
            opq_data: g("opaque_data.max_element_data_size"),
            opq_elems: g("opaque_data.max_elements"),
            blocks: g("measurement.max_blocks"),
            meas: g("measurement.max_size"),
        })
    })
    .as_ref()
}

pub const CERT: u32 = 2;
pub const CHAL: u32 = 4;
pub const MUT_AUTH: u32 = 0x100;
