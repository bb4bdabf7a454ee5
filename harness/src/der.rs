//! A small X.509 writer.

pub fn tlv(tag: u8, v: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    let n = v.len();
    if n < 128 {
        o.push(n as u8);
    } else if n < 256 {
        o.extend_from_slice(&[0x81, n as u8]);
    } else if n < 65536 {
        o.extend_from_slice(&[0x82, (n >> 8) as u8, n as u8]);
    } else {
        o.extend_from_slice(&[0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
    o.extend_from_slice(v);
    o
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
/// Minimal positive INTEGER.
pub fn int(be: &[u8]) -> Vec<u8> {
    let s = be.iter().position(|b| *b != 0).unwrap_or(be.len());
    let mut v = be[s..].to_vec();
    if v.is_empty() || v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    tlv(2, &v)
}
pub fn name(cn: &str) -> Vec<u8> {
    let atv = seq(&[vec![6, 3, 0x55, 4, 3], tlv(0x0C, cn.as_bytes())]);
    seq(&[tlv(0x31, &atv)])
}
fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + i64::from(m <= 2), m, d)
}
pub fn time(t: u64) -> Vec<u8> {
    let (y, m, d) = civil((t / 86_400) as i64);
    let s = t % 86_400;
    let rest = format!("{m:02}{d:02}{:02}{:02}{:02}Z", s / 3600, s / 60 % 60, s % 60);
    if (1950..2050).contains(&y) {
        tlv(0x17, format!("{:02}{rest}", y % 100).as_bytes())
    } else {
        tlv(0x18, format!("{y:04}{rest}").as_bytes())
    }
}
pub const ECDSA_SHA256: [u8; 10] = [6, 8, 0x2A, 0x86, 0x48, 0xCE, 0x3D, 4, 3, 2];

pub struct Tbs<'a> {
    pub serial: u32,
    pub issuer: &'a str,
    pub subject: &'a str,
    pub nb: u64,
    pub na: u64,
    pub pubkey: &'a [u8],
    /// kind of key, 0 for P-256 as it should be
    pub alien: u8,
    /// None: no basicConstraints. Some(ca)
    pub ca: Option<bool>,
    pub pathlen: Option<u8>,
    pub eku: bool,
    pub pad: usize,
}

pub fn tbs(t: &Tbs) -> Vec<u8> {
    let bits = tlv(3, &[&[0u8][..], t.pubkey].concat());
    let ec = vec![6, 7, 0x2A, 0x86, 0x48, 0xCE, 0x3D, 2, 1];
    let alg = match t.alien {
        0 | 4 | 5 => seq(&[ec, vec![6, 8, 0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7]]),
        1 => seq(&[ec, vec![6, 5, 0x2B, 0x81, 4, 0, 0x22]]),
        2 => seq(&[vec![6, 3, 0x2B, 0x65, 0x70]]),
        3 => seq(&[vec![6, 9, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 1, 1, 1], vec![5, 0]]),
        6 => seq(&[ec, vec![6, 5, 0x2B, 0x81, 4, 0, 0x23]]),
        _ => seq(&[ec]),
    };
    let spki = seq(&[alg, bits]);
    // every version 3 certificate carries extensions: subjectKeyIdentifier, always
    let mut ext = vec![seq(&[vec![6, 3, 0x55, 0x1D, 0x0E], tlv(4, &tlv(4, &t.pubkey[1..9]))])];
    if let Some(ca) = t.ca {
        let mut bc = vec![];
        if ca {
            bc.push(vec![1, 1, 0xFF]);
        }
        if let Some(p) = t.pathlen {
            bc.push(int(&[p]));
        }
        ext.push(seq(&[vec![6, 3, 0x55, 0x1D, 0x13], vec![1, 1, 0xFF], tlv(4, &seq(&bc))]));
    }
    if t.eku {
        let server = vec![6, 8, 0x2B, 6, 1, 5, 5, 7, 3, 1];
        ext.push(seq(&[vec![6, 3, 0x55, 0x1D, 0x25], tlv(4, &seq(&[server]))]));
    }
    if t.pad > 0 {
        let oid = vec![6, 8, 0x2B, 6, 1, 4, 1, 0x86, 0x8D, 0x1F];
        ext.push(seq(&[oid, tlv(4, &vec![0xA5; t.pad])]));
    }
    let mut parts = vec![
        vec![0xA0, 3, 2, 1, 2],
        int(&t.serial.to_be_bytes()),
        seq(&[ECDSA_SHA256.to_vec()]),
        name(t.issuer),
        seq(&[time(t.nb), time(t.na)]),
        name(t.subject),
        spki,
    ];
    parts.push(tlv(0xA3, &seq(&ext)));
    seq(&parts)
}

pub fn cert(tbs: &[u8], sig_der: &[u8]) -> Vec<u8> {
    seq(&[
        tbs.to_vec(),
        seq(&[ECDSA_SHA256.to_vec()]),
        tlv(3, &[&[0u8][..], sig_der].concat()),
    ])
}
