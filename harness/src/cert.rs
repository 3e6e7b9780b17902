//! Hand-made X.509 certificates: every byte is under the generator's control.
use crate::refs::{self, H};
use openssl::bn::{BigNum, BigNumContext};
use serde::{Deserialize, Serialize};

pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend(len(body.len()));
    v.extend_from_slice(body);
    v
}
pub fn len(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
    let mut v = vec![0x80 | b.len() as u8];
    v.extend(b);
    v
}
/// whole length of the element at the start
pub fn tlv_len(b: &[u8]) -> Option<usize> {
    let l = *b.get(1)? as usize;
    if l < 128 {
        return Some(2 + l);
    }
    let n = l & 0x7f;
    if n == 0 || n > 8 {
        return None;
    }
    Some(2 + n + b.get(2..2 + n)?.iter().fold(0usize, |a, x| a << 8 | *x as usize))
}
pub fn tlv_body(b: &[u8]) -> Option<&[u8]> {
    let n = tlv_len(b)?;
    let h = if b[1] < 128 { 2 } else { 2 + (b[1] & 0x7f) as usize };
    b.get(h..n)
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
/// non-negative INTEGER from big-endian magnitude
pub fn integer(mag: &[u8]) -> Vec<u8> {
    let mut m: Vec<u8> = mag.iter().copied().skip_while(|x| *x == 0).collect();
    if m.is_empty() || m[0] & 0x80 != 0 {
        m.insert(0, 0);
    }
    tlv(2, &m)
}
pub fn oid(hexs: &str) -> Vec<u8> {
    tlv(6, &crate::gen::unhex(hexs).unwrap())
}
pub const OID_EC: &str = "2a8648ce3d0201";
pub const OID_P256: &str = "2a8648ce3d030107";
pub const OID_SHA256: &str = "2a8648ce3d040302";
pub const OID_SHA384: &str = "2a8648ce3d040303";
/// attribute types: (OID, the library's key)
pub const ATTRS: [(&str, &str); 7] = [
    ("550406", "countryName"),
    ("550408", "stateOrProvinceName"),
    ("55040a", "organizationName"),
    ("550403", "commonName"),
    ("2a864886f70d010901", "emailAddress"),
    ("550407", "localityName"),
    ("55040b", "organizationalUnitName"),
];

/// Attribute types the library has no name for: ordinary ones, one of 20 bytes (2.25.UUID), and
/// others whose bytes end like those of a known one.
pub const UNKNOWN_OIDS: [&str; 8] = ["0992268993f22c640101", "55042a", "550404", "2b0601040182370302", "6981818181818181818181818181818181818101", "00550403", "2a00000000000000000000000000550403", "2a550403"];

/// private scalar in [1, n-1] from a seed
pub fn scalar(seed: u64) -> Vec<u8> {
    let mut s = crate::gen::Blob { len: 32, seed: seed ^ 0x5ca1a4, pat: 0 }.get();
    s[0] &= 0x7f;
    s[31] |= 1;
    s
}
/// 65-byte uncompressed point of a scalar
pub fn point(d: &[u8]) -> Vec<u8> {
    let (x, y) = refs::affine(&refs::point_mul_g(d)).unwrap();
    [&[4u8][..], &x, &y].concat()
}
/// ECDSA with the nonce derived from `k`; returns r and s, 32 bytes each.
pub fn ecdsa_raw(d: &[u8], digest: &[u8], k: u64) -> (Vec<u8>, Vec<u8>) {
    let n = refs::p256_order();
    let mut c = BigNumContext::new().unwrap();
    let z = refs::bn(&digest[..digest.len().min(32)]);
    let d = refs::bn(d);
    for i in 0.. {
        let k = scalar(k.wrapping_mul(31).wrapping_add(0xecd5a + i));
        let (x, _) = refs::affine(&refs::point_mul_g(&k)).unwrap();
        let mut r = BigNum::new().unwrap();
        r.nnmod(&refs::bn(&x), &n, &mut c).unwrap();
        let (mut t, mut u, mut ki, mut s) = (BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap());
        t.mod_mul(&r, &d, &n, &mut c).unwrap();
        u.mod_add(&t, &z, &n, &mut c).unwrap();
        ki.mod_inverse(&refs::bn(&k), &n, &mut c).unwrap();
        s.mod_mul(&ki, &u, &n, &mut c).unwrap();
        if r.num_bits() > 0 && s.num_bits() > 0 {
            return (refs::bn32(&r), refs::bn32(&s));
        }
    }
    unreachable!()
}
pub fn ecdsa_der(d: &[u8], digest: &[u8], k: u64) -> Vec<u8> {
    let (r, s) = ecdsa_raw(d, digest, k);
    seq(&[integer(&r), integer(&s)])
}

/// Instants as civil time.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Civil {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
}
pub fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn mdays(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
impl Civil {
    pub fn new(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> Civil {
        Civil { y, mo, d, h, mi, s }
    }
    /// Counted year by year and month by month.
    pub fn unix(&self) -> i64 {
        let mut days = 0;
        if self.y >= 1970 {
            for y in 1970..self.y {
                days += 365 + leap(y) as i64;
            }
        } else {
            for y in self.y..1970 {
                days -= 365 + leap(y) as i64;
            }
        }
        for m in 1..self.mo {
            days += mdays(self.y, m);
        }
        (days + self.d - 1) * 86400 + self.h * 3600 + self.mi * 60 + self.s
    }
    pub fn from_unix(t: i64) -> Civil {
        let (mut days, sec) = (t.div_euclid(86400), t.rem_euclid(86400));
        let mut y = 1970;
        while days < 0 {
            y -= 1;
            days += 365 + leap(y) as i64;
        }
        while days >= 365 + leap(y) as i64 {
            days -= 365 + leap(y) as i64;
            y += 1;
        }
        let mut mo = 1;
        while days >= mdays(y, mo) {
            days -= mdays(y, mo);
            mo += 1;
        }
        Civil { y, mo, d: days + 1, h: sec / 3600, mi: sec % 3600 / 60, s: sec % 60 }
    }
    pub fn text(&self) -> String {
        format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", self.y % 100, self.mo, self.d, self.h, self.mi, self.s)
    }
    pub fn utc(&self) -> Vec<u8> {
        tlv(0x17, self.text().as_bytes())
    }
}
pub const ALWAYS: (Civil, Civil) = (Civil { y: 2000, mo: 1, d: 1, h: 0, mi: 0, s: 0 }, Civil { y: 2049, mo: 12, d: 31, h: 23, mi: 59, s: 59 });

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attr {
    /// index into ATTRS, or beyond it an unknown type
    pub typ: usize,
    /// string type tag
    pub tag: u8,
    pub val: String,
    /// in the same set as the attribute before
    pub join: bool,
}
impl Attr {
    pub fn cn(v: &str) -> Attr {
        Attr { typ: 3, tag: 0x0c, val: v.into(), join: false }
    }
    fn der(&self) -> Vec<u8> {
        let o = match ATTRS.get(self.typ) {
            Some(a) => oid(a.0),
            None => oid(UNKNOWN_OIDS[(self.typ - ATTRS.len()) % UNKNOWN_OIDS.len()]),
        };
        seq(&[o, tlv(self.tag, self.val.as_bytes())])
    }
}
pub fn name(a: &[Attr]) -> Vec<u8> {
    let mut sets: Vec<Vec<Vec<u8>>> = vec![];
    for x in a {
        match sets.last_mut() {
            Some(l) if x.join => l.push(x.der()),
            _ => sets.push(vec![x.der()]),
        }
    }
    seq(&sets
        .into_iter()
        .map(|mut s| {
            s.sort(); // DER SET OF
            tlv(0x31, &s.concat())
        })
        .collect::<Vec<_>>())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    /// absent for v1
    pub version: Option<u8>,
    pub serial: crate::gen::Hex,
    pub sha384: bool,
    pub issuer: Vec<Attr>,
    pub subject: Vec<Attr>,
    pub nb: Civil,
    pub na: Civil,
    /// seed of the subject's key
    pub key: u64,
    /// sizes of opaque extensions
    pub exts: Vec<u32>,
    /// seed of the signature nonce
    pub nonce: u64,
}
impl Spec {
    pub fn simple(cn: &str, key: u64) -> Spec {
        Spec { version: Some(2), serial: crate::gen::Hex(vec![1, key as u8]), sha384: false, issuer: vec![Attr::cn("CA")], subject: vec![Attr::cn(cn)], nb: ALWAYS.0, na: ALWAYS.1, key, exts: vec![], nonce: key }
    }
    pub fn alg(&self) -> Vec<u8> {
        seq(&[oid(if self.sha384 { OID_SHA384 } else { OID_SHA256 })])
    }
    pub fn h(&self) -> H {
        if self.sha384 { H::S384 } else { H::S256 }
    }
    pub fn spki(&self) -> Vec<u8> {
        spki(&point(&scalar(self.key)))
    }
    pub fn parts(&self) -> Vec<Vec<u8>> {
        let mut p = vec![];
        if let Some(v) = self.version {
            p.push(tlv(0xa0, &integer(&[v])));
        }
        p.push(integer(&self.serial));
        p.push(self.alg());
        p.push(name(&self.issuer));
        p.push(seq(&[self.nb.utc(), self.na.utc()]));
        p.push(name(&self.subject));
        p.push(self.spki());
        if !self.exts.is_empty() {
            let e: Vec<Vec<u8>> = self.exts.iter().enumerate().map(|(i, n)| seq(&[if i % 4 == 3 { oid(UNKNOWN_OIDS[4]) } else { oid(&format!("2b060104018237{:02x}", i % 100)) }, tlv(4, &vec![i as u8 + 0x30; *n as usize])])).collect();
            p.push(tlv(0xa3, &seq(&e)));
        }
        p
    }
    pub fn tbs(&self) -> Vec<u8> {
        seq(&self.parts())
    }
    pub fn der(&self, ca: u64) -> Vec<u8> {
        sign_tbs(&self.tbs(), &self.alg(), self.h(), ca, self.nonce)
    }
}
pub fn spki(point: &[u8]) -> Vec<u8> {
    seq(&[seq(&[oid(OID_EC), oid(OID_P256)]), bits(point)])
}
pub fn bits(b: &[u8]) -> Vec<u8> {
    tlv(3, &[&[0u8][..], b].concat())
}
/// A certificate around `tbs`, signed by the key with seed `ca`.
pub fn sign_tbs(tbs: &[u8], alg: &[u8], h: H, ca: u64, nonce: u64) -> Vec<u8> {
    let sig = ecdsa_der(&scalar(ca), &h.hash(tbs), nonce);
    seq(&[tbs.to_vec(), alg.to_vec(), bits(&sig)])
}
/// Self-signed certificate of the key with that seed.
pub fn ca(key: u64) -> Vec<u8> {
    Spec { subject: vec![Attr::cn("CA")], ..Spec::simple("CA", key) }.der(key)
}
pub fn pem(label: &str, der: &[u8]) -> String {
    let b = openssl::base64::encode_block(der);
    let mut s = format!("-----BEGIN {label}-----\n");
    for c in b.as_bytes().chunks(64) {
        s.push_str(std::str::from_utf8(c).unwrap());
        s.push('\n');
    }
    s + &format!("-----END {label}-----\n")
}
/// SEC1 private key
pub fn sec1(d: &[u8], with_public: bool) -> Vec<u8> {
    let mut p = vec![integer(&[1]), tlv(4, d), tlv(0xa0, &oid(OID_P256))];
    if with_public {
        p.push(tlv(0xa1, &bits(&point(d))));
    }
    seq(&p)
}
