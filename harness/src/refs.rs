//! Reference models written from the standards over OpenSSL primitives.
use openssl::bn::{BigNum, BigNumContext};
use openssl::derive::Deriver;
use openssl::ec::{EcGroup, EcKey, EcPoint};
use openssl::hash::{hash, MessageDigest};
use openssl::nid::Nid;
use openssl::pkey::{Id, PKey, Private};
use openssl::sign::Signer;
use openssl::symm::{self, Crypter, Mode};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum H {
    S256,
    S384,
}
impl H {
    pub fn len(self) -> usize {
        if self == H::S256 { 32 } else { 48 }
    }
    pub fn md(self) -> MessageDigest {
        if self == H::S256 { MessageDigest::sha256() } else { MessageDigest::sha384() }
    }
    pub fn hash(self, d: &[u8]) -> Vec<u8> {
        hash(self.md(), d).unwrap().to_vec()
    }
}

/// RFC 2104, written out over the hash (OpenSSL refuses some key lengths through EVP_PKEY).
pub fn hmac(h: H, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let b = if h == H::S256 { 64 } else { 128 };
    let mut k = if key.len() > b { h.hash(key) } else { key.to_vec() };
    k.resize(b, 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend_from_slice(&h.hash(&i));
    h.hash(&o)
}
/// OpenSSL's own HMAC (second opinion for non-empty keys).
pub fn hmac_ossl(h: H, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let k = PKey::hmac(key).unwrap();
    let mut s = Signer::new(h.md(), &k).unwrap();
    s.update(msg).unwrap();
    s.sign_to_vec().unwrap()
}
pub fn hkdf_extract(h: H, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    hmac(h, salt, ikm)
}
pub fn hkdf_expand(h: H, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u32;
    while out.len() < len {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i as u8);
        t = hmac(h, prk, &m);
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(len);
    out
}
pub fn label(label: &[u8], ctx: &[u8], len: usize) -> Vec<u8> {
    let mut v = (len as u16).to_be_bytes().to_vec();
    v.push(6 + label.len() as u8);
    v.extend_from_slice(b"tls13 ");
    v.extend_from_slice(label);
    v.push(ctx.len() as u8);
    v.extend_from_slice(ctx);
    v
}
pub fn expand_label(h: H, secret: &[u8], l: &[u8], ctx: &[u8], len: usize) -> Vec<u8> {
    hkdf_expand(h, secret, &label(l, ctx, len), len)
}

/// Suites by code point.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub struct Suite(pub u16);
pub const SUITES: [Suite; 3] = [Suite(0x1301), Suite(0x1302), Suite(0x1303)];
impl Suite {
    pub fn h(self) -> H {
        if self.0 == 0x1302 { H::S384 } else { H::S256 }
    }
    pub fn key_len(self) -> usize {
        if self.0 == 0x1301 { 16 } else { 32 }
    }
    pub fn cipher(self) -> symm::Cipher {
        match self.0 {
            0x1301 => symm::Cipher::aes_128_gcm(),
            0x1302 => symm::Cipher::aes_256_gcm(),
            _ => symm::Cipher::chacha20_poly1305(),
        }
    }
    pub fn name(self) -> &'static str {
        match self.0 {
            0x1301 => "TLS_AES_128_GCM_SHA256",
            0x1302 => "TLS_AES_256_GCM_SHA384",
            _ => "TLS_CHACHA20_POLY1305_SHA256",
        }
    }
}
pub fn seal(s: Suite, key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut tag = vec![0; 16];
    let ct = symm::encrypt_aead(s.cipher(), key, Some(nonce), aad, pt, &mut tag).expect("openssl seal");
    (ct, tag)
}
pub fn open(s: Suite, key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    symm::decrypt_aead(s.cipher(), key, Some(nonce), aad, ct, tag).ok()
}
pub fn ecb(key: &[u8], block: &[u8], enc: bool) -> Vec<u8> {
    let c = match key.len() {
        16 => symm::Cipher::aes_128_ecb(),
        24 => symm::Cipher::aes_192_ecb(),
        _ => symm::Cipher::aes_256_ecb(),
    };
    let mut cr = Crypter::new(c, if enc { Mode::Encrypt } else { Mode::Decrypt }, key, None).unwrap();
    cr.pad(false);
    let mut out = vec![0; block.len() + 16];
    let mut n = cr.update(block, &mut out).unwrap();
    n += cr.finalize(&mut out[n..]).unwrap();
    out.truncate(n);
    out
}
pub fn chacha20(key: &[u8], nonce: &[u8], counter: u32, data: &[u8]) -> Vec<u8> {
    let mut iv = counter.to_le_bytes().to_vec();
    iv.extend_from_slice(nonce);
    symm::encrypt(symm::Cipher::chacha20(), key, Some(&iv), data).unwrap()
}

/// GF(2^128) of GCM, on big-endian blocks.
pub fn gf_mul(x: u128, y: u128) -> u128 {
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 {
            z ^= v;
        }
        let lsb = v & 1;
        v >>= 1;
        if lsb == 1 {
            v ^= 0xe1u128 << 120;
        }
    }
    z
}
pub fn gf_pow(x: u128, mut e: u128) -> u128 {
    let mut r = 1u128 << 127; // the element 1
    let mut b = x;
    while e > 0 {
        if e & 1 == 1 {
            r = gf_mul(r, b);
        }
        b = gf_mul(b, b);
        e >>= 1;
    }
    r
}
pub fn gf_inv(x: u128) -> u128 {
    gf_pow(x, u128::MAX - 1)
}
pub fn be128(b: &[u8]) -> u128 {
    let mut a = [0u8; 16];
    a[..b.len()].copy_from_slice(b);
    u128::from_be_bytes(a)
}
/// A 16-byte GCM IV for which the initial counter block J0 is `j0`.
pub fn gcm_iv_for_j0(key: &[u8], j0: u128) -> Vec<u8> {
    let h = be128(&ecb(key, &[0; 16], true));
    let hi = gf_inv(h);
    // J0 = ((iv * H) ^ len) * H
    let len = 128u128;
    let t = gf_mul(j0, hi) ^ len;
    gf_mul(t, hi).to_be_bytes().to_vec()
}
/// A GCM IV that OpenSSL takes (up to 128 bytes) with the same initial counter block as `iv`.
pub fn gcm_short_iv(key: &[u8], iv: &[u8]) -> Vec<u8> {
    if iv.len() <= 128 {
        return iv.to_vec();
    }
    let h = be128(&ecb(key, &[0; 16], true));
    let y = iv.chunks(16).fold(0, |y, b| gf_mul(y ^ be128(b), h));
    gcm_iv_for_j0(key, gf_mul(y ^ (iv.len() as u128 * 8), h))
}

pub fn x25519_pub(sk: &[u8]) -> Vec<u8> {
    PKey::private_key_from_raw_bytes(sk, Id::X25519).unwrap().raw_public_key().unwrap()
}
/// None when the result is all zero (OpenSSL refuses it).
pub fn x25519(sk: &[u8], pk: &[u8]) -> Option<Vec<u8>> {
    let k: PKey<Private> = PKey::private_key_from_raw_bytes(sk, Id::X25519).unwrap();
    let p = PKey::public_key_from_raw_bytes(pk, Id::X25519).unwrap();
    let mut d = Deriver::new(&k).unwrap();
    d.set_peer(&p).ok()?;
    d.derive_to_vec().ok()
}

pub fn p256() -> EcGroup {
    EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap()
}
pub fn bn(b: &[u8]) -> BigNum {
    BigNum::from_slice(b).unwrap()
}
pub fn bn32(b: &openssl::bn::BigNumRef) -> Vec<u8> {
    b.to_vec_padded(32).unwrap()
}
pub fn p256_order() -> BigNum {
    let mut n = BigNum::new().unwrap();
    let mut c = BigNumContext::new().unwrap();
    p256().order(&mut n, &mut c).unwrap();
    n
}
pub fn p256_prime() -> BigNum {
    let (mut p, mut a, mut b) = (BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap());
    let mut c = BigNumContext::new().unwrap();
    p256().components_gfp(&mut p, &mut a, &mut b, &mut c).unwrap();
    p
}
/// Affine coordinates, or None for the point at infinity.
pub fn affine(p: &EcPoint) -> Option<(Vec<u8>, Vec<u8>)> {
    let g = p256();
    if p.is_infinity(&g) {
        return None;
    }
    let mut c = BigNumContext::new().unwrap();
    let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
    p.affine_coordinates(&g, &mut x, &mut y, &mut c).unwrap();
    Some((bn32(&x), bn32(&y)))
}
pub fn point_mul_g(k: &[u8]) -> EcPoint {
    let g = p256();
    let c = BigNumContext::new().unwrap();
    let mut p = EcPoint::new(&g).unwrap();
    p.mul_generator(&g, &bn(k), &c).unwrap();
    p
}
pub fn point_mul(p: &EcPoint, k: &[u8]) -> EcPoint {
    let g = p256();
    let c = BigNumContext::new().unwrap();
    let mut r = EcPoint::new(&g).unwrap();
    r.mul(&g, p, &bn(k), &c).unwrap();
    r
}
pub fn point_add(p: &EcPoint, q: &EcPoint) -> EcPoint {
    let g = p256();
    let mut c = BigNumContext::new().unwrap();
    let mut r = EcPoint::new(&g).unwrap();
    r.add(&g, p, q, &mut c).unwrap();
    r
}
pub fn point_from_affine(x: &[u8], y: &[u8]) -> Option<EcPoint> {
    let g = p256();
    if bn(x) >= p256_prime() || bn(y) >= p256_prime() {
        return None;
    }
    let k = EcKey::from_public_key_affine_coordinates(&g, &bn(x), &bn(y)).ok()?;
    k.public_key().to_owned(&g).ok()
}
/// FIPS 186-4 verification, written out. `q` None = not a usable public key.
pub fn ecdsa_verify(q: Option<&EcPoint>, r: &BigNum, s: &BigNum, digest: &[u8]) -> bool {
    let n = p256_order();
    let zero = BigNum::new().unwrap();
    let Some(q) = q else { return false };
    if q.is_infinity(&p256()) || *r <= zero || *r >= n || *s <= zero || *s >= n {
        return false;
    }
    let mut c = BigNumContext::new().unwrap();
    let z = bn(&digest[..digest.len().min(32)]);
    let mut w = BigNum::new().unwrap();
    w.mod_inverse(s, &n, &mut c).unwrap();
    let (mut u1, mut u2) = (BigNum::new().unwrap(), BigNum::new().unwrap());
    u1.mod_mul(&z, &w, &n, &mut c).unwrap();
    u2.mod_mul(r, &w, &n, &mut c).unwrap();
    let p = point_add(&point_mul_g(&u1.to_vec()), &point_mul(q, &u2.to_vec()));
    match affine(&p) {
        None => false,
        Some((x, _)) => {
            let mut m = BigNum::new().unwrap();
            m.nnmod(&bn(&x), &n, &mut c).unwrap();
            m == *r
        }
    }
}

/// TLS 1.3 secrets of one handshake.
#[derive(Clone, Debug, PartialEq)]
pub struct Secrets {
    pub h: H,
    pub c_hs: Vec<u8>,
    pub s_hs: Vec<u8>,
    pub master: Vec<u8>,
}
pub fn handshake_secrets(h: H, shared: &[u8], hello_hash: &[u8]) -> Secrets {
    let z = vec![0u8; h.len()];
    let early = hkdf_extract(h, &z, &z);
    let d = expand_label(h, &early, b"derived", &h.hash(b""), h.len());
    let hs = hkdf_extract(h, &d, shared);
    let c_hs = expand_label(h, &hs, b"c hs traffic", hello_hash, h.len());
    let s_hs = expand_label(h, &hs, b"s hs traffic", hello_hash, h.len());
    let d = expand_label(h, &hs, b"derived", &h.hash(b""), h.len());
    let master = hkdf_extract(h, &d, &z);
    Secrets { h, c_hs, s_hs, master }
}
/// (client, server) application traffic secrets.
pub fn app_secrets(s: &Secrets, fin_hash: &[u8]) -> (Vec<u8>, Vec<u8>) {
    (expand_label(s.h, &s.master, b"c ap traffic", fin_hash, s.h.len()), expand_label(s.h, &s.master, b"s ap traffic", fin_hash, s.h.len()))
}
pub fn finished(h: H, secret: &[u8], th: &[u8]) -> Vec<u8> {
    let k = expand_label(h, secret, b"finished", b"", h.len());
    hmac(h, &k, th)
}

/// One direction of record protection.
#[derive(Clone, Debug)]
pub struct Keys {
    pub suite: Suite,
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub seq: u64,
}
impl Keys {
    pub fn new(suite: Suite, secret: &[u8]) -> Keys {
        let h = suite.h();
        Keys { suite, secret: secret.to_vec(), key: expand_label(h, secret, b"key", b"", suite.key_len()), iv: expand_label(h, secret, b"iv", b"", 12), seq: 0 }
    }
    pub fn nonce(&self, seq: u64) -> Vec<u8> {
        let mut n = self.iv.clone();
        for (i, b) in seq.to_be_bytes().iter().enumerate() {
            n[4 + i] ^= b;
        }
        n
    }
    /// A whole record (header included), without touching `seq`.
    pub fn seal_at(&self, seq: u64, typ: u8, data: &[u8], pad: usize) -> Vec<u8> {
        let mut inner = data.to_vec();
        inner.push(typ);
        inner.resize(inner.len() + pad, 0);
        self.seal_inner_at(seq, &inner)
    }
    pub fn seal_inner_at(&self, seq: u64, inner: &[u8]) -> Vec<u8> {
        self.seal_outer_at(23, seq, inner)
    }
    /// with another type in the record header
    pub fn seal_outer_at(&self, outer: u8, seq: u64, inner: &[u8]) -> Vec<u8> {
        let l = inner.len() + 16;
        let hdr = [outer, 3, 3, (l >> 8) as u8, l as u8];
        let (ct, tag) = seal(self.suite, &self.key, &self.nonce(seq), &hdr, inner);
        let mut out = hdr.to_vec();
        out.extend(ct);
        out.extend(tag);
        out
    }
    pub fn seal(&mut self, typ: u8, data: &[u8], pad: usize) -> Vec<u8> {
        let r = self.seal_at(self.seq, typ, data, pad);
        self.seq += 1;
        r
    }
    /// Opens a whole record; returns the inner type and content.
    pub fn open_at(&self, seq: u64, rec: &[u8]) -> Option<(u8, Vec<u8>)> {
        if rec.len() < 5 + 17 {
            return None;
        }
        let (hdr, body) = rec.split_at(5);
        let (ct, tag) = body.split_at(body.len() - 16);
        let mut p = open(self.suite, &self.key, &self.nonce(seq), hdr, ct, tag)?;
        while p.last() == Some(&0) {
            p.pop();
        }
        let t = p.pop()?;
        Some((t, p))
    }
    pub fn open(&mut self, rec: &[u8]) -> Option<(u8, Vec<u8>)> {
        let r = self.open_at(self.seq, rec)?;
        self.seq += 1;
        Some(r)
    }
}
