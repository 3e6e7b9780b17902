//! C07: ECDSA verification against a written-out FIPS 186-4 model and OpenSSL; signatures made by
//! the library verified independently.
use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, Point, PrivateKey, PublicKey, Signature};
use ibig::{IBig, UBig};
use openssl::bn::{BigNum, BigNumContext};
use openssl::ec::{EcKey, EcPoint};
use openssl::ecdsa::EcdsaSig;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::refs;
use vharness::run::*;
use vharness::*;

fn int(b: &[u8]) -> IBig {
    b.iter().fold(IBig::from(0), |a, x| (a << 8) + IBig::from(*x))
}
fn be(v: &IBig) -> Vec<u8> {
    UBig::try_from(v.clone()).unwrap().to_be_bytes()
}
fn n() -> IBig {
    int(&refs::p256_order().to_vec())
}
fn p() -> IBig {
    int(&refs::p256_prime().to_vec())
}
/// scalar in [1, n-1]
fn scalar(h: &[u8]) -> IBig {
    int(h) % (n() - IBig::from(1)) + IBig::from(1)
}
fn modn(v: IBig) -> IBig {
    let r = v % n();
    if r < IBig::from(0) { r + n() } else { r }
}
fn inv(v: &IBig) -> IBig {
    let mut r = BigNum::new().unwrap();
    r.mod_inverse(&refs::bn(&be(v)), &refs::p256_order(), &mut BigNumContext::new().unwrap()).unwrap();
    int(&r.to_vec())
}
fn conv(q: &EcPoint) -> Point {
    match refs::affine(q) {
        None => Point::new(IBig::from(0), IBig::from(0)),
        Some((x, y)) => Point::new(int(&x), int(&y)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sign {
    d: Hex,
    digest: Hex,
    det: bool,
}
fn digest_strategy() -> impl Strategy<Value = Hex> + Clone {
    // around the order, zero, all ones, and longer digests
    let nn = refs::p256_order().to_vec();
    let near = (-3i32..4).prop_map(move |d| Hex(be(&(int(&nn) + IBig::from(d)))));
    prop_oneof![6 => edgy(32), 1 => near, 2 => edgy(48), 1 => edgy(64), 1 => Just(Hex(vec![0; 32])), 1 => Just(Hex(vec![255; 32])), 1 => (hexn(32), 33usize..70).prop_map(|(h, l)| { let mut v = h.0; v.resize(l, 0); Hex(v) })]
}
fn sign(c: &Sign) -> Res {
    let d = scalar(&c.d);
    let key = PrivateKey::new(Curve::secp256r1(), d.clone());
    let mut e = if c.det { Ecdsa::unsecure() } else { Ecdsa::urandom() };
    let q = refs::point_mul_g(&be(&d));
    for i in 0..2 {
        let s = match e.sign(&key, &c.digest) {
            Ok(s) => s,
            Err(m) => bad!("signing fails: {m}"),
        };
        let zero = IBig::from(0);
        ensure!(s.r > zero && s.r < n() && s.s > zero && s.s < n(), "signature {i} out of range: r={} s={}", s.r, s.s);
        ensure!(Ecdsa::verify(PublicKey::new(conv(&q), Curve::secp256r1()), &s, &c.digest), "own signature does not verify here");
        let (r, t) = (refs::bn(&be(&s.r)), refs::bn(&be(&s.s)));
        ensure!(refs::ecdsa_verify(Some(&q), &r, &t, &c.digest), "signature is not valid by FIPS 186-4");
        let ek = EcKey::from_public_key(&refs::p256(), &q)?;
        let sig = EcdsaSig::from_private_components(r, t)?;
        ensure!(sig.verify(&c.digest[..c.digest.len().min(32)], &ek)?, "OpenSSL refuses the signature");
    }
    Ok(hit().tag_if(c.digest.len() > 32, "long-digest").tag_if(c.det, "seeded"))
}

/// How the (valid) starting point is made.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Base {
    /// an ordinary signature with nonce k
    Plain(Hex),
    /// chosen u1, u2: digest = u1 * s. With `same`, u1 G = u2 Q (a doubling); with 2, the sum is infinity
    Chosen(Hex, Hex, u8),
    /// x coordinate of R at least n: recover a public key for it
    WrapX(u32, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    None,
    /// r or s replaced: which, how, operand
    R(u8, Hex),
    S(u8, Hex),
    Swap,
    NegS,
    Digest(usize),
    DigestPrefix,
    OtherKey(Hex),
    NegKey,
    Infinity,
    /// off-curve key: add to x (0) or y (1)
    OffCurve(u8, u8),
    /// coordinates above the field prime
    BeyondField(u8),
    Twist(Hex),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ver {
    d: Hex,
    digest: Hex,
    base: Base,
    m: Mut,
}
fn alter(v: &IBig, how: u8, h: &Hex) -> IBig {
    let one = IBig::from(1);
    match how {
        0 => IBig::from(0),
        1 => v + one,
        2 => v - one,
        3 => v + n(),
        4 => n(),
        5 => n() - v,
        6 => n() - one,
        7 => n() + one,
        8 => one,
        9 => -v,
        10 => v << 8,
        11 => p(),
        12 => v ^ (one << (h[0] as usize % 256)),
        13 => v + n() * IBig::from(2),
        14 => v - n(),
        _ => int(h),
    }
}
fn ver(c: &Ver) -> Res {
    let mut d = scalar(&c.d);
    let mut q = refs::point_mul_g(&be(&d));
    let mut digest = c.digest.to_vec();
    let (mut r, mut s);
    let mut tags: Vec<&str> = vec![];
    let mut base_valid = true;
    match &c.base {
        Base::Plain(k) => {
            let k = scalar(k);
            let (x, _) = refs::affine(&refs::point_mul_g(&be(&k))).unwrap();
            r = modn(int(&x));
            s = modn((int(&digest[..32]) + &r * &d) * inv(&k));
        }
        Base::Chosen(a, b, how) => {
            let u2 = scalar(b);
            let u1 = match how {
                0 => modn(int(a)), // may be zero
                1 => {
                    tags.push("doubling");
                    modn(&u2 * &d)
                }
                _ => {
                    tags.push("sum-at-infinity");
                    base_valid = false;
                    modn(-(&u2 * &d))
                }
            };
            let big = refs::point_add(&refs::point_mul_g(&be(&u1)), &refs::point_mul(&q, &be(&u2)));
            r = match refs::affine(&big) {
                Some((x, _)) => modn(int(&x)),
                None => scalar(a),
            };
            s = modn(&r * inv(&u2));
            let e = be(&modn(&u1 * &s));
            digest = vec![0; 32 - e.len()];
            digest.extend(e);
        }
        Base::WrapX(off, odd) => {
            tags.push("x-beyond-order");
            let g = refs::p256();
            let mut ctx = BigNumContext::new()?;
            let mut x = n() + IBig::from(*off);
            let big = loop {
                let mut enc = vec![if *odd { 3 } else { 2 }];
                enc.extend(be(&x));
                if let Ok(p) = EcPoint::from_bytes(&g, &enc, &mut ctx) {
                    break p;
                }
                x += IBig::from(1);
            };
            r = modn(x);
            if r == IBig::from(0) {
                return Ok(nt(false));
            }
            s = scalar(&c.d);
            // Q = r^-1 (s R - e G)
            let ri = inv(&r);
            let e = modn(int(&digest[..32]));
            q = refs::point_add(&refs::point_mul(&big, &be(&modn(&s * &ri))), &refs::point_mul_g(&be(&modn(-(e * ri)))));
            d = IBig::from(0);
        }
    }
    let _ = d;
    if r == IBig::from(0) || s == IBig::from(0) {
        return Ok(nt(false).tag("degenerate"));
    }
    let mut key = conv(&q);
    match &c.m {
        Mut::None => {}
        Mut::R(h, x) => r = alter(&r, *h, x),
        Mut::S(h, x) => s = alter(&s, *h, x),
        Mut::Swap => std::mem::swap(&mut r, &mut s),
        Mut::NegS => s = n() - s,
        Mut::Digest(i) => {
            let l = digest.len() * 8;
            digest[i % l / 8] ^= 1 << (i % 8)
        }
        Mut::DigestPrefix => {
            digest.insert(0, 0);
        }
        Mut::OtherKey(h) => key = conv(&refs::point_mul_g(&be(&scalar(h)))),
        Mut::NegKey => key.y = p() - key.y,
        Mut::Infinity => key = Point::new(IBig::from(0), IBig::from(0)),
        Mut::OffCurve(w, k) => {
            let k = IBig::from(*k as u32 + 1);
            if *w == 0 { key.x += k } else { key.y += k }
        }
        Mut::BeyondField(w) => {
            if *w % 2 == 0 { key.x += p() } else { key.y += p() }
        }
        Mut::Twist(h) => key = Point::new(int(h) % p(), key.y.clone()),
    }
    let zero = IBig::from(0);
    let qq = if key.x < p() && key.y < p() { refs::point_from_affine(&be(&key.x), &be(&key.y)) } else { None };
    let want = r > zero && s > zero && refs::ecdsa_verify(qq.as_ref(), &refs::bn(&be(&r)), &refs::bn(&be(&s)), &digest);
    if matches!(c.m, Mut::None) && want != base_valid {
        broken!("the generator meant a {} signature", if base_valid { "valid" } else { "invalid" });
    }
    if let (Some(q), true) = (&qq, r > zero && s > zero) {
        let ek = EcKey::from_public_key(&refs::p256(), q)?;
        let sig = EcdsaSig::from_private_components(refs::bn(&be(&r)), refs::bn(&be(&s)))?;
        let o = sig.verify(&digest[..digest.len().min(32)], &ek).unwrap_or(false);
        if o != want {
            broken!("model says {want}, OpenSSL {o}");
        }
    }
    let got = Ecdsa::verify(PublicKey::new(key.clone(), Curve::secp256r1()), &Signature::new(s.clone(), r.clone()), &digest);
    ensure!(got == want, "verify says {got}, the standard {want}: r={r} s={s} key={key:?} digest={}", hex(&digest));
    let mut o = hit().tag(if want { "valid" } else { "invalid" });
    for t in tags {
        o = o.tag(t);
    }
    Ok(o.tag(format!("mut-{}", format!("{:?}", c.m).split('(').next().unwrap())))
}
/// A key that is no point of the curve, with a signature that the arithmetic alone would accept.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Forged {
    x: Hex,
    y: Hex,
    u1: Hex,
    u2: Hex,
    kind: u8,
}
fn modp(v: IBig) -> IBig {
    let r = v % p();
    if r < IBig::from(0) { r + p() } else { r }
}
fn invp(v: &IBig) -> IBig {
    let mut r = BigNum::new().unwrap();
    r.mod_inverse(&refs::bn(&be(v)), &refs::p256_prime(), &mut BigNumContext::new().unwrap()).unwrap();
    int(&r.to_vec())
}
/// chord and tangent, on whichever curve y^2 = x^3 - 3x + b' the points are
fn chord(a: Option<(IBig, IBig)>, b: Option<(IBig, IBig)>) -> Option<(IBig, IBig)> {
    let (a, b) = match (a, b) {
        (None, q) | (q, None) => return q,
        (Some(a), Some(b)) => (a, b),
    };
    let l = if a.0 == b.0 {
        if a.1 != b.1 || a.1 == IBig::from(0) {
            return None;
        }
        modp((IBig::from(3) * &a.0 * &a.0 - IBig::from(3)) * invp(&modp(IBig::from(2) * &a.1)))
    } else {
        modp((&b.1 - &a.1) * invp(&modp(&b.0 - &a.0)))
    };
    let x = modp(&l * &l - &a.0 - &b.0);
    let y = modp(l * (&a.0 - &x) - a.1);
    Some((x, y))
}
fn times(k: &IBig, q: &(IBig, IBig)) -> Option<(IBig, IBig)> {
    let mut r = None;
    for i in (0..256usize).rev() {
        r = chord(r.clone(), r);
        if (k >> i) & IBig::from(1) == IBig::from(1) {
            r = chord(r, Some(q.clone()));
        }
    }
    r
}
fn forged(c: &Forged) -> Res {
    let zero = IBig::from(0);
    let g = conv(&refs::point_mul_g(&[1]));
    let key = match c.kind {
        0 | 1 => (int(&c.x) % p(), int(&c.y) % p()),
        2 => (int(&c.x) % p(), zero.clone()),
        3 => (zero.clone(), int(&c.y) % p()),
        4 => (g.x.clone(), modp(&g.y + IBig::from(1))),
        _ => (zero.clone(), zero.clone()),
    };
    if refs::point_from_affine(&be(&key.0), &be(&key.1)).is_some() {
        return Ok(nt(false));
    }
    let u1 = if c.kind == 1 { zero.clone() } else { modn(int(&c.u1)) };
    let u2 = scalar(&c.u2);
    let big = chord(times(&u1, &(g.x, g.y)), if key.1 == zero { None } else { times(&u2, &key) });
    let Some((x, _)) = big else { return Ok(nt(false)) };
    let r = modn(x);
    if r == zero {
        return Ok(nt(false));
    }
    let s = modn(&r * inv(&u2));
    let e = be(&modn(&u1 * &s));
    let mut digest = vec![0; 32 - e.len()];
    digest.extend(e);
    let k = PublicKey::new(Point::new(key.0.clone(), key.1.clone()), Curve::secp256r1());
    ensure!(!Ecdsa::verify(k, &Signature::new(s.clone(), r.clone()), &digest), "a signature is accepted under a key that is not a point of the curve: ({}, {}) r={r} s={s} digest={}", key.0, key.1, hex(&digest));
    Ok(hit().tag(format!("forged-{}", c.kind)))
}
fn main() {
    run::main("C07", "library signatures over edge-biased keys and digests; verification of ordinary signatures, of ones built from chosen u1/u2 (zero, doubling, sum at infinity), of ones whose R has x >= n, each then left alone or altered in r, s, digest or key; non-trivial = all but degenerate generator outcomes", |c| {
        c.assume("OpenSSL 3.0 P-256 and bignum arithmetic is correct; the written-out model is cross-checked against OpenSSL's ECDSA on every case");
        c.sub("sign", 8_000, || (edgy(32), digest_strategy(), any::<bool>()).prop_map(|(d, digest, det)| Sign { d, digest, det }), sign);
        c.sub("verify", 40_000, || {
            let k = || prop_oneof![2 => edgy(32), 1 => hexn(1..2)];
            let base = prop_oneof![5 => k().prop_map(Base::Plain), 4 => (prop_oneof![2 => k(), 1 => Just(Hex(vec![0]))], k(), prop_oneof![3 => Just(0u8), 1 => Just(1), 1 => Just(2)]).prop_map(|(a, b, h)| Base::Chosen(a, b, h)), 2 => (0u32..1000, any::<bool>()).prop_map(|(o, b)| Base::WrapX(o, b))];
            let m = prop_oneof![
                5 => Just(Mut::None),
                4 => (0u8..17, hexn(32)).prop_map(|(h, x)| Mut::R(h, x)),
                4 => (0u8..17, hexn(32)).prop_map(|(h, x)| Mut::S(h, x)),
                1 => Just(Mut::Swap),
                1 => Just(Mut::NegS),
                3 => any::<usize>().prop_map(Mut::Digest),
                1 => Just(Mut::DigestPrefix),
                1 => k().prop_map(Mut::OtherKey),
                1 => Just(Mut::NegKey),
                1 => Just(Mut::Infinity),
                1 => (0u8..2, 0u8..9).prop_map(|(a, b)| Mut::OffCurve(a, b)),
                1 => (0u8..2).prop_map(Mut::BeyondField),
                1 => hexn(32).prop_map(Mut::Twist),
            ];
            (edgy(32), digest_strategy(), base, m).prop_map(|(d, digest, base, m)| Ver { d, digest, base, m })
        }, ver);
        c.sub("forged", 1_500, || (edgy(32), edgy(32), edgy(32), edgy(32), 0u8..6).prop_map(|(x, y, u1, u2, kind)| Forged { x, y, u1, u2, kind }), forged);
    })
}
