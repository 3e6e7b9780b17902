//! Own X25519 arithmetic, to construct peer values that lead to a chosen shared secret.
use crate::gen::*;
use crate::refs;
use ibig::{modular::ModuloRing, UBig};

/// X25519 with chosen results. The scalar of X25519 is invertible modulo the prime order of the
/// curve's (or its twist's) big subgroup, so for a wanted result `z` in it the peer value to send
/// is `k^-1 * z`. Whether that came out is checked with OpenSSL; where `z` is not in either
/// subgroup there is no such peer value, and the case is left out.
pub struct Field {
    ring: ModuloRing,
    orders: [UBig; 2],
}
impl Default for Field {
    fn default() -> Self {
        Self::new()
    }
}
impl Field {
    pub fn new() -> Field {
        let one = UBig::from(1u8);
        let delta: UBig = "27742317777372353535851937790883648493".parse().unwrap();
        Field { ring: ModuloRing::new(&((&one << 255) - UBig::from(19u8))), orders: [(&one << 252) + &delta, (&one << 253) - UBig::from(9u8) - delta * UBig::from(2u8)] }
    }
    /// u-coordinate of `k * P` (Montgomery ladder, RFC 7748 section 5, no clamping)
    fn mul(&self, k: &UBig, u: &UBig) -> Option<UBig> {
        let f = |v: &UBig| self.ring.from(v);
        let n = |v: u32| self.ring.from(v);
        let x1 = f(u);
        let (mut x2, mut z2, mut x3, mut z3) = (n(1), n(0), x1.clone(), n(1));
        let a24 = n(121665);
        for i in (0..k.bit_len()).rev() {
            let bit = k.bit(i);
            if bit {
                std::mem::swap(&mut x2, &mut x3);
                std::mem::swap(&mut z2, &mut z3);
            }
            let (a, b, c, d) = (&x2 + &z2, &x2 - &z2, &x3 + &z3, &x3 - &z3);
            let (aa, bb, da, cb) = (&a * &a, &b * &b, &d * &a, &c * &b);
            let e = &aa - &bb;
            let (s, t) = (&da + &cb, &da - &cb);
            x3 = &s * &s;
            z3 = &x1 * (&t * &t);
            x2 = &aa * &bb;
            z2 = &e * (&aa + &a24 * &e);
            if bit {
                std::mem::swap(&mut x2, &mut x3);
                std::mem::swap(&mut z2, &mut z3);
            }
        }
        Some((x2 * z2.inverse()?).residue())
    }
    /// the peer value that makes scalar `sk` arrive at `z`
    pub fn peer_for(&self, sk: &[u8], z: &[u8]) -> Option<Vec<u8>> {
        let mut k = sk.to_vec();
        k[0] &= 0xf8;
        k[31] = (k[31] & 0x7f) | 0x40;
        let (k, zi) = (UBig::from_le_bytes(&k), UBig::from_le_bytes(z));
        self.orders.iter().find_map(|n| {
            let r = ModuloRing::new(n);
            let inv = r.from(&k).inverse()?.residue();
            let mut x = self.mul(&inv, &zi)?.to_le_bytes();
            x.resize(32, 0);
            (refs::x25519(sk, &x).as_deref() == Some(z)).then_some(x)
        })
    }
}
/// results at the borders of the final reduction and of the 16-bit limbs
pub fn wanted(seed: u64, n: usize) -> Vec<Vec<u8>> {
    let p = (UBig::from(1u8) << 255) - UBig::from(19u8);
    let le = |v: UBig| {
        let mut b = v.to_le_bytes();
        b.resize(32, 0);
        b
    };
    let mut out = vec![];
    for i in 2..200u32 {
        out.push(le(UBig::from(i)));
        out.push(le(&p - UBig::from(i)));
    }
    for i in 1..16usize {
        for d in 0..6u32 {
            out.push(le((UBig::from(1u8) << (16 * i)) + UBig::from(d)));
            out.push(le((UBig::from(1u8) << (16 * i)) - UBig::from(d + 1)));
            out.push(le(&p - (UBig::from(1u8) << (16 * i)) - UBig::from(d)));
        }
    }
    for i in 0..n as u64 {
        // limbs 0, 1, 0xfffe, 0xffff or anything
        let b = Blob { len: 16, seed: seed.wrapping_add(3 * i), pat: 0 }.get();
        let r = Blob { len: 32, seed: seed.wrapping_add(3 * i + 1), pat: 0 }.get();
        let mut v = vec![];
        for (j, s) in b.iter().enumerate() {
            v.extend(match s % if i % 2 == 0 { 4 } else { 8 } {
                0 => [0, 0],
                1 => [0xff, 0xff],
                2 => [1, 0],
                3 => [0xfe, 0xff],
                _ => [r[2 * j], r[2 * j + 1]],
            });
        }
        v[31] &= 0x7f;
        if UBig::from_le_bytes(&v) < p {
            out.push(v);
        }
    }
    out
}
