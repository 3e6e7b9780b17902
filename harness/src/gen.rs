//! Generators shared by the checks.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Bytes that serialise as a hex string.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Hex(pub Vec<u8>);
impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", hex(&self.0))
    }
}
impl std::ops::Deref for Hex {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl Serialize for Hex {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s).map(Hex).ok_or_else(|| serde::de::Error::custom("hex"))
    }
}
pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2).map(|c| Some(((c[0] as char).to_digit(16)? * 16 + (c[1] as char).to_digit(16)?) as u8)).collect()
}

/// Long byte strings described by a length and a pattern, so that they shrink and serialise well.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Blob {
    pub len: usize,
    pub seed: u64,
    pub pat: u8,
}
impl Blob {
    pub fn get(&self) -> Vec<u8> {
        match self.pat {
            1 => vec![0; self.len],
            2 => vec![0xff; self.len],
            3 => (0..self.len).map(|i| (i as u64).wrapping_add(self.seed) as u8).collect(),
            // text
            4 => Blob { pat: 0, ..self.clone() }.get().iter().map(|b| b'a' + b % 26).collect(),
            _ => {
                let mut x = self.seed ^ 0x9e37_79b9_7f4a_7c15;
                let mut v = Vec::with_capacity(self.len + 8);
                while v.len() < self.len {
                    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
                    let mut z = x;
                    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                    v.extend_from_slice(&(z ^ (z >> 31)).to_le_bytes());
                }
                v.truncate(self.len);
                v
            }
        }
    }
}
pub fn blob(len: impl Strategy<Value = usize> + Clone) -> impl Strategy<Value = Blob> + Clone {
    (len, any::<u64>(), prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)]).prop_map(|(len, seed, pat)| Blob { len, seed, pat })
}
/// Lengths clustered around multiples of a block.
pub fn around(block: usize, maxmul: usize) -> impl Strategy<Value = usize> + Clone {
    (0..=maxmul, -3i64..=3).prop_map(move |(m, d)| (m as i64 * block as i64 + d).max(0) as usize)
}
/// All lengths up to `all`, and those within `d` of every power of two up to `max`.
pub fn border_lengths(all: usize, max: usize, d: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    let mut b = 1;
    while b <= max {
        v.extend((b.saturating_sub(d)..=b + d).filter(|n| *n <= max));
        b *= 2;
    }
    v.sort();
    v.dedup();
    v
}
pub fn hexn(r: impl Into<proptest::collection::SizeRange>) -> impl Strategy<Value = Hex> + Clone {
    vec(any::<u8>(), r).prop_map(Hex)
}
/// Fixed-size strings biased to extreme bytes, zero prefixes and suffixes.
pub fn edgy(n: usize) -> impl Strategy<Value = Hex> + Clone {
    let b = prop_oneof![8 => any::<u8>(), 1 => Just(0u8), 1 => Just(0xffu8)];
    (vec(b, n), 0..=n, 0u8..=11).prop_map(move |(mut v, k, how)| {
        match how {
            0 => v[..k].fill(0),
            1 => v[n - k..].fill(0),
            2 => v[..k].fill(0xff),
            3 => v[n - k..].fill(0xff),
            4 => v[..k.min(3)].fill(0),
            5 => v[n - k.min(3)..].fill(0),
            _ => {}
        }
        Hex(v)
    })
}

/// A change to a byte string; places count modulo its length.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mut {
    Flip(u32),
    Set(u32, u8),
    /// remove
    Del(u32, u16),
    Ins(u32, Hex),
    /// repeat the piece of this length
    Dup(u32, u16),
    Cut(u32),
    /// so many bytes off the end
    Less(u32),
    /// add to the big-endian number of this width
    Add(u32, u8, i32),
    /// overwrite it
    Num(u32, u8, u32),
    /// exchange two pieces
    Swap(u32, u32, u16),
}
pub fn mutate(b: &mut Vec<u8>, ms: &[Mut]) {
    for m in ms {
        let n = b.len();
        if n == 0 {
            if let Mut::Ins(_, h) = m {
                b.extend(&h.0);
            }
            continue;
        }
        let at = |a: &u32| *a as usize % n;
        match m {
            Mut::Flip(f) => {
                let i = *f as usize % (n * 8);
                b[i / 8] ^= 1 << (i % 8);
            }
            Mut::Set(a, v) => {
                let i = at(a);
                b[i] = *v;
            }
            Mut::Del(a, k) => {
                let i = at(a);
                b.drain(i..(i + *k as usize).min(n));
            }
            Mut::Ins(a, h) => {
                let i = *a as usize % (n + 1);
                b.splice(i..i, h.0.iter().copied());
            }
            Mut::Dup(a, k) => {
                let i = at(a);
                let piece = b[i..(i + *k as usize).min(n)].to_vec();
                b.splice(i..i, piece);
            }
            Mut::Cut(a) => b.truncate(at(a)),
            Mut::Less(n) => b.truncate(b.len().saturating_sub(*n as usize)),
            Mut::Add(a, w, d) => {
                let i = at(a);
                let e = (i + *w as usize).min(n);
                let v = b[i..e].iter().fold(0i64, |x, y| x << 8 | *y as i64) + *d as i64;
                for (j, x) in b[i..e].iter_mut().rev().enumerate() {
                    *x = (v >> (8 * j)) as u8;
                }
            }
            Mut::Num(a, w, v) => {
                let i = at(a);
                let e = (i + *w as usize).min(n);
                for (j, x) in b[i..e].iter_mut().rev().enumerate() {
                    *x = (*v as u64 >> (8 * j)) as u8;
                }
            }
            Mut::Swap(x, y, k) => {
                let (i, j) = (at(x).min(at(y)), at(x).max(at(y)));
                let k = (*k as usize).min(j - i).min(n - j);
                for q in 0..k {
                    b.swap(i + q, j + q);
                }
            }
        }
    }
}
pub fn mutation() -> impl Strategy<Value = Mut> + Clone {
    let p = || prop_oneof![2 => any::<u32>(), 2 => 0u32..64, 1 => 0u32..300];
    let v = prop_oneof![Just(0u8), Just(1), Just(0xff), Just(0x7f), Just(0x80), any::<u8>()];
    let k = || prop_oneof![4 => 1u16..5, 2 => 1u16..60, 1 => any::<u16>()];
    let num = prop_oneof![Just(0u32), Just(1), Just(0xff), Just(0x7f), Just(0x80), Just(0xffff), Just(0x8000), Just(0x7fff), Just(0x0100), Just(0xff_ffff), Just(0x1_0000), Just(u32::MAX), any::<u32>(), 0u32..300];
    prop_oneof![
        4 => any::<u32>().prop_map(Mut::Flip),
        3 => (p(), v).prop_map(|(a, b)| Mut::Set(a, b)),
        2 => (p(), k()).prop_map(|(a, b)| Mut::Del(a, b)),
        2 => (p(), hexn(1..20)).prop_map(|(a, b)| Mut::Ins(a, b)),
        1 => (p(), k()).prop_map(|(a, b)| Mut::Dup(a, b)),
        2 => p().prop_map(Mut::Cut),
        3 => (p(), 1u8..4, prop_oneof![Just(-1i32), Just(1), Just(-2), Just(2), -40i32..40]).prop_map(|(a, w, d)| Mut::Add(a, w, d)),
        3 => (p(), 1u8..5, num).prop_map(|(a, w, n)| Mut::Num(a, w, n)),
        1 => (p(), p(), k()).prop_map(|(a, b, c)| Mut::Swap(a, b, c)),
    ]
}
