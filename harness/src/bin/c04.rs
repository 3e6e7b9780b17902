//! C04: opening a tampered AEAD message always fails.
use anothertls::crypto::CipherSuite;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::refs::{self, Suite};
use vharness::run::*;
use vharness::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    /// flip bit (index modulo the length) in 0 ciphertext, 1 tag, 2 aad, 3 nonce, 4 key
    Flip(u8, usize),
    /// flip the same bit position in two places
    FlipTwo(u8, usize, u8, usize),
    /// keep only so many tag bytes
    TagLen(u8),
    TagExtend(u8, u8),
    /// tag bytes replaced
    TagSet(Hex),
    TagSwapHalves,
    /// two bytes exchanged
    TagSwap(u8, u8),
    /// one byte more by so much, another one less
    TagShift(u8, u8, u8),
    CtTruncate(usize),
    CtExtend(Hex),
    CtPrepend(Hex),
    CtSwapBlocks(usize, usize),
    AadTruncate(usize),
    AadExtend(Hex),
    AadDrop,
    /// move the last n bytes of the aad to the front of the ciphertext
    AadToCt(usize),
    /// move the first n bytes of the ciphertext to the end of the aad
    CtToAad(usize),
    Swap,
    NonceExtend(Hex),
    /// take the tag of another message under the same key and nonce
    OtherTag(Blob),
    OtherNonce(Hex),
    OtherKey(Hex),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    suite: u16,
    key: Hex,
    nonce: Hex,
    aad: Blob,
    pt: Blob,
    t: Vec<Tamper>,
}
fn flip(v: &mut Vec<u8>, i: usize) {
    if !v.is_empty() {
        let n = v.len() * 8;
        v[i % n / 8] ^= 1 << (i % 8);
    }
}
fn case(c: &Case) -> Res {
    let s = Suite(c.suite);
    let (key0, nonce0, aad0, pt) = (c.key[..s.key_len()].to_vec(), c.nonce.to_vec(), c.aad.get(), c.pt.get());
    let (ct0, tag0) = refs::seal(s, &key0, &nonce0, &aad0, &pt);
    let cipher = CipherSuite::new(c.suite).unwrap().get_cipher().unwrap();
    match cipher.decrypt(&key0, &nonce0, &ct0, &aad0, &tag0) {
        Ok(p) => ensure!(p == pt, "opening an untampered message gives another plaintext"),
        Err(e) => bad!("opening an untampered message fails: {e:?}"),
    }
    let (mut key, mut nonce, mut aad, mut ct, mut tag) = (key0.clone(), nonce0.clone(), aad0.clone(), ct0.clone(), tag0.clone());
    let mut names = vec![];
    for t in &c.t {
        let mut at = |w: u8, i: usize, names: &mut Vec<String>| {
            names.push(format!("flip-{}", ["ct", "tag", "aad", "nonce", "key"][w as usize % 5]));
            match w % 5 {
                0 => flip(&mut ct, i),
                1 => flip(&mut tag, i),
                2 => flip(&mut aad, i),
                3 => flip(&mut nonce, i),
                _ => flip(&mut key, i),
            }
        };
        match t {
            Tamper::Flip(w, i) => at(*w, *i, &mut names),
            Tamper::FlipTwo(w, i, x, j) => {
                at(*w, *i, &mut names);
                at(*x, *j, &mut names);
            }
            other => {
                names.push(format!("{other:?}").split(['(', ' ']).next().unwrap().to_string());
                match other {
                    Tamper::TagLen(n) => tag.truncate(*n as usize),
                    Tamper::TagExtend(n, b) => tag.resize(tag.len() + *n as usize, *b),
                    Tamper::TagSet(h) => tag = h.to_vec(),
                    Tamper::TagSwapHalves => {
                        let n = tag.len() / 2;
                        tag.rotate_left(n)
                    }
                    Tamper::TagSwap(i, j) => tag.swap(*i as usize % tag0.len(), *j as usize % tag0.len()),
                    Tamper::TagShift(i, j, d) => {
                        let (i, j) = (*i as usize % tag0.len(), *j as usize % tag0.len());
                        tag[i] = tag[i].wrapping_add(*d);
                        tag[j] = tag[j].wrapping_sub(*d);
                    }
                    Tamper::CtTruncate(n) => {
                        let k = ct.len() - (*n).min(ct.len());
                        ct.truncate(k)
                    }
                    Tamper::CtExtend(h) => ct.extend_from_slice(h),
                    Tamper::CtPrepend(h) => {
                        let mut v = h.to_vec();
                        v.extend_from_slice(&ct);
                        ct = v
                    }
                    Tamper::CtSwapBlocks(a, b) => {
                        let n = ct.len() / 16;
                        if n >= 2 {
                            let (a, b) = (a % n, b % n);
                            for i in 0..16 {
                                ct.swap(a * 16 + i, b * 16 + i)
                            }
                        }
                    }
                    Tamper::AadTruncate(n) => {
                        let k = aad.len() - (*n).min(aad.len());
                        aad.truncate(k)
                    }
                    Tamper::AadExtend(h) => aad.extend_from_slice(h),
                    Tamper::AadDrop => aad.clear(),
                    Tamper::AadToCt(n) => {
                        let n = (*n).min(aad.len());
                        let mut tail = aad.split_off(aad.len() - n);
                        tail.extend_from_slice(&ct);
                        ct = tail;
                    }
                    Tamper::CtToAad(n) => {
                        let n = (*n).min(ct.len());
                        aad.extend(ct.drain(..n));
                    }
                    Tamper::Swap => std::mem::swap(&mut ct, &mut aad),
                    Tamper::NonceExtend(h) => {
                        if c.suite != 0x1303 {
                            nonce.extend_from_slice(h)
                        }
                    }
                    Tamper::OtherTag(b) => tag = refs::seal(s, &key0, &nonce0, &aad0, &b.get()).1,
                    Tamper::OtherNonce(h) => nonce = h.to_vec(),
                    Tamper::OtherKey(h) => key = h[..s.key_len()].to_vec(),
                    _ => {}
                }
            }
        }
    }
    let changed = (&key, &nonce, &aad, &ct, &tag) != (&key0, &nonce0, &aad0, &ct0, &tag0);
    let got = cipher.decrypt(&key, &nonce, &ct, &aad, &tag);
    if changed {
        // a combination of operators may by construction end in a valid message (a constant keystream
        // byte, a tag taken from the truncated text): OpenSSL tells, and then the library must agree
        if tag.len() == 16 {
            if let Some(p0) = refs::open(s, &key, &nonce, &aad, &ct, &tag) {
                ensure!(matches!(&got, Ok(p) if *p == p0), "suite {:04x}: a message OpenSSL opens is not opened to the same text", c.suite);
                return Ok(nt(false).tag("still-valid"));
            }
        }
        if let Ok(p) = got {
            bad!("suite {:04x}: accepted after {names:?} (ct {} -> {} bytes, aad {} -> {}, tag {} -> {}), plaintext of {} bytes released", c.suite, ct0.len(), ct.len(), aad0.len(), aad.len(), tag0.len(), tag.len(), p.len());
        }
    }
    let mut o = nt(changed).tag_if(!changed, "unchanged");
    o.tags.extend(names.into_iter().take(1));
    Ok(o)
}
fn tamper() -> impl Strategy<Value = Tamper> {
    let small = || hexn(1..20);
    let zeros = || prop_oneof![(1usize..33).prop_map(|n| Hex(vec![0; n])), hexn(1..33)];
    prop_oneof![
        8 => (0u8..5, any::<usize>()).prop_map(|(a, b)| Tamper::Flip(a, b)),
        2 => (0u8..5, any::<usize>(), 0u8..5, any::<usize>()).prop_map(|(a, b, c, d)| Tamper::FlipTwo(a, b, c, d)),
        3 => (0u8..16).prop_map(Tamper::TagLen),
        1 => (1u8..20, any::<u8>()).prop_map(|(a, b)| Tamper::TagExtend(a, b)),
        2 => prop_oneof![Just(Hex(vec![0; 16])), Just(Hex(vec![])), Just(Hex(vec![0xff; 16])), hexn(16)].prop_map(Tamper::TagSet),
        1 => Just(Tamper::TagSwapHalves),
        2 => (1usize..40).prop_map(Tamper::CtTruncate),
        2 => zeros().prop_map(Tamper::CtExtend),
        1 => small().prop_map(Tamper::CtPrepend),
        2 => (any::<usize>(), any::<usize>()).prop_map(|(a, b)| Tamper::CtSwapBlocks(a, b)),
        2 => (1usize..40).prop_map(Tamper::AadTruncate),
        2 => zeros().prop_map(Tamper::AadExtend),
        1 => Just(Tamper::AadDrop),
        2 => (1usize..40).prop_map(Tamper::AadToCt),
        2 => (1usize..40).prop_map(Tamper::CtToAad),
        1 => Just(Tamper::Swap),
        1 => zeros().prop_map(Tamper::NonceExtend),
        1 => blob(0usize..100).prop_map(Tamper::OtherTag),
        1 => hexn(12).prop_map(Tamper::OtherNonce),
        1 => hexn(32).prop_map(Tamper::OtherKey),
    ]
}
/// Every single bit of every input of one message.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AllBits {
    suite: u16,
    len: usize,
    aad: usize,
}
fn all_bits(c: &AllBits) -> Res {
    let mk = |t: Tamper| Case { suite: c.suite, key: Hex(Blob { len: 32, seed: 1, pat: 0 }.get()), nonce: Hex(Blob { len: 12, seed: 2, pat: 0 }.get()), aad: Blob { len: c.aad, seed: 3, pat: 0 }, pt: Blob { len: c.len, seed: 4, pat: 0 }, t: vec![t] };
    for (w, n) in [(0u8, c.len), (1, 16), (2, c.aad), (3, 12), (4, Suite(c.suite).key_len())] {
        for b in 0..n * 8 {
            case(&mk(Tamper::Flip(w, b)))?;
        }
    }
    for n in 0..16 {
        case(&mk(Tamper::TagLen(n)))?;
    }
    // changes that compensate each other in some sum over the tag
    for i in 0..16u8 {
        for j in i + 1..16 {
            case(&mk(Tamper::TagSwap(i, j)))?;
            case(&mk(Tamper::TagShift(i, j, 1)))?;
            for b in 0..8 {
                case(&mk(Tamper::FlipTwo(1, i as usize * 8 + b, 1, j as usize * 8 + b)))?;
            }
        }
    }
    Ok(hit())
}
/// Changes all over a long message, or long associated data.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    suite: u16,
    len: usize,
    aad: usize,
    /// which of the changes
    part: usize,
}
const PARTS: usize = 8;
fn big(c: &Big) -> Res {
    let mk = |t: Vec<Tamper>| Case { suite: c.suite, key: Hex(Blob { len: 32, seed: 1, pat: 0 }.get()), nonce: Hex(Blob { len: 12, seed: 2, pat: 0 }.get()), aad: Blob { len: c.aad, seed: 3, pat: 0 }, pt: Blob { len: c.len, seed: 4, pat: 0 }, t };
    let mut t = vec![];
    for (w, n) in [(0u8, c.len), (2, c.aad)] {
        let step = (n / 24).max(1);
        // all over, around the powers of two, and at the end
        let mut at: Vec<usize> = (0..n).step_by(step).chain((0..17).flat_map(|b| [(1usize << b) - 1, 1 << b])).chain(n.saturating_sub(18)..n).filter(|i| *i < n).collect();
        at.sort();
        at.dedup();
        t.extend(at.into_iter().map(|i| Tamper::Flip(w, i * 8 + i % 8)));
    }
    t.extend((0..16).map(|i| Tamper::Flip(1, i * 8 + i % 8)));
    t.extend([1usize, 2, 15, 16, 17, 64, 4096].into_iter().flat_map(|n| [Tamper::CtTruncate(n), Tamper::AadTruncate(n), Tamper::CtExtend(Hex(vec![0; n])), Tamper::AadExtend(Hex(vec![0; n])), Tamper::AadToCt(n), Tamper::CtToAad(n)]));
    for t in t.into_iter().skip(c.part).step_by(PARTS) {
        case(&mk(vec![t]))?;
    }
    Ok(hit().tag(format!("{} + {}", c.len, c.aad)))
}
fn main() {
    run::main("C04", "messages sealed by OpenSSL, then one to three tampering operators on ciphertext, tag, AAD, nonce or key; every single-bit change of small messages; non-trivial = the tuple given to open differs from the sealed one", |c| {
        c.assume("OpenSSL 3.0 AEADs are correct; accepting a random forgery has probability 2^-128");
        c.list("every-bit", refs::SUITES.iter().flat_map(|s| [(0, 0), (0, 5), (1, 0), (16, 13), (17, 16), (33, 17), (64, 5), (65, 33)].map(|(len, aad)| AllBits { suite: s.0, len, aad })).collect(), all_bits);
        c.list("long", refs::SUITES.iter().flat_map(|s| [(4097, 0), (16_385, 5), (0, 5000), (66_000, 0), (0, 66_000), (9000, 9000)].iter().flat_map(move |(len, aad)| (0..PARTS).map(move |part| Big { suite: s.0, len: *len, aad: *aad, part }))).collect(), big);
        c.sub("tamper", 60_000, || (prop::sample::select(vec![0x1301u16, 0x1302, 0x1303]), edgy(32), edgy(12), blob(0usize..60), blob(prop_oneof![4 => 0usize..100, 2 => around(16, 12), 1 => 0usize..2000]), vec(tamper(), 1..=3))
            .prop_map(|(suite, key, nonce, aad, pt, t)| Case { suite, key, nonce, aad, pt, t }), case);
    })
}
