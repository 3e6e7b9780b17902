//! C03: AEAD, block and stream ciphers against OpenSSL and own GCM/GHASH construction; inverse.
use anothertls::crypto::aes::{Blocksize, AES};
use anothertls::crypto::chacha20::{ChaCha20, Poly1305};
use anothertls::crypto::CipherSuite;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::refs::{self, Suite};
use vharness::run::*;
use vharness::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Aead {
    suite: u16,
    key: Hex,
    nonce: Hex,
    aad: Blob,
    pt: Blob,
}
fn aead(c: &Aead) -> Res {
    let s = Suite(c.suite);
    let key = &c.key[..s.key_len()];
    let (aad, pt) = (c.aad.get(), c.pt.get());
    let cipher = CipherSuite::new(c.suite).map_err(|e| format!("suite refused: {e:?}"))?.get_cipher().map_err(|e| format!("cipher refused: {e:?}"))?;
    ensure!(cipher.get_cipher_suite().as_u16() == c.suite, "cipher reports another suite");
    let (ct, tag) = match cipher.encrypt(key, &c.nonce, &pt, &aad) {
        Ok(x) => x,
        Err(e) => bad!("encryption fails: {e:?}"),
    };
    let short = if c.suite == 0x1303 { c.nonce.to_vec() } else { refs::gcm_short_iv(key, &c.nonce) };
    let (wct, wtag) = refs::seal(s, key, &short, &aad, &pt);
    ensure!(ct.len() == wct.len(), "ciphertext length {} want {}", ct.len(), wct.len());
    if let Some(i) = (0..ct.len()).find(|i| ct[*i] != wct[*i]) {
        bad!("ciphertext of {} bytes (suite {:04x}, nonce {} bytes) differs from byte {i}", pt.len(), c.suite, c.nonce.len());
    }
    ensure!(tag[..] == wtag[..], "tag differs (suite {:04x}, {} bytes, aad {}, nonce {})", c.suite, pt.len(), aad.len(), c.nonce.len());
    match cipher.decrypt(key, &c.nonce, &ct, &aad, &tag) {
        Ok(p) => ensure!(p == pt, "decryption returns another plaintext"),
        Err(e) => bad!("decryption of own output fails: {e:?}"),
    }
    Ok(nt(!pt.is_empty() || !aad.is_empty())
        .tag(format!("{:04x}", c.suite))
        .tag_if(pt.len() % 64 == 0 && !pt.is_empty(), "multiple-of-64")
        .tag_if(pt.len() % 16 == 0, "multiple-of-16")
        .tag_if(pt.is_empty(), "empty")
        .tag_if(c.nonce.len() != 12, "long-or-short-nonce"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wrap {
    aes256: bool,
    key: Hex,
    j0_hi: Hex,
    j0_lo: u32,
    pt: Blob,
}
fn wrap(c: &Wrap) -> Res {
    let suite = if c.aes256 { 0x1302 } else { 0x1301 };
    let key = &c.key[..Suite(suite).key_len()];
    let j0 = (refs::be128(&c.j0_hi) & !0xffff_ffffu128) | c.j0_lo as u128;
    let iv = refs::gcm_iv_for_j0(key, j0);
    // the first keystream block shows that the construction hits the counter wanted
    let (ct, _) = refs::seal(Suite(suite), key, &iv, b"", &[0; 16]);
    let first = (j0 & !0xffff_ffff) | (j0 as u32).wrapping_add(1) as u128;
    if ct != refs::ecb(key, &first.to_be_bytes(), true) {
        broken!("IV construction is wrong");
    }
    let blocks = c.pt.len.div_ceil(16) as u64;
    let wraps = c.j0_lo as u64 + blocks > u32::MAX as u64;
    Ok(Obs { nontrivial: wraps, ..aead(&Aead { suite, key: c.key.clone(), nonce: Hex(iv), aad: Blob { len: 3, seed: 1, pat: 0 }, pt: c.pt.clone() })? }.tag_if(wraps, "counter-wraps"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Block {
    bits: u16,
    key: Hex,
    block: Hex,
}
fn block(c: &Block) -> Res {
    let key = &c.key[..c.bits as usize / 8];
    let mut aes = AES::init(key, Blocksize::new(c.bits as usize).ok_or("block size refused")?);
    let b: [u8; 16] = c.block.0.clone().try_into().unwrap();
    let e = aes.encrypt(b);
    ensure!(e.to_vec() == refs::ecb(key, &b, true), "AES-{} encryption of one block differs", c.bits);
    ensure!(aes.decrypt(e) == b, "AES-{} decryption does not invert encryption", c.bits);
    ensure!(aes.decrypt(b).to_vec() == refs::ecb(key, &b, false), "AES-{} decryption of one block differs", c.bits);
    ensure!(aes.encrypt(b) == e, "AES object changes with use");
    Ok(hit().tag(format!("aes{}", c.bits)))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    key: Hex,
    nonce: Hex,
    counter: u32,
    data: Blob,
}
fn stream(c: &Stream) -> Res {
    let d = c.data.get();
    // stay below the 32-bit block counter's end, beyond which RFC 8439 defines nothing
    let counter = c.counter.min(u32::MAX - d.len().div_ceil(64) as u32 - 1);
    let e = ChaCha20::encrypt(&d, &c.key, &c.nonce, counter as usize).ok_or("refused")?;
    ensure!(e == refs::chacha20(&c.key, &c.nonce, counter, &d), "ChaCha20 of {} bytes from counter {counter} differs", d.len());
    ensure!(ChaCha20::decrypt(&e, &c.key, &c.nonce, counter as usize) == Some(d.clone()), "ChaCha20 does not invert");
    Ok(nt(!d.is_empty()))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mac {
    key: Hex,
    msg: Blob,
    /// overrides a block with all ones, to reach carries in the final reduction
    ones: bool,
}
fn poly(key: &[u8], m: &[u8]) -> Result<Vec<u8>, Fail> {
    let k = openssl::pkey::PKey::private_key_from_raw_bytes(key, openssl::pkey::Id::from_raw(1061))?; // EVP_PKEY_POLY1305
    let mut s = openssl::sign::Signer::new_without_digest(&k)?;
    s.update(m)?;
    Ok(s.sign_to_vec()?)
}
fn mac(c: &Mac) -> Res {
    let mut m = c.msg.get();
    if c.ones {
        let l = m.len();
        m[..l.min(16)].fill(0xff);
    }
    let want = poly(&c.key, &m)?;
    let got = Poly1305::mac(&c.key, &m);
    ensure!(got[..] == want[..], "Poly1305 of {} bytes: got {} want {}", m.len(), hex(&got), hex(&want));
    Ok(hit())
}
/// Messages chosen so that the accumulator ends within a few units of the modulus (or of zero):
/// with clamped `r`, the last block is the one for which (acc + block) * r = delta mod p.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Target {
    r: Hex,
    first: Hex,
    delta: i64,
    s: Hex,
}
fn near_p(c: &Target) -> Res {
    use ibig::{modular::ModuloRing, UBig};
    let one = UBig::from(1u8);
    let p = (&one << 130) - UBig::from(5u8);
    let mut r = c.r.to_vec();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    let ring = ModuloRing::new(&p);
    let rr = ring.from(&UBig::from_le_bytes(&r));
    let Some(inv) = rr.inverse() else { return Ok(nt(false)) };
    let t = ring.from(&if c.delta < 0 { &p - UBig::from((-c.delta) as u64) } else { UBig::from(c.delta as u64) });
    // vary the first block until the one wanted last fits 128 bits
    let top = &one << 128;
    let mut m = None;
    for i in 0..64u8 {
        let mut f = c.first.to_vec();
        f[i as usize % 16] ^= i;
        let acc = (ring.from(&(UBig::from_le_bytes(&f) + &top))) * &rr;
        let b = (&t * &inv - acc - ring.from(&top)).residue();
        if b < top {
            let mut b = b.to_le_bytes();
            b.resize(16, 0);
            m = Some([f, b].concat());
            break;
        }
    }
    let Some(m) = m else { return Ok(nt(false)) };
    let key = [r, c.s.to_vec()].concat();
    let want = poly(&key, &m)?;
    // the construction holds: the tag is delta (below 2^128) + s
    let sum = UBig::from_le_bytes(&c.s) + t.residue();
    let mut low = (sum & (top - UBig::from(1u8))).to_le_bytes();
    low.resize(16, 0);
    if low != want {
        broken!("the construction misses its target");
    }
    let got = Poly1305::mac(&key, &m);
    ensure!(got[..] == want[..], "Poly1305 with the accumulator at {} mod p: got {} want {}", c.delta, hex(&got), hex(&want));
    Ok(hit().tag_if(c.delta < 0, "below-p").tag_if(c.delta >= 0, "at-or-above-p"))
}
/// Small `r`, with which an accumulator is at or just above p before it is reduced, or after.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Small {
    r: u8,
    /// the blocks count down from the highest
    high: [u8; 4],
    blocks: u8,
    s: Hex,
}
fn small(c: &Small) -> Res {
    let mut key = vec![0u8; 32];
    key[0] = c.r;
    key[16..].copy_from_slice(&c.s);
    let m: Vec<u8> = (0..c.blocks as usize).flat_map(|i| (u128::MAX - c.high[i % 4] as u128).to_le_bytes()).collect();
    let want = poly(&key, &m)?;
    let got = Poly1305::mac(&key, &m);
    ensure!(got[..] == want[..], "Poly1305 of {} high blocks with r = {}: got {} want {}", c.blocks, c.r, hex(&got), hex(&want));
    Ok(hit())
}
/// Two blocks, r = 1, 2 or 4: every unreduced accumulator within 12 of p.
fn around_p() -> Vec<Raw> {
    let mut v = vec![];
    // r = 1: 4 blocks of 2^128 + b make 4*2^128 + sum b; p is below that, so 3 blocks: sum b = 2^128 - 5 + d
    for d in -12i64..13 {
        for s in [0u8, 0xff] {
            let b3 = 0u128.wrapping_sub(5).wrapping_add(d as i128 as u128);
            for (b1, b2, b3) in if d < 5 { [(0u128, 0u128, b3), (5, b3 - 7, 2), (b3 >> 1, b3 - (b3 >> 1), 0)] } else { [(u128::MAX, d as u128 - 4, 0), (d as u128 - 4, 0, u128::MAX), (u128::MAX >> 1, (u128::MAX >> 1) + 1, d as u128 - 4)] } {
                v.push(Raw { r: 1, s, msg: Hex([b1.to_le_bytes(), b2.to_le_bytes(), b3.to_le_bytes()].concat()) });
            }
            // r = 2: the last accumulator doubled is p + d, for odd d
            // 2*(2^128 + b1) + ... with one block: at most 4*2^128 - 2
            if d % 2 != 0 || d < 5 {
                let b = (((1i128 << 1) - 1) as u128).wrapping_neg().wrapping_sub(((5 - d) / 2) as u128);
                v.push(Raw { r: 2, s, msg: Hex(b.to_le_bytes().to_vec()) });
            }
        }
    }
    v
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    r: u8,
    s: u8,
    msg: Hex,
}
fn raw(c: &Raw) -> Res {
    let mut key = vec![0u8; 32];
    key[0] = c.r;
    key[16..].fill(c.s);
    let want = poly(&key, &c.msg)?;
    let got = Poly1305::mac(&key, &c.msg);
    ensure!(got[..] == want[..], "Poly1305 near the modulus with r = {}: got {} want {}", c.r, hex(&got), hex(&want));
    Ok(hit())
}

fn main() {
    run::main("C03", "AEAD calls over the three suites with every length 0..=300 and random ones, 96-bit and other GCM nonces, nonces constructed so that the 32-bit counter wraps; AES blocks, ChaCha20 and Poly1305 alone; non-trivial = there is plaintext or AAD (wrap: the counter wraps)", |c| {
        c.assume("OpenSSL 3.0 AES, GCM, ChaCha20 and Poly1305 are correct");
        let b = |len, seed| Blob { len, seed, pat: 0 };
        c.list("every-length", refs::SUITES.iter().flat_map(|s| (0..=300usize).map(move |l| Aead { suite: s.0, key: Hex(b(32, l as u64).get()), nonce: Hex(b(12, 9 + l as u64).get()), aad: b(l * 7 % 61, 2), pt: b(l, 3) })).collect(), aead);
        c.list("long", vec![
            Stream { key: Hex(vec![7; 32]), nonce: Hex(vec![1; 12]), counter: 1, data: b((1 << 24) + 1, 1) },
            Stream { key: Hex(vec![7; 32]), nonce: Hex(vec![1; 12]), counter: 1, data: b((1 << 25) + 65, 1) },
            Stream { key: Hex(vec![7; 32]), nonce: Hex(vec![1; 12]), counter: 1, data: b((1 << 26) + 4097, 1) },
        ], stream);
        // block counters of more than 16 bits, lengths of more than 16 bits and more than 2^16 bits
        c.list("long-aead", refs::SUITES.iter().flat_map(|s| [((1usize << 20) + 49, 13usize), ((1 << 16) + 3, 0), (100, (1 << 16) + 5), (0, 70_001), (33, 8192), (8193, 8200), (1 << 13, 1 << 13)].map(|(pt, aad)| Aead { suite: s.0, key: Hex(b(32, 77).get()), nonce: Hex(b(12, 78).get()), aad: b(aad, 79), pt: b(pt, 80) })).collect(), aead);
        c.list("long-nonce", [0x1301u16, 0x1302].iter().flat_map(|s| [127usize, 128, 129, 255, 256, 257, 4096, 8191, 8192, 8193, 70_000].map(|n| Aead { suite: *s, key: Hex(b(32, 71).get()), nonce: Hex(b(n, n as u64).get()), aad: b(20, 79), pt: b(60, 80) })).collect(), aead);
        c.list("long-mac", vec![Mac { key: Hex(b(32, 5).get()), msg: b((1 << 24) + 1, 1), ones: false }, Mac { key: Hex(b(32, 5).get()), msg: b((1 << 25) + 17, 1), ones: false }], mac);
        c.sub("aead", 24_000, || (prop::sample::select(vec![0x1301u16, 0x1302, 0x1303]), edgy(32), edgy(12), blob(prop_oneof![4 => 0usize..70, 1 => around(16, 20)]), blob(prop_oneof![4 => 0usize..300, 3 => around(64, 12), 1 => 300usize..17000]))
            .prop_map(|(suite, key, nonce, aad, pt)| Aead { suite, key, nonce, aad, pt }), aead);
        c.sub("gcm-nonce", 12_000, || (prop::sample::select(vec![0x1301u16, 0x1302]), edgy(32), prop_oneof![6 => hexn(1..80), 1 => hexn(80..300)], blob(0usize..40), blob(prop_oneof![3 => 0usize..200, 1 => around(16, 20)]))
            .prop_map(|(suite, key, nonce, aad, pt)| Aead { suite, key, nonce, aad, pt }), aead);
        c.sub("gcm-counter-wrap", 8_000, || (any::<bool>(), edgy(32), edgy(16), 0u32..40, blob(prop_oneof![1 => 0usize..20, 4 => 20usize..500]))
            .prop_map(|(aes256, key, j0_hi, d, pt)| Wrap { aes256, key, j0_hi, j0_lo: u32::MAX - d.min(39), pt }), wrap);
        c.sub("aes-block", 60_000, || (prop::sample::select(vec![128u16, 192, 256]), edgy(32), edgy(16)).prop_map(|(bits, key, block)| Block { bits, key, block }), block);
        c.sub("chacha20", 30_000, || (edgy(32), edgy(12), prop_oneof![2 => 0u32..5, 1 => any::<u32>(), 1 => (u32::MAX - 40)..=u32::MAX], blob(prop_oneof![2 => 0usize..300, 2 => around(64, 12), 1 => 0usize..5000])).prop_map(|(key, nonce, counter, data)| Stream { key, nonce, counter, data }), stream);
        c.sub("poly1305", 30_000, || (edgy(32), blob(prop_oneof![2 => 0usize..100, 2 => around(16, 12), 1 => 0usize..2000]), any::<bool>()).prop_map(|(key, msg, ones)| Mac { key, msg, ones }), mac);
        c.sub("poly1305-target", 10_000, || (edgy(16), edgy(16), prop_oneof![4 => -12i64..12, 1 => any::<i32>().prop_map(|x| x as i64)], edgy(16)).prop_map(|(r, first, delta, s)| Target { r, first, delta, s }), near_p);
        c.sub("poly1305-small-r", 10_000, || (0u8..16, any::<[u8; 4]>().prop_map(|h| h.map(|x| x % 12)), 0u8..20, edgy(16)).prop_map(|(r, high, blocks, s)| Small { r, high, blocks, s }), small);
        c.list("poly1305-around-p", around_p(), raw);
        // lengths around every power of two, of the one and of the other
        let edges: Vec<usize> = (4..=14u32).flat_map(|k| (-18i64..=18).map(move |d| (1i64 << k) + d)).filter(|n| *n >= 0).map(|n| n as usize).collect();
        c.list("border-lengths", refs::SUITES.iter().flat_map(|s| edges.iter().flat_map(move |n| [(*n, 20usize), (20, *n), (*n, *n)].map(|(pt, aad)| Aead { suite: s.0, key: Hex(b(32, 91).get()), nonce: Hex(b(12, *n as u64).get()), aad: b(aad, 92), pt: b(pt, 93) }))).collect(), aead);
    })
}
