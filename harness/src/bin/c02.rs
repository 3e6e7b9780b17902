//! C02: HMAC / HKDF / expand-label against RFC 2104, RFC 5869, RFC 8446 7.1.
use anothertls::hash::{HashType, Hkdf, Hmac};
use anothertls::net::key_schedule::get_hkdf_expand_label;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::refs::{self, H};
use vharness::run::*;
use vharness::*;

fn ht(a: u8) -> (HashType, H) {
    if a == 0 { (HashType::SHA256, H::S256) } else { (HashType::SHA384, H::S384) }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mac {
    alg: u8,
    key: Blob,
    parts: Vec<Blob>,
    peek: bool,
}
fn mac(c: &Mac) -> Res {
    let (t, h) = ht(c.alg);
    let key = c.key.get();
    let mut m = Hmac::new(t, &key);
    let mut all = vec![];
    for p in &c.parts {
        let d = p.get();
        m.update(&d);
        all.extend_from_slice(&d);
        if c.peek {
            ensure!(m.result() == refs::hmac(h, &key, &all), "HMAC asked for midway (key {} bytes, {} bytes fed) is wrong", key.len(), all.len());
        }
    }
    let want = refs::hmac(h, &key, &all);
    if !key.is_empty() && want != refs::hmac_ossl(h, &key, &all) {
        broken!("reference HMAC disagrees with OpenSSL");
    }
    let got = m.result();
    ensure!(got == want, "HMAC alg {} key {} bytes message {} bytes: got {} want {}", c.alg, key.len(), all.len(), hex(&got), hex(&want));
    ensure!(m.result() == want, "HMAC asked twice differs");
    let b = if c.alg == 0 { 64 } else { 128 };
    Ok(hit().tag(if key.len() > b { "long-key" } else if key.len() == b { "block-key" } else { "short-key" }))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Kdf {
    alg: u8,
    salt: Blob,
    ikm: Blob,
    info: Blob,
    len: usize,
}
fn kdf(c: &Kdf) -> Res {
    let (t, h) = ht(c.alg);
    let (salt, ikm, info) = (c.salt.get(), c.ikm.get(), c.info.get());
    let k = Hkdf::extract(t, &salt, &ikm);
    let prk = refs::hkdf_extract(h, &salt, &ikm);
    ensure!(k.pseudo_random_key == prk, "extract(salt {} bytes, ikm {} bytes) differs", salt.len(), ikm.len());
    let max = 255 * h.len();
    for k in [&k, &Hkdf::from_prk(t, prk.clone())] {
        match k.expand(&info, c.len) {
            None => ensure!(c.len > max, "expand refuses a legal length {}", c.len),
            Some(o) => {
                ensure!(c.len <= max, "expand answers an illegal length {}", c.len);
                ensure!(o == refs::hkdf_expand(h, &prk, &info, c.len), "expand to {} bytes differs", c.len);
            }
        }
    }
    Ok(hit().tag(if c.len > max { "over-limit" } else if c.len > h.len() { "multi-block" } else { "one-block" }))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lab {
    alg: u8,
    secret: Hex,
    label: Hex,
    ctx: Hex,
    len: usize,
}
fn lab(c: &Lab) -> Res {
    let (t, h) = ht(c.alg);
    let want = refs::label(&c.label, &c.ctx, c.len);
    let got = get_hkdf_expand_label(&c.label, &c.ctx, c.len);
    ensure!(got == want, "HkdfLabel encoding: got {} want {}", hex(&got), hex(&want));
    let o = Hkdf::from_prk(t, c.secret.to_vec()).expand(&got, c.len);
    ensure!(o == Some(refs::expand_label(h, &c.secret, &c.label, &c.ctx, c.len)), "expand-label output differs");
    Ok(hit().tag_if(c.ctx.is_empty(), "empty-context"))
}

fn main() {
    run::main("C02", "HMAC over all key lengths 0..=300 and random chunked messages; HKDF extract/expand with every output length to 600 and around 255*HashLen; HkdfLabel encodings; every case is non-trivial", |c| {
        c.assume("OpenSSL 3.0 SHA-2 is correct");
        let b = |len, seed| Blob { len, seed, pat: 0 };
        c.list("every-key-length", (0..2).flat_map(|alg| (0..=300usize).map(move |l| Mac { alg, key: b(l, l as u64), parts: vec![b(l % 97, 7)], peek: false })).collect(), mac);
        c.list("every-output-length", (0..2).flat_map(|alg| (0..=600usize).chain(8150..8170).chain(12230..12250).chain([20000, 65535]).map(move |len| Kdf { alg, salt: b(len % 67, 1), ikm: b(32, 2), info: b(len % 41, 3), len })).collect(), kdf);
        let edges = border_lengths(260, 70_000, 9);
        c.list("border-lengths", (0..2).flat_map(|alg| edges.iter().flat_map(move |l| [(*l, 32usize), (20, *l)].map(|(key, m)| Mac { alg, key: b(key, *l as u64), parts: vec![b(m, 3)], peek: false }))).collect(), mac);
        c.list("border-lengths-hkdf", (0..2).flat_map(|alg| edges.iter().flat_map(move |l| [(*l, 5usize, 6usize), (5, *l, 6), (5, 6, *l)].map(|(salt, ikm, info)| Kdf { alg, salt: b(salt, 1), ikm: b(ikm, 2), info: b(info, 4), len: 42 + l % 60 }))).collect(), kdf);
        // every length field of the label on its own
        c.list("label-lengths", (0..2u8).flat_map(|alg| (0..=249usize).map(move |l| (l, 7, 32)).chain((0..=255usize).map(|x| (5, x, 32))).chain(border_lengths(300, if alg == 0 { 8160 } else { 12240 }, 2).into_iter().map(|n| (6, 0, n))).map(move |(l, x, len)| Lab { alg, secret: Hex(b(32, 9).get()), label: Hex(b(l, 8).get()), ctx: Hex(b(x, 7).get()), len })).collect(), lab);
        c.sub("hmac", 60_000, || {
            let kl = prop_oneof![3 => 0usize..200, 2 => around(64, 3), 1 => 200usize..2000];
            (0u8..2, blob(kl), vec(blob(prop_oneof![4 => 0usize..150, 1 => 0usize..2000]), 0..5), any::<bool>()).prop_map(|(alg, key, parts, peek)| Mac { alg, key, parts, peek })
        }, mac);
        c.sub("hkdf", 20_000, || {
            let l = || prop_oneof![3 => 0usize..200, 1 => around(64, 4)];
            (0u8..2, blob(l()), blob(l()), blob(l()), prop_oneof![6 => 0usize..500, 1 => 500usize..13000]).prop_map(|(alg, salt, ikm, info, len)| Kdf { alg, salt, ikm, info, len })
        }, kdf);
        c.sub("label", 30_000, || (0u8..2, prop_oneof![4 => hexn(0..80), 1 => hexn(80..300)], hexn(0..=249), hexn(0..=255), prop_oneof![6 => 0usize..400, 1 => 400usize..8000]).prop_map(|(alg, secret, label, ctx, len)| Lab { alg, secret, label, ctx, len }), lab);
    })
}
