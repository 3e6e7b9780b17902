//! C05: X25519 public values and shared secrets against OpenSSL / RFC 7748, observed through
//! key generation and the handshake key schedule.
use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
use anothertls::hash::{Sha256, Sha384, TranscriptHash};
use anothertls::net::extensions::{KeyShareEntry, NamedGroup};
use anothertls::net::key_schedule::KeySchedule;
use anothertls::utils::bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::refs::{self, H};
use vharness::run::*;
use vharness::x25519::{wanted, Field};
use vharness::*;

fn public(sk: &[u8]) -> Vec<u8> {
    let k = PrivateKey::new(Curve::curve25519(), bytes::to_ibig_be(sk));
    bytes::ibig_to_32bytes(k.get_public_key().point.x, bytes::ByteOrder::Big).to_vec()
}
/// Handshake traffic secrets of a session in which we hold `sk` and the peer sent `pk`.
fn agree(sk: &[u8], pk: &[u8], sha384: bool, hello: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut th: Box<dyn TranscriptHash> = if sha384 { Box::new(Sha384::new()) } else { Box::new(Sha256::new()) };
    th.update(hello);
    let k = PrivateKey::new(Curve::curve25519(), bytes::to_ibig_be(sk));
    let e = KeyShareEntry::new(NamedGroup::X25519, pk.to_vec());
    KeySchedule::from_handshake(th.as_ref(), &k, &e).ok().map(|k| (k.client_handshake_traffic_secret.pseudo_random_key, k.server_handshake_traffic_secret.pseudo_random_key))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pub {
    sk: Hex,
}
fn publ(c: &Pub) -> Res {
    let want = refs::x25519_pub(&c.sk);
    let got = public(&c.sk);
    ensure!(got == want, "public value of scalar {}: got {} want {}", hex(&c.sk), hex(&got), hex(&want));
    Ok(hit().tag_if(want[0] == 0, "public-leading-zero").tag_if(want[31] == 0, "public-trailing-zero").tag_if(c.sk[0] == 0, "scalar-leading-zero"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dh {
    sk: Hex,
    pk: Hex,
    sha384: bool,
    hello: Hex,
}
fn dh(c: &Dh) -> Res {
    let h = if c.sha384 { H::S384 } else { H::S256 };
    let shared = refs::x25519(&c.sk, &c.pk);
    let got = agree(&c.sk, &c.pk, c.sha384, &c.hello);
    let Some(z) = shared else {
        ensure!(got.is_none(), "peer value {} gives an all-zero shared secret, which was accepted", hex(&c.pk));
        return Ok(hit().tag("all-zero-secret"));
    };
    let want = refs::handshake_secrets(h, &z, &h.hash(&c.hello));
    match got {
        None => bad!("shared secret {} of scalar {} and peer value {} is refused", hex(&z), hex(&c.sk), hex(&c.pk)),
        Some((cl, sv)) => ensure!(cl == want.c_hs && sv == want.s_hs, "secrets derived from scalar {} and peer value {} (shared secret {}) are wrong", hex(&c.sk), hex(&c.pk), hex(&z)),
    }
    let canon = {
        let mut m = c.pk.to_vec();
        m[31] &= 0x7f;
        m.iter().rev().copied().collect::<Vec<u8>>() < unhex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed").unwrap()
    };
    Ok(hit()
        .tag_if(!canon, "non-canonical")
        .tag_if(c.pk[31] & 0x80 != 0, "top-bit")
        .tag_if(c.pk[0] == 0, "peer-leading-zero")
        .tag_if(z[0] == 0, "secret-leading-zero")
        .tag_if(z[31] == 0, "secret-trailing-zero"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    a: Hex,
    b: Hex,
}
/// both ends of one exchange, entirely by the library
fn two(c: &Two) -> Res {
    let (pa, pb) = (public(&c.a), public(&c.b));
    let x = agree(&c.a, &pb, false, b"hello");
    let y = agree(&c.b, &pa, false, b"hello");
    ensure!(x.is_some() && x == y, "the two sides derive different secrets");
    Ok(hit())
}
/// lengths other than 32 bytes are not X25519 values
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Len {
    sk: Hex,
    pk: Hex,
}
fn len(c: &Len) -> Res {
    ensure!(agree(&c.sk, &c.pk, false, b"x").is_none(), "a peer value of {} bytes is accepted", c.pk.len());
    Ok(hit())
}
/// search for scalars whose public value / shared secret starts with zero bytes
fn find(seed: u64, n: usize) -> Vec<Dh> {
    let mut out = vec![];
    for i in 0..n as u64 {
        let sk = Blob { len: 32, seed: seed.wrapping_add(i * 2), pat: 0 }.get();
        let p = refs::x25519_pub(&sk);
        if p[0] == 0 || p[31] == 0 || p[31] == 0x7f {
            out.push(Dh { sk: Hex(sk.clone()), pk: Hex(p.clone()), sha384: i % 2 == 0, hello: Hex(vec![1]) });
        }
        let b = Blob { len: 32, seed: seed.wrapping_add(i * 2 + 1), pat: 0 }.get();
        let pb = refs::x25519_pub(&b);
        if let Some(z) = refs::x25519(&sk, &pb) {
            if z[0] == 0 || z[31] == 0 || pb[0] == 0 {
                out.push(Dh { sk: Hex(sk), pk: Hex(pb), sha384: i % 2 == 0, hello: Hex(vec![2]) });
            }
        }
    }
    out
}
fn results(seed: u64, n: usize) -> Vec<Dh> {
    let z = wanted(seed, n);
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (z, out) = (&z, &out);
            s.spawn(move || {
                let f = Field::new();
                for (i, z) in z.iter().enumerate().skip(t).step_by(8) {
                    let sk = Blob { len: 32, seed: seed.wrapping_add(1 << 40).wrapping_add(i as u64), pat: 0 }.get();
                    if let Some(pk) = f.peer_for(&sk, z) {
                        out.lock().unwrap().push((i, Dh { sk: Hex(sk), pk: Hex(pk), sha384: i % 2 == 0, hello: Hex(vec![3]) }));
                    }
                }
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
fn low_order() -> Vec<Hex> {
    [
        "0000000000000000000000000000000000000000000000000000000000000000",
        "0100000000000000000000000000000000000000000000000000000000000000",
        "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
        "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000080",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    ]
    .iter()
    .map(|s| Hex(unhex(s).unwrap()))
    .collect()
}
fn main() {
    run::main("C05", "scalars and u-coordinates biased to zero/0xff prefixes and suffixes, low-order and non-canonical values, plus pairs searched (deterministically) so that public value or shared secret starts or ends with a zero byte, and pairs constructed so that the shared secret is a chosen number (small, close to the prime, or with 16-bit limbs 0, 1, 0xfffe, 0xffff); every case is non-trivial", |c| {
        c.assume("OpenSSL 3.0 X25519 and SHA-2 are correct");
        let seed = c.seed;
        if !c.replaying() {
            let n = (8000.0 * c.scale) as usize;
            let f = find(seed.wrapping_mul(1_000_003), n);
            c.list("zero-bytes", f.clone(), dh);
            let r = results(seed.wrapping_mul(7_000_003), (4000.0 * c.scale) as usize);
            c.note("chosen_results", r.len());
            c.list("chosen-result", r, dh);
            c.list("zero-bytes-public", f.iter().map(|d| Pub { sk: d.sk.clone() }).collect(), publ);
        } else {
            c.list("zero-bytes", find(1, 1000), dh);
            c.list("chosen-result", results(1, 0), dh);
            c.list("zero-bytes-public", vec![Pub { sk: Hex(vec![1; 32]) }], publ);
        }
        c.sub("public", 16_000, || edgy(32).prop_map(|sk| Pub { sk }), publ);
        let pk = || prop_oneof![4 => edgy(32), 1 => prop::sample::select(low_order()), 1 => (0u8..=255, any::<bool>()).prop_map(|(l, t)| { let mut v = vec![0xff; 32]; v[0] = l; v[31] = if t { 0xff } else { 0x7f }; Hex(v) }), 1 => (any::<u8>(), any::<bool>()).prop_map(|(l, t)| { let mut v = vec![0; 32]; v[0] = l; v[31] = if t { 0x80 } else { 0 }; Hex(v) })];
        c.sub("shared", 24_000, || (edgy(32), pk(), any::<bool>(), hexn(0..100)).prop_map(|(sk, pk, sha384, hello)| Dh { sk, pk, sha384, hello }), dh);
        c.sub("two-sides", 3_000, || (edgy(32), edgy(32)).prop_map(|(a, b)| Two { a, b }), two);
        c.sub("length", 2_000, || (edgy(32), prop_oneof![hexn(0..32), hexn(33..80)]).prop_map(|(sk, pk)| Len { sk, pk }), len);
    })
}
