//! C09: the key schedule of RFC 8446 section 7 against a reference written over OpenSSL hashes.
use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
use anothertls::crypto::CipherSuite;
use anothertls::hash::{Hkdf, HashType, TranscriptHash};
use anothertls::net::extensions::{KeyShareEntry, NamedGroup};
use anothertls::net::handshake::{get_finished_handshake, get_verify_data_for_finished};
use anothertls::net::key_schedule::{get_hkdf_expand_label, KeySchedule, WriteKeys};
use anothertls::net::record::{Record, RecordPayloadProtection, RecordType, Value};
use anothertls::utils::bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::refs::{self, Keys, Suite, H, SUITES};
use vharness::run::*;
use vharness::x25519::Field;
use vharness::*;

fn ht(h: H) -> HashType {
    if h == H::S256 { HashType::SHA256 } else { HashType::SHA384 }
}
fn lib_suite(s: Suite) -> Result<CipherSuite, Fail> {
    match CipherSuite::new(s.0) {
        Ok(c) => Ok(c),
        Err(e) => Err(Fail::Bad(format!("suite {} is not supported: {e:?}", s.name()))),
    }
}
fn th(s: Suite, parts: &[&[u8]]) -> Result<Box<dyn TranscriptHash>, Fail> {
    let Ok(mut t) = lib_suite(s)?.get_tshash() else { return Err(Fail::Bad(format!("no transcript hash for {}", s.name()))) };
    for p in parts {
        t.update(p);
    }
    Ok(t)
}
/// The schedule from an arbitrary shared secret and hello hash.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sched {
    suite: Suite,
    shared: Hex,
    hello: Hex,
    rest: Blob,
}
fn same_key(what: &str, k: &anothertls::net::key_schedule::Key, secret: &[u8], suite: Suite) -> Result<(), Fail> {
    let w = Keys::new(suite, secret);
    ensure!(k.traffic_secret == secret, "{what}: traffic secret {} instead of {}", hex(&k.traffic_secret), hex(secret));
    ensure!(k.key == w.key, "{what}: key {} instead of {}", hex(&k.key), hex(&w.key));
    ensure!(k.iv[..] == w.iv[..], "{what}: IV {} instead of {}", hex(&k.iv), hex(&w.iv));
    Ok(())
}
fn sched(c: &Sched) -> Res {
    let h = c.suite.h();
    let cs = lib_suite(c.suite)?;
    let hello_hash = h.hash(&c.hello);
    let want = refs::handshake_secrets(h, &c.shared, &hello_hash);
    let Some(ks) = KeySchedule::do_key_schedule(ht(h), &hello_hash, &c.shared) else { bad!("no key schedule for {c:?}") };
    ensure!(ks.client_handshake_traffic_secret.pseudo_random_key == want.c_hs, "client handshake traffic secret differs");
    ensure!(ks.server_handshake_traffic_secret.pseudo_random_key == want.s_hs, "server handshake traffic secret differs");
    ensure!(ks.hkdf_master_secret.pseudo_random_key == want.master, "master secret differs");
    let Some(w) = WriteKeys::handshake_keys(&ks, cs) else { bad!("no handshake keys") };
    same_key("client handshake", &w.client, &want.c_hs, c.suite)?;
    same_key("server handshake", &w.server, &want.s_hs, c.suite)?;
    // Finished of both sides over a later transcript
    let rest = c.rest.get();
    let t = th(c.suite, &[&c.hello, &rest])?;
    let all = [&c.hello[..], &rest].concat();
    let fh = h.hash(&all);
    for (n, s, w) in [("client", &ks.client_handshake_traffic_secret, &want.c_hs), ("server", &ks.server_handshake_traffic_secret, &want.s_hs)] {
        let vd = refs::finished(h, w, &fh);
        match get_verify_data_for_finished(s, t.as_ref()) {
            Ok(g) => ensure!(g == vd, "{n} Finished is {} instead of {}", hex(&g), hex(&vd)),
            Err(e) => bad!("{n} Finished: {e:?}"),
        }
        let mut m = vec![20, 0, 0, vd.len() as u8];
        m.extend(&vd);
        match get_finished_handshake(s, t.as_ref()) {
            Ok(g) => ensure!(g == m, "{n} Finished message is {} instead of {}", hex(&g), hex(&m)),
            Err(e) => bad!("{n} Finished message: {e:?}"),
        }
    }
    // application keys
    let (ca, sa) = refs::app_secrets(&want, &fh);
    let Some(w) = WriteKeys::application_keys_from_master_secret(&ks.hkdf_master_secret, &fh, cs) else { bad!("no application keys") };
    same_key("client application", &w.client, &ca, c.suite)?;
    same_key("server application", &w.server, &sa, c.suite)?;
    Ok(hit().tag(c.suite.name()).tag_if(c.shared.first() == Some(&0), "secret-leading-zero").tag_if(rest.len() > 10_000, "long-transcript"))
}
/// Both ends of one key exchange, against each other and against the reference, by what they send.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    suite: Suite,
    a: Hex,
    b: Hex,
    hello: Hex,
    rest: Blob,
    tail: Hex,
    /// order of the four messages; bit 0: end, bit 1: phase
    msgs: Vec<(bool, Hex)>,
}
fn share(sk: &[u8]) -> Vec<u8> {
    let k = PrivateKey::new(Curve::curve25519(), bytes::to_ibig_be(sk));
    bytes::ibig_to_32bytes(k.get_public_key().point.x, bytes::ByteOrder::Big).to_vec()
}
fn pair(c: &Pair) -> Res {
    let h = c.suite.h();
    let cs = lib_suite(c.suite)?;
    let Some(z) = refs::x25519(&c.a, &refs::x25519_pub(&c.b)) else { return Ok(nt(false)) };
    let want = refs::handshake_secrets(h, &z, &h.hash(&c.hello));
    let mut ends = vec![];
    for (me, peer, client) in [(&c.a, &c.b, true), (&c.b, &c.a, false)] {
        let k = PrivateKey::new(Curve::curve25519(), bytes::to_ibig_be(me));
        let t = th(c.suite, &[&c.hello])?;
        let ks = match KeySchedule::from_handshake(t.as_ref(), &k, &KeyShareEntry::new(NamedGroup::X25519, share(peer))) {
            Ok(k) => k,
            Err(e) => bad!("key schedule from a key share fails: {e:?}"),
        };
        let Ok(cipher) = cs.get_cipher() else { bad!("no cipher for {}", c.suite.name()) };
        let Some(p) = RecordPayloadProtection::new(ks, cipher, client) else { bad!("no record protection") };
        same_key("client handshake", &p.handshake_keys.client, &want.c_hs, c.suite)?;
        same_key("server handshake", &p.handshake_keys.server, &want.s_hs, c.suite)?;
        ends.push(p);
    }
    let mut talk = |ends: &mut Vec<RecordPayloadProtection>, cl: &[u8], sv: &[u8], phase: &str| -> Result<(), Fail> {
        let mut k = [Keys::new(c.suite, cl), Keys::new(c.suite, sv)];
        for (who, m) in &c.msgs {
            let i = *who as usize;
            let rec = match ends[i].encrypt(Record::new(RecordType::Handshake, Value::Ref(m))) {
                Ok(r) => r,
                Err(e) => bad!("{phase} record cannot be sealed: {e:?}"),
            };
            ensure!(rec == k[i].seal(22, m, 0), "{phase} record of the {} is not sealed under its direction's keys", ["client", "server"][i]);
            let Ok((_, r)) = Record::from_raw(&rec) else { bad!("{phase} record cannot be read") };
            match ends[1 - i].decrypt(r) {
                Ok((t, d)) => ensure!(t == RecordType::Handshake && d == m[..], "{phase} record arrives changed"),
                Err(e) => bad!("the peer cannot open the {phase} record of the {}: {e:?}", ["client", "server"][i]),
            }
        }
        Ok(())
    };
    talk(&mut ends, &want.c_hs, &want.s_hs, "handshake")?;
    let rest = c.rest.get();
    let fh = h.hash(&[&c.hello[..], &rest].concat());
    let (ca, sa) = refs::app_secrets(&want, &fh);
    for e in ends.iter_mut() {
        let t = th(c.suite, &[&c.hello, &rest])?;
        if let Err(e) = e.generate_application_keys(t.as_ref()) {
            bad!("application keys: {e:?}")
        }
        let Some(a) = e.application_keys.as_ref() else { bad!("no application keys") };
        same_key("client application", &a.client, &ca, c.suite)?;
        same_key("server application", &a.server, &sa, c.suite)?;
    }
    talk(&mut ends, &ca, &sa, "application")?;
    Ok(nt(!c.msgs.is_empty()).tag(c.suite.name()))
}
/// A key exchange that arrives at a chosen shared secret, with zero bytes anywhere in it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chosen {
    suite: Suite,
    sk: Hex,
    peer: Hex,
    hello: Hex,
}
fn chosen(c: &Chosen) -> Res {
    let h = c.suite.h();
    let Some(z) = refs::x25519(&c.sk, &c.peer) else { return Ok(nt(false)) };
    let want = refs::handshake_secrets(h, &z, &h.hash(&c.hello));
    let k = PrivateKey::new(Curve::curve25519(), bytes::to_ibig_be(&c.sk));
    let t = th(c.suite, &[&c.hello])?;
    let ks = match KeySchedule::from_handshake(t.as_ref(), &k, &KeyShareEntry::new(NamedGroup::X25519, c.peer.to_vec())) {
        Ok(k) => k,
        Err(e) => bad!("no key schedule from the shared secret {}: {e:?}", hex(&z)),
    };
    ensure!(ks.client_handshake_traffic_secret.pseudo_random_key == want.c_hs, "client handshake traffic secret from the shared secret {} differs", hex(&z));
    ensure!(ks.server_handshake_traffic_secret.pseudo_random_key == want.s_hs, "server handshake traffic secret from the shared secret {} differs", hex(&z));
    ensure!(ks.hkdf_master_secret.pseudo_random_key == want.master, "master secret from the shared secret {} differs", hex(&z));
    Ok(hit().tag_if(z[31] == 0, "trailing-zero").tag_if(z[0] == 0, "leading-zero"))
}
/// zero bytes at the front, at the end and in between, 1 to 31 of them; or the sign bit's byte
fn chosen_secrets(seed: u64, n: u64) -> Vec<Chosen> {
    let f = Field::new();
    let mut out = vec![];
    for i in 0..n {
        let mut z = Blob { len: 32, seed: seed.wrapping_add(2 * i), pat: 0 }.get();
        let k = 1 + (i / 5) as usize % 30;
        match i % 5 {
            0 => z[..k].fill(0),
            1 => z[32 - k..].fill(0),
            2 => z[16 - k / 2..][..k.min(17)].fill(0),
            3 => z[..k].fill(0xff),
            _ => z.iter_mut().skip(1).step_by(2).for_each(|x| *x = 0),
        }
        z[31] &= 0x7f;
        let sk = Blob { len: 32, seed: seed.wrapping_add(2 * i + 1), pat: 0 }.get();
        if let Some(p) = f.peer_for(&sk, &z) {
            out.push(Chosen { suite: SUITES[i as usize % 3], sk: Hex(sk), peer: Hex(p), hello: Hex(z) });
        }
    }
    out
}
/// expand-label encoding itself, for labels and contexts the schedule uses or may use
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lab {
    sha384: bool,
    secret: Hex,
    label: Hex,
    ctx: Hex,
    len: usize,
}
fn lab(c: &Lab) -> Res {
    let h = if c.sha384 { H::S384 } else { H::S256 };
    let l = get_hkdf_expand_label(&c.label, &c.ctx, c.len);
    let w = refs::label(&c.label, &c.ctx, c.len);
    ensure!(l == w, "HkdfLabel is {} instead of {}", hex(&l), hex(&w));
    let g = Hkdf::from_prk(ht(h), c.secret.to_vec()).expand(&l, c.len);
    let w = refs::expand_label(h, &c.secret, &c.label, &c.ctx, c.len);
    ensure!(g.as_deref() == Some(&w[..]), "expand-label differs");
    Ok(hit())
}
fn main() {
    run::main("C09", "shared secrets of 0 to 66 bytes biased to zero prefixes, transcripts of 0 to 200 kB, all suites; non-trivial: everything except a pair whose exchange gives the all-zero secret or which exchanges no message", |c| {
        c.assume("OpenSSL 3.0 SHA-2, AEADs and X25519 are correct");
        let suite = || prop::sample::select(SUITES.to_vec());
        let rest = || prop_oneof![4 => blob(0usize..600), 1 => blob(around(64, 40)), 1 => blob(0usize..200_000)];
        c.sub("schedule", 12_000, || (suite(), prop_oneof![6 => edgy(32), 1 => hexn(0..67), 1 => edgy(48)], hexn(0..400), rest()).prop_map(|(suite, shared, hello, rest)| Sched { suite, shared, hello, rest }), sched);
        c.sub("both-ends", 2_500, || (suite(), edgy(32), edgy(32), hexn(0..300), rest(), hexn(0..50), prop::collection::vec((any::<bool>(), hexn(0..120)), 0..7)).prop_map(|(suite, a, b, hello, rest, tail, msgs)| Pair { suite, a, b, hello, rest, tail, msgs }), pair);
        c.list("chosen-secret", if c.replaying() { chosen_secrets(1, 5) } else { chosen_secrets(c.seed.wrapping_mul(9_000_011), (2500.0 * c.scale) as u64) }, chosen);
        c.sub("label", 6_000, || (any::<bool>(), hexn(1..65), hexn(0..60), hexn(0..64), 0usize..300).prop_map(|(sha384, secret, label, ctx, len)| Lab { sha384, secret, label, ctx, len }), lab);
    })
}
