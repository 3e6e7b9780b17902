//! C08: DER encoding and decoding of ECDSA signatures against OpenSSL and a small strict reader.
use anothertls::crypto::ellipticcurve::Signature;
use ibig::{IBig, UBig};
use openssl::ecdsa::EcdsaSig;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::refs;
use vharness::run::*;
use vharness::*;

fn int(b: &[u8]) -> IBig {
    b.iter().fold(IBig::from(0), |a, x| (a << 8) + IBig::from(*x))
}
fn be(v: &IBig) -> Vec<u8> {
    UBig::try_from(v.clone()).unwrap().to_be_bytes()
}
fn scalar(h: &[u8]) -> IBig {
    let n = int(&refs::p256_order().to_vec());
    let v = int(h);
    if v >= n || v == IBig::from(0) { v % (n - IBig::from(1)) + IBig::from(1) } else { v }
}
fn der(r: &IBig, s: &IBig) -> Vec<u8> {
    EcdsaSig::from_private_components(refs::bn(&be(r)), refs::bn(&be(s))).unwrap().to_der().unwrap()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rt {
    r: Hex,
    s: Hex,
    tail: Hex,
}
fn rt(c: &Rt) -> Res {
    let (r, s) = (scalar(&c.r), scalar(&c.s));
    let want = der(&r, &s);
    let got = Signature::new(s.clone(), r.clone()).to_der();
    ensure!(got == want, "encoding of r={r} s={s}: got {} want {}", hex(&got), hex(&want));
    let mut buf = want.clone();
    buf.extend_from_slice(&c.tail);
    match Signature::from_der(&buf) {
        Ok((x, used)) => {
            ensure!(x.r == r && x.s == s, "decoding {}: r={} s={}", hex(&want), x.r, x.s);
            ensure!(used == want.len(), "decoding consumed {used} of {} bytes", want.len());
        }
        Err(e) => bad!("decoding {} fails: {e:?}", hex(&want)),
    }
    for n in 0..want.len() {
        ensure!(Signature::from_der(&want[..n]).is_err(), "the first {n} of {} bytes decode as a signature", want.len());
    }
    Ok(hit().tag_if(be(&r).len() < 32, "short-r").tag_if(be(&s).len() < 32, "short-s").tag_if(be(&r)[0] >= 0x80 || be(&s)[0] >= 0x80, "high-bit"))
}
/// What a strict reader makes of the bytes: Err(()) when a declared length is not there.
fn tlv(b: &[u8]) -> Result<(u8, &[u8], &[u8]), ()> {
    let (&t, b) = b.split_first().ok_or(())?;
    let (&l, b) = b.split_first().ok_or(())?;
    let (len, b) = if l < 0x80 {
        (l as usize, b)
    } else {
        let k = (l & 0x7f) as usize;
        if k == 0 || k > 8 || b.len() < k {
            return Err(());
        }
        (b[..k].iter().fold(0usize, |a, x| a << 8 | *x as usize), &b[k..])
    };
    if b.len() < len {
        return Err(());
    }
    Ok((t, &b[..len], &b[len..]))
}
/// r and s of a SEQUENCE of (at least) two INTEGERs, or None when there is no such thing.
fn lenient(b: &[u8]) -> Option<(IBig, IBig)> {
    let (t, body, _) = tlv(b).ok()?;
    let (t1, r, rest) = tlv(body).ok()?;
    let (t2, s, _) = tlv(rest).ok()?;
    if t & 0x1f != 0x10 || t1 & 0x1f != 2 || t2 & 0x1f != 2 {
        return None;
    }
    Some((int(r), int(s)))
}
fn decide(b: &[u8]) -> Res {
    let got = guard(|| Signature::from_der(b))?;
    let Ok((sig, used)) = got else {
        // refusing is right unless this is the canonical encoding
        if let Ok(e) = EcdsaSig::from_der(b) {
            let canon = e.to_der()?;
            ensure!(canon != b, "the canonical encoding {} is refused", hex(b));
        }
        if let Some((r, s)) = lenient(b) {
            ensure!(!b.starts_with(&strict(&r, &s)), "the encoding {} of r={r} s={s} is refused", hex(b));
        }
        return Ok(nt(b.len() > 4).tag("refused"));
    };
    ensure!(used <= b.len(), "consumed {used} of {} bytes", b.len());
    match lenient(b) {
        None => bad!("{} is read as r={} s={}, but holds no two complete INTEGERs", hex(b), sig.r, sig.s),
        Some((r, s)) => ensure!(r == sig.r && s == sig.s, "{} is read as r={} s={}, holds r={r} s={s}", hex(b), sig.r, sig.s),
    }
    // there is one encoding of a pair only
    let one = strict(&sig.r, &sig.s);
    ensure!(one == b[..used], "{} is read as r={} s={}, whose encoding is {}", hex(b), sig.r, sig.s, hex(&one));
    Ok(hit().tag("read"))
}
fn el(tag: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len().to_be_bytes();
    let n = &n[n.iter().position(|x| *x != 0).unwrap_or(7)..];
    let mut out = vec![tag];
    if body.len() >= 128 {
        out.push(0x80 | n.len() as u8);
    }
    out.extend_from_slice(n);
    out.extend_from_slice(body);
    out
}
fn number(v: &IBig) -> Vec<u8> {
    let mut b = be(v);
    if b.first().map_or(true, |x| *x >= 0x80) {
        b.insert(0, 0);
    }
    b
}
fn strict(r: &IBig, s: &IBig) -> Vec<u8> {
    el(0x30, &[el(2, &number(r)), el(2, &number(s))].concat())
}
/// An encoding of r and s that is nearly the one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Loose {
    r: Hex,
    s: Hex,
    /// zeros before the numbers
    zeros: (usize, usize),
    /// bytes the lengths take more than needed, from the sequence to s
    long: (usize, usize, usize),
    tags: (u8, u8, u8),
    /// what follows s in the sequence
    extra: Hex,
    tail: Hex,
}
fn loose(c: &Loose) -> Res {
    let wide = |tag: u8, body: &[u8], more: usize| {
        if more == 0 {
            return el(tag, body);
        }
        let n = body.len().to_be_bytes();
        let k = (8 - n.iter().position(|x| *x != 0).unwrap_or(8)).max(1) + more - 1;
        let mut out = vec![tag, 0x80 | k as u8];
        out.extend(vec![0; k.saturating_sub(8)]);
        out.extend_from_slice(&n[8 - k.min(8)..]);
        out.extend_from_slice(body);
        out
    };
    let pad = |n: usize, v: &[u8]| [vec![0; n], number(&int(v))].concat();
    let body = [wide(c.tags.1, &pad(c.zeros.0, &c.r), c.long.1), wide(c.tags.2, &pad(c.zeros.1, &c.s), c.long.2), c.extra.to_vec()].concat();
    decide(&[wide(c.tags.0, &body, c.long.0), c.tail.to_vec()].concat())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Set(usize, u8),
    Del(usize),
    Ins(usize, u8),
    Cut(usize),
    Add(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutated {
    r: Hex,
    s: Hex,
    e: Vec<Edit>,
}
fn mutated(c: &Mutated) -> Res {
    let mut b = der(&scalar(&c.r), &scalar(&c.s));
    for e in &c.e {
        let n = b.len();
        match e {
            Edit::Set(i, v) if n > 0 => b[i % n] = *v,
            Edit::Del(i) if n > 0 => {
                b.remove(i % n);
            }
            Edit::Ins(i, v) => b.insert(i % (n + 1), *v),
            Edit::Cut(i) => b.truncate(i % (n + 1)),
            Edit::Add(v) => b.push(*v),
            _ => {}
        }
    }
    decide(&b)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    b: Hex,
}
fn main() {
    run::main("C08", "round trips of r and s with many leading zero bytes or high bits, with every truncation; edited encodings; DER-shaped and random bytes. Non-trivial = every round trip, and byte strings longer than 4 bytes", |c| {
        c.assume("OpenSSL's ECDSA_SIG encoder is canonical DER");
        c.list("short", (1..=32usize).flat_map(|a| [1usize, 2, 16, 31, 32].into_iter().flat_map(move |b| [0x01u8, 0x7f, 0x80, 0xff].into_iter().map(move |t| { let mut r = vec![t; a]; let mut s = vec![t; b]; if a == 32 { r[1] = 0 } if b == 32 { s[1] = 0 } Rt { r: Hex(r), s: Hex(s), tail: Hex(vec![]) } }))).collect(), rt);
        let v = || prop_oneof![3 => edgy(32), 2 => hexn(1..32), 1 => (1usize..33, 0u8..=255).prop_map(|(n, b)| { let mut v = vec![0; n]; v[0] = b; Hex(v) })];
        c.sub("round-trip", 60_000, move || (v(), v(), prop_oneof![3 => hexn(0..1), 1 => hexn(1..40)]).prop_map(|(r, s, tail)| Rt { r, s, tail }), rt);
        c.sub("edited", 200_000, move || {
            let pos = || prop_oneof![3 => 0usize..8, 2 => 30usize..45, 2 => any::<usize>()];
            let val = || prop_oneof![2 => any::<u8>(), 2 => prop::sample::select(vec![0u8, 1, 2, 0x30, 0x80, 0x81, 0x82, 0x84, 0xff, 0x7f, 0x20, 0x21])];
            let e = prop_oneof![4 => (pos(), val()).prop_map(|(i, v)| Edit::Set(i, v)), 2 => pos().prop_map(Edit::Del), 2 => (pos(), val()).prop_map(|(i, v)| Edit::Ins(i, v)), 1 => any::<usize>().prop_map(Edit::Cut), 1 => val().prop_map(Edit::Add)];
            (v(), v(), vec(e, 1..4)).prop_map(|(r, s, e)| Mutated { r, s, e })
        }, mutated);
        c.sub("loose", 60_000, move || {
            let few = || prop_oneof![4 => Just(0usize), 1 => 1usize..3];
            let tag = |t: u8| prop_oneof![6 => Just(t), 1 => prop::sample::select(vec![0x02u8, 0x22, 0x42, 0x82, 0x03, 0x04, 0x0a, 0x10, 0x30, 0x31, 0x70, 0xb0, 0xf0])];
            let rest = || prop_oneof![4 => Just(Hex(vec![])), 1 => hexn(1..6), 1 => Just(Hex(vec![2, 1, 1])), 1 => Just(Hex(vec![5, 0])), 1 => Just(Hex(vec![0, 0]))];
            let n = || prop_oneof![3 => v(), 1 => hexn(32..200)];
            (n(), n(), (few(), few()), (few(), few(), few()), (tag(0x30), tag(2), tag(2)), rest(), rest()).prop_map(|(r, s, zeros, long, tags, extra, tail)| Loose { r, s, zeros, long, tags, extra, tail })
        }, loose);
        c.sub("bytes", 200_000, || {
            let atom = prop_oneof![Just(vec![0x30u8]), Just(vec![2u8]), Just(vec![0x81u8]), Just(vec![0x82u8, 0]), Just(vec![0x84u8, 0xff, 0xff, 0xff, 0xff]), Just(vec![0x88u8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]), Just(vec![0x80u8]), Just(vec![0xffu8]), vec(0u8..12, 1..3), vec(any::<u8>(), 1..6)];
            prop_oneof![vec(atom, 0..12).prop_map(|v| v.concat()), vec(any::<u8>(), 0..80)].prop_map(|b| Raw { b: Hex(b) })
        }, |r: &Raw| decide(&r.b));
    })
}
