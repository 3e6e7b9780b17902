//! C19: what X509::from_raw reports, and Certificate::has_signed, against OpenSSL's parser and
//! verifier, on hand-made certificates and on altered ones.
use anothertls::net::handshake::Certificate;
use anothertls::utils::x509::{Algorithms, Version};
use ibig::IBig;
use openssl::bn::BigNumContext;
use openssl::ec::PointConversionForm;
use openssl::pkey::{PKey, Public};
use openssl::x509::X509;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
#[path = "../clock.rs"]
mod clock;
use vharness::cert::{self, Attr, Civil, Spec, ATTRS};
use vharness::gen::*;
use vharness::refs;
use vharness::run::*;
use vharness::*;

fn int(b: &[u8]) -> IBig {
    b.iter().fold(IBig::from(0), |a, x| (a << 8) + IBig::from(*x))
}
fn ca_key(seed: u64) -> PKey<Public> {
    let p = cert::point(&cert::scalar(seed));
    let g = refs::p256();
    let mut c = BigNumContext::new().unwrap();
    let p = openssl::ec::EcPoint::from_bytes(&g, &p, &mut c).unwrap();
    PKey::from_ec_key(openssl::ec::EcKey::from_public_key(&g, &p).unwrap()).unwrap()
}
/// OpenSSL's reading of the whole input (nothing may follow the certificate).
fn ossl(der: &[u8]) -> Option<X509> {
    let x = X509::from_der(der).ok()?;
    (cert::tlv_len(der)? == der.len()).then_some(x)
}
fn ossl_signed(x: &X509, ca: &PKey<Public>) -> bool {
    x.verify(ca).unwrap_or(false)
}
/// SEQUENCE { tbs, algorithm, BIT STRING } with a valid signature over the bytes of tbs
fn raw_signed(v: &[u8], ca: u64) -> bool {
    let Some(n) = cert::tlv_len(v) else { return false };
    if n != v.len() || v[0] != 0x30 {
        return false;
    }
    let mut at = v.len() - cert::tlv_body(v).map_or(0, |b| b.len());
    let mut parts = vec![];
    while at < v.len() {
        let Some(l) = cert::tlv_len(&v[at..]) else { return false };
        if at + l > v.len() {
            return false;
        }
        parts.push(&v[at..at + l]);
        at += l;
    }
    if parts.len() != 3 || parts[2][0] != 3 {
        return false;
    }
    let h = match cert::tlv_body(parts[1]) {
        Some(a) if a == cert::oid(cert::OID_SHA256) => refs::H::S256,
        Some(a) if a == cert::oid(cert::OID_SHA384) => refs::H::S384,
        _ => return false,
    };
    let Some((0, sig)) = cert::tlv_body(parts[2]).and_then(|b| b.split_first()).map(|(a, b)| (*a, b)) else { return false };
    let Ok(s) = openssl::ecdsa::EcdsaSig::from_der(sig) else { return false };
    s.verify(&h.hash(parts[0]), &ca_key(ca).ec_key().unwrap()).unwrap_or(false)
}
fn parse(der: &[u8]) -> Result<Option<Certificate>, Fail> {
    match guard(|| Certificate::from_raw_x509(der.to_vec()).ok()) {
        Ok(c) => Ok(c),
        Err(p) => Err(Fail::Bad(format!("reading a certificate panics: {p:?}"))),
    }
}
fn signed(ca: &Certificate, c: &Certificate) -> Result<bool, Fail> {
    match guard(|| ca.has_signed(c).is_ok()) {
        Ok(b) => Ok(b),
        Err(p) => Err(Fail::Bad(format!("the issued-by check panics: {p:?}"))),
    }
}
/// Everything the library reports of `c` against OpenSSL's `x`.
fn same(c: &Certificate, x: &X509) -> Result<(), Fail> {
    let l = c.x509.as_ref().unwrap();
    let t = &l.tbs_certificate;
    let v = match t.version {
        None | Some(Version::V1) => 0,
        Some(Version::V2) => 1,
        Some(Version::V3) => 2,
    };
    ensure!(v == x.version(), "version {v} instead of {}", x.version());
    let sn = x.serial_number().to_bn().unwrap();
    let want = if sn.is_negative() { -int(&sn.to_vec()) } else { int(&sn.to_vec()) };
    ensure!(t.serial_number == want, "serial number {} instead of {want}", t.serial_number);
    let nid = x.signature_algorithm().object().nid();
    let alg = if nid == openssl::nid::Nid::ECDSA_WITH_SHA256 { Some(Algorithms::EcdsaWithSha256) } else if nid == openssl::nid::Nid::ECDSA_WITH_SHA384 { Some(Algorithms::EcdsaWithSha384) } else { None };
    if let Some(a) = alg {
        ensure!(l.signature_algorithm == a, "signature algorithm {:?} instead of {a:?}", l.signature_algorithm);
        ensure!(t.signature.algorithm == a, "inner signature algorithm {:?} instead of {a:?}", t.signature.algorithm);
    }
    for (what, ln, on) in [("issuer", &t.issuer, x.issuer_name()), ("subject", &t.subject, x.subject_name())] {
        for (o, key) in ATTRS {
            let nid = openssl::nid::Nid::from_raw(match key {
                "countryName" => 14,
                "stateOrProvinceName" => 16,
                "organizationName" => 17,
                "commonName" => 13,
                "emailAddress" => 48,
                "localityName" => 15,
                _ => 18,
            });
            let _ = o;
            let vals: Vec<Vec<u8>> = on.entries_by_nid(nid).map(|e| e.data().as_slice().to_vec()).collect();
            match ln.get(key) {
                Ok(s) => ensure!(vals.iter().any(|v| v == s.as_bytes()), "{what} {key} is {s:?} instead of {:?}", vals.iter().map(|v| String::from_utf8_lossy(v)).collect::<Vec<_>>()),
                Err(_) => ensure!(vals.is_empty(), "{what} {key} {:?} is not reported", String::from_utf8_lossy(&vals[0])),
            }
        }
    }
    let kb = match x.public_key().and_then(|k| k.ec_key()) {
        Ok(k) => {
            let mut c = BigNumContext::new().unwrap();
            (k.group().curve_name() == Some(openssl::nid::Nid::X9_62_PRIME256V1)).then(|| k.public_key().to_bytes(&refs::p256(), PointConversionForm::UNCOMPRESSED, &mut c).unwrap())
        }
        Err(_) => None,
    };
    let raw = t.subject_public_key_info.subject_public_key.as_slice();
    if let Some(k) = kb {
        if raw.len() == 65 {
            ensure!(raw[1..] == k[1..], "public key bits {} instead of {}", hex(raw), hex(&k));
            match l.get_public_key() {
                Some(p) => ensure!(p.point.x == int(&k[1..33]) && p.point.y == int(&k[33..]), "public key {:?} instead of {}", p.point.x, hex(&k)),
                // the hybrid form is none that certificates may use
                None => ensure!(raw[0] != 4, "the P-256 key is not available"),
            }
        }
    }
    // (a point off the curve is for the verification to refuse)
    if x.public_key().is_err() && (raw.len() != 65 || raw[0] != 4) {
        ensure!(l.get_public_key().is_none(), "the public key bits {} make no key, yet one is reported", hex(raw));
    }
    // validity: at, before and after both ends
    let ends = [x.not_before(), x.not_after()].map(|t| {
        let e = openssl::asn1::Asn1Time::from_unix(0).unwrap();
        let d = e.diff(t).unwrap();
        d.days as i64 * 86400 + d.secs as i64
    });
    for e in ends {
        for s in [e - 1, e, e + 1] {
            if s < 0 {
                continue;
            }
            let w = ends[0] <= s && s <= ends[1];
            ensure!(clock::at(s, 0, || t.validity.is_valid()) == w, "validity {} .. {} is {} at {}", Civil::from_unix(ends[0]).text(), Civil::from_unix(ends[1]).text(), if w { "not in force" } else { "in force" }, Civil::from_unix(s).text());
        }
    }
    Ok(())
}
/// A well-formed certificate: everything equals, and 'issued by' is exact.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Good {
    spec: Spec,
    ca: u64,
    other: u64,
}
fn good(c: &Good) -> Res {
    let der = c.spec.der(c.ca);
    let Some(x) = ossl(&der) else { broken!("OpenSSL refuses the generated certificate {}", hex(&der)) };
    let Some(l) = parse(&der)? else { bad!("a well-formed certificate of {} bytes is refused", der.len()) };
    same(&l, &x)?;
    for k in [c.ca, c.other] {
        let Some(ca) = parse(&cert::ca(k))? else { bad!("the CA certificate is refused") };
        let want = ossl_signed(&x, &ca_key(k));
        if want != (k == c.ca) {
            broken!("OpenSSL says {want} for key {k}")
        }
        let got = signed(&ca, &l)?;
        ensure!(got == want, "a certificate of {} bytes ({} bytes signed, sha384 {}) is {} as issued by {} CA", der.len(), c.spec.tbs().len(), c.spec.sha384, if got { "accepted" } else { "refused" }, if want { "its" } else { "another" });
    }
    Ok(hit()
        .tag(match der.len() {
            0..=259 => "under 260 bytes",
            260..=65535 => "260 bytes to 64 kB",
            _ => "over 64 kB",
        })
        .tag_if(c.spec.sha384, "sha384")
        .tag_if(c.spec.version.is_none(), "v1")
        .tag_if(c.spec.subject.iter().chain(&c.spec.issuer).any(|a| a.join), "multi-valued RDN"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Alter {
    Flip(usize, u8),
    Set(usize, u8),
    Cut(usize),
    Tail(Hex),
    Insert(usize, Hex),
    Remove(usize, usize),
    /// an element between or after the three parts
    Extra { at: u8, what: u8 },
    /// signature or outer algorithm of another certificate
    OtherSig,
    OuterAlg(u8),
    InnerAlg,
    /// parts of the tbs exchanged, dropped or doubled, without signing again
    TbsPart { i: usize, how: u8 },
    /// the signed bytes replaced
    OtherTbs,
    LongLength(u8),
    SigInts(u8),
    UnusedBits(u8),
    /// the form byte of the public key, signed again
    KeyForm(u8),
    /// the key's bytes otherwise: (how, which)
    KeyBytes(u8, u8),
    /// the contents of an element of the signed part otherwise, signed again
    Field { n: usize, how: u8, with: Hex },
    /// the length of an element (0 the certificate, 1 what is signed) in a longer form, signed again
    Long { n: usize, more: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    spec: Spec,
    ca: u64,
    alter: Alter,
    /// signed again by the CA after the change, where that applies
    resign: bool,
}
/// A tree of elements.
enum Node {
    Leaf(u8, Vec<u8>),
    Inner(u8, Vec<Node>),
}
fn tree(mut b: &[u8]) -> Option<Vec<Node>> {
    let mut out = vec![];
    while !b.is_empty() {
        let (len, head) = match *b.get(1)? {
            n @ 0..=127 => (n as usize, 2),
            n => {
                let k = n as usize & 127;
                (b.get(2..2 + k)?.iter().fold(0, |a, x| a << 8 | *x as usize), 2 + k)
            }
        };
        let body = b.get(head..head + len)?;
        out.push(if b[0] & 0x20 != 0 { Node::Inner(b[0], tree(body)?) } else { Node::Leaf(b[0], body.to_vec()) });
        b = &b[head + len..];
    }
    Some(out)
}
/// Encodes a tree, with the n-th element (outermost first) as `f` makes it of tag and contents.
fn flat(t: &[Node], n: &mut i64, f: &dyn Fn(u8, Vec<u8>) -> Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    for x in t {
        let here = *n == 0;
        *n -= 1;
        let (tag, body) = match x {
            Node::Leaf(t, b) => (*t, b.clone()),
            Node::Inner(t, c) => (*t, flat(c, n, f)),
        };
        out.extend(if here { f(tag, body) } else { cert::tlv(tag, &body) });
    }
    out
}
fn count(t: &[Node]) -> usize {
    t.iter().map(|x| 1 + if let Node::Inner(_, c) = x { count(c) } else { 0 }).sum()
}
/// a length in more bytes than it needs
fn long_form(tag: u8, body: &[u8], more: u8) -> Vec<u8> {
    let len = (body.len() as u64).to_be_bytes();
    let need = len.iter().skip_while(|b| **b == 0).count().max(1);
    let k = (need + more as usize + (body.len() > 127) as usize).min(8);
    let mut v = vec![tag, 0x80 | k as u8];
    v.extend(&len[8 - k..]);
    v.extend_from_slice(body);
    v
}
fn altered(c: &Bad) -> Vec<u8> {
    let s = &c.spec;
    let der = s.der(c.ca);
    let sig = cert::ecdsa_der(&cert::scalar(c.ca), &s.h().hash(&s.tbs()), s.nonce);
    let mut v = der.clone();
    let extra = |w: u8| match w % 8 {
        0 => Civil::new(2049, 12, 31, 23, 59, 59).utc(),
        1 => cert::name(&[Attr::cn("admin")]),
        2 => cert::spki(&cert::point(&cert::scalar(99))),
        3 => cert::integer(&[7]),
        4 => cert::tlv(0x31, &cert::seq(&[cert::oid("550403"), cert::tlv(0x0c, b"root")])),
        5 => cert::seq(&[Civil::new(2000, 1, 1, 0, 0, 0).utc(), Civil::new(2049, 1, 1, 0, 0, 0).utc()]),
        6 => cert::bits(&cert::point(&cert::scalar(99))),
        _ => cert::tlv(5, &[]),
    };
    match &c.alter {
        Alter::Flip(i, b) => v[i % der.len()] ^= 1 << (b % 8),
        Alter::Set(i, b) => v[i % der.len()] = *b,
        Alter::Cut(n) => v.truncate(n % der.len()),
        Alter::Tail(t) => v.extend_from_slice(t),
        Alter::Insert(i, t) => {
            let i = i % der.len();
            v.splice(i..i, t.iter().copied());
        }
        Alter::Remove(i, n) => {
            let i = i % der.len();
            let n = n % 40 + 1;
            v.drain(i..(i + n).min(der.len()));
        }
        Alter::Extra { at, what } => {
            let mut p = vec![s.tbs(), s.alg(), cert::bits(&sig)];
            p.insert(*at as usize % 4, extra(*what));
            v = cert::seq(&p);
        }
        Alter::OtherSig => {
            let o = cert::ecdsa_der(&cert::scalar(c.ca), &s.h().hash(b"other"), s.nonce);
            v = cert::seq(&[s.tbs(), s.alg(), cert::bits(&o)]);
        }
        Alter::OuterAlg(k) => {
            let a = match k % 5 {
                0 => Spec { sha384: !s.sha384, ..s.clone() }.alg(),
                1 => cert::seq(&[cert::oid("2a864886f70d01010b"), cert::tlv(5, &[])]),
                2 => cert::seq(&[cert::oid(if s.sha384 { cert::OID_SHA384 } else { cert::OID_SHA256 }), cert::tlv(5, &[])]),
                3 => cert::seq(&[]),
                _ => cert::seq(&[cert::oid(cert::OID_EC)]),
            };
            v = cert::seq(&[s.tbs(), a, cert::bits(&sig)]);
        }
        Alter::InnerAlg => {
            // signed with the outer algorithm over a tbs naming another one
            let mut p = s.parts();
            let i = s.version.is_some() as usize + 1;
            p[i] = Spec { sha384: !s.sha384, ..s.clone() }.alg();
            v = cert::sign_tbs(&cert::seq(&p), &s.alg(), s.h(), c.ca, s.nonce);
        }
        Alter::TbsPart { i, how } => {
            let mut p = s.parts();
            let i = i % p.len();
            match how % 4 {
                0 => {
                    p.remove(i);
                }
                1 => p.insert(i, p[i].clone()),
                2 => {
                    let l = p.len();
                    p.swap(i, (i + 1) % l)
                }
                _ => p.insert(i, extra(*how / 4)),
            }
            let tbs = cert::seq(&p);
            v = if c.resign { cert::sign_tbs(&tbs, &s.alg(), s.h(), c.ca, s.nonce) } else { cert::seq(&[tbs, s.alg(), cert::bits(&sig)]) };
        }
        Alter::OtherTbs => {
            let o = Spec { subject: vec![Attr::cn("admin")], ..s.clone() };
            v = cert::seq(&[o.tbs(), s.alg(), cert::bits(&sig)]);
        }
        Alter::LongLength(k) => {
            // the same contents with a longer length encoding
            let re = |tag: u8, body: &[u8]| {
                let mut o = vec![tag, 0x84];
                o.extend((body.len() as u32).to_be_bytes());
                o.extend_from_slice(body);
                o
            };
            let b = s.parts().concat();
            let body = [s.tbs(), s.alg(), cert::bits(&sig)];
            v = match k % 3 {
                0 => re(0x30, &body.concat()),
                1 => cert::seq(&[re(0x30, &b), s.alg(), cert::bits(&sig)]),
                _ => cert::seq(&[s.tbs(), s.alg(), re(3, &[&[0u8][..], &sig].concat())]),
            };
        }
        Alter::SigInts(k) => {
            let (r, t) = cert::ecdsa_raw(&cert::scalar(c.ca), &s.h().hash(&s.tbs()), s.nonce);
            let n = refs::p256_order().to_vec();
            let g = match k % 8 {
                0 => cert::seq(&[cert::integer(&t), cert::integer(&r)]),
                1 => cert::seq(&[cert::integer(&[0]), cert::integer(&[0])]),
                2 => cert::seq(&[cert::integer(&r), cert::integer(&n)]),
                3 => cert::seq(&[cert::integer(&r), cert::integer(&t), cert::integer(&[1])]),
                4 => cert::seq(&[cert::integer(&r)]),
                5 => [cert::seq(&[cert::integer(&r), cert::integer(&t)]), vec![0]].concat(),
                6 => cert::seq(&[cert::tlv(2, &[&[0u8, 0][..], &r].concat()), cert::integer(&t)]),
                _ => vec![],
            };
            v = cert::seq(&[s.tbs(), s.alg(), cert::bits(&g)]);
        }
        Alter::KeyForm(_) | Alter::KeyBytes(..) => {
            let mut k = cert::point(&cert::scalar(s.key));
            match &c.alter {
                Alter::KeyForm(b) => k[0] = *b,
                // off the curve, cut short, too long, compressed, infinity
                Alter::KeyBytes(0, i) => k[1 + *i as usize % 64] ^= 1 << (i / 64),
                Alter::KeyBytes(1, n) => k.truncate(*n as usize % 65),
                Alter::KeyBytes(2, n) => k.resize(66 + *n as usize % 40, 0),
                Alter::KeyBytes(3, n) => k[1..].fill(*n),
                Alter::KeyBytes(_, n) => {
                    k.truncate(33);
                    k[0] = 2 + n % 2;
                }
                _ => {}
            }
            let mut p = s.parts();
            let i = p.iter().position(|x| *x == s.spki()).unwrap();
            p[i] = cert::spki(&k);
            v = cert::sign_tbs(&cert::seq(&p), &s.alg(), s.h(), c.ca, s.nonce);
        }
        Alter::Field { n, how, with } => {
            let t = tree(&s.tbs()).unwrap();
            let mut n = (n % count(&t)) as i64;
            let tbs = flat(&t, &mut n, &|tag, mut b| {
                match how % 9 {
                    0 => b = with.0.clone(),
                    1 => b.truncate(with.len() % (b.len() + 1)),
                    2 => b.clear(),
                    3 => b.insert(0, 0),
                    4 => b.insert(0, 0xff),
                    5 if !b.is_empty() => b[0] ^= 0x80,
                    6 => b.push(with.first().copied().unwrap_or(0)),
                    7 => return cert::tlv(with.first().copied().unwrap_or(0x30), &b),
                    _ => {
                        b.pop();
                    }
                }
                cert::tlv(tag, &b)
            });
            v = cert::sign_tbs(&tbs, &s.alg(), s.h(), c.ca, s.nonce);
        }
        Alter::Long { n, more } => {
            // signed with the length as it is
            let t = tree(&s.tbs()).unwrap();
            let k = n % (count(&t) + 3);
            let mut i = k as i64 - 1;
            let tbs = flat(&t, &mut i, &|tag, b| long_form(tag, &b, *more));
            v = cert::sign_tbs(&tbs, &s.alg(), s.h(), c.ca, s.nonce);
            let b = cert::tlv_body(&v).unwrap().to_vec();
            if k == 0 {
                v = long_form(0x30, &b, *more);
            }
            if k > count(&t) {
                // the algorithm, the signature
                let mut e = vec![tbs.clone(), s.alg(), b[tbs.len() + s.alg().len()..].to_vec()];
                let i = k - count(&t);
                let body = cert::tlv_body(&e[i]).unwrap().to_vec();
                e[i] = long_form(e[i][0], &body, *more);
                v = cert::seq(&e);
            }
        }
        Alter::UnusedBits(k) => {
            v = cert::seq(&[s.tbs(), s.alg(), cert::tlv(3, &[&[*k][..], &sig].concat())]);
        }
    }
    v
}
fn bad(c: &Bad) -> Res {
    let der = c.spec.der(c.ca);
    let v = altered(c);
    if v == der {
        return Ok(nt(false));
    }
    let Some(ca) = parse(&cert::ca(c.ca))? else { bad!("the CA certificate is refused") };
    let name = format!("{:?}", c.alter);
    let o = hit().tag(name.split(|x: char| !x.is_alphanumeric()).next().unwrap_or("").to_string());
    let Some(l) = parse(&v)? else { return Ok(o.tag("refused")) };
    // (what is in the extensions is not looked into)
    ensure!(!matches!(c.alter, Alter::Long { .. }) || !c.spec.exts.is_empty(), "{:?}: a length in a longer form than it needs is accepted: {}", c.alter, hex(&v));
    if !signed(&ca, &l)? {
        return Ok(o.tag("not-issued"));
    }
    // accepted: then the CA did sign it, and it says what an independent parser says
    let Some(x) = ossl(&v) else {
        // not well-formed inside, so nothing is said about how it is read; but the CA must have signed it
        ensure!(raw_signed(&v, c.ca), "{:?}: bytes that the CA did not sign are accepted as issued by it: {}", c.alter, hex(&v));
        return Ok(o.tag("signed-but-malformed"));
    };
    ensure!(ossl_signed(&x, &ca_key(c.ca)), "{:?}: a certificate whose signature does not verify is accepted as issued by the CA", c.alter);
    same(&l, &x).map_err(|e| match e {
        Fail::Bad(m) => Fail::Bad(format!("{:?}: an accepted certificate is misread: {m}", c.alter)),
        e => e,
    })?;
    Ok(o.tag("accepted"))
}
/// every byte of a certificate, every bit
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AllFlips {
    seed: u64,
    bit: u8,
}
fn all_flips(c: &AllFlips) -> Res {
    let s = Spec::simple("leaf", 1000 + c.seed);
    let der = s.der(77);
    for i in 0..der.len() {
        bad(&Bad { spec: s.clone(), ca: 77, alter: Alter::Flip(i, c.bit), resign: false })?;
    }
    Ok(hit())
}
fn attr() -> impl Strategy<Value = Attr> + Clone {
    let val = prop_oneof![4 => "[A-Za-z0-9 .'-]{1,20}", 1 => "\\PC{1,12}", 1 => Just(String::new()), 1 => "[a-z]{60,140}", 1 => "[ \\x00\t\n]{0,2}[a-z]{1,5}[ \\x00\t\r\n]{1,3}([a-z]{1,3})?"];
    (prop_oneof![6 => 0usize..7, 1 => 7usize..15], prop::sample::select(vec![0x0cu8, 0x0c, 0x13, 0x16]), val, prop::bool::weighted(0.2)).prop_map(|(typ, tag, val, join)| {
        let tag = if val.bytes().all(|b| b.is_ascii_alphanumeric() || b == b' ' || b == b'.' || b == b'-') { tag } else { 0x0c };
        Attr { typ, tag, val, join }
    })
}
fn names() -> impl Strategy<Value = Vec<Attr>> + Clone {
    prop_oneof![1 => Just(vec![]), 8 => prop::collection::vec(attr(), 1..7)]
}
fn inst() -> impl Strategy<Value = Civil> + Clone {
    (-631152000i64..=2524607999).prop_map(Civil::from_unix)
}
fn spec(big: bool) -> impl Strategy<Value = Spec> + Clone {
    let ext = if big { prop_oneof![4 => 0u32..300, 1 => 0u32..3000, 1 => 60_000u32..70_000].boxed() } else { (0u32..60).boxed() };
    let serial = prop_oneof![1 => Just(Hex(vec![0])), 6 => hexn(1..21), 1 => hexn(21..60), 1 => (0u8..2).prop_map(|b| Hex(vec![0x80 * b, 0, 0]))];
    ((prop_oneof![1 => Just(None), 5 => Just(Some(2u8))], serial, any::<bool>(), names(), names()), (inst(), inst(), 0u64..400, prop::collection::vec(ext, 0..5), any::<u64>())).prop_map(|((version, serial, sha384, issuer, subject), (nb, na, key, exts, nonce))| Spec { exts: if version.is_none() { vec![] } else { exts }, version, serial, sha384, issuer, subject, nb, na, key, nonce })
}
/// tbs sizes across every boundary of the length encoding
fn sized(n: u32) -> Spec {
    let mut s = Spec::simple("size", 3);
    s.issuer = vec![];
    s.subject = vec![];
    s.exts = vec![];
    if n == 0 {
        s.version = None;
        return s;
    }
    s.exts = vec![n];
    s
}
fn alter() -> impl Strategy<Value = Alter> {
    prop_oneof![
        3 => (any::<usize>(), any::<u8>()).prop_map(|(i, b)| Alter::Flip(i, b)),
        2 => (0usize..40, any::<u8>()).prop_map(|(i, b)| Alter::Set(i, b)),
        1 => any::<usize>().prop_map(Alter::Cut),
        1 => hexn(1..20).prop_map(Alter::Tail),
        1 => (any::<usize>(), hexn(1..20)).prop_map(|(i, t)| Alter::Insert(i, t)),
        1 => (any::<usize>(), any::<usize>()).prop_map(|(i, t)| Alter::Remove(i, t)),
        3 => (0u8..4, 0u8..8).prop_map(|(at, what)| Alter::Extra { at, what }),
        1 => Just(Alter::OtherSig),
        1 => any::<u8>().prop_map(Alter::OuterAlg),
        1 => Just(Alter::InnerAlg),
        3 => (any::<usize>(), any::<u8>()).prop_map(|(i, how)| Alter::TbsPart { i, how }),
        1 => Just(Alter::OtherTbs),
        1 => any::<u8>().prop_map(Alter::LongLength),
        1 => any::<u8>().prop_map(Alter::SigInts),
        1 => (1u8..=255).prop_map(Alter::UnusedBits),
        1 => prop_oneof![4u8..8, any::<u8>()].prop_map(Alter::KeyForm),
        2 => (0u8..5, any::<u8>()).prop_map(|(a, b)| Alter::KeyBytes(a, b)),
        6 => (any::<usize>(), any::<u8>(), hexn(0..20)).prop_map(|(n, how, with)| Alter::Field { n, how, with }),
        2 => (any::<usize>(), 0u8..7).prop_map(|(n, more)| Alter::Long { n, more }),
    ]
}
fn main() {
    run::main("C19", "generated certificates (names of every supported string type and unknown attribute types, multi-valued sets, v1 and v3, serials of 1 to 60 bytes, SHA-256 and SHA-384, 200 bytes to 80 kB) checked against OpenSSL; 19 kinds of alteration of them, resigned or not, and every single-bit change of small certificates. Non-trivial: all well-formed ones; altered ones that differ from the original", |c| {
        c.assume("OpenSSL 3.0 X.509 parsing and ECDSA verification are correct");
        let sizes: Vec<u32> = (0..180u32).chain([200, 240, 260, 300, 500, 1000, 65000, 65200, 65300, 65400, 65535, 65536, 70000]).collect();
        c.list("sizes", sizes.iter().map(|n| Good { spec: sized(*n), ca: 11, other: 12 }).collect(), good);
        c.sub("well-formed", 1_600, || (spec(true), 400u64..500, 500u64..600).prop_map(|(spec, ca, other)| Good { spec, ca, other }), good);
        c.sub("altered", 7_000, || (spec(false), 400u64..500, alter(), any::<bool>()).prop_map(|(spec, ca, alter, resign)| Bad { spec, ca, alter, resign }), bad);
        let one = || Spec { exts: vec![], ..Spec::simple("leaf", 1007) };
        let k = count(&tree(&one().tbs()).unwrap());
        c.list("fields", (0..k).flat_map(|n| (0..9u8).map(move |how| Alter::Field { n, how, with: Hex(vec![[0x80u8, 2, 0x30, 0x0c][n % 4]; 1 + n % 3]) })).chain((0..k + 3).flat_map(|n| (0..3).map(move |more| Alter::Long { n, more }))).map(|alter| Bad { spec: one(), ca: 78, alter, resign: true }).collect(), bad);
        let n = (1.0 * c.scale).ceil() as u64;
        c.list("every-bit", (0..n).flat_map(|s| (0..8).map(move |bit| AllFlips { seed: s, bit })).collect(), all_flips);
    })
}
