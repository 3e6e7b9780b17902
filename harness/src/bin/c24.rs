//! C24: random values: length, bounds, freshness; what a session draws, read off the wire or solved from signatures.
use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, PrivateKey};
use anothertls::rand::{RngCore, SeedableRng, SimpleRng, URandomRng, PRNG};
use anothertls::{ServerConfigBuilder, ServerConnection};
use ibig::IBig;
use openssl::bn::{BigNum, BigNumContext};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vharness::cert::{self, Spec};
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

fn int(b: &[u8]) -> IBig {
    b.iter().fold(IBig::from(0), |a, x| (a << 8) + IBig::from(*x))
}
/// big-endian, `n` bytes
fn be_bytes(i: &IBig, n: usize) -> Option<Vec<u8>> {
    let s = format!("{i:x}");
    let s = if s.len() % 2 == 1 { format!("0{s}") } else { s };
    let b = unhex(&s)?;
    (b.len() <= n).then(|| [vec![0; n - b.len()], b].concat())
}
/// Every value drawn, with a name; no eight bytes of any may appear in another, or twice.
#[derive(Default)]
struct Pool {
    seen: HashMap<u64, (String, usize)>,
    /// the same up to the order of the bytes and complement, and the number of the value
    kin: HashMap<u64, (usize, String)>,
    count: usize,
    kinds: HashMap<(String, usize), (usize, Vec<u8>, Vec<u8>)>,
    /// the first eight bytes of a digest of each
    digests: HashMap<u64, String>,
    /// all that is random in one connection, one connection per row
    whole: Option<Rank>,
}
impl Pool {
    /// `bits`: the kind of value, all of one length, whose bits are to take both values
    fn add(&mut self, kind: &str, who: String, v: &[u8]) -> Result<(), Fail> {
        for (i, w) in v.windows(8).enumerate() {
            let k = u64::from_be_bytes(w.try_into().unwrap());
            if let Some((o, j)) = self.seen.insert(k, (format!("{kind} {who}"), i)) {
                bad!("eight bytes of the {kind} of {who} (at {i}) are those of {o} (at {j}): {}", hex(w));
            }
        }
        self.count += 1;
        if v.len() <= 64 {
            for w in v.windows(8) {
                let k = u64::from_be_bytes(w.try_into().unwrap());
                let k = [k, !k, k.swap_bytes(), !k.swap_bytes()].into_iter().min().unwrap();
                match self.kin.get(&k) {
                    Some((n, o)) if *n != self.count => bad!("eight bytes of the {kind} of {who} are those of {o}, backwards or inverted: {}", hex(w)),
                    Some(_) => {}
                    None => drop(self.kin.insert(k, (self.count, format!("{kind} {who}")))),
                }
            }
        }
        let e = self.kinds.entry((kind.into(), v.len())).or_insert_with(|| (0, vec![0; v.len()], vec![0xff; v.len()]));
        e.0 += 1;
        for (i, x) in v.iter().enumerate() {
            e.1[i] |= x;
            e.2[i] &= x;
        }
        Ok(())
    }
    /// with 60 values or more, a bit that never changes has probability below 2^-59 each
    fn spread(&self) -> Result<usize, Fail> {
        let mut n = 0;
        for ((kind, len), (count, or, and)) in &self.kinds {
            if *count >= 60 {
                n += 1;
                for i in 0..*len {
                    ensure!(or[i] == 0xff && and[i] == 0, "in {count} {kind} values, bits of byte {i} never change: {:08b}", !(or[i] & !and[i]));
                }
            }
        }
        Ok(n)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Draw {
    Bytes(u32),
    Between(u8, u8),
    New,
    Other(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Draws {
    ops: Vec<Draw>,
    threads: u8,
    /// of the reads of the device
    #[serde(default)]
    faults: fault::Faults,
}
fn in_range(v: &IBig, min: usize, max: usize) -> bool {
    *v >= IBig::from(2).pow(8 * min) && *v < IBig::from(2).pow(8 * max)
}
fn draw(ops: &[Draw], who: &str) -> Result<Vec<(String, Vec<u8>)>, Fail> {
    let mut objs = vec![URandomRng::new()];
    let mut cur = 0;
    let mut out = vec![];
    for (i, o) in ops.iter().enumerate() {
        match o {
            Draw::New => {
                objs.push(if i % 2 == 0 { URandomRng::new() } else { URandomRng::default() });
                cur = objs.len() - 1;
            }
            Draw::Other(k) => cur = *k as usize % objs.len(),
            Draw::Bytes(n) => {
                let b = objs[cur].bytes(*n as usize);
                ensure!(b.len() == *n as usize, "{n} bytes requested, {} returned", b.len());
                out.push((format!("request {i} of {who}"), b));
            }
            Draw::Between(a, b) => {
                let v = objs[cur].between(*a as usize, *b as usize);
                ensure!(in_range(&v, *a as usize, *b as usize), "between({a}, {b}) gives {v:#x}");
                // a value as long as the range, which has no fixed bytes of its own
                if *b >= *a + 9 && *b <= 40 {
                    let x = be_bytes(&v, *b as usize).unwrap();
                    out.push((format!("range {i} of {who}"), x[..*b as usize - *a as usize - 1].to_vec()));
                }
            }
        }
    }
    Ok(out)
}
fn system(c: &Draws) -> Res {
    let n = c.threads as usize % 4;
    let mut all = fault::with(c.faults, || guard_draw(&c.ops, "this thread"))?;
    let js: Vec<_> = (0..n)
        .map(|t| {
            let (ops, p) = (c.ops.clone(), fault::Faults { seed: c.faults.seed ^ t as u64, ..c.faults });
            std::thread::spawn(move || fault::with(p, || guard_draw(&ops, &format!("thread {t}"))))
        })
        .collect();
    for j in js {
        all.extend(j.join().map_err(|_| Fail::Broken("thread".into()))??);
    }
    let mut p = Pool::default();
    let mut total = 0;
    for (who, v) in &all {
        total += v.len();
        p.add("random bytes", who.clone(), v)?;
    }
    Ok(nt(total >= 16).tag_if(n > 0, "threads").tag_if(total > 10_000, "long").tag_if(c.faults.file > 0, "short reads"))
}
fn guard_draw(ops: &[Draw], who: &str) -> Result<Vec<(String, Vec<u8>)>, Fail> {
    match guard(|| draw(ops, who)) {
        Ok(r) => r,
        Err(p) => Err(Fail::Bad(format!("drawing panics: {p:?}"))),
    }
}
/// every length, and every bit of each
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Length {
    n: u32,
}
fn length(c: &Length) -> Res {
    let n = c.n as usize;
    let (mut or, mut and) = (vec![0u8; n], vec![0xffu8; n]);
    let mut r = URandomRng::new();
    let k = 100;
    for _ in 0..k {
        let b = match guard(|| r.bytes(n)) {
            Ok(b) => b,
            Err(p) => bad!("bytes({n}) panics: {p:?}"),
        };
        ensure!(b.len() == n, "{n} bytes requested, {} returned", b.len());
        for i in 0..n {
            or[i] |= b[i];
            and[i] &= b[i];
        }
    }
    for i in 0..n {
        ensure!(or[i] == 0xff && and[i] == 0, "in {k} requests of {n} bytes, bits of byte {i} never change: {:08b}", !(or[i] & !and[i]));
    }
    let s = SimpleRng::<u32>::from_seed(c.n).bytes(n).len();
    let b = SimpleRng::<IBig>::from_seed(IBig::from(c.n)).bytes(n).len();
    ensure!(s == n && b == n, "{n} bytes requested of a seeded generator, {s} and {b} returned");
    Ok(hit())
}
/// Rows of bits that chance makes independent, over GF(2), of each other's columns.
struct Rank {
    bits: usize,
    rows: Vec<Vec<u64>>,
}
impl Rank {
    fn new(bytes: usize) -> Rank {
        Rank { bits: bytes * 8, rows: vec![] }
    }
    /// rows beyond the number of columns needed for a chance of 2^-40 to lack full rank
    const SPARE: usize = 41;
    fn enough(&self) -> bool {
        self.rows.len() >= self.bits + Rank::SPARE
    }
    fn add(&mut self, b: &[u8]) {
        assert_eq!(b.len() * 8, self.bits);
        // the first column is 1: an inverted copy depends as well
        let mut v = vec![0u64; (self.bits + 64) / 64];
        v[0] = 1;
        for i in 0..self.bits {
            v[(i + 1) / 64] |= (b[i / 8] as u64 >> (i % 8) & 1) << ((i + 1) % 64);
        }
        self.rows.push(v);
    }
    /// a set of bits (numbers of the columns, 0 the constant) whose sum is always 0
    fn relation(&self) -> Option<Vec<usize>> {
        let n = self.bits + 1;
        let mut m = self.rows.clone();
        let bit = |r: &[u64], c: usize| r[c / 64] >> (c % 64) & 1 == 1;
        let (mut pivots, mut top) = (vec![], 0);
        for c in 0..n {
            let Some(i) = (top..m.len()).find(|i| bit(&m[*i], c)) else {
                // column c is the sum of the earlier pivot columns with a bit in it
                let mut r: Vec<usize> = pivots.iter().enumerate().filter(|(k, _)| bit(&m[*k], c)).map(|(_, p): (usize, &usize)| *p).collect();
                r.push(c);
                return Some(r);
            };
            m.swap(top, i);
            let row = m[top].clone();
            for (k, r) in m.iter_mut().enumerate() {
                if k != top && bit(r, c) {
                    r.iter_mut().zip(&row).for_each(|(a, b)| *a ^= b);
                }
            }
            pivots.push(c);
            top += 1;
        }
        None
    }
    /// bytes the relation is about
    fn judge(&self, what: &str) -> Result<bool, Fail> {
        if !self.enough() {
            return Ok(false);
        }
        if let Some(r) = self.relation() {
            let mut b: Vec<usize> = r.iter().filter(|c| **c > 0).map(|c| (c - 1) / 8).collect();
            b.dedup();
            bad!("in {} cases of {what}, bits of the bytes {b:?} always have one sum", self.rows.len());
        }
        Ok(true)
    }
}
/// The same requests again and again: no bit of them depends on others.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Requests {
    sizes: Vec<u16>,
    /// a new generator for each series
    new: bool,
}
fn rank(c: &Requests) -> Res {
    let total = c.sizes.iter().map(|n| *n as usize).sum::<usize>();
    let mut m = Rank::new(total);
    let mut r = URandomRng::new();
    while m.rows.len() < m.bits + 60 {
        if c.new {
            r = URandomRng::new();
        }
        let mut row = vec![];
        for n in &c.sizes {
            match guard(|| r.bytes(*n as usize)) {
                Ok(b) => row.extend(b),
                Err(p) => bad!("bytes({n}) panics: {p:?}"),
            }
        }
        ensure!(row.len() == total, "requests of {:?} bytes give {}", c.sizes, row.len());
        m.add(&row);
    }
    m.judge(&format!("requests of {:?} bytes", c.sizes))?;
    Ok(hit().tag_if(c.sizes.len() > 1, "several requests").tag_if(c.new, "generator for each"))
}
fn requests() -> Vec<Requests> {
    let mut v: Vec<Requests> = (1..=140).map(|n| Requests { sizes: vec![n], new: n % 2 == 0 }).collect();
    for a in [1u16, 4, 8, 16, 31, 32, 33, 41, 42, 48, 64] {
        for b in [1u16, 8, 16, 32, 48, 64] {
            v.push(Requests { sizes: vec![a, b], new: (a + b) % 3 == 0 });
        }
        v.push(Requests { sizes: vec![a; 3], new: false });
        v.push(Requests { sizes: vec![a, 100, a], new: false });
    }
    for n in [1u16, 2, 8, 16, 20, 25] {
        v.push(Requests { sizes: vec![n; 200 / n as usize], new: false });
    }
    for n in [180u16, 256, 300, 512] {
        v.push(Requests { sizes: vec![n], new: false });
    }
    v
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Range {
    min: u8,
    max: u8,
}
fn range(c: &Range) -> Res {
    let (a, b) = (c.min as usize, c.max as usize);
    let mut r = URandomRng::new();
    let mut z = SimpleRng::<IBig>::from_seed(IBig::from(c.min));
    let (mut or, mut and) = (vec![0u8; b], vec![0xffu8; b]);
    for _ in 0..100 {
        let (v, w) = match guard(|| (r.between(a, b), z.between(a, b))) {
            Ok(v) => v,
            Err(p) => bad!("between({a}, {b}) panics: {p:?}"),
        };
        ensure!(in_range(&v, a, b), "between({a}, {b}) gives {v:#x}");
        ensure!(in_range(&w, a, b), "between({a}, {b}) of the seeded generator gives {w:#x}");
        for (i, x) in be_bytes(&v, b).unwrap().iter().enumerate() {
            or[i] |= x;
            and[i] &= x;
        }
    }
    // the source gives 42 bytes at least
    if b <= 40 {
        for i in 0..b {
            ensure!(or[i] == 0xff && and[i] == 0, "in 100 draws between({a}, {b}), bits of byte {i} never change: {:08b}", !(or[i] & !and[i]));
        }
    }
    Ok(nt(b <= 40))
}
/// two generators of one seed, whatever else happens in between
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seeded {
    small: u32,
    big: Hex,
    ops: Vec<(bool, u16, u32, u32)>,
    noise: bool,
}
fn seeded(c: &Seeded) -> Res {
    let run = |noise: bool| -> Result<Vec<String>, Fail> {
        let mut a = SimpleRng::<u32>::from_seed(c.small);
        let mut b = SimpleRng::<IBig>::from_seed(int(&c.big));
        let mut out = vec![];
        for (bytes, n, lo, hi) in &c.ops {
            if noise {
                SimpleRng::<u32>::from_seed(c.small ^ 77).bytes(3);
                SimpleRng::<IBig>::from_seed(IBig::from(c.small)).bytes(33);
                URandomRng::new().bytes(5);
            }
            if *bytes {
                let (x, y) = (a.bytes(*n as usize), b.bytes(*n as usize));
                ensure!(x.len() == *n as usize && y.len() == *n as usize, "{n} bytes requested, {} and {} returned", x.len(), y.len());
                out.push(format!("{} {}", hex(&x), hex(&y)));
            } else {
                let (lo, hi) = (*lo.min(hi) as usize, *lo.max(hi) as usize);
                if lo == hi {
                    continue;
                }
                let x = a.between(lo, hi) as usize;
                ensure!(lo <= x && x < hi, "between({lo}, {hi}) gives {x}");
                let (p, q) = (lo % 40, lo % 40 + 1 + hi % 20);
                let y = b.between(p, q);
                ensure!(in_range(&y, p, q), "between({p}, {q}) gives {y:#x}");
                out.push(format!("{x} {y}"));
            }
        }
        Ok(out)
    };
    let g = |noise| match guard(|| run(noise)) {
        Ok(r) => r,
        Err(p) => Err(Fail::Bad(format!("a seeded generator panics: {p:?}"))),
    };
    let x = g(false)?;
    let y = g(c.noise)?;
    ensure!(x == y, "two generators of one seed differ: {x:?} and {y:?}");
    let z = c.clone();
    let t = std::thread::spawn(move || guard(|| SimpleRng::<u32>::from_seed(z.small).bytes(50)).ok()).join().ok().flatten();
    ensure!(t == Some(SimpleRng::<u32>::from_seed(c.small).bytes(50)), "a seeded generator differs between threads");
    Ok(nt(!x.is_empty()).tag_if(c.noise, "others in between"))
}

/// the nonce of a signature, from the private key; None: the signature is not one
fn nonce(d: &[u8], digest: &[u8], r: &BigNum, s: &BigNum) -> Option<Vec<u8>> {
    let n = p256_order();
    let mut c = BigNumContext::new().unwrap();
    let (mut t, mut u, mut si, mut k) = (BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap());
    t.mod_mul(r, &bn(d), &n, &mut c).ok()?;
    u.mod_add(&t, &bn(&digest[..digest.len().min(32)]), &n, &mut c).ok()?;
    si.mod_inverse(s, &n, &mut c).ok()?;
    k.mod_mul(&u, &si, &n, &mut c).ok()?;
    let k = bn32(&k);
    let (x, _) = affine(&point_mul_g(&k))?;
    let mut xr = BigNum::new().unwrap();
    xr.nnmod(&bn(&x), &n, &mut c).ok()?;
    (xr == *r).then_some(k)
}
fn minus(k: &[u8]) -> Vec<u8> {
    let mut m = BigNum::new().unwrap();
    m.checked_sub(&p256_order(), &bn(k)).unwrap();
    bn32(&m)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Signs {
    key: u64,
    /// message of each, the signing object of each
    of: Vec<(u8, u8)>,
}
fn signs(c: &Signs) -> Res {
    let d = cert::scalar(c.key);
    let mut objs: Vec<Ecdsa> = vec![];
    let mut pool = Pool::default();
    for (i, (m, o)) in c.of.iter().enumerate() {
        // several signatures of one digest, and digests with repeated bytes
        let z = match *m {
            0..=159 => H::S256.hash(&[*m % 5]),
            160..=199 => vec![*m; 32],
            200..=229 => [vec![0; *m as usize - 199], H::S256.hash(&[*m])].concat()[..32].to_vec(),
            _ => H::S384.hash(&[*m]),
        };
        let o = *o as usize % 4;
        while objs.len() <= o {
            objs.push(Ecdsa::urandom());
        }
        let key = PrivateKey::new(Curve::secp256r1(), int(&d));
        let sig = match guard(|| objs[o].sign(&key, &z)) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => bad!("signing fails: {e}"),
            Err(p) => bad!("signing panics: {p:?}"),
        };
        let (Some(r), Some(s)) = (be_bytes(&sig.r, 32), be_bytes(&sig.s, 32)) else { bad!("signature numbers out of range") };
        let Some(k) = nonce(&d, &z, &bn(&r), &bn(&s)) else { bad!("no nonce explains signature r={} s={}", hex(&r), hex(&s)) };
        for (what, of) in [("digest", &z), ("private key", &d)] {
            if let Some(w) = k.windows(8).find(|w| of.windows(8).any(|v| v == *w)) {
                bad!("eight bytes of the nonce of signature {i} are those of the {what}: {}", hex(w));
            }
        }
        pool.add("signature nonce", format!("signature {i}"), &k)?;
        pool.seen.insert(u64::from_be_bytes(minus(&k)[..8].try_into().unwrap()), (format!("negated nonce of signature {i}"), 0));
    }
    let n = pool.spread()?;
    Ok(nt(c.of.len() > 1).tag_if(n > 0, "bits judged"))
}

/// Connections of one endpoint, with everything random in them.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    n: u16,
    auth: bool,
    /// all of one configuration object
    one: bool,
    suite: u8,
    threads: u8,
    seed: u64,
}
/// public values of the private scalars with few bytes set
fn weak(share: &[u8]) -> Option<u64> {
    static T: std::sync::OnceLock<HashMap<Vec<u8>, u64>> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut m = HashMap::new();
        for i in 0..1u64 << 13 {
            for at in [0usize, 30] {
                let mut sk = vec![0u8; 32];
                // clamping ignores some bits: step over them
                let v = if at == 0 { i << 3 } else { i };
                sk[at] = v as u8;
                sk[at + 1] = (v >> 8) as u8;
                m.insert(x25519_pub(&sk), v);
            }
        }
        m
    });
    t.get(share).copied()
}
/// the CertificateVerify of a transcript, solved for its nonce
fn cv_nonce(tr: &[Vec<u8>], server: bool, key: u64, h: H) -> Option<Vec<u8>> {
    let i = tr.iter().rposition(|m| m.first() == Some(&15))?;
    // the server's is the first, the client's the last
    let i = if server { tr.iter().position(|m| m.first() == Some(&15))? } else { i };
    let (_, sig) = parse_cv(&tr[i][4..]).ok()?;
    let th = h.hash(&tr[..i].concat());
    let z = H::S256.hash(&cv_content(server, &th));
    let s = openssl::ecdsa::EcdsaSig::from_der(&sig).ok()?;
    nonce(&cert::scalar(key), &z, &s.r().to_owned().ok()?, &s.s().to_owned().ok()?)
}
type Vals = Vec<(&'static str, Vec<u8>)>;
fn add(pool: &mut Pool, i: String, v: &Vals) -> Result<(), Fail> {
    for (kind, b) in v {
        let want = if *kind == "session id" { 32 } else { b.len() };
        ensure!(b.len() == want && !b.is_empty(), "{kind} of {} bytes", b.len());
        if *kind == "key share" {
            ensure!(b.len() == 32, "key share of {} bytes", b.len());
            ensure!(weak(b).is_none(), "the private key of key share {} has two bytes at most: {:#x}", hex(b), weak(b).unwrap());
            // the last bit of a public value is always clear
            let mut b = b.clone();
            b.pop();
            pool.add(kind, i.clone(), &b)?;
            continue;
        }
        pool.add(kind, i.clone(), b)?;
    }
    Ok(())
}
fn clients(c: &Many) -> Res {
    let mut pool = Pool::default();
    let one = |j: u64, n: usize| -> Result<Vec<Vals>, Fail> {
        let mut out = vec![];
        if c.auth {
            for i in 0..n as u64 {
                let p = SrvPlan { seed: c.seed ^ j << 32 ^ i, suite: c.suite, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: Some((Hex(vec![]), vec![0x0403])), sh: ShOp::Right, ops: vec![], pk: Packing { coalesce: true, ..Default::default() }, data: vec![], cli: CliOpt { cert: Some((Leaf::of(Spec::simple("client", 21), 7), 21)), name: None } };
                let r = p.run(None)?;
                let Ok(_) = &r.flight else { bad!("no client flight: {:?}", r.lib.as_ref().err()) };
                let share = r.hello.shares().ok().and_then(|s| s.into_iter().find(|s| s.0 == 0x1d)).map(|s| s.1).unwrap_or_default();
                let mut v: Vals = vec![("client random", r.hello.random.0.clone()), ("session id", r.hello.sid.0.clone()), ("key share", share)];
                match cv_nonce(&r.party.tr, false, 21, p.suite().h()) {
                    Some(k) => v.push(("signature nonce", k)),
                    None => bad!("no nonce explains the CertificateVerify of the client"),
                }
                out.push(v);
            }
            return Ok(out);
        }
        let mut f = Files::default();
        let mut cfg = client_config(&CliOpt::plain(), None, &mut f).map_err(Fail::Broken)?;
        for i in 0..n {
            if !c.one && i > 0 {
                cfg = client_config(&CliOpt::plain(), None, &mut f).map_err(Fail::Broken)?;
            }
            let (l, a) = listener();
            let s = tcp(a);
            let peer = std::thread::spawn(move || -> Result<Option<ClientHello>, Fail> {
                let mut p = Party::new(Io::new(l.accept()?.0), true);
                let h = p.client_hello()?.ok();
                p.io.fin();
                Ok(h)
            });
            let r = guard(|| anothertls::ClientConnection::connect(s, &cfg).is_ok());
            if let Err(p) = r {
                bad!("the client panics: {p:?}");
            }
            let Some(h) = peer.join().map_err(|_| Fail::Broken("peer".into()))?? else { bad!("no hello") };
            let share = h.shares().ok().and_then(|s| s.into_iter().find(|s| s.0 == 0x1d)).map(|s| s.1).unwrap_or_default();
            out.push(vec![("client random", h.random.0.clone()), ("session id", h.sid.0.clone()), ("key share", share)]);
        }
        Ok(out)
    };
    gather(c, one, &mut pool)
}
/// The first bytes of the usual digests, and of a digest without key.
fn digests(b: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    use openssl::hash::{hash, MessageDigest as D};
    [("SHA-1", D::sha1()), ("SHA-224", D::sha224()), ("SHA-256", D::sha256()), ("SHA-384", D::sha384()), ("SHA-512", D::sha512()), ("MD5", D::md5()), ("SHA3-256", D::sha3_256())].into_iter().map(|(n, d)| (n, hash(d, b).unwrap().to_vec())).collect()
}
fn gather(c: &Many, one: impl Fn(u64, usize) -> Result<Vec<Vals>, Fail> + Sync, pool: &mut Pool) -> Res {
    let t = c.threads as usize % 4 + 1;
    let rs: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|j| {
                let one = &one;
                s.spawn(move || one(j as u64, (c.n as usize).div_ceil(t)))
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    let mut n = 0;
    for (j, r) in rs.into_iter().enumerate() {
        for (i, v) in r.map_err(|_| Fail::Broken("thread".into()))??.iter().enumerate() {
            add(pool, format!("connection {i} in thread {j}"), v)?;
            n += 1;
            // nothing is a digest of something else
            for (a, b) in v {
                for (d, h) in digests(b) {
                    for w in h.chunks_exact(8) {
                        pool.digests.insert(u64::from_be_bytes(w.try_into().unwrap()), format!("the {d} digest of the {a} of connection {i} in thread {j}"));
                    }
                }
            }
            // every bit that is free
            let mut row = vec![];
            for (a, b) in v {
                match *a {
                    // the last bit of a share is 0; the first byte of a nonce is almost never 0xff.. but below the order
                    "key share" => row.extend_from_slice(&b[..b.len() - 1]),
                    "signature nonce" => row.extend_from_slice(&b[1..b.len() - 1]),
                    _ => row.extend_from_slice(b),
                }
            }
            let m = pool.whole.get_or_insert_with(|| Rank::new(row.len()));
            if m.bits == row.len() * 8 {
                m.add(&row);
            }
        }
    }
    let k = pool.spread()?;
    for (w, d) in &pool.digests {
        if let Some((o, i)) = pool.seen.get(w) {
            bad!("eight bytes of the {o} (at {i}) are those of {d}");
        }
    }
    let whole = match &pool.whole {
        Some(m) => m.judge("connections")?,
        None => false,
    };
    Ok(nt(n > 1).tag_if(whole, "rank judged").tag_if(k > 0, "bits judged").tag_if(t > 1, "concurrent").tag_if(c.one, "one configuration").tag_if(c.auth, "signing / requesting"))
}
/// one session with a server; what was random in it
fn one_server(io: Io, seed: u64, suite: Suite, auth: bool) -> Result<Option<Vals>, Fail> {
    let mut p = Party::new(io, false);
    let sk = x_secret(seed);
    // clients differ in what else they offer
    let kind = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40;
    let mut suites = vec![suite.0];
    for (i, s) in [0x00ffu16, 0x5600, 0xc02b, 0xc02f, 0x0a0a].into_iter().enumerate() {
        if kind >> i & 1 == 1 {
            suites.push(s);
        }
    }
    let sid = rnd(seed ^ 5)[..[32, 32, 0, 16][(kind >> 5) as usize % 4]].to_vec();
    let mut hello = ClientHello::simple(rnd(seed), sid, &suites, &x25519_pub(&sk));
    if kind >> 7 & 1 == 1 {
        hello.exts[0].1 = Hex(vecn(1, &u16s(&[0x304, 0x303])));
        ensure!(hello.exts[0].0 == X_VERSIONS, "order of the extensions");
    }
    for (i, e) in [(23u16, vec![]), (0xff01, vec![0]), (35, vec![]), (X_SNI, sni(b"a.name")), (45, vec![1, 1])].into_iter().enumerate() {
        if kind >> (8 + i) & 1 == 1 {
            hello.exts.push((e.0, Hex(e.1)));
        }
    }
    p.send_hello(&hello.raw(), &Packing::default());
    let Ok(fl) = p.server_flight(&sk)? else { return Ok(None) };
    let mut v: Vals = vec![("server random", fl.sh.random.0.clone()), ("key share", fl.sh.share().map(|s| s.1).unwrap_or_default())];
    if auth {
        match &p.cr {
            Some((ctx, _)) => v.push(("request context", ctx.clone())),
            None => bad!("no certificate request"),
        }
    }
    match cv_nonce(&p.tr, true, 3, suite.h()) {
        Some(k) => v.push(("signature nonce", k)),
        None => bad!("no nonce explains the CertificateVerify of the server"),
    }
    let mut items = vec![Item::new(Kind::Finished(FinSpec::default()))];
    if auth {
        items.insert(0, Item::new(Kind::CertVerify(CvSpec::right(false, 20))));
        items.insert(0, Item::new(Kind::Cert { ctx: None, chain: vec![Leaf::of(Spec::simple("ok", 20), 7)] }));
    }
    p.send(&items, &Packing { coalesce: true, ..Default::default() });
    p.io.fin();
    p.drain()?;
    Ok(Some(v))
}
fn opt(auth: bool) -> SrvOpt {
    let mut o = SrvOpt::plain(3);
    if auth {
        o.ca = Some(7);
    }
    o
}
fn servers(c: &Many) -> Res {
    let mut pool = Pool::default();
    let suite = SUITES[c.suite as usize % 3];
    let one = |j: u64, n: usize| -> Result<Vec<Vals>, Fail> {
        let mut f = Files::default();
        let mut out = vec![];
        let cfg = server_config(&opt(c.auth), None, &mut f).map_err(Fail::Broken)?;
        if c.one {
            let (l, a) = listener();
            let job = Job::new("server", move || {
                let s = ServerConnection::new(l, cfg);
                (0..n).filter(|_| clock::at(NOW, 0, || s.accept()).map(|(mut t, _)| read_all(&mut t, &[]).0.len()).is_ok()).count()
            });
            for i in 0..n as u64 {
                match one_server(Io::new(tcp(a)), c.seed ^ j << 32 ^ i, suite, c.auth)? {
                    Some(v) => out.push(v),
                    None => bad!("no flight from the server on connection {i}"),
                }
            }
            let done = job.get()?;
            ensure!(done == n, "{done} of {n} sessions with one server");
        } else {
            for i in 0..n as u64 {
                let cfg = server_config(&opt(c.auth), None, &mut f).map_err(Fail::Broken)?;
                let (io, job) = against_server(cfg, Some(NOW), |mut t| read_all(&mut t, &[]).0.len());
                match one_server(io, c.seed ^ j << 32 ^ i, suite, c.auth)? {
                    Some(v) => out.push(v),
                    None => bad!("no flight from the server on connection {i}: {:?}", job.get()?.err()),
                }
                ensure!(job.get()?.is_ok(), "no session");
            }
        }
        Ok(out)
    };
    gather(c, one, &mut pool)
}
/// with the deterministic generator chosen, sessions repeat; otherwise never
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Simple {
    suite: u8,
    auth: bool,
    seed: u64,
    /// chosen first and then unchosen
    undo: bool,
}
fn simple(c: &Simple) -> Res {
    let suite = SUITES[c.suite as usize % 3];
    let mut all = vec![];
    for _ in 0..2 {
        let mut f = Files::default();
        let cp = f.put("s.cert", cert::pem("CERTIFICATE", &SrvOpt::plain(3).leaf.der()).as_bytes());
        let kp = f.put("s.key", cert::pem("EC PRIVATE KEY", &cert::sec1(&cert::scalar(3), true)).as_bytes());
        let ca = f.put("ca.cert", cert::pem("CERTIFICATE", &cert::ca(7)).as_bytes());
        let cfg = guard(|| {
            let mut b = ServerConfigBuilder::new().add_cert_pem(cp).add_privkey_pem(kp).set_prng(PRNG::Simple);
            if c.auth {
                b = b.add_client_cert_ca(ca);
            }
            if c.undo {
                b = b.set_prng(PRNG::URandom);
            }
            b.build()
        });
        let Ok(Ok(cfg)) = cfg else { broken!("configuration refused") };
        let (io, job) = against_server(cfg, Some(NOW), |mut t| read_all(&mut t, &[]).0.len());
        match one_server(io, c.seed, suite, c.auth)? {
            Some(v) => all.push(v),
            None => bad!("no flight: {:?}", job.get()?.err()),
        }
        job.get()?.err();
    }
    for (a, b) in all[0].iter().zip(&all[1]) {
        if a.0 == "signature nonce" {
            // signatures are not drawn from it: they have to differ whatever the generator
            ensure!(a.1 != b.1, "two signatures with one nonce");
        } else if c.undo {
            ensure!(a.1 != b.1, "{} repeats although the system generator is configured", a.0);
        } else {
            ensure!(a.1 == b.1, "{} differs between two servers with equally seeded generators: {} and {}", a.0, hex(&a.1), hex(&b.1));
        }
    }
    Ok(hit().tag_if(c.undo, "back to the system's"))
}
fn main() {
    run::main("C24", "request histories over several generator objects and threads; every length up to 300 and selected ones beyond, every range up to 64 bytes, with every bit judged over 100 draws; equally seeded generators run against each other; signatures solved for their nonces with the private key; randoms, session ids, shares, contexts and nonces of series of connections from one and several configurations, in one and several threads: no eight bytes may recur anywhere, and over 60 values every bit takes both values. Non-trivial: at least two values compared", |c| {
        c.assume("eight random bytes coincide by chance with probability below 1e-6 in a whole run, a bit stays the same over 60 or 100 draws with probability below 1e-13");
        c.assume("the entropy of the system source itself is not judged; ranges beyond 40 bytes are judged for their bounds only");
        c.shrink_iters = 120;
        let op = prop_oneof![6 => prop_oneof![3 => 0u32..120, 2 => 0u32..700, 1 => prop::sample::select(vec![99u32, 100, 101, 199, 200, 201, 4096, 9999])].prop_map(Draw::Bytes), 4 => (0u8..40, 1u8..34).prop_map(|(a, d)| Draw::Between(a, a + d)), 1 => Just(Draw::New), 1 => any::<u8>().prop_map(Draw::Other)];
        c.sub("system", 12_000, || (vec(op.clone(), 1..14), prop_oneof![4 => Just(0u8), 1 => 1u8..4], prop_oneof![2 => Just(fault::Faults::default()), 1 => (any::<u64>(), 1u16..120, prop_oneof![2 => Just(0u8), 1 => 2u8..20]).prop_map(|(seed, file, intr)| fault::Faults { seed, file, intr, ..Default::default() })]).prop_map(|(ops, threads, faults)| Draws { ops, threads, faults }), system);
        c.list("length", (0..=300).chain([511, 512, 513, 1000, 1024, 2047, 4096, 5000, 16_384, 65_537, 100_000]).map(|n| Length { n }).collect(), length);
        c.list("rank", requests(), rank);
        c.list("range", (0u8..64).flat_map(|a| (a + 1..=64).filter(move |b| (b - a) < 6 || b % 8 == 0 || a < 2).map(move |b| Range { min: a, max: b })).collect(), range);
        c.sub("seeded", 20_000, || (any::<u32>(), hexn(0..31), vec((any::<bool>(), 0u16..200, any::<u32>(), any::<u32>()), 0..10), any::<bool>()).prop_map(|(small, big, ops, noise)| Seeded { small, big, ops, noise }), seeded);
        c.sub("nonces", 200, || (any::<u64>(), vec((any::<u8>(), any::<u8>()), 2..130)).prop_map(|(key, of)| Signs { key, of }), signs);
        let many = |n: std::ops::Range<u16>| (n, any::<bool>(), any::<bool>(), 0u8..3, 0u8..4, any::<u64>()).prop_map(|(n, auth, one, suite, threads, seed)| Many { n, auth, one, suite, threads, seed });
        c.sub("clients", 60, || many(2..110), clients);
        c.sub("servers", 60, || many(2..110), servers);
        c.list("long_series", (0..8u8).map(|i| Many { n: 90, auth: i & 1 == 1, one: i & 2 == 2, suite: i, threads: i >> 1, seed: i as u64 + 400 }).collect(), |m| if m.seed & 4 == 0 { clients(m) } else { servers(m) });
        // enough for the rank of all that is random in one: 760 bits of a client's hello, 1240 of a server's signing flight
        let series = |i: u64, n, auth| Many { n, auth, one: i % 2 == 0, suite: i as u8, threads: 3, seed: 700 + i };
        c.list("client_ranks", vec![series(0, 850, false), series(1, 850, false), series(2, 1250, true)], clients);
        c.list("server_ranks", vec![series(0, 850, false), series(2, 1300, true)], servers);
        c.sub("simple", 80, || (0u8..3, any::<bool>(), any::<u64>(), any::<bool>()).prop_map(|(suite, auth, seed, undo)| Simple { suite, auth, seed, undo }), simple);
    })
}
