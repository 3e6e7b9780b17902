//! Whole handshakes of a scripted peer against an endpoint of the library: a legal flight, and
//! operators that change it.
#![allow(dead_code)]
use crate::lib_side::*;
use anothertls::net::alert::TlsError;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use vharness::cert::{Civil, Spec};
use vharness::gen::{hexn, mutate, Blob, Hex};
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::Fail;
use vharness::tls::{self, *};

/// 2031-03-04 05:06:07
pub const NOW: i64 = 1_930_367_167;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Drop(u8),
    Dup(u8),
    Swap(u8, u8),
    Insert(u8, Kind, Option<Prot>),
    /// a legal compatibility record
    Ccs(u8),
    Cv(CvSpec),
    /// CertificateVerify by this key
    CvKey(u64),
    Fin(FinSpec),
    Prot(u8, Prot),
    NoHash(u8),
    Flip(u8, u32),
    Corrupt(u8, u32),
    Seq(u8, i8),
    Inner(u8, u8),
    /// the content under another type of handshake message
    Retype(u8, u8),
    LenOff(u8, i32),
    /// legal padding
    Pad(u8, u16),
    Ctx(Hex),
    /// further certificates after the first
    Chain(u8),
    /// an empty list
    NoCert,
    Bend(u8, Bend),
    Outer(u8, u8),
    Mid(u8, u16, u8, Hex),
    /// without its first bytes
    Skip(u8, u8),
    /// another content of the message of this type
    Body(u8, Hex),
    /// another order: the n-th permutation
    Perm(u16),
    Cut(u8),
    /// a certificate of this key before the others; with the flag its key signs
    Front(u64, u64, bool),
}
fn find(items: &[Item], f: impl Fn(&Kind) -> bool) -> Option<usize> {
    items.iter().position(|i| f(&i.kind))
}
/// index of an item that is no compatibility record
fn pick(items: &[Item], i: u8) -> Option<usize> {
    let v: Vec<usize> = (0..items.len()).filter(|j| !matches!(items[*j].kind, Kind::Ccs(_))).collect();
    (!v.is_empty()).then(|| v[i as usize % v.len()])
}
pub fn apply(mut items: Vec<Item>, ops: &[Op], server: bool) -> Vec<Item> {
    for op in ops {
        let n = items.len();
        if n == 0 && !matches!(op, Op::Insert(..) | Op::Ccs(_)) {
            continue;
        }
        match op {
            Op::Drop(i) => {
                items.remove(*i as usize % n);
            }
            Op::Dup(i) => {
                let i = *i as usize % n;
                items.insert(i, items[i].clone());
            }
            Op::Swap(i, j) => items.swap(*i as usize % n, *j as usize % n),
            Op::Insert(i, k, p) => {
                let mut it = Item::new(k.clone());
                it.prot = *p;
                items.insert(*i as usize % (n + 1), it);
            }
            Op::Ccs(i) => items.insert(*i as usize % (n + 1), Item::new(Kind::Ccs(Hex(vec![1])))),
            Op::Cv(c) => {
                if let Some(j) = find(&items, |k| matches!(k, Kind::CertVerify(_))) {
                    let Kind::CertVerify(old) = &items[j].kind else { unreachable!() };
                    items[j].kind = Kind::CertVerify(CvSpec { server_ctx: c.server_ctx == server, key: old.key, ..c.clone() });
                }
            }
            Op::CvKey(key) => {
                for it in items.iter_mut() {
                    if let Kind::CertVerify(c) = &mut it.kind {
                        c.key = *key;
                    }
                }
            }
            Op::Fin(f) => {
                if let Some(j) = find(&items, |k| matches!(k, Kind::Finished(_))) {
                    items[j].kind = Kind::Finished(f.clone());
                }
            }
            Op::Prot(i, p) => {
                if let Some(j) = pick(&items, *i) {
                    items[j].prot = Some(*p);
                }
            }
            Op::NoHash(i) => {
                if let Some(j) = pick(&items, *i) {
                    if matches!(items[j].kind, Kind::Msg(..) | Kind::Cert { .. } | Kind::CertVerify(_)) {
                        items[j].hash = false;
                    }
                }
            }
            Op::Flip(i, b) => {
                if let Some(j) = pick(&items, *i) {
                    items[j].flip = Some(*b);
                }
            }
            Op::Corrupt(i, b) => {
                if let Some(j) = pick(&items, *i) {
                    items[j].corrupt = Some(*b);
                }
            }
            Op::Seq(i, d) => {
                if let Some(j) = pick(&items, *i) {
                    items[j].seq = *d;
                }
            }
            Op::Inner(i, t) => {
                if let Some(j) = pick(&items, *i) {
                    items[j].inner = Some(*t);
                }
            }
            Op::Retype(i, t) => {
                if let Some(j) = pick(&items, *i) {
                    items[j].retype = match items[j].kind {
                        Kind::Msg(u, _) if u == *t => None,
                        Kind::Cert { .. } if *t == CERT => None,
                        Kind::CertVerify(_) if *t == CV => None,
                        Kind::Finished(_) if *t == FIN => None,
                        _ => Some(*t),
                    };
                }
            }
            Op::Bend(i, b) => {
                if let Some(j) = pick(&items, *i) {
                    if matches!(items[j].kind, Kind::Msg(..) | Kind::Cert { .. } | Kind::CertVerify(_) | Kind::Finished(_)) {
                        items[j].bend = Some(b.clone());
                    }
                }
            }
            Op::Body(t, b) => {
                if let Some(Kind::Msg(_, x)) = items.iter_mut().map(|i| &mut i.kind).find(|k| matches!(k, Kind::Msg(u, _) if u == t)) {
                    *x = b.clone();
                }
            }
            Op::Outer(i, t) => {
                if let (Some(j), true) = (pick(&items, *i), *t != 23) {
                    items[j].outer = Some(*t);
                }
            }
            Op::Mid(i, at, t, b) => {
                if let Some(j) = pick(&items, *i) {
                    if matches!(items[j].kind, Kind::Msg(..) | Kind::Cert { .. } | Kind::CertVerify(_) | Kind::Finished(_)) && *t != 22 {
                        items[j].mid = Some((*at, *t, b.clone()));
                    }
                }
            }
            Op::Skip(i, n) => {
                if let (Some(j), true) = (pick(&items, *i), *n > 0) {
                    if matches!(items[j].kind, Kind::Msg(..) | Kind::Cert { .. } | Kind::CertVerify(_) | Kind::Finished(_)) {
                        items[j].skip = *n;
                    }
                }
            }
            Op::LenOff(i, o) => {
                if let Some(j) = pick(&items, *i) {
                    items[j].len_off = *o;
                }
            }
            Op::Pad(i, p) => {
                let i = *i as usize % n;
                items[i].pad = *p % 400;
            }
            Op::Ctx(h) => {
                if let Some(j) = find(&items, |k| matches!(k, Kind::Cert { .. })) {
                    if let Kind::Cert { ctx, .. } = &mut items[j].kind {
                        *ctx = Some(h.clone());
                    }
                }
            }
            Op::Chain(m) => {
                for it in items.iter_mut() {
                    if let Kind::Cert { chain, .. } = &mut it.kind {
                        for k in 0..(*m % 4) {
                            chain.push(Leaf::of(Spec::simple("intermediate", 300 + k as u64), 301 + k as u64));
                        }
                    }
                }
            }
            Op::NoCert => {
                for it in items.iter_mut() {
                    if let Kind::Cert { chain, .. } = &mut it.kind {
                        chain.clear();
                    }
                }
            }
            Op::Perm(x) => {
                let mut x = *x as usize;
                for i in (1..n).rev() {
                    items.swap(i, x % (i + 1));
                    x /= i + 1;
                }
            }
            Op::Front(key, ca, sign) => {
                for it in items.iter_mut() {
                    match &mut it.kind {
                        Kind::Cert { chain, .. } => chain.insert(0, Leaf::of(Spec::simple("ok front", *key), *ca)),
                        Kind::CertVerify(c) if *sign => c.key = *key,
                        _ => {}
                    }
                }
            }
            Op::Cut(k) => items.truncate(*k as usize % (n + 1)),
        }
    }
    items
}
/// What a flight is without its compatibility records, up to its Finished. None: some record is not what it should be.
pub fn legal_kinds(items: &[Item]) -> Option<Vec<&Kind>> {
    let mut v = vec![];
    for it in items {
        if let Kind::Ccs(b) = &it.kind {
            if b.0 != [1] || !matches!(it.prot, None | Some(Prot::Plain)) || it.corrupt.is_some() {
                return None;
            }
            continue;
        }
        // the keys of the phase, named
        if !(Item { prot: it.prot.filter(|p| *p != Prot::Hs), ..it.clone() }).plain() {
            return None;
        }
        v.push(&it.kind);
        if matches!(it.kind, Kind::Finished(_)) {
            return Some(v);
        }
    }
    None
}

pub fn x_secret(seed: u64) -> Vec<u8> {
    Blob { len: 32, seed: seed ^ 0x25519, pat: 0 }.get()
}
pub fn rnd(seed: u64) -> Vec<u8> {
    Blob { len: 32, seed: seed ^ 0x7777, pat: 0 }.get()
}
/// What the library's side of a connection did.
#[derive(Debug)]
pub struct Lib {
    /// the data read and what ended the reading; or why the handshake failed
    pub res: Result<(Vec<u8>, TlsError), TlsError>,
}

// ------------------------------------------------------------------ scripted server
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SrvPlan {
    pub seed: u64,
    /// index into SUITES
    pub suite: u8,
    pub leaf: Leaf,
    /// ask for a client certificate
    pub cr: Option<(Hex, Vec<u16>)>,
    pub sh: ShOp,
    pub ops: Vec<Op>,
    pub pk: Packing,
    /// data sent directly after the flight
    pub data: Vec<Blob>,
    pub cli: CliOpt,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ShOp {
    Right,
    /// bit of the message changed after it was hashed
    Flip(u32),
    /// another suite in the message than the one used
    OtherSuite(u16),
    Sid(Hex),
    Version(u16),
    Comp(u8),
    Exts(Vec<(u16, Hex)>),
    /// an additional extension
    More(u16, Hex),
    /// key exchange value
    Share(Hex),
    Group(u16),
    Random(Hex),
    Twice,
    Missing,
    OtherKeys,
    Trail(Hex),
    /// another message in its place
    Raw(Hex),
    /// under another type of message
    Type(u8),
    /// more bytes in its record
    With(Hex),
    /// another record within it
    Mid(u16, u8, Hex),
    /// bytes of the body replaced, hashed as sent (place, how many, by what); the message's length fits
    Splice(u16, u16, Hex),
    /// right, after so many compatibility records
    Ccs(u8),
}
pub struct SrvRun {
    pub lib: Result<(Vec<u8>, TlsError), TlsError>,
    pub party: Party,
    /// the client's last flight, or what came instead
    pub flight: Result<Vec<(u8, Vec<u8>)>, Ev>,
    pub tail: Vec<Ev>,
    pub hello: ClientHello,
    pub written: Vec<u8>,
}
impl SrvPlan {
    pub fn suite(&self) -> Suite {
        SUITES[self.suite as usize % 3]
    }
    pub fn base(&self) -> Vec<Item> {
        let mut v = vec![Item::new(Kind::Msg(EE, Hex(vec![0, 0])))];
        if let Some((ctx, algs)) = &self.cr {
            v.push(Item::new(Kind::Msg(CR, Hex(cr_body(ctx, algs)))));
        }
        v.push(Item::new(Kind::Cert { ctx: None, chain: vec![self.leaf.clone()] }));
        v.push(Item::new(Kind::CertVerify(CvSpec::right(true, self.leaf.spec.key))));
        v.push(Item::new(Kind::Finished(FinSpec::default())));
        v
    }
    pub fn items(&self) -> Vec<Item> {
        apply(self.base(), &self.ops, true)
    }
    /// A client must not report success unless this holds.
    pub fn legal(&self) -> bool {
        if !matches!(self.sh, ShOp::Right | ShOp::Ccs(_)) {
            return false;
        }
        let items = self.items();
        let Some(k) = legal_kinds(&items) else { return false };
        let mut it = k.into_iter().peekable();
        match it.next() {
            Some(Kind::Msg(EE, b)) if parse_ee(b).is_ok() => {}
            _ => return false,
        }
        if let Some(Kind::Msg(CR, b)) = it.peek() {
            if parse_cr(b).is_err() {
                return false;
            }
            it.next();
        }
        let Some(Kind::Cert { ctx, chain }) = it.next() else { return false };
        let Some(leaf) = chain.first() else { return false };
        if ctx.as_ref().is_some_and(|c| !c.is_empty()) || !leaf.timely(NOW) || leaf.flip.is_some() || leaf.alg != 0 {
            return false;
        }
        match it.next() {
            Some(Kind::CertVerify(c)) if c.is_right(true, leaf.spec.key) => {}
            _ => return false,
        }
        matches!(it.next(), Some(Kind::Finished(f)) if f.is_right()) && it.next().is_none()
    }
    pub fn run(&self, keylog: Option<&str>) -> Result<SrvRun, Fail> {
        let mut f = Files::default();
        let cfg = client_config(&self.cli, keylog, &mut f).map_err(Fail::Broken)?;
        let wrote: Arc<Mutex<Vec<u8>>> = Default::default();
        let w = wrote.clone();
        let seed = self.seed;
        let (io, job) = against_client(cfg, Some(NOW), move |mut s| {
            let d = Blob { len: 1 + seed as usize % 700, seed, pat: 0 }.get();
            if s.tls_write(&d).is_ok() {
                *w.lock().unwrap() = d;
            }
            read_all(&mut s, &[4096])
        })?;
        let mut p = Party::new(io, true);
        let hello = match p.client_hello()? {
            Ok(h) => h,
            Err(e) => {
                drop(p);
                return Err(Fail::Bad(format!("the client begins with {e:?} ({:?})", job.get()?.map(|_| ()))));
            }
        };
        let shares = hello.shares().map_err(|e| Fail::Bad(format!("the client's key_share: {e}")))?;
        let Some(cshare) = shares.iter().find(|s| s.0 == 0x1d).map(|s| s.1.clone()) else { return Err(Fail::Bad("no X25519 key share".into())) };
        let sk = x_secret(self.seed);
        let Some(z) = x25519(&sk, &cshare) else { return Err(Fail::Bad("the client's key share is unusable".into())) };
        let mut sh = ServerHello::simple(rnd(self.seed), hello.sid.0.clone(), self.suite().0, &x25519_pub(&sk));
        let mut trail = vec![];
        match &self.sh {
            ShOp::OtherSuite(s) => sh.suite = *s,
            ShOp::Sid(s) => sh.sid = s.clone(),
            ShOp::Version(v) => sh.version = *v,
            ShOp::Comp(c) => sh.comp = *c,
            ShOp::Exts(e) => sh.exts = e.clone(),
            ShOp::More(t, b) => sh.exts.push((*t, b.clone())),
            ShOp::Share(b) => sh.exts[0].1 = Hex(share_entry(0x1d, b)),
            ShOp::Group(g) => sh.exts[0].1 = Hex(share_entry(*g, &x25519_pub(&sk))),
            ShOp::Random(r) => sh.random = r.clone(),
            ShOp::Trail(t) => trail = t.0.clone(),
            _ => {}
        }
        let mut raw = msg(SH, &[sh.body(), trail].concat());
        match &self.sh {
            ShOp::Raw(b) => raw = b.0.clone(),
            ShOp::Type(t) => raw[0] = *t,
            ShOp::Splice(at, del, b) => {
                let mut body = raw[4..].to_vec();
                let at = (*at as usize).min(body.len());
                let end = (at + *del as usize).min(body.len());
                body.splice(at..end, b.iter().copied());
                raw = msg(SH, &body);
            }
            _ => {}
        }
        p.tr.push(raw.clone());
        p.set_shared(self.suite(), &z);
        if self.sh == ShOp::OtherKeys {
            let other = x25519_pub(&x_secret(self.seed ^ 1));
            p.set_shared(self.suite(), &other);
        }
        let mut sent = raw;
        if let ShOp::Flip(b) = self.sh {
            flip(&mut sent, b);
        }
        if let ShOp::With(b) = &self.sh {
            sent.extend_from_slice(b);
        }
        let n = match self.sh {
            ShOp::Twice => 2,
            ShOp::Missing => 0,
            _ => 1,
        };
        let mut wire = vec![];
        if let ShOp::Ccs(n) = self.sh {
            wire = [20, 3, 3, 0, 1, 1].repeat(n as usize);
        }
        let head = Item { hash: false, prot: Some(Prot::Plain), ..Item::new(Kind::Rec(22, Hex(sent))) };
        if let ShOp::Mid(at, t, b) = &self.sh {
            wire.extend(around(p.tr.last().unwrap(), *at, *t, b));
        } else {
            for _ in 0..n {
                p.plain_handshake(&mut wire, &head, &self.pk);
            }
        }
        wire.extend(p.flight(&self.items(), &self.pk));
        for b in &self.data {
            let d = b.get();
            for c in d.chunks(16384) {
                wire.extend(p.flight(&[Item::new(Kind::App(Hex(c.to_vec())))], &Packing::default()));
            }
        }
        mutate(&mut wire, &self.pk.wire);
        p.io.send_cut(&wire, &self.pk.seg, self.pk.pause_us);
        p.io.fin();
        let flight = p.client_flight();
        let tail = match &flight {
            Ok(Ok(_)) => p.drain(),
            Ok(Err(e)) => p.drain_after(e.clone()),
            Err(_) => Ok(vec![]),
        };
        let lib = job.get()?;
        let flight = flight?;
        let tail = tail?;
        let written = wrote.lock().unwrap().clone();
        Ok(SrvRun { lib, party: p, flight, tail, hello, written })
    }
}

// ------------------------------------------------------------------ scripted client
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CliPlan {
    pub seed: u64,
    /// suites offered
    pub suites: Vec<u16>,
    pub sid: u8,
    pub sni: Option<String>,
    pub ch: ChOp,
    /// compatibility record after the hello
    pub ccs: bool,
    /// certificate presented, and the seed of the key that signs
    pub cert: Option<(Leaf, u64)>,
    pub ops: Vec<Op>,
    pub pk: Packing,
    pub data: Vec<Blob>,
    pub srv: SrvOpt,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ChOp {
    Right,
    Flip(u32),
    Twice,
    /// another message in its place
    Raw(Hex),
    /// other records before the hello
    Before(u8, Hex),
    /// and after it
    After(u8, Hex),
    /// another complete hello, with the same key share
    Own(Hex),
    /// under another type of message
    Type(u8),
    /// more bytes in its record
    With(Hex),
    /// another record within it
    Mid(u16, u8, Hex),
}
/// The records of a message with another one within.
fn around(m: &[u8], at: u16, t: u8, b: &[u8]) -> Vec<u8> {
    let k = 1 + at as usize % (m.len() - 1);
    [(22, &m[..k]), (t, b), (22, &m[k..])].iter().flat_map(|(t, b)| [vec![*t, 3, 3], vecn(2, b)].concat()).collect()
}
pub struct CliRun {
    pub lib: Result<(Vec<u8>, TlsError), TlsError>,
    pub party: Party,
    pub flight: Result<Flight, Ev>,
    pub tail: Vec<Ev>,
    pub hello: ClientHello,
    pub written: Vec<u8>,
}
impl CliPlan {
    pub fn base(&self) -> Vec<Item> {
        let mut v = vec![];
        if let Some((leaf, key)) = &self.cert {
            v.push(Item::new(Kind::Cert { ctx: None, chain: vec![leaf.clone()] }));
            v.push(Item::new(Kind::CertVerify(CvSpec::right(false, *key))));
        }
        v.push(Item::new(Kind::Finished(FinSpec::default())));
        v
    }
    pub fn items(&self) -> Vec<Item> {
        apply(self.base(), &self.ops, false)
    }
    /// A server must not report success unless this holds.
    pub fn legal(&self) -> bool {
        if self.ch != ChOp::Right {
            return false;
        }
        if self.srv.name.is_some() && self.sni.is_some() && self.sni != self.srv.name {
            return false;
        }
        if !self.suites.iter().any(|s| SUITES.contains(&Suite(*s))) {
            return false;
        }
        let items = self.items();
        let Some(k) = legal_kinds(&items) else { return false };
        let mut it = k.into_iter();
        if let Some(ca) = self.srv.ca {
            let Some(Kind::Cert { ctx, chain }) = it.next() else { return false };
            let Some(leaf) = chain.first() else { return false };
            // the context of the request is fresh: a given one is another one
            if ctx.is_some() || leaf.flip.is_some() || leaf.alg != 0 || leaf.ca != ca || !leaf.timely(NOW) {
                return false;
            }
            if let Some(v) = self.srv.verify {
                if !verify_says(v % VERIFY.len() as u8, &leaf.spec) {
                    return false;
                }
            }
            match it.next() {
                Some(Kind::CertVerify(c)) if c.is_right(false, leaf.spec.key) => {}
                _ => return false,
            }
        }
        matches!(it.next(), Some(Kind::Finished(f)) if f.is_right()) && it.next().is_none()
    }
    pub fn hello(&self) -> ClientHello {
        let sid = rnd(self.seed ^ 5)[..(self.sid as usize).min(32)].to_vec();
        let mut h = ClientHello::simple(rnd(self.seed), sid, &self.suites, &x25519_pub(&x_secret(self.seed)));
        if let Some(n) = &self.sni {
            h.exts.insert(0, (X_SNI, Hex(tls::sni(n.as_bytes()))));
        }
        h
    }
    pub fn run(&self, keylog: Option<&str>) -> Result<CliRun, Fail> {
        let mut f = Files::default();
        let cfg = server_config(&self.srv, keylog, &mut f).map_err(Fail::Broken)?;
        let wrote: Arc<Mutex<Vec<u8>>> = Default::default();
        let w = wrote.clone();
        let seed = self.seed;
        let (io, job) = against_server(cfg, Some(NOW), move |mut s| {
            let d = Blob { len: 1 + seed as usize % 700, seed, pat: 0 }.get();
            if s.tls_write(&d).is_ok() {
                *w.lock().unwrap() = d;
            }
            read_all(&mut s, &[4096])
        });
        let mut p = Party::new(io, false);
        let hello = self.hello();
        let mut raw = hello.raw();
        match &self.ch {
            ChOp::Raw(b) | ChOp::Own(b) => raw = b.0.clone(),
            ChOp::Type(t) => raw[0] = *t,
            _ => {}
        }
        p.tr.push(raw.clone());
        let mut sent = raw;
        if let ChOp::Flip(b) = self.ch {
            flip(&mut sent, b);
        }
        if let ChOp::With(b) = &self.ch {
            sent.extend_from_slice(b);
        }
        let mut wire = vec![];
        let rec = |t: u8, b: &[u8]| [vec![t, 3, 3], vecn(2, b)].concat();
        if let ChOp::Before(t, b) = &self.ch {
            wire.extend(rec(*t, b));
        }
        let head = Item { hash: false, prot: Some(Prot::Plain), ..Item::new(Kind::Rec(22, Hex(sent))) };
        if let ChOp::Mid(at, t, b) = &self.ch {
            wire.extend(around(p.tr.last().unwrap(), *at, *t, b));
        } else {
            p.plain_handshake(&mut wire, &head, &self.pk);
        }
        if self.ch == ChOp::Twice {
            p.plain_handshake(&mut wire, &head, &self.pk);
        }
        if self.ccs {
            wire.extend([20, 3, 3, 0, 1, 1]);
        }
        if let ChOp::After(t, b) = &self.ch {
            wire.extend(rec(*t, b));
        }
        p.io.send_cut(&wire, &self.pk.seg, self.pk.pause_us);
        // a hello that cannot be answered, or only half of one, must not leave both sides waiting
        if matches!(self.ch, ChOp::Flip(_) | ChOp::Raw(_) | ChOp::Type(_) | ChOp::Before(22, _) | ChOp::After(22, _)) {
            p.io.fin();
        }
        let flight = p.server_flight(&x_secret(self.seed));
        let mut tail = Ok(vec![]);
        if let Ok(Ok(_)) = &flight {
            let items = self.items();
            let mut wire = p.flight(&items, &self.pk);
            for b in &self.data {
                let d = b.get();
                for c in d.chunks(16384) {
                    wire.extend(p.flight(&[Item::new(Kind::App(Hex(c.to_vec())))], &Packing::default()));
                }
            }
            mutate(&mut wire, &self.pk.wire);
            p.io.send_cut(&wire, &self.pk.seg, self.pk.pause_us);
        }
        p.io.fin();
        match &flight {
            Ok(Ok(_)) => tail = p.drain(),
            Ok(Err(e)) => tail = p.drain_after(e.clone()),
            Err(_) => {}
        }
        let lib = job.get()?;
        let flight = flight?;
        let tail = tail?;
        let written = wrote.lock().unwrap().clone();
        Ok(CliRun { lib, party: p, flight, tail, hello, written })
    }
}

// ------------------------------------------------------------------ generators
pub fn packing() -> impl Strategy<Value = Packing> + Clone {
    let sizes = || prop_oneof![Just(vec![]), vec(1u16..=3, 1..3), vec(1u16..=40, 1..4), vec(20u16..=1500, 1..4)];
    (any::<bool>(), prop_oneof![3 => Just(vec![]), 1 => sizes()], prop_oneof![3 => Just(vec![]), 1 => sizes()], prop_oneof![2 => Just(0u64), 1 => Just(150u64)])
        .prop_map(|(coalesce, rec, seg, pause_us)| Packing { coalesce, rec, seg, pause_us, wire: vec![] })
}
pub fn any_prot() -> impl Strategy<Value = Prot> + Clone {
    prop_oneof![Just(Prot::Plain), Just(Prot::Hs), Just(Prot::Ap), Just(Prot::PeerHs), Just(Prot::PeerAp)]
}
pub fn cv_spec() -> impl Strategy<Value = CvSpec> + Clone {
    // one deviation each
    let b = CvSpec::right(true, 1);
    let b2 = b.clone();
    prop_oneof![
        2 => Just(CvSpec { server_ctx: false, ..b.clone() }),
        1 => Just(CvSpec { rs: 7, ..b.clone() }),
        3 => (1u8..=4).prop_map({ let b = b.clone(); move |th| CvSpec { th, ..b.clone() } }),
        3 => (1u8..=4).prop_map({ let b = b.clone(); move |pre| CvSpec { pre, ..b.clone() } }),
        2 => (1u8..=3).prop_map({ let b = b.clone(); move |md| CvSpec { md, ..b.clone() } }),
        3 => any::<u32>().prop_map({ let b = b.clone(); move |f| CvSpec { flip: Some(f & 0xffff), ..b.clone() } }),
        3 => (1u8..=8).prop_map({ let b = b.clone(); move |rs| CvSpec { rs, ..b.clone() } }),
        2 => prop_oneof![Just(0x0503u16), Just(0x0603), Just(0x0804), Just(0x0805), Just(0x0807), Just(0x0401), Just(0x0203), Just(0u16), any::<u16>()].prop_map({ let b = b.clone(); move |scheme| CvSpec { scheme, ..b.clone() } }),
        1 => (1i16..=3).prop_flat_map(|m| prop_oneof![Just(m), Just(-m)]).prop_map({ let b = b.clone(); move |len_off| CvSpec { len_off, ..b.clone() } }),
        1 => vec(any::<u8>(), 1..4).prop_map(move |t| CvSpec { trail: Hex(t), ..b2.clone() }),
    ]
}
pub fn fin_spec() -> impl Strategy<Value = FinSpec> + Clone {
    prop_oneof![
        any::<u16>().prop_map(|f| FinSpec { flip: Some(f as u32), ..Default::default() }),
        (1u8..=5).prop_map(|how| FinSpec { how, ..Default::default() }),
        (-49i16..=17).prop_filter("change", |c| *c != 0).prop_map(|cut| FinSpec { cut, ..Default::default() }),
        (0u32..256, 1u32..32).prop_map(|(a, k)| FinSpec { flip: Some(a), also: Some((a + 8 * k) % 256), ..Default::default() }),
        (1u8..=5).prop_map(|perm| FinSpec { perm, ..Default::default() }),
    ]
}
pub fn stray() -> impl Strategy<Value = Kind> + Clone {
    prop_oneof![
        4 => (prop_oneof![Just(0u8), Just(1), Just(2), Just(3), Just(4), Just(5), Just(8), Just(11), Just(13), Just(15), Just(20), Just(24), Just(254), any::<u8>()], vec(any::<u8>(), 0..40)).prop_map(|(t, b)| Kind::Msg(t, Hex(b))),
        2 => Just(Kind::Msg(24, Hex(vec![0]))),
        2 => Just(Kind::Msg(4, Hex([vec![0, 0, 0x1c, 0x20, 1, 2, 3, 4, 1, 9], vecn(2, &[7; 20]), vec![0, 0]].concat()))),
        2 => Just(Kind::Msg(EE, Hex(vec![0, 0]))),
        2 => Just(Kind::Msg(5, Hex(vec![]))),
        3 => vec(any::<u8>(), 0..40).prop_map(|b| Kind::App(Hex(b))),
        3 => (1u8..=2, prop_oneof![Just(0u8), Just(90), Just(10), Just(20), Just(40), Just(50), Just(80), any::<u8>()]).prop_map(|(l, d)| Kind::Alert(l, d)),
        2 => prop_oneof![Just(vec![]), Just(vec![0u8]), Just(vec![2]), Just(vec![1, 1]), vec(any::<u8>(), 0..5)].prop_filter("not the legal one", |b| b[..] != [1]).prop_map(|b| Kind::Ccs(Hex(b))),
        1 => (prop_oneof![Just(0u8), Just(19), Just(24), Just(255), Just(23), any::<u8>()].prop_filter("", |t| !(20..=22).contains(t)), vec(any::<u8>(), 0..40)).prop_map(|(t, b)| Kind::Rec(t, Hex(b))),
        1 => vec(any::<u8>(), 0..6).prop_filter("alert", |b| b.len() != 2).prop_map(|b| Kind::Rec(21, Hex(b))),
    ]
}
/// What may be inserted somewhere: every type of record and message, with and without content.
pub fn strays() -> Vec<Kind> {
    let h = |b: &[u8]| Hex(b.to_vec());
    let mut v = vec![];
    for t in TYPES {
        v.push(Kind::Msg(t, h(&[])));
        v.push(Kind::Msg(t, h(&[0])));
        v.push(Kind::Msg(t, h(&[0, 0])));
    }
    for n in [0usize, 1, 2, 16, 100] {
        v.push(Kind::App(h(&vec![0; n])));
        v.push(Kind::App(h(&vec![20; n])));
    }
    for (l, d) in [(1u8, 0u8), (2, 0), (1, 90), (2, 90), (1, 10), (2, 40), (0, 0), (1, 255), (1, 100)] {
        v.push(Kind::Alert(l, d));
    }
    for b in [&[][..], &[0], &[2], &[1, 1], &[1, 0]] {
        v.push(Kind::Ccs(h(b)));
    }
    for t in [0u8, 1, 19, 22, 24, 255] {
        v.push(Kind::Rec(t, h(&[])));
        v.push(Kind::Rec(t, h(&[1, 0, 0, 0])));
    }
    v
}
/// The types of handshake messages, and others.
pub const TYPES: [u8; 21] = [0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 13, 14, 15, 16, 20, 21, 22, 24, 25, 254, 255];
/// Operators that break something, or do not.
pub fn op() -> impl Strategy<Value = Op> + Clone {
    let i = || 0u8..8;
    let s = prop_oneof![
        3 => i().prop_map(Op::Drop),
        3 => i().prop_map(Op::Dup),
        3 => (i(), i()).prop_map(|(a, b)| Op::Swap(a, b)),
        5 => (i(), stray(), prop_oneof![3 => Just(None), 2 => any_prot().prop_map(Some)]).prop_map(|(i, k, p)| Op::Insert(i, k, p)),
        2 => i().prop_map(Op::Ccs),
        5 => cv_spec().prop_map(Op::Cv),
        2 => prop_oneof![1u64..6, 300u64..303, Just(9u64), Just(7)].prop_map(Op::CvKey),
        4 => fin_spec().prop_map(Op::Fin),
        3 => (i(), any_prot()).prop_map(|(i, p)| Op::Prot(i, p)),
        2 => i().prop_map(Op::NoHash),
        3 => (i(), any::<u32>()).prop_map(|(i, b)| Op::Flip(i, b)),
    ];
    prop_oneof![
        32 => s,
        3 => (i(), any::<u32>()).prop_map(|(i, b)| Op::Corrupt(i, b)),
        2 => (i(), prop_oneof![Just(-1i8), Just(1), Just(2), any::<i8>()].prop_filter("", |d| *d != 0)).prop_map(|(i, d)| Op::Seq(i, d)),
        2 => (i(), prop_oneof![Just(20u8), Just(21), Just(23), Just(24), Just(0)]).prop_map(|(i, t)| Op::Inner(i, t)),
        2 => (i(), prop_oneof![6 => prop::sample::select(TYPES.to_vec()), 1 => any::<u8>()]).prop_map(|(i, t)| Op::Retype(i, t)),
        2 => (i(), prop_oneof![Just(-1i32), Just(1), Just(2), -70i32..70, Just(0xffff), Just(1 << 24)].prop_filter("", |d| *d != 0)).prop_map(|(i, d)| Op::LenOff(i, d)),
        3 => (i(), bend()).prop_map(|(i, b)| Op::Bend(i, b)),
        1 => (i(), prop_oneof![4 => Just(22u8), 1 => any::<u8>()]).prop_map(|(i, t)| Op::Outer(i, t)),
        2 => (i(), any::<u16>(), prop_oneof![4 => Just((20u8, Hex(vec![1]))), 1 => Just((23, Hex(vec![]))), 1 => Just((23, Hex(vec![7; 9]))), 1 => Just((21, Hex(vec![1, 90]))), 1 => Just((20, Hex(vec![0])))]).prop_map(|(i, at, (t, b))| Op::Mid(i, at, t, b)),
        1 => (i(), any::<u16>()).prop_map(|(i, p)| Op::Pad(i, p)),
        1 => vec(any::<u8>(), 1..40).prop_map(|b| Op::Ctx(Hex(b))),
        1 => any::<u8>().prop_map(Op::Chain),
        1 => Just(Op::NoCert),
        3 => (30u64..32, prop_oneof![Just(7u64), 30u64..32, Just(20)], any::<bool>()).prop_map(|(k, c, s)| Op::Front(k, c, s)),
        2 => any::<u16>().prop_map(Op::Perm),
        3 => i().prop_map(Op::Cut),
    ]
}
pub fn srv_leaf() -> impl Strategy<Value = Leaf> + Clone {
    (1u64..4, prop_oneof![4 => Just(None), 1 => window().prop_map(Some)], any::<bool>(), sizes(), prop_oneof![19 => Just(0u8), 1 => 8..=LEAF_ALGS]).prop_map(|(key, w, sha384, exts, alg)| {
        let mut spec = Spec { sha384, exts, ..Spec::simple("server", key) };
        if let Some((a, b)) = w {
            spec.nb = a;
            spec.na = b;
        }
        Leaf { alg, ..Leaf::of(spec, 9) }
    })
}
/// of opaque extensions: certificates of other sizes
fn sizes() -> impl Strategy<Value = Vec<u32>> + Clone {
    prop_oneof![4 => Just(vec![]), 1 => vec(0u32..1500, 1..3)]
}
pub fn cli_opt() -> impl Strategy<Value = CliOpt> + Clone {
    prop_oneof![
        3 => Just(CliOpt::plain()),
        1 => Just(CliOpt { cert: Some((Leaf::of(Spec::simple("client", 21), 7), 21)), name: None }),
    ]
}
pub fn sh_op() -> impl Strategy<Value = ShOp> + Clone {
    prop_oneof![
        14 => Just(ShOp::Right),
        1 => any::<u32>().prop_map(ShOp::Flip),
        1 => Just(ShOp::OtherKeys),
        1 => Just(ShOp::Missing),
        1 => Just(ShOp::Twice),
        1 => prop_oneof![Just(vec![0; 32]), Just([vec![1], vec![0; 31]].concat()), Just(vec![0xff; 32])].prop_map(|b| ShOp::Share(Hex(b))),
    ]
}
pub fn srv_plan(ops: impl Strategy<Value = Vec<Op>> + Clone) -> impl Strategy<Value = SrvPlan> + Clone {
    let cr = prop_oneof![3 => Just(None), 1 => (hexn(0..40), Just(vec![0x0403u16])).prop_map(Some)];
    (any::<u64>(), 0u8..3, srv_leaf(), cr, sh_op(), ops, packing(), cli_opt()).prop_map(|(seed, suite, leaf, cr, sh, ops, pk, cli)| SrvPlan { seed, suite, leaf, cr, sh, ops, pk, data: vec![], cli })
}
/// A client certificate, mostly one that the authority with key 7 issued.
pub fn cli_leaf() -> impl Strategy<Value = Leaf> + Clone {
    (20u64..23, prop_oneof![4 => Just(7u64), 1 => Just(8), 1 => 20u64..23], prop_oneof![4 => Just(None), 1 => window().prop_map(Some)], any::<bool>(), prop_oneof![9 => Just(None), 1 => (32u32..1200).prop_map(Some), 1 => (0u32..230).prop_map(|f| Some(f | 1 << 31))], prop_oneof![Just("ok client"), Just("bad client")], sizes(), prop_oneof![9 => Just(0u8), 1 => 1..=LEAF_ALGS])
        .prop_map(|(key, ca, w, sha384, flip, cn, exts, alg)| {
            let mut spec = Spec { sha384, exts, ..Spec::simple(cn, key) };
            if let Some((a, b)) = w {
                spec.nb = a;
                spec.na = b;
            }
            Leaf { spec, ca, flip, alg }
        })
}
pub fn ch_op() -> impl Strategy<Value = ChOp> + Clone {
    prop_oneof![
        20 => Just(ChOp::Right),
        2 => any::<u32>().prop_map(ChOp::Flip),
        1 => Just(ChOp::Twice),
        1 => (any::<u8>(), hexn(0..40)).prop_map(|(t, b)| ChOp::Before(t, b)),
        1 => prop_oneof![Just((20u8, Hex(vec![1]))), Just((21, Hex(vec![2, 40]))), Just((21, Hex(vec![1, 0]))), Just((23, Hex(vec![5; 30]))), Just((22, Hex(vec![20, 0, 0, 0])))].prop_map(|(t, b)| ChOp::Before(t, b)),
    ]
}
pub fn cli_plan(auth: bool, ops: impl Strategy<Value = Vec<Op>> + Clone) -> impl Strategy<Value = CliPlan> + Clone {
    let cert = if auth {
        prop_oneof![8 => cli_leaf().prop_map(|l| { let k = l.spec.key; Some((l, k)) }), 1 => (cli_leaf(), 19u64..24).prop_map(Some), 1 => Just(None)].boxed()
    } else {
        prop_oneof![9 => Just(None), 1 => cli_leaf().prop_map(|l| { let k = l.spec.key; Some((l, k)) })].boxed()
    };
    let verify = if auth { prop_oneof![3 => Just(None), 1 => (0u8..3).prop_map(Some), 1 => Just(Some(2u8))].boxed() } else { Just(None).boxed() };
    (any::<u64>(), suites(), prop_oneof![Just(0u8), Just(32), 1u8..32], ch_op(), any::<bool>(), cert, ops, packing(), verify).prop_map(move |(seed, suites, sid, ch, ccs, cert, ops, pk, verify)| {
        let mut srv = SrvOpt::plain(3);
        if auth {
            srv.ca = Some(7);
        }
        srv.verify = verify;
        CliPlan { seed, suites, sid, sni: None, ch, ccs, cert, ops, pk, data: vec![], srv }
    })
}
/// Operators that keep a flight legal.
pub fn legal_op() -> impl Strategy<Value = Op> + Clone {
    prop_oneof![
        3 => (0u8..8).prop_map(Op::Ccs),
        3 => (0u8..8, any::<u16>()).prop_map(|(i, p)| Op::Pad(i, p)),
        1 => any::<u8>().prop_map(Op::Chain),
        1 => Just(Op::Cv(CvSpec { rs: 7, ..CvSpec::right(true, 1) })),
    ]
}
/// A message that is built otherwise.
pub fn bend() -> impl Strategy<Value = Bend> + Clone {
    prop_oneof![
        2 => hexn(1..5).prop_map(Bend::Trail),
        1 => any::<u8>().prop_map(Bend::Short),
        1 => any::<u8>().prop_map(Bend::CtxCut),
        1 => hexn(1..5).prop_map(Bend::CtxMore),
        1 => any::<u32>().prop_map(Bend::CtxFlip),
        2 => (0u8..4, prop_oneof![Just(1i16), Just(-1), -9i16..9, any::<i16>()]).prop_map(|(w, d)| Bend::CertLen(w, d)),
        2 => hexn(1..5).prop_map(Bend::CertJunk),
    ]
}
pub fn bends() -> Vec<Bend> {
    let h = |b: &[u8]| Hex(b.to_vec());
    let mut v = vec![Bend::Trail(h(&[0])), Bend::Trail(h(&[0, 0])), Bend::Trail(h(&[1])), Bend::Trail(h(&[0; 5])), Bend::CtxMore(h(&[0])), Bend::CtxMore(h(&[7, 7, 7])), Bend::CtxFlip(0), Bend::CtxFlip(255), Bend::CtxFlip(77)];
    v.extend((0..8).map(Bend::Short));
    v.extend([0, 1, 15, 30, 31].map(Bend::CtxCut));
    for w in 0..4 {
        v.extend([1i16, -1, 2, -2, 3, -3, 5, -5, 256, -256].map(|d| Bend::CertLen(w, d)));
    }
    for b in [&[0][..], &[0, 0], &[0, 0, 0], &[0, 0, 0, 0], &[0, 0, 1], &[0, 0, 1, 0x30, 0], &[0, 0, 1, 0x30, 0, 1], &[0xff; 6]] {
        v.push(Bend::CertJunk(h(b)));
    }
    v
}
/// One thing wrong about Certificate or CertificateVerify.
pub fn cert_faults() -> Vec<Op> {
    let b = CvSpec::right(true, 1);
    let mut v = vec![Op::NoCert, Op::CvKey(77), Op::Front(30, 30, false), Op::Front(30, 30, true), Op::Ctx(Hex(vec![1])), Op::Cut(0)];
    v.push(Op::Cv(CvSpec { server_ctx: false, ..b.clone() }));
    for i in 1..=4 {
        v.push(Op::Cv(CvSpec { th: i, ..b.clone() }));
    }
    v.push(Op::Cv(CvSpec { pre: 3, ..b.clone() }));
    v.push(Op::Cv(CvSpec { md: 1, ..b.clone() }));
    for rs in [1u8, 2, 3, 4, 5, 6, 8] {
        v.push(Op::Cv(CvSpec { rs, ..b.clone() }));
    }
    v.push(Op::Cv(CvSpec { flip: Some(8), ..b.clone() }));
    v.push(Op::Cv(CvSpec { flip: Some(300), ..b.clone() }));
    for s in [0x0503u16, 0x0804, 0x0203, 0, 0xffff] {
        v.push(Op::Cv(CvSpec { scheme: s, ..b.clone() }));
    }
    for l in [-1i16, 1, -2, -70] {
        v.push(Op::Cv(CvSpec { len_off: l, ..b.clone() }));
    }
    v.push(Op::Cv(CvSpec { trail: Hex(vec![0]), ..b.clone() }));
    for x in [Bend::Trail(Hex(vec![0])), Bend::Short(0), Bend::CtxCut(31), Bend::CtxFlip(3), Bend::CertLen(1, 1), Bend::CertLen(2, -1), Bend::CertJunk(Hex(vec![0]))] {
        v.push(Op::Bend(200, x));
    }
    for t in [0u8, 8, 11, 13, 15, 24] {
        v.push(Op::Retype(200, t));
        v.push(Op::Retype(201, t));
    }
    v
}
/// A flight with something wrong in it that goes on afterwards, with or without the right messages
/// once more; its Finished covers what its sender chose to count.
pub fn recoveries(base: &[Item], faults: &[Op], server: bool) -> Vec<Vec<Op>> {
    let at = |items: &[Item], cv: bool| items.iter().filter(|i| !matches!(i.kind, Kind::Ccs(_))).position(|i| if cv { matches!(i.kind, Kind::CertVerify(_)) } else { matches!(i.kind, Kind::Cert { .. }) });
    let good: Vec<Kind> = base.iter().filter(|i| matches!(i.kind, Kind::Cert { .. } | Kind::CertVerify(_))).map(|i| i.kind.clone()).collect();
    let mut v = vec![];
    for f in faults {
        let f = match f {
            Op::Bend(200, b) => Op::Bend(at(base, false).unwrap_or(0) as u8, b.clone()),
            Op::Retype(200, t) => Op::Retype(at(base, false).unwrap_or(0) as u8, *t),
            Op::Retype(201, t) => Op::Retype(at(base, true).unwrap_or(0) as u8, *t),
            // everything from the Certificate on is missing
            Op::Cut(0) => Op::Cut(at(base, false).unwrap_or(0) as u8),
            f => f.clone(),
        };
        for more in 0..4usize {
            let mut ops = vec![f.clone()];
            if matches!(f, Op::Cut(_)) {
                let n = apply(base.to_vec(), &ops, server).len() as u8;
                ops.push(Op::Insert(n, Kind::Finished(FinSpec::default()), None));
            }
            for (k, g) in good.iter().enumerate() {
                if more >> k & 1 == 1 {
                    let n = apply(base.to_vec(), &ops, server).len() as u8;
                    ops.push(Op::Insert(n - 1, g.clone(), None));
                }
            }
            let items = apply(base.to_vec(), &ops, server);
            let n = items.len().saturating_sub(1);
            let first = if more == 0 { 0 } else { at(&items, false).unwrap_or(0) };
            for mask in 0..1usize << (n - first.min(n)) {
                let mut ops = ops.clone();
                ops.extend((0..n - first.min(n)).filter(|i| mask >> i & 1 == 1).map(|i| Op::NoHash((first + i) as u8)));
                v.push(ops);
            }
        }
    }
    v
}
/// What is sent in vain, counted by neither side: every stray thing at every place.
pub fn unhashed(places: u8) -> Vec<Vec<Op>> {
    let mut v = vec![];
    for k in strays() {
        if matches!(k, Kind::Msg(..)) {
            for at in 0..places {
                v.push(vec![Op::Insert(at, k.clone(), None), Op::NoHash(at)]);
            }
        }
    }
    v
}
/// Things that concern one message (n: how many there are), or two.
pub fn oddities(n: u8) -> Vec<Vec<Op>> {
    let mut v = vec![];
    for i in 0..n {
        v.extend(bends().into_iter().map(|b| vec![Op::Bend(i, b)]));
        v.extend([20u8, 21, 22, 24, 0].map(|t| vec![Op::Outer(i, t)]));
        for (t, b) in [(20u8, vec![1]), (20, vec![0]), (23, vec![]), (23, vec![0; 5]), (21, vec![1, 90])] {
            for at in [0u16, 1, 2, 3, 9, 30] {
                v.push(vec![Op::Mid(i, at, t, Hex(b.clone()))]);
            }
        }
        v.extend([1u8, 4].map(|k| vec![Op::Skip(i, k)]));
    }
    v
}
/// Contents of EncryptedExtensions and CertificateRequest, most of them malformed.
pub fn bodies() -> Vec<Vec<Op>> {
    let ee = exts(&[(0, Hex(vec![])), (10, Hex(vec![0, 4, 0, 29, 0, 23])), (0x4a4a, Hex(vec![7]))]);
    let twice = exts(&[(0x4a4a, Hex(vec![])), (10, Hex(vec![0, 2, 0, 29])), (0x4a4a, Hex(vec![1]))]);
    let cr = cr_body(&[5; 4], &[0x0403, 0x0804]);
    let cr2 = [vec![0], exts(&[(13, Hex(vecn(2, &u16s(&[0x0403])))), (13, Hex(vecn(2, &u16s(&[0x0403]))))])].concat();
    let mut v = vec![];
    for (t, b) in [(EE, vec![0, 0]), (EE, ee), (EE, twice), (CR, cr), (CR, cr2)] {
        v.push((t, b.clone()));
        for n in 0..b.len() {
            v.push((t, b[..n].to_vec()));
            for d in [1u8, 2, 3, 0x7f, 0xfe, 0xff] {
                let mut c = b.clone();
                c[n] = c[n].wrapping_add(d);
                v.push((t, c));
            }
        }
        for x in [&[0u8][..], &[0, 0], &[0, 1, 0, 0], &[0; 7]] {
            v.push((t, [&b[..], x].concat()));
        }
    }
    v.into_iter().map(|(t, b)| vec![Op::Body(t, Hex(b))]).collect()
}
/// Finished values that are not the right one and share something with it.
pub fn fins(n: u32) -> Vec<FinSpec> {
    let mut v: Vec<FinSpec> = (1..=5).map(|perm| FinSpec { perm, ..Default::default() }).collect();
    for i in 0..n {
        for b in [0u32, 7] {
            for j in [(i + 1) % n, 0, n - 1] {
                if i != j {
                    v.push(FinSpec { flip: Some(8 * i + b), also: Some(8 * j + b), ..Default::default() });
                }
            }
        }
    }
    v.extend((1..=16).map(|c| FinSpec { cut: c, ..Default::default() }));
    v.extend((1..=n as i16).map(|c| FinSpec { cut: -c, ..Default::default() }));
    v
}
/// A certificate whose window is around, before or after NOW.
pub fn window() -> impl Strategy<Value = (Civil, Civil)> + Clone {
    let off = || prop_oneof![1 => Just(0i64), 2 => 1i64..3, 4 => 1i64..100_000_000];
    prop_oneof![
        6 => (off(), off()).prop_map(|(a, b)| (NOW - a, NOW + b)),
        1 => (1i64..3, off()).prop_map(|(a, b)| (NOW + a, NOW + a + b)),
        1 => (off(), 1i64..3).prop_map(|(a, b)| (NOW - b - a, NOW - b)),
        1 => (off(), off()).prop_map(|(a, b)| (NOW + 1 + a, NOW + 1 + a + b)),
        1 => (off(), off()).prop_map(|(a, b)| (NOW - 1 - a - b, NOW - 1 - a)),
        1 => (off(), off()).prop_map(|(a, b)| (NOW + 1 + b, NOW - 1 - a)),
    ]
    .prop_map(|(a, b)| (Civil::from_unix(a), Civil::from_unix(b)))
}
pub fn suites() -> impl Strategy<Value = Vec<u16>> + Clone {
    prop_oneof![
        Just(vec![0x1301u16]),
        Just(vec![0x1302]),
        Just(vec![0x1303]),
        Just(vec![0x1302, 0x1303, 0x1301]),
        Just(vec![0x1301, 0x1302]),
        Just(vec![0x1302, 0x1301, 0x00ff]),
        Just(vec![0x1304, 0x0a0a, 0x1302]),
    ]
}
