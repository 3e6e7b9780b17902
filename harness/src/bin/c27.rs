//! C27: a relay between the library's client and the library's server that tampers with the handshake.
use anothertls::net::alert::TlsError;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vharness::cert::Spec;
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::{self, *};
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum What {
    Nothing,
    /// bit of the payload
    Flip(u32),
    /// bit of the header
    Head(u8),
    Bytes(Vec<Mut>),
    Drop,
    /// drop this many from here on
    DropMany(u8),
    Dup(u8),
    /// hold until this many others of the direction have passed
    Later(u8),
    /// this many bytes of it, then the end of the connection
    Cut(u16),
    /// back to its sender, too, or instead
    Reflect(bool),
    /// before it
    Insert(u8, Hex),
    /// in its place what stood there in an earlier session
    Old,
    /// that before it
    OldToo,
    /// an earlier record of this session and direction again, after it
    Again(u8),
    /// payload in two records
    Split(u16),
    /// the version in the header
    Version(u16),
    Hello(Edit),
    /// all records from here on are of an earlier session
    OldTail,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Edit {
    Random(u8),
    Sid(Hex),
    DropSuite(u8),
    OnlySuite(u8),
    AddSuite(u16),
    RevSuites,
    Suite(u16),
    DropExt(u8),
    AddExt(u16, Hex),
    SwapExts(u8, u8),
    ExtBit(u8, u16),
    /// the attacker's own key share
    Share(u64),
    Version(u16),
    Comp(Hex),
    Sni(Hex),
    Body(Vec<Mut>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Act {
    /// from the client
    up: bool,
    /// number of the record in its direction
    rec: u8,
    what: What,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    auth: bool,
    name: bool,
    /// size of certificate extensions
    big: u16,
    /// written by the client and by the server
    data: (Blob, Blob),
    /// sizes the relay forwards in; empty: as it comes
    cuts: Vec<u16>,
    acts: Vec<Act>,
}
type Recs = Vec<Vec<u8>>;
struct Side {
    /// towards this endpoint
    out: TcpStream,
    /// what was sent to it
    fwd: Vec<u8>,
}
struct Relay {
    acts: Vec<Act>,
    old: [Recs; 2],
    cuts: Vec<u16>,
    /// towards the server, towards the client
    to: [Mutex<Side>; 2],
    applied: AtomicBool,
    /// of the last record, in ms after t0
    last: AtomicU64,
    over: AtomicBool,
    t0: Instant,
}
fn hello_edit(rec: &[u8], e: &Edit) -> Option<Vec<u8>> {
    let (typ, body) = split_msg(rec.get(5..)?).ok()?;
    let mut body = body.to_vec();
    let exts = |l: &mut Vec<(u16, Hex)>, client: bool| {
        let n = l.len().max(1);
        match e {
            Edit::DropExt(i) if !l.is_empty() => {
                l.remove(*i as usize % n);
            }
            Edit::AddExt(t, b) => l.push((*t, b.clone())),
            Edit::SwapExts(a, b) => l.swap(*a as usize % n, *b as usize % n),
            Edit::ExtBit(i, b) if !l.is_empty() => {
                let x = &mut l[*i as usize % n].1 .0;
                if !x.is_empty() {
                    let k = *b as usize % (x.len() * 8);
                    x[k / 8] ^= 1 << (k % 8);
                }
            }
            Edit::Share(s) => {
                for x in l.iter_mut().filter(|x| x.0 == 51) {
                    let k = x25519_pub(&x_secret(*s));
                    x.1 = Hex(if client { tls::shares(&[(0x1d, k)]) } else { share_entry(0x1d, &k) });
                }
            }
            Edit::Sni(n) => {
                l.retain(|x| x.0 != 0);
                l.push((0, Hex(tls::sni(n))));
            }
            _ => {}
        }
    };
    if let Edit::Body(m) = e {
        mutate(&mut body, m);
    } else if typ == 1 {
        let mut h = ClientHello::parse(&body).ok()?;
        let n = h.suites.len().max(1);
        match e {
            Edit::Random(b) => h.random.0[*b as usize / 8 % 32] ^= 1 << (b % 8),
            Edit::Sid(s) => h.sid = s.clone(),
            Edit::DropSuite(i) => {
                h.suites.remove(*i as usize % n);
            }
            Edit::OnlySuite(i) => h.suites = vec![h.suites[*i as usize % n]],
            Edit::AddSuite(s) => h.suites.push(*s),
            Edit::RevSuites => h.suites.reverse(),
            Edit::Version(v) => h.version = *v,
            Edit::Comp(c) => h.comp = c.clone(),
            _ => exts(&mut h.exts, true),
        }
        body = h.body();
    } else if typ == 2 {
        let mut h = ServerHello::parse(&body).ok()?;
        match e {
            Edit::Random(b) => h.random.0[*b as usize / 8 % 32] ^= 1 << (b % 8),
            Edit::Sid(s) => h.sid = s.clone(),
            Edit::Suite(s) | Edit::AddSuite(s) => h.suite = *s,
            Edit::DropSuite(i) | Edit::OnlySuite(i) => h.suite = SUITES[*i as usize % 3].0,
            Edit::Version(v) => h.version = *v,
            Edit::Comp(c) => h.comp = c.first().copied().unwrap_or(1),
            _ => exts(&mut h.exts, false),
        }
        body = h.body();
    } else {
        return None;
    }
    let m = msg(typ, &body);
    Some([&rec[..3], &be(2, m.len()), &m].concat())
}
impl Relay {
    fn put(&self, up: bool, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let mut s = self.to[!up as usize].lock().unwrap();
        let (mut rest, mut i) = (b, 0);
        while !rest.is_empty() {
            let mut k = rest.len();
            if !self.cuts.is_empty() {
                k = k.min(self.cuts[i % self.cuts.len()].max(1) as usize);
                i += 1;
            }
            // what can no longer be written was not sent
            if s.out.write_all(&rest[..k]).is_err() {
                return;
            }
            s.fwd.extend_from_slice(&rest[..k]);
            rest = &rest[k..];
        }
    }
    fn touch(&self) {
        self.last.store(self.t0.elapsed().as_millis() as u64, SeqCst);
    }
    fn close(&self) {
        self.over.store(true, SeqCst);
        for s in &self.to {
            let _ = s.lock().unwrap().out.shutdown(Shutdown::Both);
        }
    }
    fn run(&self, mut from: TcpStream, up: bool) -> Recs {
        let _ = from.set_read_timeout(Some(Duration::from_millis(15)));
        let mut buf = vec![];
        let mut recs: Recs = vec![];
        let mut held: Vec<(usize, Vec<u8>)> = vec![];
        let mut b = vec![0u8; 32768];
        loop {
            if self.over.load(SeqCst) {
                break;
            }
            match from.read(&mut b) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&b[..n]),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    let idle = (self.t0.elapsed().as_millis() as u64).saturating_sub(self.last.load(SeqCst));
                    // somebody waits for what will not come; an untampered session gets all the time it wants
                    if idle > if self.applied.load(SeqCst) { 70 } else { 60_000 } {
                        self.close();
                        break;
                    }
                    continue;
                }
                Err(_) => break,
            }
            self.touch();
            while buf.len() >= 5 {
                let n = 5 + u16::from_be_bytes([buf[3], buf[4]]) as usize;
                if buf.len() < n {
                    break;
                }
                let rec: Vec<u8> = buf.drain(..n).collect();
                let i = recs.len();
                recs.push(rec.clone());
                if self.handle(rec, i, up, &recs, &mut held) {
                    self.close();
                    return recs;
                }
                // what was held for long enough
                for h in &mut held {
                    h.0 = h.0.saturating_sub(1);
                }
                let (go, stay) = held.into_iter().partition(|h: &(usize, Vec<u8>)| h.0 == 0);
                held = stay;
                let go: Vec<(usize, Vec<u8>)> = go;
                for h in go {
                    self.put(up, &h.1);
                }
            }
        }
        self.put(up, &buf);
        if !buf.is_empty() {
            recs.push(buf);
        }
        for h in held {
            self.put(up, &h.1);
        }
        let s = self.to[!up as usize].lock().unwrap();
        let _ = s.out.shutdown(Shutdown::Write);
        recs
    }
    /// true: end of the connection
    fn handle(&self, rec: Vec<u8>, i: usize, up: bool, recs: &Recs, held: &mut Vec<(usize, Vec<u8>)>) -> bool {
        let old = &self.old[!up as usize];
        let mut cur = Some(rec.clone());
        let (mut before, mut after): (Recs, Recs) = (vec![], vec![]);
        let mut hold = 0;
        for a in self.acts.iter().filter(|a| a.up == up) {
            match &a.what {
                What::DropMany(k) if (a.rec as usize..a.rec as usize + *k as usize).contains(&i) => {
                    self.applied.store(true, SeqCst);
                    cur = None;
                    continue;
                }
                What::OldTail if i >= a.rec as usize => {
                    self.applied.store(true, SeqCst);
                    cur = old.get(i).cloned();
                    continue;
                }
                _ => {}
            }
            if a.rec as usize != i {
                continue;
            }
            if a.what != What::Nothing {
                self.applied.store(true, SeqCst);
            }
            let Some(c) = &mut cur else { continue };
            match &a.what {
                What::Nothing | What::DropMany(_) | What::OldTail => {}
                What::Flip(f) => {
                    if c.len() > 5 {
                        let k = *f as usize % ((c.len() - 5) * 8);
                        c[5 + k / 8] ^= 1 << (k % 8);
                    }
                }
                What::Head(f) => c[*f as usize / 8 % 5] ^= 1 << (f % 8),
                What::Bytes(m) => mutate(c, m),
                What::Drop => cur = None,
                What::Dup(k) => {
                    for _ in 0..*k % 3 + 1 {
                        after.push(c.clone());
                    }
                }
                What::Later(k) => hold = *k as usize % 4 + 2,
                What::Cut(k) => {
                    let k = *k as usize % c.len().max(1);
                    let part = c[..k].to_vec();
                    for b in before {
                        self.put(up, &b);
                    }
                    self.put(up, &part);
                    return true;
                }
                What::Reflect(also) => {
                    self.put(!up, c);
                    if !also {
                        cur = None;
                    }
                }
                What::Insert(t, h) => before.push([&[*t, 3, 3][..], &be(2, h.len()), h].concat()),
                What::Old => cur = old.get(i).cloned(),
                What::OldToo => before.extend(old.get(i).cloned()),
                What::Again(k) => after.push(recs[*k as usize % recs.len()].clone()),
                What::Split(k) => {
                    if c.len() > 6 {
                        let k = 1 + *k as usize % (c.len() - 6);
                        let (a, b) = c[5..].split_at(k);
                        let r = |x: &[u8]| [&c[..3], &be(2, x.len()), x].concat();
                        let two = [r(a), r(b)].concat();
                        *c = two;
                    }
                }
                What::Version(v) => c[1..3].copy_from_slice(&v.to_be_bytes()),
                What::Hello(e) => {
                    if let Some(n) = hello_edit(c, e) {
                        *c = n;
                    }
                }
            }
        }
        let mut all: Recs = before;
        let held_one = hold > 0;
        if let Some(c) = cur {
            if held_one {
                held.push((hold, c));
            } else {
                all.push(c);
            }
        }
        all.extend(after);
        for b in &all {
            self.put(up, b);
        }
        false
    }
}
/// What matters of a direction: everything but well-formed compatibility records, and but the
/// cut and the version of unprotected handshake records.
fn canon(b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut v: Vec<(u8, Vec<u8>)> = vec![];
    let mut at = 0;
    while at < b.len() {
        let n = if b.len() - at >= 5 { 5 + u16::from_be_bytes([b[at + 3], b[at + 4]]) as usize } else { usize::MAX };
        if b.len() - at < n {
            v.push((0, b[at..].to_vec()));
            break;
        }
        let r = &b[at..at + n];
        at += n;
        match r[0] {
            20 if r[5..] == [1] => {}
            22 => match v.last_mut() {
                Some((22, p)) => p.extend_from_slice(&r[5..]),
                _ => v.push((22, r[5..].to_vec())),
            },
            // an alert in the clear, added: who is to know?
            _ => v.push((1, r.to_vec())),
        }
    }
    v
}
type End = Result<(Vec<u8>, TlsError), TlsError>;
struct Outcome {
    cli: End,
    srv: End,
    orig: [Recs; 2],
    fwd: [Vec<u8>; 2],
    applied: bool,
    /// what each one got to write
    wrote: [Vec<u8>; 2],
}
fn go(c: &Case, acts: &[Act], old: [Recs; 2]) -> Result<Outcome, Fail> {
    let mut f = Files::default();
    let mut so = SrvOpt::plain(3);
    so.leaf.spec.exts = if c.big > 0 { vec![c.big as u32] } else { vec![] };
    let mut co = CliOpt::plain();
    if c.auth {
        so.ca = Some(7);
        let s = Spec { exts: so.leaf.spec.exts.clone(), ..Spec::simple("ok", 20) };
        co.cert = Some((Leaf::of(s, 7), 20));
    }
    if c.name {
        so.name = Some("relay.test".into());
        co.name = so.name.clone();
    }
    let scfg = server_config(&so, None, &mut f).map_err(Fail::Broken)?;
    let ccfg = client_config(&co, None, &mut f).map_err(Fail::Broken)?;
    let wrote: Arc<[Mutex<Vec<u8>>; 2]> = Default::default();
    let (cd, sd) = (c.data.0.get(), c.data.1.get());
    let (l, a) = listener();
    let w = wrote.clone();
    let srv = serve(scfg, l, Some(NOW), move |mut t| {
        if !sd.is_empty() {
            *w[1].lock().unwrap() = sd.clone();
            let _ = t.tls_write(&sd);
        }
        read_all(&mut t, &[5000])
    });
    let (rl, ra) = listener();
    let cs = tcp(ra);
    let clone = cs.try_clone()?;
    let (from_client, _) = rl.accept()?;
    let w = wrote.clone();
    let cli = dial(ccfg, cs, Some(NOW), move |mut t| {
        if !cd.is_empty() {
            *w[0].lock().unwrap() = cd.clone();
            let _ = t.tls_write(&cd);
        }
        let _ = clone.shutdown(Shutdown::Write);
        read_all(&mut t, &[5000])
    });
    let from_server = tcp(a);
    for s in [&from_client, &from_server] {
        let _ = s.set_nodelay(true);
        let _ = s.set_write_timeout(Some(Duration::from_secs(5)));
    }
    let r = Arc::new(Relay {
        acts: acts.to_vec(),
        old,
        cuts: c.cuts.clone(),
        to: [Mutex::new(Side { out: from_server.try_clone()?, fwd: vec![] }), Mutex::new(Side { out: from_client.try_clone()?, fwd: vec![] })],
        applied: AtomicBool::new(false),
        last: AtomicU64::new(0),
        over: AtomicBool::new(false),
        t0: Instant::now(),
    });
    let r2 = r.clone();
    let up = std::thread::spawn(move || r2.run(from_client, true));
    let down = r.run(from_server, false);
    let up = up.join().map_err(|_| Fail::Broken("relay".into()))?;
    // the endpoints' sockets see the end now
    let fwd = [0, 1].map(|i| r.to[i].lock().unwrap().fwd.clone());
    let applied = r.applied.load(SeqCst);
    r.close();
    let (cli, srv) = (cli.get()?, srv.get()?);
    let wrote = [0, 1].map(|i| wrote[i].lock().unwrap().clone());
    Ok(Outcome { cli, srv, orig: [up, down], fwd, applied, wrote })
}
fn clean(e: &End, want: &[u8]) -> bool {
    matches!(e, Ok((d, TlsError::BrokenPipe)) if d == want)
}
fn text(e: &End) -> String {
    match e {
        Ok((d, e)) => format!("a session ({} bytes read, then {e:?})", d.len()),
        Err(e) => format!("failure {e:?}"),
    }
}
fn case(c: &Case) -> Res {
    let uses_old = c.acts.iter().any(|a| matches!(a.what, What::Old | What::OldToo | What::OldTail));
    let old = if uses_old { go(c, &[], Default::default())?.orig } else { Default::default() };
    let o = go(c, &c.acts, old)?;
    let whole = clean(&o.cli, &c.data.1.get()) && clean(&o.srv, &c.data.0.get());
    for (who, end, sent) in [("client", &o.cli, &o.wrote[1]), ("server", &o.srv, &o.wrote[0])] {
        if let Ok((d, _)) = end {
            ensure!(sent.starts_with(d), "the {who} delivers {} bytes that its peer did not send ({} bytes were)", d.len(), sent.len());
        }
    }
    let changed: Vec<bool> = (0..2).map(|i| canon(&o.orig[i].concat()) != canon(&o.fwd[i])).collect();
    if !o.applied {
        ensure!(whole, "an untampered relay: client: {}, server: {}", text(&o.cli), text(&o.srv));
        return Ok(nt(false).tag("untouched"));
    }
    // alerts in the clear, put in before the keys are there, are outside the claim
    let alerts = c.acts.iter().any(|a| matches!(a.what, What::Insert(21, _)));
    if changed[0] || changed[1] {
        ensure!(alerts || !whole, "both ends are content although the way {} was tampered with", if changed[0] { "to the server" } else { "to the client" });
        return Ok(hit().tag("changed").tag_if(o.cli.is_ok(), "client connected").tag_if(o.srv.is_ok(), "server accepted").tag_if(c.auth, "client certificate"));
    }
    Ok(nt(false).tag("neutral").tag_if(whole, "neutral and complete"))
}
/// one bit in every byte both sides send, one after another
fn whats() -> impl Strategy<Value = What> + Clone {
    let edit = prop_oneof![
        2 => any::<u8>().prop_map(Edit::Random),
        1 => hexn(0..33).prop_map(Edit::Sid),
        2 => any::<u8>().prop_map(Edit::DropSuite),
        2 => any::<u8>().prop_map(Edit::OnlySuite),
        1 => prop_oneof![Just(0x1301u16), Just(0x1302), Just(0x1303), Just(0x00ff), Just(0x5600), any::<u16>()].prop_map(Edit::AddSuite),
        1 => Just(Edit::RevSuites),
        1 => prop_oneof![Just(0x1301u16), Just(0x1302), any::<u16>()].prop_map(Edit::Suite),
        2 => any::<u8>().prop_map(Edit::DropExt),
        2 => (prop_oneof![0u16..60, any::<u16>()], hexn(0..20)).prop_map(|(a, b)| Edit::AddExt(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Edit::SwapExts(a, b)),
        2 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Edit::ExtBit(a, b)),
        2 => (0u64..4).prop_map(Edit::Share),
        1 => any::<u16>().prop_map(Edit::Version),
        1 => hexn(0..4).prop_map(Edit::Comp),
        1 => prop_oneof![Just(Hex(b"relay.test".to_vec())), Just(Hex(b"x".to_vec()))].prop_map(Edit::Sni),
        1 => vec(mutation(), 1..3).prop_map(Edit::Body),
    ];
    prop_oneof![
        5 => any::<u32>().prop_map(What::Flip),
        2 => (0u8..40).prop_map(What::Head),
        2 => vec(mutation(), 1..3).prop_map(What::Bytes),
        2 => Just(What::Drop),
        1 => (1u8..5).prop_map(What::DropMany),
        2 => any::<u8>().prop_map(What::Dup),
        3 => any::<u8>().prop_map(What::Later),
        2 => any::<u16>().prop_map(What::Cut),
        2 => any::<bool>().prop_map(What::Reflect),
        2 => (prop_oneof![Just(20u8), Just(22), Just(23), Just(21), Just(24), Just(0), any::<u8>()], prop_oneof![Just(Hex(vec![1])), hexn(0..30)]).prop_map(|(a, b)| What::Insert(a, b)),
        2 => Just(What::Old),
        1 => Just(What::OldToo),
        1 => Just(What::OldTail),
        2 => any::<u8>().prop_map(What::Again),
        1 => any::<u16>().prop_map(What::Split),
        1 => any::<u16>().prop_map(What::Version),
        6 => edit.prop_map(What::Hello),
    ]
}
fn cfg() -> impl Strategy<Value = Case> + Clone {
    let d = || blob(prop_oneof![1 => Just(0usize), 4 => 1usize..400, 1 => 1usize..40_000]);
    (any::<bool>(), any::<bool>(), prop_oneof![3 => Just(0u16), 1 => 1u16..3000, 1 => 16_000u16..30_000], d(), d(), prop_oneof![3 => Just(vec![]), 1 => vec(1u16..200, 1..4)]).prop_map(|(auth, name, big, a, b, cuts)| Case { auth, name, big, data: (a, b), cuts, acts: vec![] })
}
fn plain(auth: bool) -> Case {
    let b = |len| Blob { len, seed: 9, pat: 0 };
    Case { auth, name: true, big: 0, data: (b(30), b(40)), cuts: vec![], acts: vec![] }
}
fn main() {
    run::main("C27", "sessions between the library's client and server through a relay that alters, drops, repeats, holds back, reflects, inserts, splits or truncates any record of the handshake, replaces it by one of an earlier session, or rewrites the hellos field by field with correct lengths; one bit in every byte of every handshake record, every record dropped, doubled, held, reflected, cut (enumerated). Non-trivial: what arrived differs from what was sent in more than compatibility records and the cut of clear handshake records", |c| {
        c.assume("well-formed compatibility records, the fragmentation and legacy version of unprotected handshake records, and added alerts in the clear are no handshake content; between two endpoints of this library the suite is ChaCha20-Poly1305");
        c.shrink_iters = 60;
        let mut all = vec![];
        for auth in [false, true] {
            // records of a session without disturbance tell what there is to disturb
            let base = go(&plain(auth), &[], Default::default()).map(|o| o.orig).unwrap_or_default();
            for (d, recs) in base.iter().enumerate() {
                for (i, r) in recs.iter().enumerate() {
                    let mut a = |what| {
                        let mut p = plain(auth);
                        p.acts = vec![Act { up: d == 0, rec: i as u8, what }];
                        all.push(p);
                    };
                    let step = if c.tier == Tier::Thorough { 1 } else { (r.len() / 40).max(1) };
                    for k in (0..(r.len() - 5) as u32).step_by(step) {
                        a(What::Flip(k * 8 + k % 8));
                    }
                    for k in 0..40 {
                        a(What::Head(k));
                    }
                    for what in [What::Drop, What::Dup(0), What::Dup(2), What::Later(0), What::Later(1), What::Reflect(false), What::Reflect(true), What::Old, What::OldToo, What::OldTail, What::Split(0), What::Split(7), What::DropMany(2), What::DropMany(9), What::Insert(20, Hex(vec![1])), What::Insert(20, Hex(vec![2])), What::Insert(20, Hex(vec![1, 1])), What::Insert(20, Hex(vec![1, 0])), What::Insert(20, Hex(vec![])), What::Insert(20, Hex(vec![0])), What::Insert(20, Hex(vec![1; 40])), What::Insert(23, Hex(vec![0; 30])), What::Insert(22, Hex(vec![20, 0, 0, 0])), What::Insert(0, Hex(vec![1])), What::Insert(0, Hex(vec![0; 20])), What::Insert(19, Hex(vec![1])), What::Insert(24, Hex(vec![1, 0, 1, 7])), What::Insert(255, Hex(vec![1])), What::Again(0), What::Again(1)] {
                        a(what);
                    }
                    for k in [0, 1, 4, 5, 6, r.len() as u16 / 2, r.len() as u16 - 1] {
                        a(What::Cut(k));
                    }
                }
            }
        }
        c.list("each_record", all, case);
        c.sub("quiet", 400, cfg, case);
        c.sub("hellos", 3_000, || (cfg(), any::<bool>(), whats(), whats()).prop_map(|(mut c, up, a, b)| {
            // one on the one hello, half of the time one on the other as well
            c.acts = vec![Act { up, rec: 0, what: a }];
            if matches!(b, What::Hello(_)) {
                c.acts.push(Act { up: !up, rec: 0, what: b });
            }
            c
        }), case);
        c.sub("any", 4_500, || (cfg(), vec((any::<bool>(), 0u8..9, whats()).prop_map(|(up, rec, what)| Act { up, rec, what }), 1..4)).prop_map(|(mut c, acts)| { c.acts = acts; c }), case);
    })
}
