//! C31: every session goes as it would go alone.
use anothertls::net::alert::TlsError;
use anothertls::net::client::ClientConnection;
use anothertls::net::server::ServerConnection;
use anothertls::net::TlsStream;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use vharness::cert::Spec;
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::{x25519, x25519_pub, SUITES};
use vharness::run::*;
use vharness::tls::{self, *};
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum How {
    Right,
    Fin(FinSpec),
    Cv(CvSpec),
    /// no certificate, where one is asked for
    NoCert,
    /// the certificate is signed by the other authority, or not at all
    Forged(bool),
    /// what session number n sent there: the whole flight, its CertificateVerify, its Finished,
    /// its certificate and CertificateVerify
    Replay(u8, u8),
    /// no more from step n on
    Stop(u8),
    /// the library's side is dropped with so many bytes unread
    Leave(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    how: How,
    suite: u8,
    /// randoms, key share
    seed: u64,
    cert: u8,
    data: Vec<Blob>,
    /// which of the endpoints or configurations
    to: u8,
    /// asks for no name, the endpoint's, or that of another
    #[serde(default)]
    name: u8,
}
/// the endpoints of `servers`
const ENDS: usize = 4;
const NAMES: [Option<&str>; ENDS] = [Some("one.name"), None, Some("other.name"), Some("other.name.too")];
impl One {
    fn end(&self) -> usize {
        self.to as usize % ENDS
    }
    /// what it calls itself: one of the endpoints admits only "ok"
    fn cn(&self) -> &'static str {
        ["ok", "no"][self.cert as usize / 8 % 2]
    }
    fn asks(&self) -> Option<&'static str> {
        match self.name % 3 {
            0 => None,
            1 => NAMES[self.end()],
            _ => NAMES[(self.end() + 1 + self.name as usize / 3) % ENDS],
        }
    }
    fn name_is_right(&self) -> bool {
        self.asks().is_none() || NAMES[self.end()].is_none() || self.asks() == NAMES[self.end()]
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// client certificates
    auth: bool,
    all: Vec<One>,
    /// who is next
    sched: Vec<u8>,
    /// one after the other
    alone: bool,
}
/// (data read, its end)
type Out = Result<(Vec<u8>, TlsError), TlsError>;
const LEAVE: &[u8] = b"LEAVE";
fn echo(mut s: TlsStream) -> (Vec<u8>, TlsError) {
    let mut got = vec![];
    let mut b = [0u8; 5000];
    loop {
        let small = got.len() < LEAVE.len();
        let room = if small { LEAVE.len() - got.len() } else { b.len() };
        match s.tls_read(&mut b[..room]) {
            Ok(n) => {
                got.extend_from_slice(&b[..n]);
                // an application that leaves data unread
                if small && got == LEAVE {
                    return (got, TlsError::CloseNotify);
                }
                let _ = s.tls_write(&b[..n]);
            }
            Err(e) => return (got, e),
        }
    }
}
/// One scripted peer, in steps.
struct Run {
    p: Option<Party>,
    step: usize,
    over: bool,
    /// the handshake has to succeed on the library's side
    good: bool,
    sent: Vec<u8>,
    end: TlsError,
    wire: Vec<u8>,
    job: Option<Served<(Vec<u8>, TlsError)>>,
    hello: Option<ClientHello>,
}
impl Run {
    fn new() -> Run {
        Run { p: None, step: 0, over: false, good: false, sent: vec![], end: TlsError::BrokenPipe, wire: vec![], job: None, hello: None }
    }
    fn leave(&mut self) -> Result<(), Fail> {
        self.over = true;
        if let Some(p) = &mut self.p {
            p.io.fin();
            p.drain()?;
        }
        self.p = None;
        Ok(())
    }
    fn talk(&mut self, o: &One, k: usize) -> Result<(), Fail> {
        let p = self.p.as_mut().unwrap();
        if let How::Leave(n) = o.how {
            let b = Blob { len: n as usize % 16000, seed: o.seed, pat: 0 }.get();
            p.send(&[Item::new(Kind::App(Hex([LEAVE, &b[..]].concat()))), Item::new(Kind::App(Hex(b)))], &Packing::default());
            self.sent = LEAVE.to_vec();
            self.end = TlsError::CloseNotify;
            return self.leave();
        }
        let Some(b) = o.data.get(k / 2) else {
            p.send(&[Item::new(Kind::Alert(1, 0))], &Packing::default());
            self.end = TlsError::CloseNotify;
            return self.leave();
        };
        let b = b.get();
        if k % 2 == 0 {
            p.send(&[Item::new(Kind::App(Hex(b.clone())))], &Packing::default());
            self.sent.extend(b);
            return Ok(());
        }
        let mut got = vec![];
        while got.len() < b.len() {
            match p.next()? {
                Ev::App(x) => got.extend(x),
                e => bad!("instead of the data sent comes {e:?}"),
            }
        }
        ensure!(got == b, "other data comes back than was sent");
        Ok(())
    }
}
fn old(tr: &[Vec<Vec<u8>>], j: usize, typ: u8, server: bool) -> Option<Vec<u8>> {
    let t = tr.get(j)?;
    let mut it = t.iter().filter(|m| m.first() == Some(&typ));
    // a client's come after the server's
    let m = if server { it.next() } else { it.nth(1) };
    m.map(|m| m[4..].to_vec())
}
/// the items of a flight, and whether they are right
fn flight(o: &One, base: Vec<Item>, auth: bool, server: bool, tr: &[Vec<Vec<u8>>], me: usize) -> (Vec<Item>, bool) {
    let key = if server { 2 } else { 20 + o.cert as u64 % 4 };
    let mut good = true;
    let mut v = base;
    match &o.how {
        How::Right | How::Stop(_) | How::Leave(_) => {}
        How::Fin(f) => {
            good = f.is_right();
            v.last_mut().unwrap().kind = Kind::Finished(f.clone());
        }
        How::Cv(c) if auth || server => {
            good = c.is_right(server, key);
            v.iter_mut().filter(|i| matches!(i.kind, Kind::CertVerify(_))).for_each(|i| i.kind = Kind::CertVerify(c.clone()));
        }
        How::Cv(_) => {}
        How::Forged(other) => {
            for i in &mut v {
                if let (true, false, Kind::Cert { chain, .. }) = (auth, server, &mut i.kind) {
                    good = false;
                    match other {
                        true => chain[0].ca = 15 - chain[0].ca,
                        false => chain[0].flip = Some(1 << 31 | o.seed as u32 % 200),
                    }
                }
            }
        }
        How::NoCert => {
            if auth && !server {
                good = false;
                v = v.into_iter().filter(|i| matches!(i.kind, Kind::Finished(_))).collect();
                v.insert(0, Item::new(Kind::Cert { ctx: None, chain: vec![] }));
            } else if server {
                good = false;
                v.retain(|i| !matches!(i.kind, Kind::Cert { .. } | Kind::CertVerify(_)));
            }
        }
        How::Replay(what, j) => {
            let j = *j as usize % tr.len().max(1);
            for i in &mut v {
                let t = match &i.kind {
                    Kind::CertVerify(_) if what % 3 != 1 => CV,
                    Kind::Finished(_) if what % 3 != 0 => FIN,
                    _ => continue,
                };
                if let (Some(b), true) = (old(tr, j, t, server), j != me) {
                    i.kind = Kind::Msg(t, Hex(b));
                    good = false;
                }
            }
        }
    }
    (v, good)
}

/// Scripted clients, one server of the library.
fn servers(c: &Case) -> Res {
    let mut files = Files::default();
    let n = c.all.len();
    // two with authorities of their own, one that asks for no certificate, one with a check
    let own: Vec<SrvOpt> = (0..ENDS as u64).map(|e| SrvOpt {
        ca: (c.auth && e != 2).then_some(7 + e % 3),
        // the first and the last share an authority, not a check
        verify: (c.auth && e % 3 == 0).then_some(e as u8 / 3 * 2),
        name: NAMES[e as usize].map(|n| n.to_string()),
        ..SrvOpt::plain(3 + e)
    }).collect();
    let mut addrs = vec![];
    let mut jobs: Vec<(usize, Job<Vec<Out>>)> = vec![];
    let mut lefts = vec![];
    for (e, opt) in own.iter().enumerate() {
        let cfg = server_config(opt, None, &mut files).map_err(Fail::Broken)?;
        let (l, addr) = listener();
        let con = Arc::new(ServerConnection::new(l, cfg));
        let m = c.all.iter().filter(|o| o.end() == e).count();
        let left = Arc::new(AtomicI64::new(m as i64));
        addrs.push(addr);
        lefts.push(left.clone());
        for _ in 0..if c.alone { m.min(1) } else { m } {
            let (con, left) = (con.clone(), left.clone());
            jobs.push((e, Job::new("server", move || {
                let mut v = vec![];
                while left.fetch_sub(1, SeqCst) > 0 {
                    let r = clock::at(NOW, 0, || con.accept());
                    v.push(r.map(|(s, _)| echo(s)));
                }
                v
            })));
        }
    }
    let mut runs: Vec<Run> = (0..n).map(|_| Run::new()).collect();
    let mut trs: Vec<Vec<Vec<u8>>> = vec![vec![]; n];
    let mut wires: Vec<Vec<u8>> = vec![vec![]; n];
    let mut publics: Vec<Vec<u8>> = vec![];
    let r = drive(c, &mut runs, |i, r| {
        let o = &c.all[i];
        let e = o.end();
        let auth = own[e].ca.is_some();
        if o.how == How::Stop(r.step as u8) {
            if r.step == 0 {
                r.p = Some(Party::new(Io::new(tcp(addrs[e])), false));
            }
            return r.leave();
        }
        r.step += 1;
        match r.step - 1 {
            0 => {
                let mut p = Party::new(Io::new(tcp(addrs[e])), false);
                let mut h = ClientHello::simple(rnd(o.seed), rnd(o.seed ^ 5), &[SUITES[o.suite as usize % 3].0], &x25519_pub(&x_secret(o.seed)));
                if let Some(n) = o.asks() {
                    h.exts.push((0, Hex(tls::sni(n.as_bytes()))));
                }
                p.send_hello(&h.raw(), &Packing::default());
                r.p = Some(p);
                Ok(())
            }
            1 => {
                let p = r.p.as_mut().unwrap();
                let f = p.server_flight(&x_secret(o.seed))?;
                if !o.name_is_right() {
                    ensure!(f.is_err(), "session {i}: a name that is not the endpoint's is accepted");
                    return r.leave();
                }
                match f {
                    Ok(f) => {
                        ensure!(p.cr.is_some() == auth, "session {i}: a certificate is asked for: {}", p.cr.is_some());
                        ensure!(p.cert == Some(own[e].leaf.der()), "session {i}: the certificate is not the endpoint's");
                        for x in [f.sh.random.0.clone(), f.sh.share().map(|s| s.1).unwrap_or_default()] {
                            ensure!(!publics.contains(&x), "session {i} has a random value of another: {}", hex(&x));
                            publics.push(x);
                        }
                        Ok(())
                    }
                    Err(e) => bad!("session {i}: the server's flight is {e:?}"),
                }
            }
            2 => {
                let p = r.p.as_mut().unwrap();
                let key = 20 + o.cert as u64 % 4;
                let mut base = vec![Item::new(Kind::Finished(FinSpec::default()))];
                if let Some(ca) = own[e].ca {
                    base.insert(0, Item::new(Kind::CertVerify(CvSpec::right(false, key))));
                    base.insert(0, Item::new(Kind::Cert { ctx: None, chain: vec![Leaf::of(Spec::simple(o.cn(), key), ca)] }));
                }
                let (items, good) = flight(o, base, auth, false, &trs, i);
                r.good = good && (own[e].verify != Some(2) || o.cn() == "ok");
                let w = match &o.how {
                    How::Replay(3, j) if !wires[*j as usize % n].is_empty() => {
                        r.good = false;
                        wires[*j as usize % n].clone()
                    }
                    _ => p.flight(&items, &Packing::default()),
                };
                p.io.send(&w);
                trs[i] = p.tr.clone();
                wires[i] = w;
                if r.good {
                    Ok(())
                } else {
                    r.leave()
                }
            }
            k => r.talk(o, k - 3).map_err(|e| at(e, i)),
        }
    });
    // whoever is still waiting gets an end
    for x in &mut runs {
        x.p = None;
    }
    for (e, addr) in addrs.iter().enumerate() {
        for _ in 0..lefts[e].load(SeqCst).max(0) + jobs.iter().filter(|j| j.0 == e).count() as i64 {
            let _ = std::net::TcpStream::connect(addr);
        }
    }
    let mut outs: Vec<(usize, Out)> = vec![];
    for (e, j) in jobs {
        let o = j.get();
        if r.is_ok() {
            outs.extend(o?.into_iter().map(|o| (e, o)));
        }
    }
    r?;
    let mut want: Vec<(usize, Vec<u8>, TlsError)> = runs.iter().zip(&c.all).filter(|r| r.0.good).map(|(r, o)| (o.end(), r.sent.clone(), r.end)).collect();
    let mut got: Vec<(usize, Vec<u8>, TlsError)> = outs.iter().filter_map(|(e, o)| o.as_ref().ok().map(|o| (*e, o.0.clone(), o.1))).collect();
    let key = |x: &(usize, Vec<u8>, TlsError)| (x.0, x.1.clone(), format!("{:?}", x.2));
    want.sort_by_key(key);
    got.sort_by_key(key);
    let brief = |v: &[(usize, Vec<u8>, TlsError)]| v.iter().map(|x| format!("{}: {} bytes then {:?}", x.0, x.1.len(), x.2)).collect::<Vec<_>>().join(", ");
    ensure!(got == want, "the sessions of the servers got [{}], their clients sent [{}]", brief(&got), brief(&want));
    ensure!(outs.len() == n, "{} of {n} connections are accounted for", outs.len());
    Ok(tags(c, &runs))
}
fn at(e: Fail, i: usize) -> Fail {
    match e {
        Fail::Bad(m) => Fail::Bad(format!("session {i}: {m}")),
        e => e,
    }
}
fn tags(c: &Case, runs: &[Run]) -> Obs {
    let good = runs.iter().filter(|r| r.good).count();
    nt(runs.len() > 1).tag_if(c.auth, "client certificates").tag_if(!c.alone && runs.len() > 1, "at the same time").tag_if(good < runs.len() && good > 0, "good and bad ones").tag_if(c.all.iter().any(|o| matches!(o.how, How::Replay(..))), "replays").tag_if(c.all.iter().enumerate().any(|(i, o)| c.all[..i].iter().any(|p| p.seed == o.seed)), "same hello")
}
fn drive(c: &Case, runs: &mut [Run], mut step: impl FnMut(usize, &mut Run) -> Result<(), Fail>) -> Result<(), Fail> {
    let mut s = c.sched.iter();
    let mut i = 0;
    loop {
        let open: Vec<usize> = (0..runs.len()).filter(|i| !runs[*i].over).collect();
        if open.is_empty() {
            return Ok(());
        }
        if c.alone {
            i = open[0];
        } else if let Some(k) = s.next() {
            i = open[*k as usize % open.len()];
        } else {
            i = *open.iter().find(|x| **x > i).unwrap_or(&open[0]);
        }
        step(i, &mut runs[i])?;
    }
}

/// Scripted servers, clients of the library with one configuration.
fn clients(c: &Case) -> Res {
    let mut files = Files::default();
    let mut own = vec![];
    let mut cfgs = vec![];
    for (name, cert) in [("one.name", Some(21)), ("other.name", Some(22)), ("third", None)] {
        let opt = CliOpt { name: Some(name.into()), cert: cert.map(|k| (Leaf::of(Spec::simple("client", k), 7), k)) };
        cfgs.push(Arc::new(client_config(&opt, None, &mut files).map_err(Fail::Broken)?));
        own.push(opt);
    }
    let n = c.all.len();
    let mut runs: Vec<Run> = (0..n).map(|_| Run::new()).collect();
    let mut trs: Vec<Vec<Vec<u8>>> = vec![vec![]; n];
    let mut wires: Vec<Vec<u8>> = vec![vec![]; n];
    let mut publics: Vec<Vec<u8>> = vec![];
    let r = drive(c, &mut runs, |i, r| {
        let o = &c.all[i];
        let e = o.to as usize % 3;
        if o.how == How::Stop(r.step as u8) && r.step > 0 {
            return r.leave();
        }
        r.step += 1;
        match r.step - 1 {
            0 => {
                let (l, a) = listener();
                let (cfg, s) = (cfgs[e].clone(), tcp(a));
                r.job = Some(Job::new("client", move || clock::at(NOW, 0, || ClientConnection::connect(s, &cfg)).map(echo)));
                let mut p = Party::new(Io::new(l.accept()?.0), true);
                if o.how == How::Stop(0) {
                    r.p = Some(p);
                    return r.leave();
                }
                match p.client_hello()? {
                    Ok(h) => {
                        for x in [h.random.0.clone(), h.shares().ok().and_then(|s| s.into_iter().find(|s| s.0 == 0x1d)).map(|s| s.1).unwrap_or_default()] {
                            ensure!(!publics.contains(&x), "session {i} has a random value of another: {}", hex(&x));
                            publics.push(x);
                        }
                        let name = own[e].name.clone().unwrap();
                        ensure!(h.exts.iter().any(|x| x.0 == 0 && x.1.ends_with(name.as_bytes())), "session {i}: the name is not that of the configuration");
                        r.hello = Some(h);
                    }
                    Err(e) => bad!("session {i}: the client begins with {e:?}"),
                }
                r.p = Some(p);
                Ok(())
            }
            1 => {
                let (p, h) = (r.p.as_mut().unwrap(), r.hello.as_ref().unwrap());
                let sk = x_secret(o.seed);
                let share = h.shares().ok().and_then(|s| s.into_iter().find(|s| s.0 == 0x1d));
                let Some(z) = share.and_then(|s| x25519(&sk, &s.1)) else { bad!("session {i}: no usable key share") };
                let suite = SUITES[o.suite as usize % 3];
                let sh = ServerHello::simple(rnd(o.seed), h.sid.0.clone(), suite.0, &x25519_pub(&sk));
                p.tr.push(sh.raw());
                p.set_shared(suite, &z);
                let mut wire = vec![];
                let head = Item { hash: false, prot: Some(Prot::Plain), ..Item::new(Kind::Rec(22, Hex(sh.raw()))) };
                p.plain_handshake(&mut wire, &head, &Packing::default());
                let mut base = vec![Item::new(Kind::Msg(EE, Hex(vec![0, 0])))];
                if c.auth {
                    base.push(Item::new(Kind::Msg(CR, Hex(tls::cr_body(&[o.seed as u8; 9], &[0x0403])))));
                }
                base.push(Item::new(Kind::Cert { ctx: None, chain: vec![Leaf::of(Spec::simple("server", 2), 9)] }));
                base.push(Item::new(Kind::CertVerify(CvSpec::right(true, 2))));
                base.push(Item::new(Kind::Finished(FinSpec::default())));
                let (items, good) = flight(o, base, c.auth, true, &trs, i);
                r.good = good;
                wire.extend(p.flight(&items, &Packing::default()));
                if let How::Replay(3, j) = &o.how {
                    let w = &wires[*j as usize % n];
                    if !w.is_empty() {
                        r.good = false;
                        wire = w.clone();
                    }
                }
                p.io.send(&wire);
                trs[i] = p.tr.clone();
                wires[i] = wire;
                if r.good {
                    Ok(())
                } else {
                    r.leave()
                }
            }
            2 => match r.p.as_mut().unwrap().client_flight()? {
                Ok(f) => {
                    ensure!(f.iter().any(|m| m.0 == CERT) == c.auth, "session {i}: certificate {}", !c.auth);
                    let want = own[e].cert.as_ref().filter(|_| c.auth).map(|c| c.0.der());
                    ensure!(r.p.as_ref().unwrap().cert == want, "session {i}: the certificate is not that of the configuration");
                    Ok(())
                }
                Err(e) => bad!("session {i}: the client's flight is {e:?}"),
            },
            k => r.talk(o, k - 3).map_err(|e| at(e, i)),
        }
    });
    for x in &mut runs {
        x.p = None;
    }
    for (i, x) in runs.iter_mut().enumerate() {
        let Some(j) = x.job.take() else { continue };
        let o = j.get();
        if r.is_err() {
            continue;
        }
        match o.map_err(|e| at(e, i))? {
            Ok((d, e)) => {
                ensure!(x.good, "session {i}: a handshake that must fail succeeds");
                ensure!(d == x.sent && e == x.end, "session {i}: {} bytes and {e:?} are read, {} bytes and {:?} were sent", d.len(), x.sent.len(), x.end);
            }
            Err(e) => ensure!(!x.good, "session {i}: the handshake fails with {e:?}"),
        }
    }
    r?;
    Ok(tags(c, &runs))
}

/// Clients and a server of the library, from many threads.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    auth: bool,
    threads: u8,
    each: u8,
    size: u32,
    seed: u64,
}
fn crowd(c: &Crowd) -> Res {
    let mut files = Files::default();
    let opt = SrvOpt { ca: c.auth.then_some(7), ..SrvOpt::plain(3) };
    let cfg = server_config(&opt, None, &mut files).map_err(Fail::Broken)?;
    let copt = CliOpt { cert: c.auth.then(|| (Leaf::of(Spec::simple("ok", 21), 7), 21)), name: None };
    let ccfg = Arc::new(client_config(&copt, None, &mut files).map_err(Fail::Broken)?);
    let (l, addr) = listener();
    let con = Arc::new(ServerConnection::new(l, cfg));
    let total = c.threads as i64 * c.each as i64;
    let left = Arc::new(AtomicI64::new(total));
    let jobs: Vec<Job<Vec<Out>>> = (0..c.threads)
        .map(|_| {
            let (con, left) = (con.clone(), left.clone());
            Job::new("server", move || {
                let mut v = vec![];
                while left.fetch_sub(1, SeqCst) > 0 {
                    v.push(clock::at(NOW, 0, || con.accept()).map(|(s, _)| echo(s)));
                }
                v
            })
        })
        .collect();
    let wrong: Arc<Mutex<Vec<String>>> = Default::default();
    let peers: Vec<Job<Vec<Vec<u8>>>> = (0..c.threads)
        .map(|t| {
            let (cfg, c, wrong) = (ccfg.clone(), c.clone(), wrong.clone());
            Job::new("client", move || {
                let mut sent = vec![];
                for k in 0..c.each {
                    let s = tcp(addr);
                    let seed = c.seed ^ (t as u64) << 32 ^ k as u64;
                    // some never get through
                    if (t as u64 + k as u64 + c.seed) % 5 == 4 {
                        let mut s = s;
                        let _ = s.write_all(&vec![22; k as usize * 7]);
                        let _ = s.shutdown(std::net::Shutdown::Write);
                        let mut io = Io::new(s);
                        while let Ok(Some(_)) = io.record() {}
                        continue;
                    }
                    let mut s = match clock::at(NOW, 0, || ClientConnection::connect(s, &cfg)) {
                        Ok(s) => s,
                        Err(e) => {
                            wrong.lock().unwrap().push(format!("a client does not connect: {e:?}"));
                            continue;
                        }
                    };
                    let mut all = vec![];
                    for r in 0..3u64 {
                        let d = Blob { len: 1 + (seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 32) as usize % c.size as usize, seed: seed ^ r << 50, pat: 0 }.get();
                        let mut got = vec![];
                        let mut b = vec![0; 3000];
                        let mut end = s.tls_write(&d).err();
                        while got.len() < d.len() && end.is_none() {
                            match s.tls_read(&mut b) {
                                Ok(n) => got.extend_from_slice(&b[..n]),
                                Err(e) => end = Some(e),
                            }
                        }
                        if got != d {
                            wrong.lock().unwrap().push(format!("{} bytes ({end:?}) come back of {} sent, or others", got.len(), d.len()));
                        }
                        all.extend(d);
                    }
                    sent.push(all);
                }
                sent
            })
        })
        .collect();
    let mut sent: Vec<Vec<u8>> = vec![];
    let mut bad = Ok(());
    for p in peers {
        match p.get() {
            Ok(v) => sent.extend(v),
            Err(e) => bad = Err(e),
        }
    }
    for _ in 0..left.load(SeqCst).max(0) {
        let _ = std::net::TcpStream::connect(addr);
    }
    let mut got = vec![];
    for j in jobs {
        match j.get() {
            Ok(v) => got.extend(v.into_iter().flatten().map(|x| x.0)),
            Err(e) => bad = Err(e),
        }
    }
    bad?;
    if let Some(w) = wrong.lock().unwrap().first() {
        bad!("{w}");
    }
    sent.sort();
    got.sort();
    ensure!(sent == got, "the server's {} sessions read other data than its {} clients wrote", got.len(), sent.len());
    Ok(hit().tag_if(c.auth, "client certificates"))
}

// ------------------------------------------------------------------ inputs
fn how() -> impl Strategy<Value = How> + Clone {
    prop_oneof![
        5 => Just(How::Right),
        1 => fin_spec().prop_map(How::Fin),
        1 => cv_spec().prop_map(How::Cv),
        1 => Just(How::NoCert),
        1 => any::<bool>().prop_map(How::Forged),
        2 => (0u8..4, any::<u8>()).prop_map(|(a, b)| How::Replay(a, b)),
        1 => (0u8..6).prop_map(How::Stop),
        1 => any::<u16>().prop_map(How::Leave),
    ]
}
fn one() -> impl Strategy<Value = One> + Clone {
    let data = vec((prop_oneof![3 => 1usize..60, 1 => 1usize..4000], any::<u64>()).prop_map(|(len, seed)| Blob { len, seed, pat: 0 }), 0..3);
    // some share their randoms
    (how(), 0u8..3, prop_oneof![3 => any::<u64>(), 1 => 0u64..2], any::<u8>(), data, prop_oneof![1 => Just(0u8), 1 => 0u8..4], prop_oneof![2 => Just(0u8), 1 => any::<u8>()]).prop_map(|(how, suite, seed, cert, data, to, name)| One { how, suite, seed, cert, data, to, name })
}
fn case() -> impl Strategy<Value = Case> + Clone {
    (prop_oneof![Just(true), Just(false)], vec(one(), 1..6), vec(any::<u8>(), 0..40), prop_oneof![4 => Just(false), 1 => Just(true)]).prop_map(|(auth, all, sched, alone)| Case { auth, all, sched, alone })
}
/// Two or three sessions, one of them bad, in every order of their handshakes' steps.
fn pairs() -> Vec<Case> {
    let mut v = vec![];
    let hows = [How::Right, How::Fin(FinSpec { flip: Some(3), ..Default::default() }), How::NoCert, How::Replay(0, 0), How::Replay(1, 0), How::Replay(2, 0), How::Replay(3, 0), How::Forged(true), How::Forged(false), How::Stop(0), How::Stop(1), How::Stop(2), How::Stop(3), How::Leave(0), How::Leave(900)];
    for (i, h) in hows.into_iter().enumerate() {
        // orders of three steps of each of two
        for m in 0..64u8 {
            if m.count_ones() != 3 {
                continue;
            }
            let one = |how, k: u8| One { how, suite: k, seed: if i % 2 == 0 { 7 } else { 7 + k as u64 }, cert: if m & 8 > 0 { 9 } else { k }, data: vec![Blob { len: 5 + k as usize, seed: k as u64, pat: 0 }], to: k * (m % 4), name: k * (m / 4 % 4) };
            let sched = (0..6).map(|b| m >> b & 1).collect();
            v.push(Case { auth: (i + m as usize) % 2 == 0, all: vec![one(How::Right, 0), one(h.clone(), 1)], sched, alone: false });
        }
    }
    v
}
/// Hundreds of sessions of one server or configuration.
fn series(n: usize) -> Vec<Case> {
    let hows = |i: usize| match i * 7 % 11 {
        0 => How::Fin(FinSpec { flip: Some(i as u32), ..Default::default() }),
        1 => How::NoCert,
        2 => How::Replay(i as u8 / 11, i.saturating_sub(3) as u8),
        3 => How::Stop(1 + (i / 11 % 4) as u8),
        4 => How::Cv(CvSpec::right(true, 77)),
        5 => How::Leave(i as u16 * 50),
        8 => How::Forged(i % 2 == 0),
        _ => How::Right,
    };
    [true, false].into_iter().map(|auth| Case {
        auth,
        all: (0..n).map(|i| One { how: hows(i), suite: (i / 5) as u8, seed: i as u64 / 2, cert: (i / 3) as u8, data: vec![Blob { len: 1 + i, seed: i as u64, pat: 0 }], to: [0, 0, 1, 0, 2, 3][i % 6], name: [0, 1, 0, 0, 2][i % 5] }).collect(),
        sched: vec![],
        alone: true,
    }).collect()
}
/// Many that fail in the same way, then one that does not.
fn failing(n: usize) -> Vec<Case> {
    let mut v = vec![];
    let hows = [How::Fin(FinSpec { flip: Some(3), ..Default::default() }), How::Cv(CvSpec::right(false, 77)), How::Cv(CvSpec::right(true, 77)), How::NoCert, How::Forged(true), How::Forged(false), How::Replay(3, 0), How::Replay(2, 0), How::Stop(0), How::Stop(1), How::Stop(2), How::Leave(100)];
    for (k, h) in hows.into_iter().enumerate() {
        let one = |i: usize, how: How| One { how, suite: (i + k) as u8, seed: i as u64, cert: (k % 2 * i) as u8, data: vec![Blob { len: 9, seed: 1, pat: 0 }], to: 0, name: (k % 2) as u8 };
        let all = (0..n + 2).map(|i| one(i, if i == 0 || i > n { How::Right } else { h.clone() })).collect();
        v.push(Case { auth: true, all, sched: vec![], alone: true });
    }
    v
}
fn main() {
    run::main("C31", "several sessions of one server or one client configuration, at the same time or one after the other", |c| {
        c.assume("up to 16 at a time; threads are scheduled by the system, the peers' steps by the case");
        c.shrink_iters = 200;
        let n = if c.tier == Tier::Thorough { 2000 } else { 280 };
        c.list("server-series", [series(n), failing(n / 2)].concat(), servers);
        c.list("client-series", [series(n), failing(n / 2)].concat(), clients);
        c.list("server-pairs", pairs(), servers);
        c.list("client-pairs", pairs(), clients);
        c.list("crowds", (0..8u64).map(|i| Crowd { auth: i % 2 == 0, threads: 4 + 2 * (i % 5) as u8, each: 6, size: [200, 40_000][i as usize / 4], seed: i }).collect(), crowd);
        c.sub("server", 1600, case, servers);
        c.sub("client", 1600, case, clients);
    })
}
