//! C28: every byte an endpoint puts on the wire, opened record by record with independently derived keys.
use anothertls::net::alert::TlsError;
use anothertls::net::TlsStream;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vharness::cert::{self, Spec};
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
#[path = "../glue/session.rs"]
mod session;
use flights::*;
use lib_side::*;
use session::*;

/// What one endpoint's records hold.
#[derive(Debug, Default)]
struct Audit {
    /// handshake messages under protection, types in order
    msgs: Vec<u8>,
    app: Vec<u8>,
    alerts: Vec<Vec<u8>>,
    clear_alerts: Vec<Vec<u8>>,
    hs_records: u64,
    app_records: u64,
}
/// Keys for what this endpoint sends.
struct SendKeys {
    hs: Option<Keys>,
    /// one of these, from the first record on
    ap: Vec<Keys>,
}
fn audit(wire: &[Vec<u8>], keys: SendKeys) -> Result<Audit, Fail> {
    let mut a = Audit::default();
    // first the hello, in clear handshake records
    let (mut hello, mut i) = (vec![], 0);
    while i < wire.len() {
        let r = &wire[i];
        if r[0] != 22 || (hello.len() >= 4 && hello.len() >= 4 + (hello[1] as usize) * 65536 + hello[2] as usize * 256 + hello[3] as usize) {
            break;
        }
        ensure!(r[1] == 3 && r.len() > 5 && r.len() <= 5 + 16384, "clear handshake record of {} bytes, version {:02x}{:02x}", r.len(), r[1], r[2]);
        hello.extend_from_slice(&r[5..]);
        i += 1;
    }
    if !hello.is_empty() {
        let n = hello.len();
        let want = if n >= 4 { 4 + hello[1] as usize * 65536 + hello[2] as usize * 256 + hello[3] as usize } else { 4 };
        ensure!(n == want && (hello[0] == 1 || hello[0] == 2), "after the hello, {} bytes more of handshake in clear", n as i64 - want as i64);
    }
    let Some(mut hs) = keys.hs else {
        // no keys came about: alerts, and nothing else
        for r in &wire[i..] {
            ensure!(r[0] == 21 && r.len() == 7 || (r[0] == 20 && r[5..] == [1]), "without keys a record of type {} and {} bytes is sent: {}", r[0], r.len() - 5, hex(&r[..r.len().min(60)]));
            if r[0] == 21 {
                a.clear_alerts.push(r[5..].to_vec());
            }
        }
        return Ok(a);
    };
    let mut ap = keys.ap;
    let (mut fin, mut ccs, mut buf) = (false, 0, vec![]);
    for (k, r) in wire[i..].iter().enumerate() {
        match r[0] {
            20 => {
                ensure!(*r == [20, 3, 3, 0, 1, 1], "a compatibility record of other content: {}", hex(&r[..r.len().min(40)]));
                ccs += 1;
                ensure!(ccs == 1 && a.app_records == 0 && !fin, "a compatibility record too much or too late (record {k} after the hello)");
                continue;
            }
            23 => {}
            t => bad!("after the hello a record of type {t} is sent in clear: {}", hex(&r[..r.len().min(60)])),
        }
        ensure!(r[1..3] == [3, 3], "version {:02x}{:02x} in a protected record", r[1], r[2]);
        ensure!(r.len() - 5 <= 16384 + 256, "a protected record of {} bytes", r.len() - 5);
        let (phase, key) = if fin {
            if a.app_records == 0 && ap.len() > 1 {
                let i = ap.iter().position(|k| k.open_at(0, r).is_some()).unwrap_or(0);
                ap = vec![ap[i].clone()];
            }
            match ap.first_mut() {
                Some(k) => ("application", k),
                None => broken!("no application keys"),
            }
        } else {
            ("handshake", &mut hs)
        };
        let seq = key.seq;
        let Some((typ, data)) = key.open(r) else {
            let mut other = vec![];
            for s in 0..40 {
                if key.open_at(s, r).is_some() {
                    other.push(s);
                }
            }
            bad!("protected record {k} after the hello does not open with the {phase} keys at sequence number {seq} (it does at {other:?})");
        };
        ensure!(data.len() <= 16384, "a record holds {} bytes of plaintext", data.len());
        if fin {
            a.app_records += 1
        } else {
            a.hs_records += 1
        }
        ensure!(a.alerts.is_empty() || typ == 21, "a record after an alert");
        match typ {
            22 if !fin => {
                ensure!(!data.is_empty(), "an empty handshake record");
                buf.extend(data);
                while buf.len() >= 4 {
                    let n = 4 + buf[1] as usize * 65536 + buf[2] as usize * 256 + buf[3] as usize;
                    if buf.len() < n {
                        break;
                    }
                    let m: Vec<u8> = buf.drain(..n).collect();
                    a.msgs.push(m[0]);
                    if m[0] == 20 {
                        ensure!(buf.is_empty(), "handshake bytes after the Finished in its record");
                        fin = true;
                    }
                }
            }
            23 if fin => a.app.extend(data),
            21 => {
                ensure!(data.len() == 2, "alert of {} bytes", data.len());
                a.alerts.push(data);
            }
            t => bad!("content of type {t} under the {phase} keys"),
        }
    }
    ensure!(buf.is_empty(), "an unfinished handshake message at the end");
    Ok(a)
}
/// eight bytes of what must not be seen, as they are or reversed
fn leaks(wire: &[Vec<u8>], secret: &[(&str, Vec<u8>)]) -> Result<(), Fail> {
    let all = wire.concat();
    let set: HashSet<&[u8]> = all.windows(8).collect();
    for (what, s) in secret {
        let rev: Vec<u8> = s.iter().rev().copied().collect();
        for v in [s, &rev] {
            for w in v.windows(8) {
                // too plain to tell
                if w.iter().collect::<HashSet<_>>().len() < 4 {
                    continue;
                }
                if set.contains(w) {
                    bad!("eight bytes of {what} are on the wire: {}", hex(w));
                }
            }
        }
    }
    Ok(())
}
fn secrets(suite: Suite, p: &[&Vec<u8>]) -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![];
    for s in p {
        let k = Keys::new(suite, s);
        v.push(("a traffic secret", s.to_vec()));
        v.push(("a traffic key", k.key.clone()));
        v.push(("a traffic IV", k.iv.clone()));
    }
    v
}
/// of a certificate only what is its own: the fixed parts are no secret, and look like other things
fn cert_parts(der: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    der.chunks(200).map(|c| ("a certificate", c.to_vec())).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Io_ {
    Write(Blob),
    /// the peer's data, in a buffer of this size
    Read(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    set: Setup,
    ops: Vec<Io_>,
    /// by the peer, records
    peer: Vec<Blob>,
    /// alerts that the application sends in the end: close_notify, or another one
    #[serde(default)]
    alerts: Vec<bool>,
}
fn talk(c: &Talk) -> Res {
    let ops = c.ops.clone();
    let alerts: Vec<TlsError> = c.alerts.iter().map(|a| if *a { TlsError::CloseNotify } else { TlsError::AccessDenied }).collect();
    let codes: Vec<u8> = alerts.iter().map(|a| if *a == TlsError::CloseNotify { 0 } else { 49 }).collect();
    let mut avail: usize = c.peer.iter().map(|b| b.len).sum();
    let s = session(&c.set, None, move |mut t: TlsStream| {
        let mut errs = vec![];
        for o in &ops {
            match o {
                Io_::Write(b) => {
                    if let Err(e) = t.tls_write(&b.get()) {
                        errs.push(format!("write: {e:?}"));
                    }
                }
                Io_::Read(n) if avail > 0 => {
                    let mut b = vec![0; (*n).max(1) as usize];
                    match t.tls_read(&mut b) {
                        Ok(k) => avail -= k.min(avail),
                        Err(e) => errs.push(format!("read: {e:?}")),
                    }
                }
                _ => {}
            }
        }
        for (i, a) in alerts.into_iter().enumerate() {
            // that it sends no second one is well
            if let (Err(e), 0) = (t.write_alert(a), i) {
                errs.push(format!("alert: {e:?}"));
            }
        }
        read_all(&mut t, &[]);
        errs
    })?;
    let Some(mut s) = s else { bad!("no session") };
    // read while writing: both ways may be full
    let col = s.p.io.collect()?;
    for b in &c.peer {
        for part in b.get().chunks(16384) {
            s.p.send(&[Item::new(Kind::App(Hex(part.to_vec())))], &Packing::default());
        }
    }
    s.p.io.fin();
    s.p.io.absorb(col)?;
    while !matches!(s.p.next()?, Ev::Eof) {}
    match s.job.get()? {
        Ok(e) => ensure!(e.is_empty(), "{e:?}"),
        Err(e) => bad!("no session: {e:?}"),
    }
    let suite = SUITES[c.set.suite as usize % 3];
    let sec = s.p.sec.as_ref().unwrap();
    let (cap, sap) = s.p.app.clone().unwrap();
    let (hs, ap) = if c.set.server { (&sec.s_hs, &sap) } else { (&sec.c_hs, &cap) };
    let a = audit(&s.p.io.records, SendKeys { hs: Some(Keys::new(suite, hs)), ap: vec![Keys::new(suite, ap)] })?;
    let want: Vec<u8> = c.ops.iter().flat_map(|o| if let Io_::Write(b) = o { b.get() } else { vec![] }).collect();
    ensure!(a.app == want, "the protected records hold {} bytes of application data, {} were written", a.app.len(), want.len());
    ensure!(a.msgs.last() == Some(&20) && a.clear_alerts.is_empty(), "messages {:?}, alerts {:?}", a.msgs, a.alerts);
    let got: Vec<u8> = a.alerts.iter().map(|x| x[1]).collect();
    ensure!(codes.starts_with(&got) && got.is_empty() == codes.is_empty(), "alerts {codes:?} were to be sent, {got:?} are");
    let mut hide = secrets(suite, &[&sec.c_hs, &sec.s_hs, &cap, &sap]);
    hide.push(("the shared secret", s.p.shared.clone()));
    hide.push(("a private key", cert::scalar(if c.set.server { 3 } else { 21 })));
    if c.set.server {
        hide.extend(cert_parts(&SrvOpt::plain(3).leaf.der()));
    } else if c.set.auth {
        hide.extend(cert_parts(&Leaf::of(Spec::simple("client", 21), 7).der()));
    }
    for o in &c.ops {
        if let Io_::Write(b) = o {
            hide.push(("application data", b.get()[..b.len.min(300)].to_vec()));
            hide.push(("application data", b.get()[b.len.saturating_sub(300)..].to_vec()));
        }
    }
    leaks(&s.p.io.records, &hide)?;
    Ok(nt(a.app_records > 1 || c.set.auth).tag(if c.set.server { "server" } else { "client" }).tag_if(a.app_records > 20, "over 20 records").tag_if(want.len() > 16384, "over one record").tag(suite.name()))
}
/// sessions that break off: what is still sent is protected just as well
fn broken_server(c: &SrvPlan) -> Res {
    // the library is the client
    let r = c.run(None)?;
    let p = &r.party;
    let valid_hello = c.sh == ShOp::Right && p.sec.is_some();
    let recs = &p.io.records;
    if !valid_hello {
        // it may have nothing to protect with; a hello it cannot use is answered in clear
        let clear: Vec<&Vec<u8>> = recs.iter().filter(|r| r[0] != 23).collect();
        ensure!(clear.iter().all(|r| r[0] == 22 || (r[0] == 20 && r[5..] == [1]) || (r[0] == 21 && r.len() == 7)), "a client sends records of other kinds in clear");
        leaks(recs, &[("a private key", cert::scalar(20))])?;
        return Ok(nt(false));
    }
    let sec = p.sec.as_ref().unwrap();
    let suite = c.suite();
    // the client's ends with the first Finished, whatever else was sent
    let mut ap: Vec<Keys> = p.app.iter().map(|a| Keys::new(suite, &a.0)).collect();
    for n in 2..=p.tr.len() {
        ap.push(Keys::new(suite, &app_secrets(sec, &suite.h().hash(&p.tr[..n].concat())).0));
    }
    let got = r.lib.is_ok();
    // keys it has once it read the hello; when the wire was altered it may not have got that far
    let hs = Some(Keys::new(suite, &sec.c_hs));
    let first_clear = recs.iter().skip(1).any(|r| r[0] == 21);
    if first_clear {
        let early = !c.pk.wire.is_empty() || c.ops.iter().any(|o| matches!(o, Op::Insert(..) | Op::Ccs(_)));
        ensure!(early, "the client sends an alert in clear although it has keys: {:?}", recs.iter().skip(1).map(|r| hex(&r[..r.len().min(20)])).collect::<Vec<_>>());
        return Ok(nt(false).tag("clear alert before keys"));
    }
    let a = audit(recs, SendKeys { hs, ap })?;
    if got {
        ensure!(a.app == r.written || r.written.starts_with(&a.app), "other application data on the wire than was written");
    } else {
        ensure!(a.app.is_empty() && a.app_records <= 1, "application data after a failed handshake");
    }
    let mut hide = secrets(suite, &[&sec.c_hs, &sec.s_hs]);
    if let Some((l, k)) = &c.cli.cert {
        hide.extend(cert_parts(&l.der()));
        hide.push(("a private key", cert::scalar(*k)));
    }
    leaks(recs, &hide)?;
    Ok(nt(!got).tag(if got { "completed" } else { "failed" }).tag_if(!a.alerts.is_empty(), "alert"))
}
fn broken_client(c: &CliPlan) -> Res {
    // the library is the server
    let r = c.run(None)?;
    let p = &r.party;
    let recs = &p.io.records;
    let hello = recs.first().is_some_and(|r| r[0] == 22);
    if !hello || p.sec.is_none() {
        let a = audit(recs, SendKeys { hs: None, ap: vec![] })?;
        return Ok(nt(false).tag_if(!a.clear_alerts.is_empty(), "refused in clear"));
    }
    let sec = p.sec.as_ref().unwrap();
    let suite = p.suite;
    let ap: Vec<Keys> = p.app.iter().map(|a| Keys::new(suite, &a.1)).collect();
    if ap.is_empty() {
        // the scripted client did not get that far: nothing in clear is all there is to see
        ensure!(recs[1..].iter().all(|r| r[0] == 23 || *r == [20, 3, 3, 0, 1, 1]), "after its hello the server sends in clear");
        return Ok(nt(false));
    }
    let a = audit(recs, SendKeys { hs: Some(Keys::new(suite, &sec.s_hs)), ap })?;
    ensure!(r.lib.is_ok() || a.app.is_empty(), "application data after a failed handshake");
    ensure!(r.lib.is_err() || r.written.starts_with(&a.app) , "other application data on the wire than was written");
    let mut hide = secrets(suite, &[&sec.c_hs, &sec.s_hs, &p.app.as_ref().unwrap().0, &p.app.as_ref().unwrap().1]);
    hide.push(("a private key", cert::scalar(c.srv.key)));
    hide.extend(cert_parts(&c.srv.leaf.der()));
    leaks(recs, &hide)?;
    Ok(nt(r.lib.is_err()).tag(if r.lib.is_ok() { "completed" } else { "failed" }).tag_if(!a.alerts.is_empty(), "alert"))
}
/// two endpoints of the library; keys from the log of either
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    auth: bool,
    name: bool,
    log_client: bool,
    big: u16,
    up: Vec<Blob>,
    down: Vec<Blob>,
}
fn tap(mut from: TcpStream, mut to: TcpStream, seen: Arc<Mutex<Vec<u8>>>) {
    let _ = from.set_read_timeout(Some(Duration::from_secs(90)));
    let mut b = vec![0; 65536];
    while let Ok(n) = from.read(&mut b) {
        if n == 0 {
            break;
        }
        seen.lock().unwrap().extend_from_slice(&b[..n]);
        if to.write_all(&b[..n]).is_err() {
            break;
        }
    }
    let _ = to.shutdown(Shutdown::Write);
}
fn records(b: &[u8]) -> Result<Vec<Vec<u8>>, Fail> {
    let (mut at, mut v) = (0, vec![]);
    while at < b.len() {
        ensure!(b.len() - at >= 5, "{} stray bytes at the end", b.len() - at);
        let n = 5 + u16::from_be_bytes([b[at + 3], b[at + 4]]) as usize;
        ensure!(b.len() - at >= n, "an unfinished record at the end");
        v.push(b[at..at + n].to_vec());
        at += n;
    }
    Ok(v)
}
fn pair(c: &Pair) -> Res {
    let mut f = Files::default();
    let keys = f.path("keys");
    let mut so = SrvOpt::plain(3);
    let mut co = CliOpt::plain();
    if c.big > 0 {
        so.leaf.spec.exts = vec![c.big as u32];
    }
    if c.auth {
        so.ca = Some(7);
        co.cert = Some((Leaf::of(Spec { exts: so.leaf.spec.exts.clone(), ..Spec::simple("ok", 20) }, 7), 20));
    }
    if c.name {
        so.name = Some("pair.test".into());
        co.name = so.name.clone();
    }
    let scfg = server_config(&so, (!c.log_client).then_some(keys.as_str()), &mut f).map_err(Fail::Broken)?;
    let ccfg = client_config(&co, c.log_client.then_some(keys.as_str()), &mut f).map_err(Fail::Broken)?;
    let (l, a) = listener();
    let down = c.down.clone();
    let srv = serve(scfg, l, Some(NOW), move |mut t| {
        let mut ok = true;
        for b in &down {
            ok &= t.tls_write(&b.get()).is_ok();
        }
        (ok, read_all(&mut t, &[]).0)
    });
    let (rl, ra) = listener();
    let cs = tcp(ra);
    let clone = cs.try_clone()?;
    let (fc, _) = rl.accept()?;
    let fs = tcp(a);
    let seen: [Arc<Mutex<Vec<u8>>>; 2] = Default::default();
    let (fc2, fs2, s0, s1) = (fc.try_clone()?, fs.try_clone()?, seen[0].clone(), seen[1].clone());
    let t1 = std::thread::spawn(move || tap(fc2, fs, s0));
    let t2 = std::thread::spawn(move || tap(fs2, fc, s1));
    let up = c.up.clone();
    let want_down: usize = c.down.iter().map(|b| b.len).sum();
    let cli = dial(ccfg, cs, Some(NOW), move |mut t| {
        let mut ok = true;
        for b in &up {
            ok &= t.tls_write(&b.get()).is_ok();
        }
        let mut got = 0;
        let mut b = vec![0; 7000];
        while got < want_down {
            match t.tls_read(&mut b) {
                Ok(k) => got += k,
                Err(_) => break,
            }
        }
        let _ = clone.shutdown(Shutdown::Write);
        (ok, got)
    });
    let (cr, sr) = (cli.get()?, srv.get()?);
    t1.join().map_err(|_| Fail::Broken("tap".into()))?;
    t2.join().map_err(|_| Fail::Broken("tap".into()))?;
    let (Ok((true, got)), Ok((true, _))) = (&cr, &sr) else { bad!("no session: client {:?}, server {:?}", cr.err(), sr.err()) };
    ensure!(*got == want_down, "the client reads {got} bytes of {want_down}");
    let wire = [records(&seen[0].lock().unwrap())?, records(&seen[1].lock().unwrap())?];
    let sh = match wire[1].first().map(|r| split_msg(&r[5..])) {
        Some(Ok((2, b))) => ServerHello::parse(b).map_err(|e| Fail::Bad(format!("server hello: {e}")))?,
        _ => bad!("no server hello"),
    };
    let suite = Suite(sh.suite);
    let log = std::fs::read_to_string(&keys).unwrap_or_default();
    let get = |label: &str| log.lines().find(|l| l.starts_with(label)).and_then(|l| l.split(' ').nth(2)).and_then(unhex);
    let (Some(ch), Some(shs), Some(ca), Some(sa)) = (get("CLIENT_HANDSHAKE_TRAFFIC_SECRET "), get("SERVER_HANDSHAKE_TRAFFIC_SECRET "), get("CLIENT_TRAFFIC_SECRET_0 "), get("SERVER_TRAFFIC_SECRET_0 ")) else { broken!("no key log") };
    let mut hide = secrets(suite, &[&ch, &shs, &ca, &sa]);
    hide.push(("a private key", cert::scalar(3)));
    hide.push(("a private key", cert::scalar(20)));
    hide.extend(cert_parts(&so.leaf.der()));
    if let Some((l, _)) = &co.cert {
        hide.extend(cert_parts(&l.der()));
    }
    for b in c.up.iter().chain(&c.down) {
        hide.push(("application data", b.get()[..b.len.min(300)].to_vec()));
    }
    for (i, (hs, ap, data)) in [(&ch, &ca, &c.up), (&shs, &sa, &c.down)].iter().enumerate() {
        let au = audit(&wire[i], SendKeys { hs: Some(Keys::new(suite, hs)), ap: vec![Keys::new(suite, ap)] })?;
        let want: Vec<u8> = data.iter().flat_map(|b| b.get()).collect();
        ensure!(au.app == want, "the records from the {} hold {} bytes of application data, {} were written", ["client", "server"][i], au.app.len(), want.len());
        leaks(&wire[i], &hide)?;
    }
    // what one endpoint sends is not what the other sends
    let tail: HashSet<&[u8]> = wire[0].iter().filter(|r| r[0] == 23).map(|r| &r[5..]).collect();
    ensure!(!wire[1].iter().filter(|r| r[0] == 23).any(|r| tail.contains(&r[5..])), "one protected record in both directions");
    Ok(hit().tag(suite.name()).tag_if(c.auth, "client certificate"))
}
fn main() {
    run::main("C28", "sessions in both roles with a scripted peer over all suites, with write and read histories, sessions broken off by illegal flights, and sessions between two endpoints through a tap; every record sent is parsed strictly, opened at the next sequence number with keys derived independently (or logged), and the wire is searched for eight bytes of any certificate, key, secret or application data. Non-trivial: client certificates or several application records; failed handshakes", |c| {
        c.assume("the harness's key schedule; eight bytes with fewer than four different values are not searched for");
        c.shrink_iters = 150;
        let set = || (any::<bool>(), 0u8..3, any::<bool>(), any::<u64>()).prop_map(|(server, suite, auth, seed)| Setup { server, suite, auth, seed });
        let size = || prop_oneof![4 => 0usize..300, 2 => around(16384, 3), 1 => 0usize..70_000];
        let op = move || prop_oneof![4 => blob(size()).prop_map(Io_::Write), 1 => (1u16..3000).prop_map(Io_::Read)];
        c.sub("talk", 2_200, move || (set(), vec(op(), 0..7), vec(blob(0usize..3000), 0..3), vec(any::<bool>(), 0..4)).prop_map(|(set, ops, peer, alerts)| Talk { set, ops, peer, alerts }), talk);
        c.sub("many", 60, move || (set(), vec(blob(0usize..40).prop_map(Io_::Write), 250..400)).prop_map(|(set, ops)| Talk { set, ops, peer: vec![], alerts: vec![] }), talk);
        c.sub("failing_server", 3_500, || srv_plan(vec(op_(), 0..3)), broken_server);
        c.sub("failing_client", 3_500, || (any::<bool>()).prop_flat_map(|a| cli_plan(a, vec(op_(), 0..3))), broken_client);
        c.sub("pair", 700, || (any::<bool>(), any::<bool>(), any::<bool>(), prop_oneof![3 => Just(0u16), 1 => 1u16..3000, 1 => 14_000u16..30_000], vec(blob(prop_oneof![3 => 0usize..500, 1 => 0usize..40_000]), 0..4), vec(blob(prop_oneof![3 => 0usize..500, 1 => 0usize..40_000]), 0..4)).prop_map(|(auth, name, log_client, big, up, down)| Pair { auth, name, log_client, big, up, down }), pair);
    })
}
fn op_() -> impl Strategy<Value = Op> + Clone {
    flights::op()
}
