//! C25: the key log against the secrets an independent peer derives, over histories of sessions that share files.
use anothertls::{ClientConfigBuilder, ServerConfigBuilder};
use openssl::pkey::PKey;
use openssl::ssl::*;
use openssl::x509::X509;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vharness::cert::{self, Spec};
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
#[path = "../glue/session.rs"]
mod session;
use flights::*;
use lib_side::*;
use session::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum How {
    /// with the scripted peer
    Whole,
    /// the scripted peer leaves: a server before its Finished, a client without its flight
    Left,
    /// bytes of this length go each way afterwards
    Talk(u16),
    /// with OpenSSL
    Ossl,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    server: bool,
    suite: u8,
    auth: bool,
    seed: u64,
    how: How,
    /// which file, when any
    log: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Prior {
    Missing,
    Empty,
    Lines(u8),
    /// any bytes, any end
    Bytes(Hex),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    prior: Vec<Prior>,
    /// sessions in a group run at the same time
    groups: Vec<Vec<One>>,
    /// of the library's calls in groups of one session
    #[serde(default)]
    faults: fault::Faults,
}
fn faults() -> impl Strategy<Value = fault::Faults> + Clone {
    prop_oneof![
        2 => Just(fault::Faults::default()),
        1 => (any::<u64>(), prop_oneof![1u16..20, 1u16..400], prop_oneof![2 => Just(0u8), 1 => 2u8..20]).prop_map(|(seed, file, intr)| fault::Faults { seed, file, intr, ..Default::default() }),
    ]
}
fn line(label: &str, random: &[u8], secret: &[u8]) -> String {
    format!("{label} {} {}", hex(random), hex(secret))
}
/// Lines that have to be there, and lines that may be there.
type Lines = (Vec<String>, Vec<String>);
fn lines(p: &Party, random: &[u8]) -> Result<Vec<String>, Fail> {
    let Some(s) = &p.sec else { broken!("no secrets") };
    let mut v = vec![line("CLIENT_HANDSHAKE_TRAFFIC_SECRET", random, &s.c_hs), line("SERVER_HANDSHAKE_TRAFFIC_SECRET", random, &s.s_hs)];
    if let Some((c, s)) = &p.app {
        v.push(line("CLIENT_TRAFFIC_SECRET_0", random, c));
        v.push(line("SERVER_TRAFFIC_SECRET_0", random, s));
    }
    Ok(v)
}
fn run_one(o: &One, path: Option<&str>) -> Result<Lines, Fail> {
    let n = match o.how {
        How::Talk(n) => n as usize,
        _ => 0,
    };
    let after = move |mut t: anothertls::net::TlsStream| {
        if n > 0 {
            let _ = t.tls_write(&vec![7; n]);
        }
        read_all(&mut t, &[]).0.len()
    };
    match o.how {
        How::Ossl => ossl(o, path),
        How::Left if o.server => {
            let mut f = Files::default();
            let mut opt = SrvOpt::plain(3);
            if o.auth {
                opt.ca = Some(7);
            }
            let cfg = server_config(&opt, path, &mut f).map_err(Fail::Broken)?;
            let (io, job) = against_server(cfg, Some(NOW), after);
            let mut p = Party::new(io, false);
            let sk = x_secret(o.seed);
            let hello = ClientHello::simple(rnd(o.seed), rnd(o.seed ^ 5), &[SUITES[o.suite as usize % 3].0], &x25519_pub(&sk));
            p.send_hello(&hello.raw(), &Packing::default());
            let fl = p.server_flight(&sk)?;
            p.io.fin();
            p.drain()?;
            ensure!(job.get()?.is_err(), "a server without a client flight completes");
            if let Err(e) = fl {
                bad!("no flight from the server: {e:?}");
            }
            if p.app.is_none() {
                p.derive_app();
            }
            Ok((vec![], lines(&p, &hello.random)?))
        }
        How::Left => {
            let ops = vec![Op::Cut(3 + o.auth as u8 - (o.seed % 3) as u8)];
            let p = SrvPlan { seed: o.seed, suite: o.suite, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: o.auth.then(|| (Hex(vec![1]), vec![0x0403])), sh: ShOp::Right, ops, pk: Packing::default(), data: vec![], cli: CliOpt::plain() };
            let r = p.run(path)?;
            ensure!(r.lib.is_err(), "a client without the server's Finished completes");
            // no application secrets without the server's Finished
            let mut p = r.party;
            p.app = None;
            Ok((vec![], lines(&p, &r.hello.random)?))
        }
        _ => {
            let Some(mut s) = session(&Setup { server: o.server, suite: o.suite, auth: o.auth, seed: o.seed }, path, after)? else { bad!("no session") };
            s.p.io.fin();
            s.p.drain()?;
            if let Err(e) = s.job.get()? {
                bad!("no session: {e:?}");
            }
            if s.p.app.is_none() {
                broken!("no application secrets");
            }
            Ok((lines(&s.p, &s.hello.random)?, vec![]))
        }
    }
}
fn ob(e: impl std::fmt::Display) -> Fail {
    Fail::Broken(format!("OpenSSL: {e}"))
}
fn ossl(o: &One, path: Option<&str>) -> Result<Lines, Fail> {
    const NAMES: [&str; 3] = ["TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256"];
    let mut f = Files::default();
    let log: Arc<Mutex<Vec<String>>> = Default::default();
    let mut c = SslContextBuilder::new(SslMethod::tls()).map_err(ob)?;
    c.set_min_proto_version(Some(SslVersion::TLS1_3)).map_err(ob)?;
    c.set_ciphersuites(NAMES[o.suite as usize % 3]).map_err(ob)?;
    c.set_groups_list("X25519:P-256").map_err(ob)?;
    c.set_num_tickets((o.seed % 3) as usize).map_err(ob)?;
    c.set_verify(SslVerifyMode::NONE);
    let l = log.clone();
    c.set_keylog_callback(move |_, s| l.lock().unwrap().push(s.to_string()));
    let ident = |c: &mut SslContextBuilder, spec: Spec, ca| -> Result<(), Fail> {
        c.set_certificate(X509::from_der(&spec.der(ca)).map_err(ob)?.as_ref()).map_err(ob)?;
        c.set_private_key(PKey::private_key_from_der(&cert::sec1(&cert::scalar(spec.key), true)).map_err(ob)?.as_ref()).map_err(ob)
    };
    let after = |mut t: anothertls::net::TlsStream| read_all(&mut t, &[]).0.len();
    if o.server {
        let mut opt = SrvOpt::plain(3);
        if o.auth {
            opt.ca = Some(7);
            ident(&mut c, Spec::simple("ok", 20), 7)?;
        }
        let cfg = server_config(&opt, path, &mut f).map_err(Fail::Broken)?;
        let (l, a) = listener();
        let job = serve(cfg, l, Some(NOW), after);
        let sock = tcp(a);
        let _ = sock.set_read_timeout(Some(Duration::from_secs(40)));
        match Ssl::new(&c.build()).map_err(ob)?.connect(sock) {
            Ok(mut s) => {
                let _ = s.shutdown();
            }
            Err(e) => bad!("OpenSSL cannot connect: {e}"),
        }
        if let Err(e) = job.get()? {
            bad!("no session with OpenSSL: {e:?}");
        }
    } else {
        let mut opt = CliOpt::plain();
        if o.auth {
            opt.cert = Some((Leaf::of(Spec::simple("client", 21), 7), 21));
        }
        ident(&mut c, Spec::simple("server", 2), 9)?;
        let cfg = client_config(&opt, path, &mut f).map_err(Fail::Broken)?;
        let (l, a) = listener();
        let job = dial(cfg, tcp(a), Some(NOW), after);
        let (sock, _) = l.accept()?;
        let _ = sock.set_read_timeout(Some(Duration::from_secs(40)));
        match Ssl::new(&c.build()).map_err(ob)?.accept(sock) {
            Ok(mut s) => {
                let _ = s.shutdown();
            }
            Err(e) => bad!("OpenSSL cannot accept: {e}"),
        }
        if let Err(e) = job.get()? {
            bad!("no session with OpenSSL: {e:?}");
        }
    }
    let v: Vec<String> = log.lock().unwrap().iter().filter(|l| !l.starts_with("EXPORTER")).map(|l| l.trim().to_string()).collect();
    if v.len() != 4 {
        broken!("OpenSSL logged {} secrets", v.len());
    }
    Ok((v, vec![]))
}
fn prior(p: &Prior) -> Option<Vec<u8>> {
    match p {
        Prior::Missing => None,
        Prior::Empty => Some(vec![]),
        Prior::Lines(n) => Some((0..*n).map(|i| line(["CLIENT_RANDOM", "SERVER_TRAFFIC_SECRET_0", "SERVER_HANDSHAKE_TRAFFIC_SECRET", "CLIENT_TRAFFIC_SECRET_0", "CLIENT_HANDSHAKE_TRAFFIC_SECRET"][i as usize % 5], &rnd(i as u64 / 2), &rnd(i as u64 + 99)) + "\n").collect::<String>().into_bytes()),
        Prior::Bytes(h) => Some(h.0.clone()),
    }
}
/// what a file gained, against what it had to gain
fn judge(i: usize, path: &str, before: &Option<Vec<u8>>, must: &[String], may: &[String]) -> Result<(), Fail> {
    let now = std::fs::read(path).ok();
    if must.is_empty() && may.is_empty() {
        ensure!(now == *before, "key log {i} changed although no session had to be logged there: {:?}", now.map(|b| String::from_utf8_lossy(&b).into_owned()));
        return Ok(());
    }
    let now = now.unwrap_or_default();
    let old = before.clone().unwrap_or_default();
    ensure!(now.starts_with(&old), "key log {i} lost content it had: {:?} was there, now it is {:?}", String::from_utf8_lossy(&old), String::from_utf8_lossy(&now[..now.len().min(600)]));
    let new = String::from_utf8_lossy(&now[old.len()..]).into_owned();
    ensure!(new.is_empty() || new.ends_with('\n'), "key log {i} ends within a line: {new:?}");
    let norm = |l: &str| {
        // hexadecimal digits of either case
        let mut p = l.splitn(2, ' ');
        format!("{} {}", p.next().unwrap_or(""), p.next().unwrap_or("").to_lowercase())
    };
    let mut got: Vec<String> = new.lines().map(norm).collect();
    for m in must {
        match got.iter().position(|g| *g == norm(m)) {
            Some(k) => {
                got.swap_remove(k);
            }
            None => bad!("key log {i} lacks a line: {m}\nadded were:\n{new}"),
        }
    }
    let mut may: Vec<String> = may.iter().map(|m| norm(m)).collect();
    for g in got {
        match may.iter().position(|m| *m == g) {
            Some(k) => {
                may.swap_remove(k);
            }
            None => bad!("key log {i} has a line nobody's secrets explain, or one twice: {g:?}\nadded were:\n{new}"),
        }
    }
    Ok(())
}
/// the working directory and the file named in the environment stay untouched
fn quiet_dir() -> &'static str {
    static D: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let d = format!("{}/cwd", run::tmp());
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        d
    })
}
fn litter() -> Vec<String> {
    std::fs::read_dir(quiet_dir()).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
}
fn history(c: &History) -> Res {
    quiet_dir();
    let mut f = Files::default();
    let files: Vec<(String, Option<Vec<u8>>)> = c
        .prior
        .iter()
        .map(|p| {
            let b = prior(p);
            let path = match &b {
                Some(b) => f.put("keys", b),
                None => f.path("keys"),
            };
            (path, b)
        })
        .collect();
    let mut must = vec![vec![]; files.len()];
    let mut may = vec![vec![]; files.len()];
    let (mut logged, mut sessions, mut wide) = (0, 0, 0);
    for g in &c.groups {
        let files = &files;
        let rs: Vec<_> = if g.len() == 1 {
            vec![(&g[0], Ok(fault::library(c.faults, || run_one(&g[0], g[0].log.map(|k| files[k as usize % files.len()].0.as_str())))))]
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = g.iter().map(|o| (o, s.spawn(move || run_one(o, o.log.map(|k| files[k as usize % files.len()].0.as_str()))))).collect();
                hs.into_iter().map(|(o, h)| (o, h.join())).collect()
            })
        };
        wide = wide.max(g.len());
        for (o, r) in rs {
            let (a, b) = r.map_err(|_| Fail::Broken("thread".into()))??;
            sessions += 1;
            if let Some(k) = o.log {
                logged += 1;
                must[k as usize % files.len()].extend(a);
                may[k as usize % files.len()].extend(b);
            }
        }
        for (i, (path, old)) in files.iter().enumerate() {
            judge(i, path, old, &must[i], &may[i])?;
        }
    }
    let l = litter();
    ensure!(l.is_empty(), "files nobody asked for: {l:?}");
    let had = files.iter().any(|f| f.1.as_ref().is_some_and(|b| !b.is_empty()));
    Ok(nt(logged > 0 && (sessions > 1 || had)).tag_if(wide > 1, "concurrent").tag_if(logged < sessions, "some unlogged").tag_if(c.faults.file > 0, "short file calls").tag_if(c.groups.iter().flatten().any(|o| o.how == How::Ossl), "OpenSSL"))
}
/// enable_keylog: keylog.txt in the working directory; without it, nothing
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Default_ {
    server: bool,
    on: bool,
    twice: bool,
}
fn standard(c: &Default_) -> Res {
    static ONE: Mutex<()> = Mutex::new(());
    let _g = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let d = quiet_dir();
    let env = format!("{}/env-keys", run::tmp());
    std::env::set_var("SSLKEYLOGFILE", &env);
    let mut want = vec![];
    for i in 0..1 + c.twice as u64 {
        let mut f = Files::default();
        let seed = 500 + i;
        let sk = x_secret(seed);
        if c.server {
            let cp = f.put("s.cert", cert::pem("CERTIFICATE", &SrvOpt::plain(3).leaf.der()).as_bytes());
            let kp = f.put("s.key", cert::pem("EC PRIVATE KEY", &cert::sec1(&cert::scalar(3), true)).as_bytes());
            let b = ServerConfigBuilder::new().add_cert_pem(cp).add_privkey_pem(kp);
            let Ok(cfg) = (if c.on { b.enable_keylog() } else { b }).build() else { broken!("configuration refused") };
            let (io, job) = against_server(cfg, Some(NOW), |mut s| read_all(&mut s, &[]).0.len());
            let mut p = Party::new(io, false);
            let hello = ClientHello::simple(rnd(seed), rnd(seed ^ 5), &[0x1301], &x25519_pub(&sk));
            p.send_hello(&hello.raw(), &Packing::default());
            let Ok(_) = p.server_flight(&sk)? else { bad!("no flight") };
            p.send(&[Item::new(Kind::Finished(FinSpec::default()))], &Packing::default());
            p.io.fin();
            p.drain()?;
            ensure!(job.get()?.is_ok(), "no session");
            want.extend(lines(&p, &hello.random)?);
        } else {
            let b = ClientConfigBuilder::new();
            let Ok(cfg) = (if c.on { b.enable_keylog() } else { b }).build() else { broken!("configuration refused") };
            let (io, job) = against_client(cfg, Some(NOW), |mut s| read_all(&mut s, &[]).0.len())?;
            let mut p = Party::new(io, true);
            let Ok(hello) = p.client_hello()? else { bad!("no hello") };
            let Some(z) = hello.shares().ok().and_then(|s| s.into_iter().find(|s| s.0 == 0x1d)).and_then(|s| x25519(&sk, &s.1)) else { bad!("no share") };
            let sh = ServerHello::simple(rnd(seed), hello.sid.0.clone(), 0x1301, &x25519_pub(&sk));
            p.tr.push(sh.raw());
            p.set_shared(SUITES[0], &z);
            let mut wire = vec![];
            p.plain_handshake(&mut wire, &Item { hash: false, prot: Some(Prot::Plain), ..Item::new(Kind::Rec(22, Hex(sh.raw()))) }, &Packing::default());
            wire.extend(p.flight(&[Item::new(Kind::Msg(EE, Hex(vec![0, 0]))), Item::new(Kind::Cert { ctx: None, chain: vec![Leaf::of(Spec::simple("server", 2), 9)] }), Item::new(Kind::CertVerify(CvSpec::right(true, 2))), Item::new(Kind::Finished(FinSpec::default()))], &Packing::default()));
            p.io.send(&wire);
            let fl = p.client_flight()?;
            p.io.fin();
            ensure!(job.get()?.is_ok() && fl.is_ok(), "no session");
            want.extend(lines(&p, &hello.random)?);
        }
    }
    let l = litter();
    let path = format!("{d}/keylog.txt");
    let r = if c.on {
        judge(0, &path, &None, &want, &[]).and_then(|_| if l == ["keylog.txt"] { Ok(()) } else { Err(Fail::Bad(format!("files nobody asked for: {l:?}"))) })
    } else {
        if l.is_empty() { Ok(()) } else { Err(Fail::Bad(format!("files nobody asked for: {l:?}"))) }
    };
    for x in &l {
        let _ = std::fs::remove_file(format!("{d}/{x}"));
    }
    r?;
    ensure!(!std::path::Path::new(&env).exists(), "a key log is written that only the environment names");
    Ok(hit().tag_if(c.on, "on"))
}
/// A name configured, of any length: in the hello of a client, or expected by a server.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Named {
    server: bool,
    name: String,
    auth: bool,
    suite: u8,
}
fn named(c: &Named) -> Res {
    quiet_dir();
    let mut f = Files::default();
    let path = f.path("keys");
    let seed = 90_000 + c.name.len() as u64 * 8 + c.suite as u64;
    let (p, random) = if c.server {
        let cert = c.auth.then(|| (Leaf::of(Spec::simple("ok", 20), 7), 20));
        let srv = SrvOpt { ca: c.auth.then_some(7), name: Some(c.name.clone()), ..SrvOpt::plain(3) };
        let p = CliPlan { seed, suites: vec![0x1301 + c.suite as u16 % 3], sid: 32, sni: Some(c.name.clone()), ch: ChOp::Right, ccs: true, cert, ops: vec![], pk: Packing::default(), data: vec![], srv };
        let r = p.run(Some(&path))?;
        if let Err(e) = &r.lib {
            bad!("no session for a name of {} bytes: {e:?}", c.name.len());
        }
        (r.party, rnd(seed))
    } else {
        let mut cli = CliOpt::plain();
        cli.name = Some(c.name.clone());
        if c.auth {
            cli.cert = Some((Leaf::of(Spec::simple("client", 21), 7), 21));
        }
        let p = SrvPlan { seed, suite: c.suite, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: c.auth.then(|| (Hex(vec![1]), vec![0x0403])), sh: ShOp::Right, ops: vec![], pk: Packing::default(), data: vec![], cli };
        let r = p.run(Some(&path))?;
        if let Err(e) = &r.lib {
            bad!("no session for a name of {} bytes: {e:?}", c.name.len());
        }
        (r.party, r.hello.random.0.clone())
    };
    if p.app.is_none() {
        broken!("no application secrets");
    }
    judge(0, &path, &None, &lines(&p, &random)?, &[])?;
    let l = litter();
    ensure!(l.is_empty(), "files nobody asked for: {l:?}");
    Ok(hit().tag_if(c.auth, "client certificate"))
}
fn main() {
    run::main("C25", "histories of sessions in both roles with the scripted peer and with OpenSSL, with and without client certificates, complete and abandoned, logging to several files with prior content or to none, one after another and at the same time; the file is compared with prior content plus the lines computed from the independent peer's secrets after each group. Non-trivial: something is logged, and there are two sessions or prior content", |c| {
        c.assume("lines of sessions that did not complete may be there, if they are true; the order of lines is free; OpenSSL and the harness's key schedule are right");
        c.shrink_iters = 200;
        let one = || {
            let how = prop_oneof![4 => Just(How::Whole), 1 => Just(How::Left), 1 => (1u16..3000).prop_map(How::Talk), 2 => Just(How::Ossl)];
            (any::<bool>(), 0u8..3, any::<bool>(), prop_oneof![2 => any::<u64>(), 1 => 0u64..4], how, prop_oneof![5 => (0u8..3).prop_map(Some), 1 => Just(None)]).prop_map(|(server, suite, auth, seed, how, log)| One { server, suite, auth, seed, how, log })
        };
        let pr = || prop_oneof![2 => Just(Prior::Missing), 1 => Just(Prior::Empty), 2 => (0u8..9).prop_map(Prior::Lines), 1 => hexn(1..60).prop_map(Prior::Bytes)];
        // first: litter of the histories below would be another finding
        c.list("standard", (0..8).map(|i| Default_ { server: i & 1 == 1, on: i & 2 == 2, twice: i & 4 == 4 }).collect(), standard);
        let text = |n: usize| ["a".repeat(n), format!("{}.{}", "b".repeat(n / 2), "c".repeat(n - n / 2))][n % 2].clone()[..n].to_string();
        c.list("names", (1usize..=255).flat_map(|n| [false, true].map(|server| Named { server, name: text(n), auth: n % 3 == 0, suite: n as u8 % 3 })).chain(["keylog.txt", "../keylog.txt", "CLIENT_RANDOM", "localhost", "127.0.0.1"].iter().flat_map(|s| [false, true].map(|server| Named { server, name: s.to_string(), auth: false, suite: 0 }))).collect(), named);
        c.sub("single", 4000, || (pr(), one(), faults()).prop_map(|(p, o, faults)| History { prior: vec![p], groups: vec![vec![o]], faults }), history);
        c.sub("history", 3000, || (vec(pr(), 1..4), vec(prop_oneof![5 => vec(one(), 1..2), 1 => vec(one(), 2..5)], 1..6), faults()).prop_map(|(prior, groups, faults)| History { prior, groups, faults }), history);
        c.sub("concurrent", 600, || (pr(), vec(one(), 6..16)).prop_map(|(p, mut g)| { for o in &mut g { o.log = o.log.map(|_| 0); } History { prior: vec![p], groups: vec![g], faults: Default::default() } }), history);
    })
}
