//! C29: sequences of builder calls against a model; then sessions with the configuration that came out.
use anothertls::net::alert::TlsError;
use anothertls::net::client::ClientConfig;
use anothertls::net::server::ServerConfig;
use anothertls::rand::PRNG;
use anothertls::{ClientConfigBuilder, ClientConnection, ServerConfigBuilder, ServerConnection};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::cert::{self, Spec};
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

/// A file named in a builder call.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Src {
    /// which one, and how it is written down
    Good(u8, u8),
    Bad(u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Opt {
    Cert(Src),
    Key(Src),
    Ca(Src),
    Verify(u8),
    Name(u8),
    Log(u8),
    StdLog,
    /// the weak generator
    Weak(bool),
}
/// What the scripted client of a probe does, or the scripted server.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Probe {
    suite: u8,
    seed: u64,
    /// a name in the hello
    sni: Option<u8>,
    /// issued by this authority, with a name the third check likes; None: no certificate
    cert: Option<(u8, bool)>,
    /// the scripted server asks for a certificate
    ask: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    server: bool,
    opts: Vec<Opt>,
    probes: Vec<Probe>,
}
/// content of the right kind under another label
const CERT_LABELS: [&str; 8] = ["CERTIFICATE REQUEST", "NEW CERTIFICATE REQUEST", "PKCS7", "CMS", "PUBLIC KEY", "PRIVATE KEY", "certificate", "CERTIFICATES"];
const KEY_LABELS: [&str; 8] = ["CERTIFICATE", "EC PARAMETERS", "PUBLIC KEY", "ENCRYPTED PRIVATE KEY", "RSA PRIVATE KEY", "DSA PRIVATE KEY", "ec private key", "EC PRIVATE KEYS"];
const N_BAD: u8 = 25;
fn name(i: u8) -> String {
    match i % 12 {
        0 => "example.org".into(),
        1 => "a".into(),
        2 => "example.or".into(),
        3 => "example.orgs".into(),
        4 => "n".repeat(255),
        5 => "www.example.org".into(),
        6 => "Example.org".into(),
        7 => "MiXed-CASE.Example".into(),
        8 => "xn--bcher-kva.example.".into(),
        9 => " b\u{fc}cher_7".into(),
        10 => "n".repeat(256),
        _ => "".into(),
    }
}
/// fit for a ClientHello
fn fits(i: u8) -> bool {
    i % 12 < 10
}
fn key_seed(i: u8) -> u64 {
    4000 + (i % 4) as u64
}
fn ca_seed(i: u8) -> u64 {
    4100 + (i % 3) as u64
}
fn cert_der(i: u8) -> Vec<u8> {
    Spec::simple(&format!("party {}", i % 4), key_seed(i)).der(4100)
}
fn write(text: String, form: u8, f: &mut Files) -> String {
    let other = cert::pem("DH PARAMETERS", &[0x30, 3, 2, 1, form]);
    let t = match form % 5 {
        0 => text,
        1 => text.replace('\n', "\r\n"),
        2 => other + &text,
        3 => format!("subject=/CN=x\n{text}\n{other}"),
        _ => text.trim_end().to_string(),
    };
    f.put("file", t.as_bytes())
}
#[derive(Clone, Copy, PartialEq)]
enum Role {
    /// read as a certificate
    Parsed,
    /// only taken from the file
    Raw,
    Key,
}
/// A path nothing usable can come from; and whether a refusal may be left out.
fn bad(k: u8, role: Role, f: &mut Files) -> (String, bool) {
    let label = if role == Role::Key { "EC PRIVATE KEY" } else { "CERTIFICATE" };
    let der = if role == Role::Key { cert::sec1(&cert::scalar(4000), true) } else { cert_der(0) };
    let text = cert::pem(label, &der);
    let lines: Vec<&str> = text.lines().collect();
    let raw = role == Role::Raw;
    let n = order();
    let scalar = |d: &[u8]| cert::pem(label, &cert::sec1(d, false));
    let (bytes, free): (Vec<u8>, bool) = match k % N_BAD {
        0 => return (f.path("missing"), false),
        1 => (vec![], false),
        2 => return (run::tmp(), false),
        3 => (b"neither a certificate nor a key\n".to_vec(), false),
        4 => (der, false),
        5 => (if role == Role::Key { cert::pem("CERTIFICATE", &cert_der(0)) } else { cert::pem("EC PRIVATE KEY", &cert::sec1(&cert::scalar(4000), true)) }.into_bytes(), false),
        6 => (lines[..lines.len() - 1].join("\n").into_bytes(), false),
        7 => (text.replacen(&lines[1][3..5], "*-", 1).into_bytes(), false),
        8 => (cert::pem(if role == Role::Key { "PRIVATE KEY" } else { "X509 CRL" }, &der).into_bytes(), false),
        9 => (lines[1..].join("\n").into_bytes(), false),
        // content that is no certificate, no key
        10 => (cert::pem(label, &der[..der.len() - 7]).into_bytes(), raw),
        11 => (cert::pem(label, b"something else").into_bytes(), raw),
        12 => (cert::pem(label, &[0x30, 0]).into_bytes(), raw),
        13 => (if role == Role::Key { scalar(&[0; 32]).into_bytes() } else { cert::pem(label, &cert_der(0)[1..]).into_bytes() }, raw),
        14 => (if role == Role::Key { scalar(&n).into_bytes() } else { cert::pem(label, &[]).into_bytes() }, raw),
        15 => (if role == Role::Key { scalar(&[0xff; 32]).into_bytes() } else { [&[0xff, 0xfe][..], text.as_bytes()].concat() }, false),
        17.. => (cert::pem(if role == Role::Key { KEY_LABELS } else { CERT_LABELS }[(k % N_BAD) as usize - 17], &der).into_bytes(), false),
        16 => {
            if role == Role::Key {
                // another curve: secp384r1
                let d = cert::seq(&[cert::integer(&[1]), cert::tlv(4, &[7; 48]), cert::tlv(0xa0, &cert::oid("2b81040022"))]);
                (cert::pem(label, &d).into_bytes(), false)
            } else {
                (format!("-----BEGIN {label}----\n{}", lines[1..].join("\n")).into_bytes(), false)
            }
        }
    };
    (f.put("bad", &bytes), free)
}
fn order() -> Vec<u8> {
    bn32(&p256_order())
}
/// The model of a configuration.
#[derive(Clone, Debug, Default)]
struct Model {
    cert: Option<u8>,
    key: Option<u8>,
    ca: Option<u8>,
    verify: Option<u8>,
    name: Option<u8>,
    log: Option<String>,
    weak: bool,
    /// reasons for a refusal, and for one that is allowed
    no: Vec<String>,
    maybe: Vec<String>,
    /// logs named before
    old: Vec<String>,
}
enum Built {
    S(ServerConfig),
    C(ClientConfig),
    No(String),
}
/// Works out the calls beforehand: (call, path or text).
fn prepare(c: &Case, f: &mut Files) -> (Model, Vec<(Opt, String)>) {
    let mut m = Model::default();
    let mut calls = vec![];
    let mut logs: Vec<(u8, String)> = vec![];
    for o in &c.opts {
        let mut src = |s: &Src, role: Role, what: &str, f: &mut Files, m: &mut Model| -> (Option<u8>, String) {
            match s {
                Src::Good(i, form) => {
                    let text = match (role, what) {
                        (Role::Key, _) => cert::pem("EC PRIVATE KEY", &cert::sec1(&cert::scalar(key_seed(*i)), form % 2 == 0)),
                        (_, "CA") => cert::pem("CERTIFICATE", &cert::ca(ca_seed(*i))),
                        _ => cert::pem("CERTIFICATE", &cert_der(*i)),
                    };
                    (Some(*i), write(text, *form, f))
                }
                Src::Bad(k) => {
                    let (p, free) = bad(*k, role, f);
                    if free { &mut m.maybe } else { &mut m.no }.push(format!("{what}: bad file {}", k % N_BAD));
                    (None, p)
                }
            }
        };
        let arg = match o {
            Opt::Cert(s) => {
                let (i, p) = src(s, if c.server { Role::Raw } else { Role::Parsed }, "certificate", f, &mut m);
                // a server may take over what it cannot parse: then nothing is known of its certificate
                m.cert = i;
                p
            }
            Opt::Key(s) => {
                let (i, p) = src(s, Role::Key, "key", f, &mut m);
                m.key = i.or(m.key);
                p
            }
            Opt::Ca(_) | Opt::Verify(_) | Opt::Weak(_) if !c.server => continue,
            Opt::Ca(s) => {
                let (i, p) = src(s, Role::Parsed, "CA", f, &mut m);
                m.ca = i.or(m.ca);
                p
            }
            Opt::Verify(i) => {
                m.verify = Some(i % 3);
                String::new()
            }
            Opt::Name(i) => {
                m.name = Some(*i);
                name(*i)
            }
            Opt::Log(i) => {
                let p = match logs.iter().find(|l| l.0 == *i) {
                    Some(l) => l.1.clone(),
                    None => f.path("keys"),
                };
                logs.push((*i, p.clone()));
                m.log = Some(p.clone());
                p
            }
            Opt::StdLog => {
                m.log = Some("keylog.txt".into());
                String::new()
            }
            Opt::Weak(w) => {
                m.weak = *w;
                String::new()
            }
        };
        calls.push((o.clone(), arg));
    }
    m.old = logs.into_iter().map(|l| l.1).filter(|p| m.log.as_ref() != Some(p)).collect();
    if c.server {
        if m.cert.is_none() && m.maybe.is_empty() {
            m.no.push("no certificate".into());
        }
        if m.key.is_none() {
            m.no.push("no key".into());
        }
        if m.verify.is_some() && m.ca.is_none() {
            m.no.push("a check and no CA".into());
        }
    } else {
        if m.cert.is_some() && m.key.is_none() {
            m.no.push("a certificate without a key".into());
        }
        if let Some(n) = m.name {
            if !fits(n) {
                m.no.push("a name that fits nowhere".into());
            }
        }
    }
    if let (Some(c), Some(k)) = (m.cert, m.key) {
        if c % 4 != k % 4 {
            m.maybe.push("the key is not the certificate's".into());
        }
    }
    (m, calls)
}
fn build(server: bool, default: bool, calls: &[(Opt, String)]) -> Result<Built, Fail> {
    let calls = calls.to_vec();
    let r = guard(move || {
        if server {
            let mut b = if default { ServerConfigBuilder::default() } else { ServerConfigBuilder::new() };
            for (o, a) in calls {
                b = match o {
                    Opt::Cert(_) => b.add_cert_pem(a),
                    Opt::Key(_) => b.add_privkey_pem(a),
                    Opt::Ca(_) => b.add_client_cert_ca(a),
                    Opt::Verify(i) => b.set_client_cert_custom_verify_fn(VERIFY[i as usize % 3]),
                    Opt::Name(_) => b.set_server_name(a),
                    Opt::Log(_) => b.set_keylog_path(a),
                    Opt::StdLog => b.enable_keylog(),
                    Opt::Weak(w) => b.set_prng(if w { PRNG::Simple } else { PRNG::URandom }),
                }
            }
            b.build().map(Built::S)
        } else {
            let mut b = if default { ClientConfigBuilder::default() } else { ClientConfigBuilder::new() };
            for (o, a) in calls {
                b = match o {
                    Opt::Cert(_) => b.add_client_cert_pem(a),
                    Opt::Key(_) => b.add_client_key_pem(a),
                    Opt::Name(_) => b.set_server_name(a),
                    Opt::Log(_) => b.set_keylog_path(a),
                    Opt::StdLog => b.enable_keylog(),
                    _ => b,
                }
            }
            b.build().map(Built::C)
        }
    });
    match r {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Ok(Built::No(e)),
        Err(p) if p.in_harness() => broken!("{p}"),
        Err(p) => Ok(Built::No(format!("panic: {}", p.msg))),
    }
}
/// A flight up to its Finished: (type, message, transcript hash before it). Err: what came instead.
type Raw = Result<Vec<(u8, Vec<u8>, Vec<u8>)>, Ev>;
fn flight(p: &mut Party, hs_secret: impl Fn(&Party) -> Vec<u8>) -> Result<Raw, Fail> {
    let mut v = vec![];
    loop {
        match p.next()? {
            Ev::Ccs => {}
            Ev::Msg(t, raw) => {
                let th = p.th();
                if t == FIN {
                    let want = finished(p.suite.h(), &hs_secret(p), &th);
                    if raw[4..] != want[..] {
                        return Ok(Err(Ev::Junk("a wrong Finished".into())));
                    }
                }
                p.tr.push(raw.clone());
                v.push((t, raw, th));
                if t == FIN {
                    return Ok(Ok(v));
                }
            }
            e => return Ok(Err(e)),
        }
    }
}
fn signed_by(key: u8, server: bool, cv: &[u8], th: &[u8]) -> bool {
    let Ok((s, sig)) = parse_cv(&cv[4..]) else { return false };
    s == 0x0403 && {
        let spki = cert::spki(&cert::point(&cert::scalar(key_seed(key))));
        let k = openssl::pkey::PKey::public_key_from_der(&spki).unwrap();
        let mut v = openssl::sign::Verifier::new(openssl::hash::MessageDigest::sha256(), &k).unwrap();
        v.update(&cv_content(server, th)).unwrap();
        v.verify(&sig).unwrap_or(false)
    }
}
/// A session the configuration must lead to, and its key log lines.
struct Done {
    random: Vec<u8>,
    lines: Vec<String>,
}
fn lines(p: &Party, random: &[u8]) -> Result<Vec<String>, Fail> {
    let (Some(s), Some((c, v))) = (&p.sec, &p.app) else { broken!("no secrets") };
    Ok([("CLIENT_HANDSHAKE_TRAFFIC_SECRET", &s.c_hs), ("SERVER_HANDSHAKE_TRAFFIC_SECRET", &s.s_hs), ("CLIENT_TRAFFIC_SECRET_0", c), ("SERVER_TRAFFIC_SECRET_0", v)].iter().map(|(l, x)| format!("{l} {} {}", hex(random), hex(x))).collect())
}
fn end(mut p: Party) -> Result<(), Fail> {
    p.io.fin();
    p.drain().map(|_| ())
}
fn probe_server(m: &Model, pr: &Probe, a: std::net::SocketAddr, seen: &mut Vec<Vec<u8>>) -> Result<(bool, Option<Done>), Fail> {
    let mut p = Party::new(Io::new(tcp(a)), false);
    let sk = x_secret(pr.seed);
    let mut hello = ClientHello::simple(rnd(pr.seed), rnd(pr.seed ^ 5), &[SUITES[pr.suite as usize % 3].0], &x25519_pub(&sk));
    if let Some(n) = pr.sni {
        hello.exts.insert(pr.seed as usize % 5, (X_SNI, Hex(sni(name(n).as_bytes()))));
    }
    p.send_hello(&hello.raw(), &Packing::default());
    let sh = match p.next()? {
        Ev::Msg(SH, raw) => raw,
        e => {
            let wrong = matches!((m.name, pr.sni), (Some(a), Some(b)) if name(a) != name(b));
            ensure!(wrong, "the hello is answered with {e:?} although the name is right: configured {:?}, asked for {:?}", m.name.map(name), pr.sni.map(name));
            end(p)?;
            return Ok((false, None));
        }
    };
    let Ok(h) = ServerHello::parse(&sh[4..]) else { bad!("bad ServerHello") };
    if let (Some(x), Some(y)) = (m.name, pr.sni) {
        ensure!(name(x) == name(y), "the server is named {:?} and takes a hello for {:?}", name(x), name(y));
    }
    if !m.weak {
        ensure!(!seen.contains(&h.random.0), "a server random twice although no weak generator was asked for");
        seen.push(h.random.0.clone());
    }
    p.tr.push(sh.clone());
    let Some(z) = h.share().ok().filter(|s| s.0 == 0x1d).and_then(|s| x25519(&sk, &s.1)) else { bad!("no usable share") };
    p.set_shared(SUITES[pr.suite as usize % 3], &z);
    let v = match flight(&mut p, |p| p.sec.as_ref().unwrap().s_hs.clone())? {
        Ok(v) => v,
        Err(e) => bad!("no flight from the server: {e:?}"),
    };
    p.derive_app();
    p.read = Prot::Ap;
    let order: Vec<u8> = v.iter().map(|x| x.0).collect();
    let want: &[u8] = if m.ca.is_some() { &[EE, CR, CERT, CV, FIN] } else { &[EE, CERT, CV, FIN] };
    ensure!(order == want, "client CA {:?}, and the server's flight is {order:?}", m.ca);
    let k = v.len();
    let Ok((_, chain)) = parse_cert(&v[k - 3].1[4..]) else { bad!("bad Certificate") };
    if let Some(c) = m.cert {
        ensure!(chain.first().map(|x| &x.0) == Some(&cert_der(c)), "the certificate sent is not the one configured last ({c})");
    }
    let Some(key) = m.key else { broken!("no key in the model") };
    ensure!(signed_by(key, true, &v[k - 2].1, &v[k - 2].2), "the CertificateVerify is not by the key configured last ({key})");
    let mut items = vec![];
    let mut good = true;
    if m.ca.is_some() {
        if let Ok((ctx, _)) = parse_cr(&v[1].1[4..]) {
            p.ctx = ctx;
        }
        match pr.cert {
            Some((ca, likes)) => {
                let spec = Spec::simple(if likes { "ok client" } else { "client" }, 4200);
                good = Some(ca % 3) == m.ca.map(|c| c % 3) && m.verify.map(|i| verify_says(i, &spec)).unwrap_or(true);
                items.push(Item::new(Kind::Cert { ctx: None, chain: vec![Leaf::of(spec, ca_seed(ca))] }));
                items.push(Item::new(Kind::CertVerify(CvSpec::right(false, 4200))));
            }
            None => {
                good = false;
                items.push(Item::new(Kind::Cert { ctx: None, chain: vec![] }));
            }
        }
    }
    items.push(Item::new(Kind::Finished(FinSpec::default())));
    p.send(&items, &Packing { coalesce: pr.seed % 2 == 0, ..Default::default() });
    let l = lines(&p, &hello.random)?;
    end(p)?;
    Ok((good, Some(Done { random: hello.random.0, lines: l })))
}
fn probe_client(m: &Model, pr: &Probe, sock: std::net::TcpStream) -> Result<Option<Done>, Fail> {
    let mut p = Party::new(Io::new(sock), true);
    let sk = x_secret(pr.seed);
    let hello = match p.client_hello()? {
        Ok(h) => h,
        Err(e) => bad!("no hello: {e:?}"),
    };
    let got = match hello.sni() {
        Ok(s) => s,
        Err(e) => bad!("server_name: {e}"),
    };
    let want = m.name.map(|n| name(n).into_bytes());
    ensure!(got == want, "the hello asks for {:?}; the name configured last is {:?}", got.map(|g| String::from_utf8_lossy(&g).into_owned()), m.name.map(name));
    let Some(z) = hello.shares().ok().and_then(|s| s.into_iter().find(|s| s.0 == 0x1d)).and_then(|s| x25519(&sk, &s.1)) else { bad!("no share") };
    let suite = SUITES[pr.suite as usize % 3];
    let sh = ServerHello::simple(rnd(pr.seed), hello.sid.0.clone(), suite.0, &x25519_pub(&sk));
    p.tr.push(sh.raw());
    p.set_shared(suite, &z);
    let mut wire = vec![];
    let pk = Packing { coalesce: pr.seed % 2 == 0, ..Default::default() };
    p.plain_handshake(&mut wire, &Item { hash: false, prot: Some(Prot::Plain), ..Item::new(Kind::Rec(22, Hex(sh.raw()))) }, &pk);
    let mut items = vec![Item::new(Kind::Msg(EE, Hex(vec![0, 0])))];
    let ctx = vec![5; pr.seed as usize % 7];
    if pr.ask {
        items.push(Item::new(Kind::Msg(CR, Hex(cr_body(&ctx, &[0x0403])))));
    }
    items.extend([Item::new(Kind::Cert { ctx: None, chain: vec![Leaf::of(Spec::simple("server", 2), 9)] }), Item::new(Kind::CertVerify(CvSpec::right(true, 2))), Item::new(Kind::Finished(FinSpec::default()))]);
    wire.extend(p.flight(&items, &pk));
    p.io.send(&wire);
    let v = match flight(&mut p, |p| p.sec.as_ref().unwrap().c_hs.clone())? {
        Ok(v) => v,
        Err(e) => bad!("no flight from the client: {e:?}"),
    };
    p.read = Prot::Ap;
    let order: Vec<u8> = v.iter().map(|x| x.0).collect();
    let want: &[u8] = match (pr.ask, m.cert) {
        (false, _) => &[FIN],
        (true, None) => &[CERT, FIN],
        (true, Some(_)) => &[CERT, CV, FIN],
    };
    ensure!(order == want, "asked for a certificate: {}, configured: {:?}; the client's flight is {order:?}", pr.ask, m.cert);
    if pr.ask {
        let Ok((c, chain)) = parse_cert(&v[0].1[4..]) else { bad!("bad Certificate") };
        ensure!(c == ctx, "another request context");
        ensure!(chain.first().map(|x| x.0.clone()) == m.cert.map(cert_der), "the certificate sent is not the one configured last ({:?})", m.cert);
        if m.cert.is_some() {
            let Some(key) = m.key else { broken!("no key in the model") };
            ensure!(signed_by(key, false, &v[1].1, &v[1].2), "the CertificateVerify is not by the key configured last ({key})");
        }
    }
    let l = lines(&p, &hello.random)?;
    end(p)?;
    Ok(Some(Done { random: hello.random.0, lines: l }))
}
fn cwd() {
    static D: std::sync::OnceLock<()> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let d = format!("{}/cwd", run::tmp());
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
    });
}
fn case(c: &Case) -> Res {
    cwd();
    let mut f = Files::default();
    let (m, calls) = prepare(c, &mut f);
    let b = build(c.server, c.probes.len() % 2 == 1, &calls)?;
    let n = m.no.len();
    let what = if c.server { "server" } else { "client" };
    if let Built::No(e) = &b {
        ensure!(n > 0 || !m.maybe.is_empty(), "a usable {what} configuration was refused: {e}");
        return Ok(nt(n == 1).tag("refused"));
    }
    ensure!(n == 0, "a {what} configuration comes out although it has to be refused: {:?}", m.no);
    if c.server && m.cert.is_none() {
        // content nobody can use, taken as it is
        return Ok(hit().tag("raw certificate"));
    }
    let k = c.probes.len();
    let mut done = vec![];
    let mut results: Vec<Result<(), TlsError>> = vec![];
    let mut want = vec![];
    let mut seen = vec![];
    match b {
        Built::S(cfg) => {
            let (l, a) = listener();
            let job = Job::new("server", move || {
                let s = ServerConnection::new(l, cfg);
                (0..k).map(|_| clock::at(NOW, 0, || s.accept()).map(|(mut t, _)| { read_all(&mut t, &[]); })).collect::<Vec<_>>()
            });
            for pr in &c.probes {
                let (good, d) = probe_server(&m, pr, a, &mut seen)?;
                want.push(good);
                if good {
                    done.extend(d);
                }
            }
            results.extend(job.get()?);
        }
        Built::C(cfg) => {
            let (l, a) = listener();
            let job = Job::new("client", move || (0..k).map(|_| clock::at(NOW, 0, || ClientConnection::connect(tcp(a), &cfg)).map(|mut t| { read_all(&mut t, &[]); })).collect::<Vec<_>>());
            for pr in &c.probes {
                let (s, _) = l.accept()?;
                want.push(true);
                done.extend(probe_client(&m, pr, s)?);
            }
            results.extend(job.get()?);
        }
        Built::No(_) => unreachable!(),
    }
    for (i, (r, w)) in results.iter().zip(&want).enumerate() {
        ensure!(r.is_ok() == *w, "session {i} ({:?}) ends the handshake with {r:?} under {m:?}", c.probes[i]);
    }
    // key logs
    for o in &m.old {
        ensure!(!std::path::Path::new(o).exists(), "a key log that was replaced by a later call is written");
    }
    let std = std::fs::read_to_string("keylog.txt").unwrap_or_default();
    let text = m.log.as_ref().map(|p| std::fs::read_to_string(p).unwrap_or_default()).unwrap_or_default().to_lowercase();
    for d in &done {
        let id = hex(&d.random);
        for l in &d.lines {
            ensure!(m.log.is_none() || text.contains(&l.to_lowercase()), "the key log set by the last call lacks {l}");
        }
        ensure!(m.log.as_deref() == Some("keylog.txt") || !std.contains(&id), "a session is in keylog.txt although that log is not enabled");
    }
    let set = [m.ca.is_some(), m.verify.is_some(), m.name.is_some(), m.log.is_some(), !c.server && m.cert.is_some()].iter().filter(|x| **x).count();
    Ok(nt(set > 0 && !done.is_empty()).tag(format!("{what} in force: {set}")).tag_if(want.iter().any(|w| !w), "refused session"))
}
fn main() {
    run::main("C29", "sequences of builder calls in any order and repeated, with readable, missing, empty, unreadable, wrong-typed and undecodable files, against a model where every refused call refuses the whole and the last call counts; then several sessions of the same configuration with a scripted peer. Non-trivial: exactly one reason for a refusal, or a configuration with an option set and a completed session", |c| {
        c.assume("a key that is not the certificate's, and a server certificate that is not parseable, may be refused or not (the builders do not look); a builder refuses by an error or by a panic");
        c.shrink_iters = 300;
        let probe = || (0u8..3, any::<u64>(), proptest::option::of(0u8..10), proptest::option::weighted(0.8, (0u8..3, any::<bool>())), any::<bool>()).prop_map(|(suite, seed, sni, cert, ask)| Probe { suite, seed, sni, cert, ask });
        let good = || (0u8..4, 0u8..5).prop_map(|(i, f)| Src::Good(i, f));
        let src = || prop_oneof![8 => (0u8..4, 0u8..5).prop_map(|(i, f)| Src::Good(i, f)), 1 => (0..N_BAD).prop_map(Src::Bad)];
        let opt = move || prop_oneof![
            4 => src().prop_map(Opt::Cert),
            4 => src().prop_map(Opt::Key),
            3 => src().prop_map(Opt::Ca),
            2 => (0u8..3).prop_map(Opt::Verify),
            3 => (0u8..12).prop_map(Opt::Name),
            2 => (0u8..3).prop_map(Opt::Log),
            1 => Just(Opt::StdLog),
            1 => any::<bool>().prop_map(Opt::Weak),
        ];
        let fine = move || prop_oneof![
            3 => good().prop_map(Opt::Cert),
            3 => good().prop_map(Opt::Key),
            3 => good().prop_map(Opt::Ca),
            3 => (0u8..3).prop_map(Opt::Verify),
            3 => (0u8..10).prop_map(Opt::Name),
            2 => (0u8..3).prop_map(Opt::Log),
            1 => Just(Opt::StdLog),
            1 => any::<bool>().prop_map(Opt::Weak),
        ];
        // a complete set, some more calls, all shuffled
        let whole = move || (any::<bool>(), 0u8..4, 0u8..5, any::<bool>(), vec(fine(), 0..6), vec(probe(), 1..5), any::<u64>()).prop_map(|(server, i, f, match_, mut o, mut probes, s)| {
            o.push(Opt::Cert(Src::Good(i, f)));
            o.push(Opt::Key(Src::Good(if match_ { i } else { (s >> 40) as u8 }, f / 2)));
            let ca = o.iter().filter_map(|x| if let Opt::Ca(Src::Good(i, _)) = x { Some(*i) } else { None }).next_back();
            if o.iter().any(|x| matches!(x, Opt::Verify(_))) && ca.is_none() && server {
                o.push(Opt::Ca(Src::Good(0, 0)));
            }
            let n = o.len();
            let mut s = s;
            for i in (1..n).rev() {
                o.swap(i, s as usize % (i + 1));
                s /= i as u64 + 1;
            }
            // often what fits
            let last = |f: &dyn Fn(&Opt) -> Option<u8>| o.iter().filter_map(f).next_back();
            let (ca, nm) = (last(&|x| if let Opt::Ca(Src::Good(i, _)) = x { Some(*i) } else { None }), last(&|x| if let Opt::Name(i) = x { Some(*i) } else { None }));
            for (j, p) in probes.iter_mut().enumerate() {
                if p.seed & 3 != 0 || j == 0 {
                    p.sni = p.sni.and(nm).or(p.sni);
                }
                if let (Some(c), true) = (ca, p.seed & 12 != 0) {
                    p.cert = p.cert.map(|x| (c, x.1));
                }
            }
            Case { server, opts: o, probes }
        });
        // every kind of bad file in every place, alone
        let mut each = vec![];
        for k in 0..N_BAD {
            for server in [true, false] {
                for w in 0..3 {
                    let s = Src::Bad(k);
                    let o = match w {
                        0 => Opt::Cert(s),
                        1 => Opt::Key(s),
                        _ if server => Opt::Ca(s),
                        _ => continue,
                    };
                    for late in [false, true] {
                        let mut opts = vec![Opt::Cert(Src::Good(1, 0)), Opt::Key(Src::Good(1, 0))];
                        if late {
                            opts.push(o.clone());
                        } else if w < 2 {
                            opts[w] = o.clone();
                        } else {
                            opts.insert(0, o.clone());
                        }
                        each.push(Case { server, opts, probes: vec![] });
                    }
                }
            }
        }
        // every subset of the options once
        for server in [true, false] {
            for bits in 0..32u8 {
                let mut opts = vec![];
                let all = [Opt::Cert(Src::Good(1, 0)), Opt::Key(Src::Good(1, 1)), Opt::Ca(Src::Good(2, 0)), Opt::Verify(2), Opt::Name(0)];
                for (i, o) in all.iter().enumerate() {
                    if bits >> i & 1 == 1 {
                        opts.push(o.clone());
                    }
                }
                let pr = |cert, sni, ask| Probe { suite: bits % 3, seed: bits as u64 + 77, sni, cert, ask };
                each.push(Case { server, opts, probes: vec![pr(Some((2, true)), Some(0), true), pr(Some((2, false)), None, false), pr(Some((1, true)), Some(0), true), pr(None, Some(2), true), pr(Some((2, true)), Some(0), true)] });
            }
        }
        // every name, asked for and near
        for i in 0..12u8 {
            for server in [true, false] {
                let opts = vec![Opt::Cert(Src::Good(1, 0)), Opt::Key(Src::Good(1, 0)), Opt::Name(i)];
                let pr = |j: u8| Probe { suite: j % 3, seed: 9 + j as u64, sni: Some(j), cert: None, ask: false };
                each.push(Case { server, opts, probes: (0..10).map(pr).collect() });
            }
        }
        c.list("each", each, case);
        c.sub("calls", 2500, move || (any::<bool>(), vec(opt(), 0..8), vec(probe(), 1..4)).prop_map(|(server, opts, probes)| Case { server, opts, probes }), case);
        c.sub("whole", 3500, whole, case);
    })
}
