//! C12: handshakes with OpenSSL, and with the scripted peer for values OpenSSL does not let choose.
use anothertls::net::alert::TlsError;
use anothertls::net::TlsStream;
use openssl::pkey::PKey;
use openssl::ssl::*;
use openssl::x509::X509;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vharness::cert::{self, Spec};
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

extern "C" {
    fn SSL_CTX_set_block_padding(ctx: *mut openssl_sys::SSL_CTX, n: usize) -> i32;
}
const NAMES: [&str; 3] = ["TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256"];

/// The other implementation's settings.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ossl {
    /// indices into NAMES, in order
    suites: Vec<u8>,
    /// X25519 is first (a client shares the first)
    groups: u8,
    sigalgs: u8,
    compat: bool,
    /// TLS 1.2 allowed too
    old: bool,
    alpn: bool,
    tickets: u8,
    fragment: Option<u16>,
    pad: Option<u16>,
    /// extension of its own in the hello
    custom: Option<(u16, Hex)>,
    status: bool,
}
const GROUPS: [&str; 6] = ["X25519", "X25519:P-256", "X25519:P-256:P-384:P-521", "X25519:X448", "X25519:P-256:X448:P-521:P-384:ffdhe2048:ffdhe3072", "X25519:P-384"];
/// a server that would rather have used another group says so
const SERVED: [&str; 6] = ["X25519", "X25519:P-256", "P-256:X25519", "P-384:P-521:X25519:P-256", "X448:X25519", "ffdhe2048:P-256:X25519:X448"];
const SIGALGS: [&str; 4] = ["", "ECDSA+SHA256", "ed25519:ECDSA+SHA256:RSA-PSS+SHA256", "RSA-PSS+SHA256:RSA-PSS+SHA384:ECDSA+SHA384:ECDSA+SHA256"];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    /// first by OpenSSL
    up: Vec<Blob>,
    /// then by the library
    down: Vec<Blob>,
}
fn ctx(o: &Ossl, server: bool, log: &Arc<Mutex<Vec<String>>>) -> Result<SslContextBuilder, openssl::error::ErrorStack> {
    let mut c = SslContextBuilder::new(SslMethod::tls())?;
    c.set_min_proto_version(Some(if o.old { SslVersion::TLS1_2 } else { SslVersion::TLS1_3 }))?;
    c.set_ciphersuites(&o.suites.iter().map(|i| NAMES[*i as usize % 3]).collect::<Vec<_>>().join(":"))?;
    let g = if server { SERVED } else { GROUPS };
    c.set_groups_list(g[o.groups as usize % g.len()])?;
    let s = SIGALGS[o.sigalgs as usize % SIGALGS.len()];
    if !s.is_empty() {
        c.set_sigalgs_list(s)?;
    }
    if o.compat {
        c.set_options(SslOptions::ENABLE_MIDDLEBOX_COMPAT);
    } else {
        c.clear_options(SslOptions::ENABLE_MIDDLEBOX_COMPAT);
    }
    if o.alpn {
        if server {
            c.set_alpn_select_callback(|_, _| Err(AlpnError::NOACK));
        } else {
            c.set_alpn_protos(b"\x02h2\x08http/1.1")?;
        }
    }
    c.set_num_tickets(o.tickets as usize)?;
    let p = c.as_ptr();
    unsafe {
        if let Some(f) = o.fragment {
            openssl_sys::SSL_CTX_ctrl(p, 52, f.clamp(512, 16384) as _, std::ptr::null_mut());
        }
        if let Some(n) = o.pad {
            SSL_CTX_set_block_padding(p, (n as usize).clamp(1, 16384));
        }
    }
    if let (Some((t, b)), false) = (&o.custom, server) {
        let b = b.0.clone();
        // numbers without a meaning of their own
        c.add_custom_ext(0x7000 + t % 0x1000, ExtensionContext::CLIENT_HELLO, move |_, _, _| Ok(Some(b.clone())), |_, _, _, _| Ok(()))?;
    }
    if let (Some((t, b)), true) = (&o.custom, server) {
        let b = b.0.clone();
        c.add_custom_ext(0x7000 + t % 0x1000, ExtensionContext::TLS1_3_CERTIFICATE_REQUEST | ExtensionContext::TLS1_3_NEW_SESSION_TICKET, move |_, _, _| Ok(Some(b.clone())), |_, _, _, _| Ok(()))?;
    }
    let log = log.clone();
    c.set_keylog_callback(move |_, l| log.lock().unwrap().push(l.to_string()));
    Ok(c)
}
fn pkey(seed: u64) -> Result<PKey<openssl::pkey::Private>, Fail> {
    PKey::private_key_from_der(&cert::sec1(&cert::scalar(seed), true)).map_err(broken)
}
fn x509(der: &[u8]) -> Result<X509, Fail> {
    X509::from_der(der).map_err(broken)
}
fn broken(e: impl std::fmt::Display) -> Fail {
    Fail::Broken(format!("OpenSSL: {e}"))
}
/// (read, end, complaint)
type Out = (Vec<u8>, Option<TlsError>, Option<String>);
fn lib_part(t: &Talk) -> impl FnOnce(TlsStream) -> Out + Send + 'static {
    let t = t.clone();
    move |mut s| {
        let want: usize = t.up.iter().map(|b| b.len).sum();
        let mut got = vec![];
        let mut b = vec![0; 3000];
        while got.len() < want {
            match s.tls_read(&mut b) {
                Ok(k) => got.extend_from_slice(&b[..k]),
                Err(e) => return (got, Some(e), Some(format!("reading fails: {e:?}"))),
            }
        }
        for d in &t.down {
            if let Err(e) = s.tls_write(&d.get()) {
                return (got, None, Some(format!("writing fails: {e:?}")));
            }
        }
        let (more, end) = read_all(&mut s, &[100]);
        got.extend(more);
        (got, Some(end), None)
    }
}
fn ossl_part(s: &mut SslStream<std::net::TcpStream>, t: &Talk) -> Result<(), String> {
    for b in &t.up {
        if b.len > 0 {
            s.write_all(&b.get()).map_err(|e| format!("OpenSSL cannot write: {e}"))?;
        }
    }
    let want: Vec<u8> = t.down.iter().flat_map(|b| b.get()).collect();
    let mut got = vec![0; want.len()];
    s.read_exact(&mut got).map_err(|e| format!("OpenSSL cannot read: {e}"))?;
    if got != want {
        return Err("OpenSSL reads other data than was written".into());
    }
    let _ = s.shutdown();
    Ok(())
}
fn after(t: &Talk, lib: Result<Out, TlsError>, done: Result<(), String>) -> Result<(), Fail> {
    let (got, end, wrong) = match lib {
        Ok(x) => x,
        Err(e) => bad!("the handshake fails with {e:?} here, there: {done:?}"),
    };
    if let Err(e) = done {
        bad!("{e}; here: {wrong:?} {end:?}");
    }
    if let Some(w) = wrong {
        bad!("{w}");
    }
    let want: Vec<u8> = t.up.iter().flat_map(|b| b.get()).collect();
    ensure!(got == want, "{} bytes read of {} that OpenSSL wrote", got.len(), want.len());
    ensure!(end == Some(TlsError::CloseNotify), "OpenSSL's shutdown is seen as {end:?}");
    Ok(())
}
fn keys_agree(log: &Arc<Mutex<Vec<String>>>, path: &str) -> Result<(), Fail> {
    let sort = |v: Vec<String>| {
        let mut v: Vec<String> = v.into_iter().filter(|l| !l.trim().is_empty() && !l.starts_with("EXPORTER")).map(|l| l.trim().to_lowercase()).collect();
        v.sort();
        v
    };
    let theirs = sort(log.lock().unwrap().clone());
    let ours = sort(std::fs::read_to_string(path).unwrap_or_default().lines().map(|l| l.to_string()).collect());
    ensure!(theirs == ours, "the two sides logged other secrets: {theirs:?} and {ours:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AsServer {
    o: Ossl,
    /// of the client certificate, when the server asks for one
    auth: Option<(Spec, Vec<u32>)>,
    leaf: Spec,
    name: Option<String>,
    sni: bool,
    talk: Talk,
}
fn as_server(c: &AsServer) -> Res {
    let mut f = Files::default();
    let path = f.path("keys");
    let mut opt = SrvOpt::plain(3);
    opt.leaf = Leaf::of(Spec { key: 3, ..c.leaf.clone() }, 9);
    opt.name = c.name.clone();
    if c.auth.is_some() {
        opt.ca = Some(7);
    }
    let cfg = server_config(&opt, Some(&path), &mut f).map_err(Fail::Broken)?;
    let log = Arc::default();
    let mut b = ctx(&c.o, false, &log).map_err(broken)?;
    if let Some((spec, chain)) = &c.auth {
        b.set_certificate(x509(&spec.der(7))?.as_ref()).map_err(broken)?;
        b.set_private_key(pkey(spec.key)?.as_ref()).map_err(broken)?;
        for (i, n) in chain.iter().enumerate() {
            let s = Spec { exts: vec![*n], ..Spec::simple("above", 300 + i as u64) };
            b.add_extra_chain_cert(x509(&s.der(301))?).map_err(broken)?;
        }
    }
    b.set_verify(SslVerifyMode::NONE);
    let ctx = b.build();
    let mut ssl = Ssl::new(&ctx).map_err(broken)?;
    if c.sni {
        ssl.set_hostname(c.name.as_deref().unwrap_or("some.name")).map_err(broken)?;
    }
    if c.o.status {
        ssl.set_status_type(StatusType::OCSP).map_err(broken)?;
    }
    let (l, a) = listener();
    let job = serve(cfg, l, Some(NOW), lib_part(&c.talk));
    let sock = tcp(a);
    let _ = sock.set_read_timeout(Some(Duration::from_secs(40)));
    let mut leaf = vec![];
    let mut suite = "";
    let done = match ssl.connect(sock) {
        Ok(mut s) => {
            leaf = s.ssl().peer_certificate().map(|x| x.to_der().unwrap()).unwrap_or_default();
            suite = s.ssl().current_cipher().map(|c| c.name()).unwrap_or("");
            ossl_part(&mut s, &c.talk)
        }
        Err(e) => Err(format!("OpenSSL cannot connect: {e}")),
    };
    after(&c.talk, job.get()?, done)?;
    ensure!(leaf == opt.leaf.der(), "the client got another certificate than the configured one");
    keys_agree(&log, &path)?;
    Ok(hit().tag(suite).tag_if(c.auth.is_some(), "client certificate").tag_if(c.sni, "SNI"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AsClient {
    o: Ossl,
    leaf: Spec,
    chain: Vec<u32>,
    /// 0 nothing, 1 asks, 2 demands
    ask: u8,
    cert: Option<Spec>,
    name: Option<String>,
    /// authorities named in the request
    cas: u8,
    talk: Talk,
}
fn as_client(c: &AsClient) -> Res {
    let mut f = Files::default();
    let path = f.path("keys");
    let opt = CliOpt { cert: c.cert.as_ref().map(|s| (Leaf::of(s.clone(), 7), s.key)), name: c.name.clone() };
    let cfg = client_config(&opt, Some(&path), &mut f).map_err(Fail::Broken)?;
    let log = Arc::default();
    let mut b = ctx(&c.o, true, &log).map_err(broken)?;
    b.set_certificate(x509(&c.leaf.der(9))?.as_ref()).map_err(broken)?;
    b.set_private_key(pkey(c.leaf.key)?.as_ref()).map_err(broken)?;
    for (i, n) in c.chain.iter().enumerate() {
        let s = Spec { exts: vec![*n], ..Spec::simple("above", 300 + i as u64) };
        b.add_extra_chain_cert(x509(&s.der(301))?).map_err(broken)?;
    }
    b.set_session_id_context(b"vh").map_err(broken)?;
    match c.ask {
        0 => b.set_verify(SslVerifyMode::NONE),
        1 => b.set_verify_callback(SslVerifyMode::PEER, |_, _| true),
        _ => b.set_verify_callback(SslVerifyMode::PEER | SslVerifyMode::FAIL_IF_NO_PEER_CERT, |_, _| true),
    }
    for i in 0..c.cas {
        b.add_client_ca(x509(&Spec::simple("an authority with a name", 40 + i as u64).der(9))?.as_ref()).map_err(broken)?;
    }
    let ctx = b.build();
    let ssl = Ssl::new(&ctx).map_err(broken)?;
    let (l, a) = listener();
    let job = dial(cfg, tcp(a), Some(NOW), lib_part(&c.talk));
    let (sock, _) = l.accept()?;
    let _ = sock.set_read_timeout(Some(Duration::from_secs(40)));
    let mut peer = None;
    let mut name = None;
    let mut suite = "";
    let done = match ssl.accept(sock) {
        Ok(mut s) => {
            peer = s.ssl().peer_certificate().map(|x| x.to_der().unwrap());
            name = s.ssl().servername(NameType::HOST_NAME).map(|s| s.to_string());
            suite = s.ssl().current_cipher().map(|c| c.name()).unwrap_or("");
            ossl_part(&mut s, &c.talk)
        }
        Err(e) => Err(format!("OpenSSL cannot accept: {e}")),
    };
    after(&c.talk, job.get()?, done)?;
    ensure!(name == c.name, "the server sees the name {name:?}, configured was {:?}", c.name);
    if c.ask > 0 {
        ensure!(peer == c.cert.as_ref().map(|s| s.der(7)), "the server got another client certificate than the configured one");
    }
    keys_agree(&log, &path)?;
    Ok(hit().tag(suite).tag_if(c.ask > 0, "asked for a certificate").tag_if(c.chain.iter().sum::<u32>() > 16000, "certificates above a record"))
}

/// Key shares and secrets with zero bytes at their ends, from the scripted peer.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Zeros {
    server: bool,
    suite: u8,
    seed: u64,
    /// what has a zero byte: bit 0 the share, bit 1 the secret; bit 2: at its end
    what: u8,
}
fn zeros(z: &Zeros) -> Res {
    let mut seed = z.seed;
    let at = |b: &[u8]| if z.what & 4 != 0 { b[31] } else { b[0] };
    let path_seed = |seed: u64| x25519_pub(&x_secret(seed));
    if z.server || z.what & 2 == 0 {
        // the peer's share
        for i in 0..3000u64 {
            if at(&path_seed(z.seed.wrapping_add(i))) == 0 {
                seed = z.seed.wrapping_add(i);
                break;
            }
        }
    }
    if z.server {
        let p = CliPlan { seed, suites: vec![[0x1301, 0x1302, 0x1303][z.suite as usize % 3]], sid: 32, sni: None, ch: ChOp::Right, ccs: false, cert: None, ops: vec![], pk: Packing::default(), data: vec![Blob { len: 20, seed: 1, pat: 0 }], srv: SrvOpt::plain(3) };
        let r = p.run(None)?;
        ensure!(matches!(&r.lib, Ok((d, _)) if d.len() == 20), "a share with a zero byte: {:?}", r.lib.as_ref().err());
        return Ok(hit().tag("server"));
    }
    // against a client the secret itself can be chosen, once its share is known
    let mut f = Files::default();
    let cfg = client_config(&CliOpt::plain(), None, &mut f).map_err(Fail::Broken)?;
    let (io, job) = against_client(cfg, Some(NOW), |mut s| read_all(&mut s, &[4096]))?;
    let mut p = Party::new(io, true);
    let Ok(hello) = p.client_hello()? else {
        p.io.fin();
        bad!("no hello: {:?}", job.get()?.err());
    };
    let Some(share) = hello.shares().ok().and_then(|s| s.into_iter().find(|s| s.0 == 0x1d)) else { bad!("no share") };
    let mut sk = x_secret(seed);
    if z.what & 2 != 0 {
        for i in 0..3000u64 {
            let k = x_secret(seed.wrapping_add(i));
            if x25519(&k, &share.1).is_some_and(|s| at(&s) == 0) {
                sk = k;
                break;
            }
        }
    }
    let Some(secret) = x25519(&sk, &share.1) else { bad!("unusable share") };
    let suite = SUITES[z.suite as usize % 3];
    let sh = ServerHello::simple(rnd(seed), hello.sid.0.clone(), suite.0, &x25519_pub(&sk));
    p.tr.push(sh.raw());
    p.set_shared(suite, &secret);
    let mut wire = vec![];
    let head = Item { hash: false, prot: Some(Prot::Plain), ..Item::new(Kind::Rec(22, Hex(sh.raw()))) };
    p.plain_handshake(&mut wire, &head, &Packing::default());
    wire.extend(p.flight(
        &[Item::new(Kind::Msg(EE, Hex(vec![0, 0]))), Item::new(Kind::Cert { ctx: None, chain: vec![Leaf::of(Spec::simple("server", 2), 9)] }), Item::new(Kind::CertVerify(CvSpec::right(true, 2))), Item::new(Kind::Finished(FinSpec::default())), Item::new(Kind::App(Hex(vec![1; 20])))],
        &Packing::default(),
    ));
    p.io.send(&wire);
    p.io.fin();
    let fl = p.client_flight()?;
    let lib = job.get()?;
    ensure!(matches!(&lib, Ok((d, _)) if d.len() == 20), "a share or secret with a zero byte: {lib:?}");
    ensure!(fl.is_ok(), "a share or secret with a zero byte: the client sends {:?}", fl.err());
    Ok(nt(at(&secret) == 0 || at(&x25519_pub(&sk)) == 0).tag_if(at(&secret) == 0, "zero byte in the secret").tag_if(at(&x25519_pub(&sk)) == 0, "zero byte in the share"))
}

fn ossl() -> impl Strategy<Value = Ossl> + Clone {
    let suites = prop_oneof![(0u8..3).prop_map(|a| vec![a]), Just(vec![0u8, 1, 2]).prop_shuffle(), Just(vec![0u8, 1, 2]).prop_shuffle().prop_map(|v| v[..2].to_vec())];
    (suites, 0u8..6, 0u8..4, any::<bool>(), any::<bool>(), any::<bool>(), 0u8..5, prop_oneof![2 => Just(None), 1 => (512u16..16384).prop_map(Some)], prop_oneof![2 => Just(None), 1 => (2u16..2000).prop_map(Some)], prop_oneof![1 => Just(None), 1 => (any::<u16>(), hexn(0..300)).prop_map(Some)], any::<bool>())
        .prop_map(|(suites, groups, sigalgs, compat, old, alpn, tickets, fragment, pad, custom, status)| Ossl { suites, groups, sigalgs, compat, old, alpn, tickets, fragment, pad, custom, status })
}
fn talk() -> impl Strategy<Value = Talk> + Clone {
    let b = || vec(blob(prop_oneof![4 => 1usize..200, 1 => 0usize..20000, 1 => Just(16384usize)]), 0..3);
    (b(), b()).prop_map(|(up, down)| Talk { up, down })
}
fn leafs(keys: std::ops::Range<u64>) -> impl Strategy<Value = Spec> + Clone {
    (keys, any::<bool>(), prop_oneof![3 => Just(vec![]), 1 => vec(0u32..300, 1..4), 1 => vec(2000u32..18000, 1..3)], any::<u64>()).prop_map(|(key, sha384, exts, nonce)| Spec { sha384, exts, nonce, ..Spec::simple("ok host", key) })
}
fn name() -> impl Strategy<Value = Option<String>> + Clone {
    prop_oneof![1 => Just(None), 2 => "[a-z]{1,12}(\\.[a-z0-9-]{1,20}){0,4}".prop_map(Some), 1 => (1usize..=255).prop_map(|n| Some("abcdefg.h".chars().cycle().take(n).collect()))]
}
/// What other clients offer besides: long lists of suites, groups, schemes, versions, extensions
/// and key shares nobody here knows, with the known one at any place among them.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    seed: u64,
    suite: u8,
    sid: u8,
    /// how many before and after the known one: suites, groups, schemes, versions, shares
    around: [(u16, u16); 5],
    /// other extensions: code and length
    exts: Vec<(u16, u16)>,
    perm: u16,
    name: Option<u8>,
}
fn wide(w: &Wide) -> Res {
    let odd = |i: u16| 0x0a0a_u16.wrapping_add((i % 16).wrapping_mul(0x1010));
    let list = |k: usize, known: u16, most: u16| -> Vec<u16> {
        let (a, b) = w.around[k];
        (0..a % most).map(odd).chain([known]).chain((0..b % most).map(|i| odd(i + 7))).collect()
    };
    let suite = [0x1301, 0x1302, 0x1303][w.suite as usize % 3];
    let x = x25519_pub(&x_secret(w.seed));
    let mut h = ClientHello::simple(rnd(w.seed), rnd(w.seed ^ 5)[..w.sid as usize % 33].to_vec(), &list(0, suite, 3000), &x);
    let short = |k: usize, known: u16| list(k, known, 60);
    let unknown = |i: u16| (odd(i), vec![0u8; 1 + i as usize * 37 % 1200]);
    let (a, b) = w.around[4];
    // every group once
    let mut keys: Vec<(u16, Vec<u8>)> = (0..a % 8).map(unknown).chain([(0x1d, x.to_vec())]).chain((8..8 + b % 8).map(unknown)).collect();
    // and of groups that are known elsewhere
    for (i, (g, n)) in [(0x17u16, 65usize), (0x18, 97), (0x19, 133), (0x1e, 56), (0x0100, 256)].into_iter().enumerate() {
        if w.seed >> i & 1 == 1 {
            let at = (w.seed >> (8 + 8 * i)) as usize % (keys.len() + 1);
            keys.insert(at, (g, [vec![4u8], vec![7; n - 1]].concat()));
        }
    }
    // a share of each of the first, in the same order
    let groups: Vec<u16> = keys.iter().map(|k| k.0).chain((0..w.around[1].0 % 60 + w.around[1].1 % 60).map(|i| 0xfe00 + i)).collect();
    h.exts = vec![
        (X_VERSIONS, Hex(vecn(1, &tls::u16s(&short(3, 0x0304))))),
        (X_GROUPS, Hex(vecn(2, &tls::u16s(&groups)))),
        (X_SIGALGS, Hex(vecn(2, &tls::u16s(&short(2, 0x0403))))),
        (X_KEYSHARE, Hex(tls::shares(&keys))),
    ];
    if let Some(n) = w.name {
        h.exts.push((X_SNI, Hex(tls::sni("n".repeat(1 + n as usize % 255).as_bytes()))));
    }
    for (code, len) in &w.exts {
        // nothing with a meaning of its own
        if *code > 60 && !h.exts.iter().any(|e| e.0 == *code) && ![0xff01u16, 0xfd00, 0xfe0d].contains(code) {
            h.exts.push((*code, Hex(vec![(*code >> 3) as u8; *len as usize % 900])));
        }
    }
    let n = h.exts.len();
    h.exts.rotate_left(w.perm as usize % n);
    let size = h.raw().len();
    ensure!(size < 60_000, "hello of {size} bytes");
    let p = CliPlan { seed: w.seed, suites: h.suites.clone(), sid: w.sid % 33, sni: None, ch: ChOp::Own(Hex(h.raw())), ccs: w.perm & 1 == 1, cert: None, ops: vec![], pk: Packing::default(), data: vec![Blob { len: 300, seed: 1, pat: 0 }], srv: SrvOpt::plain(3) };
    let r = p.run(None)?;
    let Ok(fl) = &r.flight else { bad!("a hello of {size} bytes, {} suites, {} extensions: {:?} / {:?}", h.suites.len(), n, r.flight.as_ref().err(), r.lib.as_ref().err()) };
    ensure!(fl.sh.sid == h.sid && fl.sh.version == 0x303 && fl.sh.comp == 0 && fl.sh.suite == suite, "a hello of {size} bytes with a session id of {} is answered with session id {:?}, suite {:04x}", h.sid.len(), fl.sh.sid, fl.sh.suite);
    ensure!(matches!(&r.lib, Ok((d, _)) if d.len() == 300), "a hello of {size} bytes, {} suites, {} extensions: {:?}", h.suites.len(), n, r.lib.as_ref().err());
    Ok(hit().tag_if(h.suites.len() > 60, "over 60 suites").tag_if(size > 16384, "hello above a record").tag_if(n > 15, "over 15 extensions"))
}

fn chain() -> impl Strategy<Value = Vec<u32>> + Clone {
    prop_oneof![3 => Just(vec![]), 2 => vec(0u32..500, 1..4), 1 => vec(4000u32..20000, 1..3)]
}

fn main() {
    run::main("C12", "the two sides reached a session (anything else is reported)", |c| {
        c.assume("OpenSSL 3.0 with X25519 preferred (HelloRetryRequest is not supported by the library), P-256 certificates; names of up to 255 bytes; certificate messages of up to 60 kB");
        c.shrink_iters = 300;
        c.sub("openssl_client", 2200, || (ossl(), prop_oneof![1 => Just(None), 1 => (leafs(20..24), chain()).prop_map(Some)], leafs(1..4), name(), any::<bool>(), talk()).prop_map(|(o, auth, leaf, name, sni, talk)| AsServer { o, auth, leaf, name, sni, talk }), as_server);
        c.sub("openssl_server", 2200, || {
            (ossl(), leafs(1..4), chain(), 0u8..3, any::<bool>(), leafs(20..24), name(), 0u8..3, talk()).prop_map(|(o, leaf, chain, ask, has, cert, name, cas, talk)| {
                let cert = (has || ask == 2).then_some(cert);
                AsClient { o, leaf, chain, ask, cert, name, cas, talk }
            })
        }, as_client);
        let sizes = |most: u16| prop_oneof![3 => 0u16..4, 2 => 0..most, 2 => (0u32..12).prop_map(move |b| (1u16 << b).min(most)), 1 => (1u32..12).prop_map(move |b| ((1u16 << b) - 1).min(most))];
        c.sub("wide", 1500, || {
            let two = |most| (sizes(most), sizes(most));
            let around = (two(2900), two(59), two(59), two(59), two(7)).prop_map(|(a, b, c, d, e)| [a, b, c, d, e]);
            (any::<u64>(), 0u8..3, 0u8..33, around, prop_oneof![2 => vec((any::<u16>(), 0u16..40), 0..8), 1 => vec((any::<u16>(), 0u16..900), 0..24)], any::<u16>(), proptest::option::of(any::<u8>())).prop_map(|(seed, suite, sid, around, exts, perm, name)| Wide { seed, suite, sid, around, exts, perm, name })
        }, wide);
        c.sub("zeros", 500, || (any::<bool>(), 0u8..3, any::<u64>(), 1u8..8).prop_map(|(server, suite, seed, what)| Zeros { server, suite, seed, what }), zeros);
    })
}
