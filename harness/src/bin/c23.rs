//! C23: what is emitted parses exactly under the RFC 8446 grammar; what is decoded is what was encoded.
use anothertls::crypto::CipherSuite as Cs;
use anothertls::net::client::client_hello::ClientHello as LibCh;
use anothertls::net::extensions::{ClientExtension, Extension, KeyShare, KeyShareEntry, NamedGroup, ServerExtension, ServerExtensions, ServerName, SignatureAlgorithms, SupportedGroups, SupportedVersions};
use anothertls::net::handshake::{Certificate, Handshake, HandshakeType};
use anothertls::net::server::server_hello::ServerHello as LibSh;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::cert::Spec;
use vharness::gen::{self, blob, Blob, Hex};
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
#[path = "../glue/offer.rs"]
mod offer;
use flights::*;
use lib_side::*;
use offer::*;

fn p<T>(r: P<T>) -> Result<T, Fail> {
    r.map_err(Fail::Bad)
}
fn once(e: &[(u16, Hex)], t: u16, what: &str) -> Result<Hex, Fail> {
    // the parser refuses repeated ones
    ext(e, t).cloned().ok_or_else(|| Fail::Bad(format!("{what} without extension {t}")))
}
fn distinct<T: PartialEq + std::fmt::Debug>(v: &[T], what: &str) -> Result<(), Fail> {
    for (i, x) in v.iter().enumerate() {
        ensure!(!v[..i].contains(x), "{what}: {x:04x?} twice");
    }
    Ok(())
}
/// Everything RFC 8446 wants of a TLS 1.3 ClientHello that offers what this client is able to do.
fn judge_ch(h: &ClientHello, name: Option<&str>) -> Result<(), Fail> {
    ensure!(h.version == 0x303, "legacy_version {:04x}", h.version);
    ensure!(h.comp.0 == [0], "compression methods {:?}", h.comp);
    distinct(&h.suites, "cipher_suites")?;
    for s in &h.suites {
        ensure!(SUITES.contains(&Suite(*s)), "suite {s:04x} is offered");
    }
    once(&h.exts, X_VERSIONS, "ClientHello")?;
    once(&h.exts, X_GROUPS, "ClientHello")?;
    once(&h.exts, X_SIGALGS, "ClientHello")?;
    once(&h.exts, X_KEYSHARE, "ClientHello")?;
    let v = p(h.list(X_VERSIONS, 1))?.unwrap();
    ensure!(v == [0x304], "versions {v:04x?} are offered");
    let g = p(h.list(X_GROUPS, 2))?.unwrap();
    distinct(&g, "supported_groups")?;
    let a = p(h.list(X_SIGALGS, 2))?.unwrap();
    distinct(&a, "signature_algorithms")?;
    ensure!(a.contains(&0x0403), "signature_algorithms {a:04x?}");
    let s = p(h.shares())?;
    let groups: Vec<u16> = s.iter().map(|x| x.0).collect();
    distinct(&groups, "client_shares")?;
    ensure!(!s.is_empty(), "no key share");
    for (grp, k) in &s {
        ensure!(g.contains(grp), "a share of group {grp:04x}, which is not in supported_groups {g:04x?}");
        let n = match grp {
            0x1d => 32,
            0x17 => 65,
            0x18 => 97,
            0x19 => 133,
            0x1e => 56,
            _ => bad!("a share of group {grp:04x}"),
        };
        ensure!(k.len() == n, "a share of {} bytes for group {grp:04x}", k.len());
    }
    let sni = p(h.sni())?;
    ensure!(sni.as_deref() == name.map(|n| n.as_bytes()), "the server name is {:?}, configured is {name:?}", sni.map(|s| String::from_utf8_lossy(&s).to_string()));
    Ok(())
}
fn judge_cert(body: &[u8], ctx: &[u8], der: Option<&[u8]>) -> Result<(), Fail> {
    let (c, l) = p(parse_cert(body))?;
    ensure!(c == ctx, "certificate_request_context {} instead of {}", gen::hex(&c), gen::hex(ctx));
    let want: Vec<&[u8]> = der.into_iter().collect();
    ensure!(l.iter().map(|x| &x.0[..]).collect::<Vec<_>>() == want, "the certificate list ({} entries) is not the certificate configured", l.len());
    Ok(())
}
fn judge_cv(body: &[u8]) -> Result<(), Fail> {
    let (s, sig) = p(parse_cv(body))?;
    ensure!(s == 0x0403, "scheme {s:04x}");
    let canon = openssl::ecdsa::EcdsaSig::from_der(&sig).ok().and_then(|s| s.to_der().ok());
    ensure!(canon.as_deref() == Some(&sig[..]), "the signature is not DER: {}", gen::hex(&sig));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    seed: u64,
    suite: u8,
    name: Option<String>,
    /// size of an extension of the own certificate
    cert: Option<u32>,
    /// a request with this context
    cr: Option<Hex>,
    sid: u8,
    sha384: bool,
    cn: String,
    pk: Packing,
}
impl Case {
    fn spec(&self, key: u64) -> Spec {
        let mut s = Spec { sha384: self.sha384, ..Spec::simple(&self.cn, key) };
        if let Some(n) = self.cert {
            if n > 0 {
                s.exts = vec![n];
            }
        }
        s
    }
}
fn client(c: &Case) -> Res {
    let leaf = c.cert.map(|_| Leaf::of(c.spec(21), 7));
    let der = leaf.as_ref().map(|l| l.der());
    let plan = SrvPlan {
        seed: c.seed,
        suite: c.suite,
        leaf: Leaf::of(Spec::simple("server", 2), 9),
        cr: c.cr.clone().map(|x| (x, vec![0x0403])),
        sh: ShOp::Right,
        ops: vec![],
        pk: c.pk.clone(),
        data: vec![],
        cli: CliOpt { cert: leaf.map(|l| (l, 21)), name: c.name.clone() },
    };
    let r = plan.run(None)?;
    judge_ch(&r.hello, c.name.as_deref())?;
    let rec = &r.party.io.records[0];
    ensure!(rec[0] == 22 && rec[1] == 3 && (rec[2] == 1 || rec[2] == 3), "the record of the ClientHello begins with {}", gen::hex(&rec[..3]));
    match &r.flight {
        Ok(m) => {
            let types: Vec<u8> = m.iter().map(|x| x.0).collect();
            let want: &[u8] = match (c.cr.is_some(), der.is_some()) {
                (false, _) => &[FIN],
                (true, true) => &[CERT, CV, FIN],
                (true, false) => &[CERT, FIN],
            };
            ensure!(types == want, "the client's messages are {types:?} instead of {want:?}");
            if let Some(x) = &c.cr {
                judge_cert(&m[0].1[4..], x, der.as_deref())?;
            }
            if types.contains(&CV) {
                judge_cv(&m[1].1[4..])?;
            }
            let f = &m[m.len() - 1].1;
            ensure!(f.len() == 4 + plan.suite().h().len(), "a Finished of {} bytes", f.len() - 4);
        }
        Err(Ev::Junk(j)) => bad!("the client sends: {j}"),
        Err(e) => return Ok(nt(false).tag(format!("{e:?}"))),
    }
    Ok(hit().tag_if(c.cr.is_some(), "certificate request").tag_if(der.is_some_and(|d| d.len() > 16000) && c.cr.is_some(), "message over several records"))
}
fn server(c: &Case) -> Res {
    let mut srv = SrvOpt::plain(3);
    srv.leaf = Leaf::of(c.spec(3), 7);
    let der = srv.leaf.der();
    if c.cr.is_some() {
        srv.ca = Some(7);
    }
    srv.name = c.name.clone();
    let s = match c.suite % 4 {
        3 => vec![0x1302, 0x1301, 0x1303],
        k => vec![SUITES[k as usize].0],
    };
    let plan = CliPlan { seed: c.seed, suites: s, sid: c.sid, sni: c.name.clone(), ch: ChOp::Right, ccs: false, cert: c.cr.as_ref().map(|_| (Leaf::of(Spec::simple("ok", 20), 7), 20)), ops: vec![], pk: c.pk.clone(), data: vec![], srv };
    let r = plan.run(None)?;
    let f = match &r.flight {
        Ok(f) => f,
        Err(Ev::Junk(j)) => bad!("the server sends: {j}"),
        Err(e) => return Ok(nt(false).tag(format!("{e:?}"))),
    };
    let sh = &f.sh;
    ensure!(sh.version == 0x303, "legacy_version {:04x}", sh.version);
    ensure!(sh.sid == r.hello.sid, "the session id is not echoed");
    ensure!(sh.comp == 0, "compression method {}", sh.comp);
    let types: Vec<u16> = sh.exts.iter().map(|x| x.0).collect();
    ensure!(types.len() == 2 && types.contains(&X_VERSIONS) && types.contains(&X_KEYSHARE), "the extensions of the ServerHello are {types:?}");
    ensure!(once(&sh.exts, X_VERSIONS, "ServerHello")?.0 == [3, 4], "the selected version");
    let (g, k) = p(sh.share())?;
    ensure!(g == 0x1d && k.len() == 32, "the server's key share");
    for rec in &r.party.io.records {
        ensure!(rec[1] == 3 && rec[2] == 3, "a record of version {:02x}{:02x}", rec[1], rec[2]);
    }
    // the client's legacy_session_id decides on the compatibility record, which follows the ServerHello
    ensure!(c.sid == 0 || f.ccs >= 1, "no compatibility record although the session id is not empty");
    for (t, m) in &f.msgs {
        let b = &m[4..];
        match *t {
            EE => {
                for (t, _) in p(parse_ee(b))? {
                    ensure!(ext(&r.hello.exts, t).is_some(), "encrypted extension {t} was not offered");
                }
            }
            CR => {
                let (ctx, e) = p(parse_cr(b))?;
                let s = once(&e, X_SIGALGS, "CertificateRequest")?;
                let mut rd = Rd(&s);
                let l = p(p(rd.vec(2, 2, 65534, "signature_algorithms"))?.u16list("signature_algorithms"))?;
                p(rd.end("signature_algorithms"))?;
                ensure!(l.contains(&0x0403), "the request's signature_algorithms {l:04x?}");
                ensure!(!ctx.is_empty(), "the request has an empty context");
            }
            CERT => judge_cert(b, &[], Some(&der))?,
            CV => judge_cv(b)?,
            FIN => ensure!(b.len() == Suite(sh.suite).h().len(), "a Finished of {} bytes", b.len()),
            _ => {}
        }
    }
    ensure!(f.msgs.iter().any(|m| m.0 == CR) == c.cr.is_some(), "a certificate request: {}, configured: {}", c.cr.is_none(), c.cr.is_some());
    Ok(hit().tag_if(c.cr.is_some(), "certificate request").tag_if(der.len() > 16000, "message over several records").tag_if(r.lib.is_ok(), "completed"))
}

/// A name of any length: a hello with it, or an error.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Named {
    len: u32,
    seed: u64,
}
fn named(c: &Named) -> Res {
    let name: String = (0..c.len as u64).map(|i| (b'a' + ((c.seed ^ i.wrapping_mul(0x9e37_79b9)) >> 7) as u8 % 26) as char).collect();
    let mut f = Files::default();
    let Ok(cfg) = client_config(&CliOpt { name: Some(name.clone()), ..CliOpt::plain() }, None, &mut f) else { return Ok(hit().tag("refused by the builder")) };
    let (io, job) = against_client(cfg, Some(NOW), |_| ())?;
    let mut party = Party::new(io, true);
    let h = party.client_hello()?;
    match &h {
        Ok(h) => judge_ch(h, Some(&name))?,
        Err(Ev::Eof) => {}
        Err(e) => bad!("with a name of {} bytes the client begins with {e:?}", c.len),
    }
    let none = matches!(h, Err(_));
    party.io.fin();
    let _ = party.drain();
    drop(party);
    let r = job.get()?;
    ensure!(!none || r.is_err(), "nothing was sent, but connect succeeds");
    Ok(hit().tag(if none { "refused by connect" } else { "sent" }))
}
/// Whatever the hello, what the server answers with is well-formed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Twice {
    offer: Offer,
    /// which of the extensions come again, where, and whether with other contents
    again: Vec<(u8, u8, bool)>,
}
fn twice(c: &Twice) -> Res {
    let mut o = c.offer.clone();
    o.name = None;
    let mut h = o.hello();
    for (i, at, other) in &c.again {
        let n = h.exts.len();
        let mut e = h.exts[*i as usize % n].clone();
        if *other && e.0 == X_KEYSHARE {
            e.1 = Hex(shares(&[(0x1d, x25519_pub(&x_secret(o.seed ^ 9)))]));
        }
        h.exts.insert(*at as usize % (n + 1), e);
    }
    let p = CliPlan { seed: o.seed, suites: h.suites.clone(), sid: o.sid % 33, sni: None, ch: ChOp::Own(Hex(h.raw())), ccs: o.ccs, cert: None, ops: vec![], pk: Packing::default(), data: vec![], srv: SrvOpt::plain(3) };
    let r = p.run(None)?;
    if let Err(Ev::Junk(j)) = &r.flight {
        bad!("the server answers a hello with repeated extensions with: {j}");
    }
    if let Ok(f) = &r.flight {
        let types: Vec<u16> = f.sh.exts.iter().map(|x| x.0).collect();
        ensure!(types.len() == 2 && types.contains(&X_VERSIONS) && types.contains(&X_KEYSHARE), "the extensions of the ServerHello are {types:?}");
    }
    Ok(hit().tag(if r.flight.is_ok() { "answered" } else { "refused" }))
}

// ------------------------------------------------------------------ decoding
const GROUPS: [(u16, NamedGroup); 10] = [
    (0x17, NamedGroup::Secp256r1),
    (0x18, NamedGroup::Secp384r1),
    (0x19, NamedGroup::Secp521r1),
    (0x1d, NamedGroup::X25519),
    (0x1e, NamedGroup::X448),
    (0x100, NamedGroup::Ffdhe2048),
    (0x101, NamedGroup::Ffdhe3072),
    (0x102, NamedGroup::Ffdhe4096),
    (0x103, NamedGroup::Ffdhe6144),
    (0x104, NamedGroup::Ffdhe8192),
];
fn decode_ch(o: &Offer) -> Res {
    let h = o.hello();
    let body = h.body();
    let r = guard(|| -> Result<(), Fail> {
        let l = match LibCh::from_raw(&body) {
            Ok(l) => l,
            Err(e) => bad!("a well-formed ClientHello was refused: {e:?}"),
        };
        ensure!(l.random == &h.random.0[..], "the random was decoded as {}", gen::hex(l.random));
        let known: Vec<u16> = h.suites.iter().copied().filter(|s| [0x1301, 0x1302, 0x1303, 0x00ff].contains(s)).collect();
        let got: Vec<u16> = l.cipher_suites.iter().map(|c| *c as u16).collect();
        ensure!(got == known, "the suites {:04x?} were decoded as {got:04x?}", h.suites);
        ensure!(l.legacy_session_id_echo.unwrap_or(&[]) == &h.sid.0[..], "the session id was decoded as {:?}", l.legacy_session_id_echo);
        let (mut sni, mut versions, mut shares) = (None, None, None);
        for e in l.extensions.as_vec() {
            match e {
                ClientExtension::ServerName(n) => ensure!(sni.replace(n.get().to_string()).is_none(), "two server names"),
                ClientExtension::SupportedVersion(v) => ensure!(versions.replace(v.is_tls13_supported()).is_none(), "two supported_versions"),
                ClientExtension::KeyShare(k) => ensure!(shares.replace(k.0.iter().map(|e| (GROUPS.iter().find(|g| g.1 == e.group).map(|g| g.0).unwrap_or(0), e.opaque.clone())).collect::<Vec<_>>()).is_none(), "two key shares"),
                _ => {}
            }
        }
        let sigs = l.extensions.as_vec().iter().find_map(|e| match e {
            ClientExtension::SignatureAlgorithms(s) => Some(s.0.iter().map(|s| *s as u16).collect::<Vec<_>>()),
            _ => None,
        });
        // those that have no name here may be left out
        let mut left = o.sigs.iter();
        ensure!(sigs.as_ref().map_or(true, |s| s.iter().all(|x| left.any(|y| y == x)) && s.contains(&0x0403) == o.sigs.contains(&0x0403)), "the signature schemes {:04x?} were decoded as {sigs:04x?}", o.sigs);
        // and each by itself
        match SignatureAlgorithms::server_parse(&vecn(2, &u16s(&o.sigs))) {
            Ok(s) => {
                let s: Vec<u16> = s.0.iter().map(|s| *s as u16).collect();
                let mut left = o.sigs.iter();
                let known = [0x0403u16, 0x0503, 0x0603];
                ensure!(s.iter().all(|x| left.any(|y| y == x)) && o.sigs.iter().all(|x| !known.contains(x) || s.contains(x)), "the signature schemes {:04x?} were decoded as {s:04x?}", o.sigs);
            }
            Err(e) => bad!("the signature schemes {:04x?} are refused: {e:?}", o.sigs),
        }
        ensure!(sni == o.sni, "the server name {:?} was decoded as {sni:?}", o.sni);
        ensure!(versions == o.versions.as_ref().map(|v| v.contains(&0x304)), "the versions {:04x?} were decoded as {versions:?}", o.versions);
        let want = match &o.shares {
            Some(_) => Some(h.shares().unwrap().into_iter().filter(|s| GROUPS.iter().any(|g| g.0 == s.0)).collect::<Vec<_>>()),
            None => None,
        };
        ensure!(shares == want, "the key shares {want:02x?} were decoded as {shares:02x?}");
        let x = want.and_then(|w| w.into_iter().find(|s| s.0 == 0x1d)).map(|s| s.1);
        ensure!(l.get_public_key_share().map(|e| e.opaque.clone()) == x, "the key share used is another one");
        Ok(())
    });
    match r {
        Ok(r) => r?,
        Err(p) => bad!("decoding a well-formed ClientHello: {p}"),
    }
    Ok(hit().tag_if(body.len() > 2000, "big").tag_if(o.shares.as_ref().is_some_and(|s| s.len() > 1), "several shares"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sh {
    random: Hex,
    sid: Hex,
    suite: u8,
    group: u8,
    share: Hex,
    first: bool,
}
fn decode_sh(c: &Sh) -> Res {
    let suite = SUITES[c.suite as usize % 3];
    let g = GROUPS[c.group as usize % GROUPS.len()];
    let mut h = ServerHello::simple(c.random.0.clone(), c.sid.0.clone(), suite.0, &[]);
    h.exts[0].1 = Hex(share_entry(g.0, &c.share));
    if c.first {
        h.exts.reverse();
    }
    let body = h.body();
    let r = guard(|| -> Result<(), Fail> {
        let l = match LibSh::from_raw(&body) {
            Ok(l) => l,
            Err(e) => bad!("a well-formed ServerHello was refused: {e:?}"),
        };
        ensure!(l.random == c.random.0[..], "the random was decoded as {}", gen::hex(&l.random));
        ensure!(l.cipher_suite as u16 == suite.0, "suite {:04x} was decoded as {:?}", suite.0, l.cipher_suite);
        ensure!(l.legacy_session_id_echo.unwrap_or(&[]) == &c.sid.0[..], "the session id was decoded as {:?}", l.legacy_session_id_echo);
        match l.get_public_key_share() {
            Some(e) => ensure!(e.group == g.1 && e.opaque == c.share.0, "the key share was decoded as {:?} {}", e.group, gen::hex(&e.opaque)),
            None => bad!("the key share was lost"),
        }
        // and encoded again
        ensure!(g.0 != 0x1d || c.share.len() != 32 || ServerHello::parse(&l.as_bytes()).is_ok(), "the decoded ServerHello is encoded as {}", gen::hex(&l.as_bytes()));
        Ok(())
    });
    match r {
        Ok(r) => r?,
        Err(p) => bad!("decoding a well-formed ServerHello: {p}"),
    }
    Ok(hit())
}

// ------------------------------------------------------------------ encoding
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Enc {
    random: Hex,
    sid: Hex,
    share: Hex,
    name: Option<String>,
    suite: u8,
    order: u8,
}
fn encode(c: &Enc) -> Res {
    let r = guard(|| -> Result<(), Fail> {
        let sid = (!c.sid.is_empty()).then_some(&c.sid.0[..]);
        let mut l = match LibCh::new(&c.random.0, sid) {
            Ok(l) => l,
            Err(e) => bad!("ClientHello::new: {e:?}"),
        };
        let mut e = vec![
            ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, c.share.0.clone()))),
            ClientExtension::SupportedVersion(SupportedVersions::new(true)),
            ClientExtension::SignatureAlgorithms(SignatureAlgorithms::supported()),
            ClientExtension::SupportedGroups(SupportedGroups::supported()),
        ];
        if let Some(n) = &c.name {
            e.push(ClientExtension::ServerName(ServerName::new(n.clone())));
        }
        let k = c.order as usize % e.len();
        e.rotate_left(k);
        for x in e {
            l.extensions.push(x);
        }
        let b = match l.as_bytes() {
            Ok(b) => b,
            Err(e) => bad!("as_bytes: {e:?}"),
        };
        let h = p(ClientHello::parse(&b))?;
        judge_ch(&h, c.name.as_deref())?;
        ensure!(h.random == c.random && h.sid == c.sid, "random or session id were encoded as {} {}", gen::hex(&h.random), gen::hex(&h.sid));
        let mut s = p(h.shares())?[0].1.clone();
        // the library keeps coordinates in the other byte order than the wire has
        s.reverse();
        ensure!(s == c.share.0, "the key share was encoded as {} (reversed)", gen::hex(&s));
        // ServerHello
        let suite = [Cs::TLS_AES_128_GCM_SHA256, Cs::TLS_AES_256_GCM_SHA384, Cs::TLS_CHACHA20_POLY1305_SHA256][c.suite as usize % 3];
        let mut x = ServerExtensions::new();
        let ks = || ServerExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, c.share.0.clone())));
        if c.order % 2 == 0 {
            x.push(ks());
        }
        x.push(ServerExtension::SupportedVersions(SupportedVersions::default()));
        if c.order % 2 == 1 {
            x.push(ks());
        }
        let sh = LibSh { random: c.random.0.clone().try_into().unwrap(), legacy_session_id_echo: sid, cipher_suite: suite, extensions: x };
        let h = p(ServerHello::parse(&sh.as_bytes()))?;
        ensure!(h.version == 0x303 && h.random == c.random && h.sid == c.sid && h.suite == suite as u16 && h.comp == 0, "the ServerHello was encoded as {h:?}");
        ensure!(once(&h.exts, X_VERSIONS, "ServerHello")?.0 == [3, 4], "the selected version");
        let (g, mut k) = p(h.share())?;
        k.reverse();
        ensure!(g == 0x1d && k == c.share.0, "the server's share was encoded as {}", gen::hex(&k));
        Ok(())
    });
    match r {
        Ok(r) => r?,
        Err(p) => bad!("encoding a hello: {p}"),
    }
    Ok(nt(true))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Frame {
    typ: u8,
    body: Blob,
    trail: Hex,
    ctx: Hex,
}
const TYPES: [HandshakeType; 11] = [
    HandshakeType::ClientHello,
    HandshakeType::ServerHello,
    HandshakeType::NewSessionTicket,
    HandshakeType::EndOfEarlyData,
    HandshakeType::EncryptedExtensions,
    HandshakeType::Certificate,
    HandshakeType::CertificateRequest,
    HandshakeType::CertificateVerify,
    HandshakeType::Finished,
    HandshakeType::KeyUpdate,
    HandshakeType::MessageHash,
];
fn frame(c: &Frame) -> Res {
    let t = TYPES[c.typ as usize % TYPES.len()];
    let num = [1u8, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254][c.typ as usize % TYPES.len()];
    let b = c.body.get();
    let r = guard(|| -> Result<(), Fail> {
        let raw = Handshake::to_bytes(t, b.clone());
        let (n, x) = p(split_msg(&raw))?;
        ensure!(n == num && x == b, "a message of type {num} with {} bytes was encoded as one of type {n} with {} bytes", b.len(), x.len());
        let all = [raw.clone(), c.trail.0.clone()].concat();
        match Handshake::from_raw(&all) {
            Ok(h) => ensure!(h.handshake_type == t && h.fraqment == b && h.as_bytes() == raw, "a message of {} bytes was decoded as one of {} bytes", b.len(), h.fraqment.len()),
            Err(e) => bad!("a message of {} bytes was not decoded: {e:?}", b.len()),
        }
        ensure!(Handshake::from_raw(&raw[..raw.len() - 1]).is_err(), "a message without its last byte was decoded");
        // a certificate of any size
        if !b.is_empty() {
            let cert = Certificate { raw: b.clone(), x509: None };
            let body = cert.get_certificate_for_handshake(vecn(1, &c.ctx));
            judge_cert(&body, &c.ctx, Some(&b))?;
            let (x, e) = p(parse_cr(&cert.get_certificate_request(&c.ctx)))?;
            ensure!(x == c.ctx.0, "the request's context");
            ensure!(once(&e, X_SIGALGS, "CertificateRequest")?.0 == [0, 2, 4, 3], "the request's signature_algorithms");
        }
        Ok(())
    });
    match r {
        Ok(r) => r?,
        Err(p) => bad!("framing {} bytes: {p}", b.len()),
    }
    Ok(nt(!b.is_empty()).tag_if(b.len() > 65535, "more than 65535 bytes"))
}
/// A certificate list as received.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct List {
    ctx: Hex,
    leaf: u32,
    more: Vec<(u32, Hex)>,
    ext: Hex,
}
fn list(c: &List) -> Res {
    let mut spec = Spec::simple("one", 5);
    if c.leaf > 0 {
        spec.exts = vec![c.leaf];
    }
    let der = spec.der(7);
    let mut l = [vecn(3, &der), exts(&if c.ext.is_empty() { vec![] } else { vec![(5u16, c.ext.clone())] })].concat();
    for (n, e) in &c.more {
        l.extend(vecn(3, &Spec { exts: vec![*n], ..Spec::simple("more", 6) }.der(8)));
        l.extend(exts(&if e.is_empty() { vec![] } else { vec![(18u16, e.clone())] }));
    }
    let body = [vecn(1, &c.ctx), vecn(3, &l)].concat();
    match guard(|| clock::at(NOW, 0, || Certificate::from_hello(&body).map(|v| v.into_iter().map(|c| c.raw).collect::<Vec<_>>()))) {
        Ok(Ok(v)) => ensure!(v.first() == Some(&der), "the end-entity certificate was decoded as another one"),
        Ok(Err(e)) => bad!("a certificate list of {} was refused: {e:?}", 1 + c.more.len()),
        Err(p) => bad!("a certificate list of {}: {p}", 1 + c.more.len()),
    }
    Ok(hit().tag_if(!c.more.is_empty(), "chain").tag_if(!c.ext.is_empty(), "extensions"))
}

// ------------------------------------------------------------------ generators
fn cases() -> impl Strategy<Value = Case> + Clone {
    let size = prop_oneof![4 => 0u32..400, 1 => 15500u32..16500, 1 => 400u32..20000, 1 => 32000u32..33500, 1 => 65000u32..66000];
    (any::<u64>(), any::<u8>(), proptest::option::of(name()), proptest::option::weighted(0.7, size), proptest::option::weighted(0.7, prop_oneof![1 => gen::hexn(0..256), 1 => Just(Hex(vec![])), 1 => gen::hexn(255)]), prop_oneof![Just(0u8), Just(32), 1u8..32], any::<bool>(), "ok[a-z]{0,20}", packing())
        .prop_map(|(seed, suite, name, cert, cr, sid, sha384, cn, pk)| {
            let pk = if cert.unwrap_or(0) > 2000 { Packing::default() } else { pk };
            Case { seed, suite, name, cert, cr, sid, sha384, cn, pk }
        })
}
fn shs() -> impl Strategy<Value = Sh> + Clone {
    (gen::edgy(32), prop_oneof![gen::hexn(0..33), gen::hexn(32)], any::<u8>(), prop_oneof![Just(3u8), any::<u8>()], prop_oneof![3 => gen::edgy(32), 1 => gen::hexn(1..200)], any::<bool>()).prop_map(|(random, sid, suite, group, share, first)| Sh { random, sid, suite, group, share, first })
}
fn encs() -> impl Strategy<Value = Enc> + Clone {
    (gen::edgy(32), prop_oneof![gen::hexn(0..33), gen::hexn(32)], gen::edgy(32), proptest::option::of(name()), any::<u8>(), any::<u8>()).prop_map(|(random, sid, share, name, suite, order)| Enc { random, sid, share, name, suite, order })
}
fn frames() -> impl Strategy<Value = Frame> + Clone {
    let n = prop_oneof![6 => 0usize..700, 2 => gen::around(256, 8), 1 => gen::around(65536, 3), 1 => 0usize..200_000];
    (any::<u8>(), blob(n), gen::hexn(0..5), prop_oneof![gen::hexn(0..256), gen::hexn(255)]).prop_map(|(typ, body, trail, ctx)| Frame { typ, body, trail, ctx })
}
fn lists() -> impl Strategy<Value = List> + Clone {
    let n = prop_oneof![4 => 1u32..300, 1 => 1u32..70_000];
    let e = prop_oneof![2 => Just(Hex(vec![])), 1 => gen::hexn(1..300)];
    (gen::hexn(0..40), prop_oneof![1 => Just(0u32), 3 => n.clone()], vec((n, e.clone()), 0..5), e).prop_map(|(ctx, leaf, more, ext)| List { ctx, leaf, more, ext })
}

fn main() {
    run::main("C23", "a message was emitted and parsed strictly, or a well-formed one decoded and compared", |c| {
        c.shrink_iters = 400;
        let names: Vec<Case> = (1..=255usize)
            .map(|n| Case { seed: n as u64, suite: n as u8, name: Some(format!("{}{}", "x".repeat(n - 1), "y")), cert: None, cr: None, sid: n as u8 % 33, sha384: false, cn: "ok".into(), pk: Packing::default() })
            .collect();
        c.list("names", names, client);
        let lens = [0u32, 1, 300, 1000, 16000, 16384, 20000, 32767, 32768, 65535, 65536, 65537, 65600, 66000, 70000, 100_000, 131_071, 131_072, 140_000].into_iter().chain(250..290).chain(65300..65535);
        c.list("any-name", lens.map(|len| Named { len, seed: len as u64 }).collect(), named);
        c.sub("client", 5000, cases, client);
        c.sub("server", 5000, cases, server);
        let faults = || (any::<u64>(), prop_oneof![1u16..40, 1u16..3000], 0u8..8).prop_map(|(seed, send, intr)| fault::Faults { seed, send, recv: 0, file: 0, intr });
        c.sub("short_client", 400, || (cases(), faults()), |(c, f): &(Case, fault::Faults)| fault::library(*f, || client(c)));
        c.sub("short_server", 400, || (cases(), faults()), |(c, f): &(Case, fault::Faults)| fault::library(*f, || server(c)));
        c.sub("twice", 1500, || (offer(), vec((any::<u8>(), any::<u8>(), any::<bool>()), 1..3)).prop_map(|(offer, again)| Twice { offer, again }), twice);
        c.sub("decode_ch", 40_000, offer, decode_ch);
        c.sub("decode_sh", 20_000, shs, decode_sh);
        c.sub("encode", 20_000, encs, encode);
        c.sub("frame", 8000, frames, frame);
        c.sub("list", 6000, lists, list);
    })
}
