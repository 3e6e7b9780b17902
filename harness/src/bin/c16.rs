//! C16: whatever arrives, the endpoint returns and does not panic.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::fd::AsRawFd;
use vharness::cert::{self, Spec};
use vharness::gen::*;
use vharness::peer::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
#[path = "../glue/session.rs"]
mod session;
use flights::*;
use lib_side::*;
use session::*;

// A panic or a call that does not return is reported by Job::get; everything else is fine here.

/// A close that is a reset.
fn reset_on_close(s: &std::net::TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawRec {
    typ: u8,
    version: u16,
    body: Hex,
    /// other declared length
    len: Option<u16>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    server: bool,
    /// a right hello first
    hello: bool,
    recs: Vec<RawRec>,
    muts: Vec<Mut>,
    rst: bool,
}
fn wire(recs: &[RawRec], muts: &[Mut]) -> Vec<u8> {
    let mut w = vec![];
    for r in recs {
        w.push(r.typ);
        w.extend(r.version.to_be_bytes());
        w.extend(r.len.unwrap_or(r.body.len() as u16).to_be_bytes());
        w.extend(&r.body.0);
    }
    mutate(&mut w, muts);
    w
}
fn hello_bytes() -> Vec<u8> {
    ClientHello::simple(vec![3; 32], vec![4; 32], &[0x1301, 0x1303], &[9; 32]).raw()
}
fn raw(c: &Raw) -> Res {
    let mut f = Files::default();
    let mut w = wire(&c.recs, &c.muts);
    let after = |mut s: anothertls::net::TlsStream| read_all(&mut s, &[100]);
    let (io, job) = if c.server {
        if c.hello {
            w = [vec![22, 3, 1], vecn(2, &hello_bytes()), w].concat();
        }
        let cfg = server_config(&SrvOpt { ca: Some(7), ..SrvOpt::plain(3) }, None, &mut f).map_err(Fail::Broken)?;
        against_server(cfg, Some(NOW), after)
    } else {
        if c.hello {
            let sh = ServerHello::simple(vec![1; 32], vec![0; 32], 0x1301, &[9; 32]).raw();
            w = [vec![22, 3, 3], vecn(2, &sh), w].concat();
        }
        let cfg = client_config(&CliOpt { name: Some("a.name".into()), ..CliOpt::plain() }, None, &mut f).map_err(Fail::Broken)?;
        against_client(cfg, Some(NOW), after)?
    };
    let mut io = io;
    io.send(&w);
    if c.rst {
        reset_on_close(&io.sock);
        drop(io);
    } else {
        io.fin();
        while let Ok(Some(_)) = io.record() {}
        drop(io);
    }
    let r = job.get()?;
    Ok(nt(!w.is_empty()).tag(match r {
        Ok(_) => "session".to_string(),
        Err(e) => format!("{e:?}"),
    }))
}

/// A hello whose encoding is near the right one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hello {
    server: bool,
    exts: Vec<(u16, Hex)>,
    base: bool,
    suites: Vec<u16>,
    sid: u8,
    /// whole message, and single extensions before
    muts: Vec<Mut>,
    ext_muts: Vec<(u8, Vec<Mut>)>,
    name: bool,
    /// right length in the message header
    fix: bool,
}
fn client_hello(c: &Hello) -> Vec<u8> {
    let mut h = ClientHello::simple(vec![3; 32], vec![4; c.sid as usize % 33], &c.suites, &[9; 32]);
    if !c.base {
        h.exts.clear();
    }
    if c.name {
        h.exts.push((X_SNI, Hex(sni(b"a.name"))));
    }
    h.exts.extend(c.exts.clone());
    for (i, m) in &c.ext_muts {
        let n = h.exts.len();
        if n > 0 {
            mutate(&mut h.exts[*i as usize % n].1 .0, m);
        }
    }
    let mut raw = h.raw();
    fixed(&mut raw, &c.muts, c.fix);
    raw
}
fn fixed(raw: &mut Vec<u8>, muts: &[Mut], fix: bool) {
    mutate(raw, muts);
    if fix && raw.len() >= 4 {
        let l = be(3, raw.len() - 4);
        raw[1..4].copy_from_slice(&l);
    }
}
fn hello_of_server(c: &Hello) -> Vec<u8> {
    let mut h = ServerHello::simple(vec![3; 32], vec![0; c.sid as usize % 33], *c.suites.first().unwrap_or(&0x1301), &[9; 32]);
    if !c.base {
        h.exts.clear();
    }
    h.exts.extend(c.exts.clone());
    for (i, m) in &c.ext_muts {
        let n = h.exts.len();
        if n > 0 {
            mutate(&mut h.exts[*i as usize % n].1 .0, m);
        }
    }
    let mut raw = h.raw();
    fixed(&mut raw, &c.muts, c.fix);
    raw
}
fn hello(c: &Hello) -> Res {
    if c.server {
        let mut p = CliPlan { seed: 3, suites: vec![], sid: 0, sni: None, ch: ChOp::Raw(Hex(client_hello(c))), ccs: false, cert: None, ops: vec![], pk: Packing::default(), data: vec![], srv: SrvOpt::plain(3) };
        if c.name {
            p.srv.name = Some("a.name".into());
        }
        let r = p.run(None)?;
        Ok(hit().tag("server").tag(r.lib.err().map(|e| format!("{e:?}")).unwrap_or("session".into())))
    } else {
        let p = SrvPlan { seed: 3, suite: 0, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: None, sh: ShOp::Raw(Hex(hello_of_server(c))), ops: vec![], pk: Packing::default(), data: vec![], cli: CliOpt::plain() };
        let r = p.run(None)?;
        Ok(hit().tag("client").tag(r.lib.err().map(|e| format!("{e:?}")).unwrap_or("session".into())))
    }
}
/// Many hellos directly; what panics there has to show on the network too.
fn hello_fast(c: &Hello) -> Res {
    let raw = if c.server { client_hello(c) } else { hello_of_server(c) };
    let body = raw.get(4..).unwrap_or(&[]).to_vec();
    let srv = c.server;
    let r = guard(move || {
        if srv {
            anothertls::net::client::client_hello::ClientHello::from_raw(&body).is_ok()
        } else {
            anothertls::net::server::server_hello::ServerHello::from_raw(&body).is_ok()
        }
    });
    match r {
        Ok(ok) => Ok(hit().tag(if ok { "parsed" } else { "refused" })),
        Err(_) => {
            hello(c)?;
            Ok(nt(false).tag("not reachable"))
        }
    }
}

/// A message of a protected flight replaced by nearly right bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flight1 {
    server: bool,
    auth: bool,
    suite: u8,
    at: u8,
    /// 0 the message as built for a fixed other handshake, 1 mutated inside the certificate, 2 random
    how: u8,
    typ: u8,
    body: Hex,
    muts: Vec<Mut>,
    fix: bool,
    pk: Packing,
    more: Vec<Op>,
}
fn sample(kind: &Kind, muts: &[Mut], inside: bool) -> Option<(u8, Vec<u8>)> {
    Some(match kind {
        Kind::Msg(t, b) => {
            let mut b = b.0.clone();
            mutate(&mut b, muts);
            (*t, b)
        }
        Kind::Cert { chain, .. } => {
            let mut ders: Vec<Vec<u8>> = chain.iter().map(|l| l.der()).collect();
            if inside {
                if let Some(d) = ders.first_mut() {
                    mutate(d, muts);
                }
                (CERT, cert_body(&[], &ders))
            } else {
                let mut b = cert_body(&[], &ders);
                mutate(&mut b, muts);
                (CERT, b)
            }
        }
        Kind::CertVerify(c) => {
            let (r, s) = cert::ecdsa_raw(&cert::scalar(c.key), &[7; 32], 5);
            let mut sig = cert::seq(&[cert::integer(&r), cert::integer(&s)]);
            if inside {
                mutate(&mut sig, muts);
                (CV, [be(2, 0x403), vecn(2, &sig)].concat())
            } else {
                let mut b = [be(2, 0x403), vecn(2, &sig)].concat();
                mutate(&mut b, muts);
                (CV, b)
            }
        }
        Kind::Finished(_) => {
            let mut b = vec![9; 32];
            mutate(&mut b, muts);
            (FIN, b)
        }
        _ => return None,
    })
}
fn swap(base: &[Item], c: &Flight1) -> Vec<Op> {
    let i = c.at as usize % base.len().max(1);
    let Some(it) = base.get(i) else { return vec![] };
    let m = match c.how {
        2 => Some((c.typ, c.body.0.clone())),
        h => sample(&it.kind, &c.muts, h == 1),
    };
    let Some((t, b)) = m else { return vec![] };
    let mut v = vec![Op::Drop(i as u8)];
    v.push(Op::Insert(i as u8, Kind::Msg(t, Hex(b)), None));
    v.extend(c.more.clone());
    v
}
fn flight(c: &Flight1) -> Res {
    let tag = if c.server {
        let mut p = CliPlan { seed: 4, suites: vec![0x1301 + c.suite as u16 % 3], sid: 32, sni: None, ch: ChOp::Right, ccs: true, cert: Some((Leaf::of(Spec::simple("ok", 20), 7), 20)), ops: vec![], pk: c.pk.clone(), data: vec![], srv: SrvOpt { ca: Some(7), verify: Some(2), ..SrvOpt::plain(3) } };
        if !c.auth {
            p.srv.ca = None;
            p.srv.verify = None;
            p.cert = None;
        }
        p.ops = swap(&p.base(), c);
        p.run(None)?.lib.err()
    } else {
        let mut p = SrvPlan { seed: 4, suite: c.suite, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: c.auth.then(|| (Hex(vec![1, 2, 3]), vec![0x0403, 0x0804])), sh: ShOp::Right, ops: vec![], pk: c.pk.clone(), data: vec![], cli: CliOpt::plain() };
        p.ops = swap(&p.base(), c);
        p.run(None)?.lib.err()
    };
    Ok(hit().tag(tag.map(|e| format!("{e:?}")).unwrap_or("session".into())))
}

/// After the handshake.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Later {
    at: Setup,
    items: Vec<(Kind, u16)>,
    raw: Vec<RawRec>,
    muts: Vec<Mut>,
    pk: Packing,
    rst: bool,
    sizes: Vec<u16>,
}
fn later(c: &Later) -> Res {
    let sizes: Vec<usize> = c.sizes.iter().map(|s| *s as usize).collect();
    let s = session(&c.at, None, move |mut s| {
        let r = read_all(&mut s, &sizes);
        // and again, after the end
        let mut b = [0; 10];
        let again = s.tls_read(&mut b).is_ok();
        let _ = s.tls_write(b"bye");
        (r, again)
    })?;
    let Some(mut s) = s else { return Ok(nt(false).tag("no session")) };
    let items: Vec<Item> = c.items.iter().map(|(k, pad)| Item { pad: *pad, hash: false, ..Item::new(k.clone()) }).collect();
    let mut w = s.p.flight(&items, &c.pk);
    w.extend(wire(&c.raw, &[]));
    mutate(&mut w, &c.muts);
    s.p.io.send_cut(&w, &c.pk.seg, c.pk.pause_us);
    if c.rst {
        reset_on_close(&s.p.io.sock);
        drop(s.p);
    } else {
        s.p.io.fin();
        while let Ok(Some(_)) = s.p.io.record() {}
    }
    let Ok((r, _again)) = s.job.get()? else { return Ok(nt(false).tag("no session")) };
    Ok(nt(!w.is_empty()).tag(format!("{:?}", r.1)))
}

/// The same thing over and over.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flood {
    server: bool,
    /// 0 compatibility records after the hello, 1 before it, 2 a message in records of one byte;
    /// later on: 3 empty data, 4 tickets, 5 a message in records of one byte, 6 data of one byte,
    /// 7 many messages in one record
    what: u8,
    n: u32,
}
fn flood(c: &Flood) -> Res {
    let n = c.n as usize;
    if c.what < 3 {
        let pad = vecn(2, &vec![0; if c.what == 2 { n.min(60_000) } else { 10 }]);
        let h = if c.server {
            let mut h = ClientHello::simple(vec![3; 32], vec![4; 32], &[0x1301, 0x1303], &[9; 32]);
            h.exts.push((21, Hex(pad[2..].to_vec())));
            h.raw()
        } else {
            let mut h = ServerHello::simple(vec![1; 32], vec![0; 32], 0x1301, &[9; 32]);
            h.exts.push((0x7a7a, Hex(pad[2..].to_vec())));
            h.raw()
        };
        let rec = |b: &[u8]| RawRec { typ: 22, version: 0x303, body: Hex(b.to_vec()), len: None };
        let ccs = || (0..n).map(|_| RawRec { typ: 20, version: 0x303, body: Hex(vec![1]), len: None });
        let recs = match c.what {
            0 => std::iter::once(rec(&h)).chain(ccs()).collect(),
            1 => ccs().chain(std::iter::once(rec(&h))).collect(),
            _ => h.chunks(1).map(rec).collect(),
        };
        return raw(&Raw { server: c.server, hello: false, recs, muts: vec![], rst: false });
    }
    let one = match c.what {
        3 => (Kind::App(Hex(vec![])), 0),
        4 => (Kind::Msg(4, Hex([vec![0, 0, 0x1c, 0x20, 1, 2, 3, 4, 1, 9], vecn(2, &[7; 9]), vec![0, 0]].concat())), 0),
        6 => (Kind::App(Hex(vec![7])), 0),
        7 => (Kind::Rec(22, Hex(msg(4, &[vec![0, 0, 0x1c, 0x20, 1, 2, 3, 4, 1, 9], vecn(2, &[7; 9]), vec![0, 0]].concat()).repeat(500))), 0),
        _ => (Kind::Msg(4, Hex([vec![0, 0, 0x1c, 0x20, 1, 2, 3, 4, 1, 9], vecn(2, &vec![7; n.min(60_000)]), vec![0, 0]].concat())), 0),
    };
    let times = match c.what {
        5 => 1,
        7 => n / 500,
        _ => n,
    };
    let pk = Packing { rec: if c.what == 5 { vec![1] } else { vec![] }, ..Default::default() };
    later(&Later { at: Setup { server: c.server, suite: (n % 3) as u8, auth: false, seed: 2 }, items: vec![one; times], raw: vec![], muts: vec![], pk, rst: false, sizes: vec![100] })
}

fn raw_rec() -> impl Strategy<Value = RawRec> + Clone {
    let body = prop_oneof![
        3 => hexn(0..60),
        1 => hexn(200..400),
        2 => (prop_oneof![Just(1u8), Just(2), Just(8), Just(11), Just(13), Just(15), Just(20), Just(4), Just(24), any::<u8>()], hexn(0..60)).prop_map(|(t, b)| Hex(msg(t, &b))),
        1 => Just(Hex(hello_bytes())),
        1 => Just(Hex(vec![1])),
        1 => Just(Hex(vec![2, 40])),
        1 => (any::<u8>(), prop_oneof![Just(16384usize), Just(16640), Just(16641), Just(65535)]).prop_map(|(b, n)| Hex(vec![b; n])),
    ];
    (prop_oneof![1 => Just(20u8), 1 => Just(21), 3 => Just(22), 2 => Just(23), 1 => Just(24), 1 => any::<u8>()], prop_oneof![4 => Just(0x303u16), 1 => Just(0x301), 1 => any::<u16>()], body, prop_oneof![6 => Just(None), 1 => prop_oneof![Just(0u16), Just(1), Just(0xffff), Just(16384), Just(16641), any::<u16>()].prop_map(Some)])
        .prop_map(|(typ, version, body, len)| RawRec { typ, version, body, len })
}
fn muts(n: usize) -> impl Strategy<Value = Vec<Mut>> + Clone {
    vec(mutation(), 0..n)
}
fn ext_one() -> impl Strategy<Value = (u16, Hex)> + Clone {
    let t = prop_oneof![Just(0u16), Just(10), Just(13), Just(43), Just(51), Just(45), Just(41), Just(42), Just(44), Just(49), Just(16), Just(5), Just(1), Just(47), Just(48), Just(50), Just(0x0a0a), any::<u16>()];
    let b = prop_oneof![
        3 => hexn(0..40),
        1 => Just(Hex(sni(b"a.name"))),
        1 => Just(Hex(shares(&[(0x1d, vec![9; 32])]))),
        1 => Just(Hex(shares(&[(0x17, vec![4; 65]), (0x1d, vec![9; 32])]))),
        1 => Just(Hex(vec![4, 3, 4, 3, 3])),
        1 => Just(Hex(vec![0, 4, 0, 0x1d, 0, 0x17])),
        1 => Just(Hex(vec![0, 4, 4, 3, 8, 4])),
        1 => Just(Hex(vec![3, 4])),
    ];
    (t, b)
}
fn hellos() -> impl Strategy<Value = Hello> + Clone {
    let s = prop_oneof![Just(0x1301u16), Just(0x1302), Just(0x1303), any::<u16>()];
    ((any::<bool>(), vec(ext_one(), 0..4), any::<bool>(), vec(s, 0..5), 0u8..33), (muts(4), vec((any::<u8>(), muts(4)), 0..3), any::<bool>(), any::<bool>()))
        .prop_map(|((server, exts, base, suites, sid), (muts, ext_muts, name, fix))| Hello { server, exts, base, suites, sid, muts, ext_muts, name, fix })
}
fn wired() -> impl Strategy<Value = Packing> + Clone {
    (packing(), prop_oneof![2 => Just(vec![]), 1 => muts(4)]).prop_map(|(p, wire)| Packing { wire, ..p })
}
fn flights1() -> impl Strategy<Value = Flight1> + Clone {
    ((any::<bool>(), any::<bool>(), 0u8..3, 0u8..6, prop_oneof![4 => Just(0u8), 4 => Just(1), 1 => Just(2)]), (prop_oneof![Just(8u8), Just(11), Just(13), Just(15), Just(20), Just(4), Just(24), any::<u8>()], hexn(0..200), muts(5), any::<bool>(), wired(), prop_oneof![4 => Just(vec![]), 1 => vec(op(), 1..3)]))
        .prop_map(|((server, auth, suite, at, how), (typ, body, muts, fix, pk, more))| Flight1 { server, auth, suite, at, how, typ, body, muts, fix, pk, more })
}
fn laters() -> impl Strategy<Value = Later> + Clone {
    let kind = prop_oneof![
        3 => (prop_oneof![Just(20u8), Just(21), Just(22), Just(23), Just(0), Just(24), any::<u8>()], prop_oneof![hexn(0..40), Just(Hex(vec![0; 30])), hexn(300..400)]).prop_map(|(t, b)| Kind::Rec(t, b)),
        2 => stray(),
        2 => hexn(0..50).prop_map(Kind::App),
        2 => (muts(4), 0usize..3).prop_map(|(m, i)| {
            let mut b = [vec![0, 0, 0x1c, 0x20, 1, 2, 3, 4, 1, 9], vecn(2, &[7; 20]), vec![0, 0]].concat();
            let t = [4u8, 24, 13][i];
            if i == 1 { b = vec![0]; }
            if i == 2 { b = cr_body(&[1], &[0x403]); }
            mutate(&mut b, &m);
            Kind::Msg(t, Hex(b))
        }),
        1 => (0u8..16, 1usize..40, any::<u8>()).prop_map(|(t, n, x)| Kind::Rec(22, Hex([vec![t, x & 1, 0, 0], vec![3; n]].concat()))),
    ];
    ((any::<bool>(), 0u8..3, any::<bool>(), any::<u64>()).prop_map(|(server, suite, auth, seed)| Setup { server, suite, auth, seed }), vec((kind, prop_oneof![3 => Just(0u16), 1 => 0u16..300]), 0..5), prop_oneof![2 => Just(vec![]), 1 => vec(raw_rec(), 1..3)], prop_oneof![2 => Just(vec![]), 1 => muts(3)], packing(), proptest::bool::weighted(0.2), prop_oneof![Just(vec![]), vec(1u16..30, 1..3)])
        .prop_map(|(at, items, raw, muts, pk, rst, sizes)| Later { at, items, raw, muts, pk, rst, sizes })
}
fn raws() -> impl Strategy<Value = Raw> + Clone {
    (any::<bool>(), any::<bool>(), vec(raw_rec(), 0..5), prop_oneof![1 => Just(vec![]), 1 => muts(4)], proptest::bool::weighted(0.15)).prop_map(|(server, hello, recs, muts, rst)| Raw { server, hello, recs, muts, rst })
}
/// Every prefix of a legal stream.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prefix {
    server: bool,
    at: u16,
}
fn prefix(c: &Prefix) -> Res {
    let pk = Packing { wire: vec![Mut::Cut(c.at as u32)], ..Default::default() };
    if c.server {
        CliPlan { seed: 4, suites: vec![0x1301], sid: 32, sni: None, ch: ChOp::Right, ccs: true, cert: Some((Leaf::of(Spec::simple("ok", 20), 7), 20)), ops: vec![], pk, data: vec![Blob { len: 30, seed: 1, pat: 0 }], srv: SrvOpt { ca: Some(7), ..SrvOpt::plain(3) } }.run(None)?;
    } else {
        SrvPlan { seed: 4, suite: 2, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: Some((Hex(vec![1]), vec![0x0403])), sh: ShOp::Right, ops: vec![Op::Ccs(0)], pk, data: vec![Blob { len: 30, seed: 1, pat: 0 }], cli: CliOpt::plain() }.run(None)?;
    }
    Ok(hit())
}

/// A legal flight in which one message has only the beginning of its contents.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Short {
    server: bool,
    auth: bool,
    suite: u8,
    /// 9: the hello
    at: u8,
    len: u16,
    coalesce: bool,
}
fn short(c: &Short) -> Res {
    let pk = Packing { coalesce: c.coalesce, ..Default::default() };
    let cut = |base: Vec<Item>| match base.get(c.at as usize).and_then(|it| sample(&it.kind, &[Mut::Cut(c.len as u32)], false)) {
        Some((t, b)) => vec![Op::Drop(c.at), Op::Insert(c.at, Kind::Msg(t, Hex(b)), None)],
        None => vec![],
    };
    let tag = if c.server {
        let mut p = CliPlan { seed: 4, suites: vec![0x1301 + c.suite as u16 % 3], sid: 32, sni: None, ch: ChOp::Right, ccs: true, cert: None, ops: vec![], pk, data: vec![], srv: SrvOpt { ca: Some(7), verify: Some(2), ..SrvOpt::plain(3) } };
        if c.auth {
            p.cert = Some((Leaf::of(Spec::simple("ok", 20), 7), 20));
        } else {
            p.srv.ca = None;
            p.srv.verify = None;
        }
        if c.at == 9 {
            let mut b = hello_bytes()[4..].to_vec();
            b.truncate(c.len as usize);
            p.ch = ChOp::Raw(Hex(msg(CH, &b)));
        } else {
            p.ops = cut(p.base());
        }
        p.run(None)?.lib.err()
    } else {
        let mut p = SrvPlan { seed: 4, suite: c.suite, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: c.auth.then(|| (Hex(vec![1, 2, 3]), vec![0x0403, 0x0804])), sh: ShOp::Right, ops: vec![], pk, data: vec![], cli: CliOpt::plain() };
        if c.at == 9 {
            p.sh = ShOp::Splice(c.len, 0xffff, Hex(vec![]));
        } else {
            p.ops = cut(p.base());
        }
        p.run(None)?.lib.err()
    };
    Ok(hit().tag(tag.map(|e| format!("{e:?}")).unwrap_or("session".into())))
}
/// A record of a few bytes of any type somewhere in a legal flight.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tiny {
    server: bool,
    auth: bool,
    at: u8,
    typ: u8,
    b: Hex,
    prot: Option<Prot>,
}
fn tiny(c: &Tiny) -> Res {
    let ops = vec![Op::Insert(c.at, Kind::Rec(c.typ, c.b.clone()), c.prot)];
    let err = if c.server {
        let mut p = CliPlan { seed: 4, suites: vec![0x1301], sid: 32, sni: None, ch: ChOp::Right, ccs: false, cert: None, ops, pk: Packing::default(), data: vec![], srv: SrvOpt::plain(3) };
        if c.auth {
            p.cert = Some((Leaf::of(Spec::simple("ok", 20), 7), 20));
            p.srv.ca = Some(7);
            p.srv.verify = Some(2);
        }
        p.run(None)?.lib.err()
    } else {
        SrvPlan { seed: 4, suite: 0, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: c.auth.then(|| (Hex(vec![1, 2, 3]), vec![0x0403])), sh: ShOp::Right, ops, pk: Packing::default(), data: vec![], cli: CliOpt::plain() }.run(None)?.lib.err()
    };
    Ok(hit().tag(err.map(|e| format!("{e:?}")).unwrap_or("session".into())))
}
fn tinies() -> Vec<Tiny> {
    let mut v = vec![];
    for (server, auth, last) in [(false, false, 4u8), (false, true, 5), (true, false, 1), (true, true, 3)] {
        for at in 0..=last {
            for typ in [0u8, 20, 21, 22, 23, 24, 255] {
                for n in 0..6usize {
                    for prot in [None, Some(Prot::Plain), Some(Prot::Hs), Some(Prot::Ap)] {
                        v.push(Tiny { server, auth, at, typ, b: Hex(vec![if n % 2 == 0 { 2 } else { 0 }; n]), prot });
                    }
                }
            }
        }
    }
    v
}
fn shorts() -> Vec<Short> {
    let mut v = vec![];
    for (i, at) in [0u8, 1, 2, 3, 4, 9].into_iter().enumerate() {
        for len in (0..90u16).chain([100, 120, 150, 200, 250, 300, 320, 350]) {
            for server in [false, true] {
                for auth in [false, true] {
                    if server && (at == 3 || at == 4 || (!auth && (at == 1 || at == 2))) {
                        continue;
                    }
                    v.push(Short { server, auth, suite: (len % 3) as u8, at, len, coalesce: (i as u16 + len) % 2 == 0 });
                }
            }
        }
    }
    v
}
/// The public decoders of what comes from the network.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Direct {
    /// 0 nothing of its own, else one of the messages
    base: u8,
    bytes: Hex,
    muts: Vec<Mut>,
    /// right lengths in the headers
    fix: bool,
}
fn direct(c: &Direct) -> Res {
    use anothertls::net::extensions as x;
    use anothertls::net::{handshake, record};
    use x::Extension;
    let h = Hello { server: true, exts: vec![(5, c.bytes.clone())], base: true, suites: vec![0x1301], sid: 32, muts: vec![], ext_muts: vec![], name: true, fix: true };
    let leaf = Leaf::of(Spec::simple("server", 2), 9).der();
    let mut b = match c.base % 9 {
        1 => client_hello(&h),
        2 => hello_of_server(&h),
        3 => msg(CERT, &cert_body(&c.bytes, &[leaf])),
        4 => msg(CR, &cr_body(&c.bytes, &[0x403, 0x804])),
        5 => msg(EE, &vecn(2, &c.bytes)),
        6 => msg(CV, &[be(2, 0x403), vecn(2, &c.bytes)].concat()),
        7 => [vec![23, 3, 3], vecn(2, &c.bytes)].concat(),
        8 => [vec![22, 3, 1], vecn(2, &client_hello(&h))].concat(),
        _ => c.bytes.0.clone(),
    };
    fixed(&mut b, &c.muts, c.fix && c.base % 9 < 7);
    let all = b.clone();
    let r = guard(move || {
        let body = all.get(4..).unwrap_or(&[]);
        let mut n = 0;
        n += handshake::Handshake::from_raw(&all).is_ok() as u32;
        n += record::Record::from_raw(&all).is_ok() as u32;
        n += anothertls::net::client::client_hello::ClientHello::from_raw(body).is_ok() as u32;
        n += anothertls::net::server::server_hello::ServerHello::from_raw(body).is_ok() as u32;
        n += handshake::Certificate::from_hello(body).is_ok() as u32;
        for at in [0usize, 2, 4] {
            let e = all.get(at..).unwrap_or(&[]);
            n += x::split_extensions(e).is_ok() as u32;
            n += x::KeyShare::server_parse(e).is_ok() as u32;
            n += x::KeyShare::client_parse(e).is_ok() as u32;
            n += x::ServerName::server_parse(e).is_ok() as u32;
            n += x::SignatureAlgorithms::server_parse(e).is_ok() as u32;
            n += x::SupportedVersions::server_parse(e).is_ok() as u32;
            n += x::SupportedVersions::client_parse(e).is_ok() as u32;
        }
        n
    });
    match r {
        Ok(n) => Ok(nt(!b.is_empty()).tag(if n > 0 { "decoded by one" } else { "refused by all" })),
        Err(p) => bad!("a decoder of what comes from the network panics: {p}"),
    }
}
fn directs() -> impl Strategy<Value = Direct> + Clone {
    (any::<u8>(), prop_oneof![1 => hexn(0..8), 3 => hexn(0..80)], muts(4), any::<bool>()).prop_map(|(base, bytes, muts, fix)| Direct { base, bytes, muts, fix })
}

/// Things that are large or deep.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    server: bool,
    what: u8,
    n: u32,
}
fn nest(tag: u8, n: usize, rest: &[u8]) -> Vec<u8> {
    let mut v = rest.to_vec();
    v.reverse();
    for _ in 0..n {
        let h = cert::tlv(tag, &[]);
        let l = cert::len(v.len());
        v.extend(l.iter().rev());
        v.push(h[0]);
    }
    v.reverse();
    v
}
fn big(c: &Big) -> Res {
    let n = c.n as usize;
    let lot = |unit: &[u8], n: usize| unit.iter().copied().cycle().take(unit.len() * n).collect::<Vec<u8>>();
    let certificate = |der: Vec<u8>| Kind::Msg(CERT, Hex(cert_body(&[], &[der])));
    let good = Leaf::of(Spec::simple("ok", 20), 7);
    let tbs = |part: Vec<u8>| {
        let d = good.der();
        // in place of the subject's and later fields
        let b = cert::tlv_body(&d).unwrap().to_vec();
        let t = cert::tlv_body(&b).unwrap().to_vec();
        let cut = (c.n as usize * 7) % t.len().min(60);
        cert::seq(&[cert::seq(&[t[..cut].to_vec(), part]), b[cert::tlv_len(&b).unwrap()..].to_vec()])
    };
    let der = match c.what {
        0 => Some(nest(0x30, n, &[])),
        1 => Some(nest(0x31, n, &[5, 0])),
        2 => Some(nest(0xa0, n, &[5, 0])),
        3 => Some(tbs(nest(0x30, n, &[]))),
        4 => Some(cert::seq(&[nest(0x30, n, &[]), nest(0x30, 5, &[])])),
        5 => Some(lot(&[0x30, 0], n * 4)),
        6 => Some(cert::tlv(2, &lot(&[0x7f], n * 4))),
        7 => Some(tbs(nest(0xa3, n, &[4, 1, 1]))),
        _ => None,
    };
    let sig = |r: Vec<u8>| [be(2, 0x403), vecn(2, &cert::seq(&[cert::integer(&r), cert::integer(&[7; 32])]))].concat();
    let (at, kind, ops) = match (c.what, der) {
        (_, Some(d)) => (Some(CERT), Some(certificate(d)), vec![]),
        (8, _) => (Some(CERT), Some(Kind::Msg(CERT, Hex([vec![0], vecn(3, &lot(&[0, 0, 1, 48, 0, 0], n * 4))].concat()))), vec![]),
        (9, _) => (Some(CV), Some(Kind::Msg(CV, Hex(sig(vec![0x7f; n * 2])))), vec![]),
        (10, _) => (Some(CERT), Some(Kind::Msg(CERT, Hex([vec![0], vecn(3, &[vecn(3, &good.der()), vecn(2, &lot(&[0xaa, 0xaa, 0, 0], n))].concat())].concat()))), vec![]),
        (11, _) => (None, None, (0..n.min(2000)).map(|i| Op::Ccs((i % 2) as u8)).collect()),
        _ => (None, None, vec![]),
    };
    let pk = Packing { rec: if c.n % 2 == 1 { vec![1 + (c.n % 100) as u16] } else { vec![] }, ..Default::default() };
    let put = |base: Vec<Item>| {
        let mut v = ops.clone();
        if let (Some(t), Some(k)) = (at, &kind) {
            if let Some(i) = base.iter().position(|i| matches!((&i.kind, t), (Kind::Cert { .. }, CERT) | (Kind::CertVerify(_), CV))) {
                v.push(Op::Drop(i as u8));
                v.push(Op::Insert(i as u8, k.clone(), None));
            }
        }
        v
    };
    let r = if c.server {
        let mut p = CliPlan { seed: 4, suites: vec![0x1301], sid: 32, sni: None, ch: ChOp::Right, ccs: true, cert: Some((good.clone(), 20)), ops: vec![], pk, data: vec![], srv: SrvOpt { ca: Some(7), ..SrvOpt::plain(3) } };
        p.ops = put(p.base());
        let mut h = p.hello();
        match c.what {
            12 => h.exts.extend((0..n.min(16000)).map(|i| (0x1a1au16.wrapping_add((i as u16).wrapping_mul(16)), Hex(vec![])))),
            13 => h.suites = (0..n.min(32000)).map(|i| 0x2000 + i as u16).chain([0x1301]).collect(),
            14 => h.exts.iter_mut().for_each(|e| if e.0 == X_KEYSHARE { e.1 = Hex(vecn(2, &[lot(&[0x0a, 0x0a, 0, 0], n.min(15000)), share_entry(0x1d, &[9; 32])].concat())) }),
            15 => h.exts.push((0, Hex(vecn(2, &lot(&[1, 0, 0], n.min(15000)))))),
            16 => h.exts.push((21, Hex(vec![0; n.min(60000)]))),
            _ => {}
        }
        if c.what >= 12 {
            p.ch = ChOp::Raw(Hex(h.raw()));
        }
        p.run(None)?.lib.err()
    } else {
        let mut p = SrvPlan { seed: 4, suite: 0, leaf: good.clone(), cr: None, sh: ShOp::Right, ops: vec![], pk, data: vec![], cli: CliOpt::plain() };
        p.ops = put(p.base());
        match c.what {
            12 => p.sh = ShOp::Exts((0..n.min(16000)).map(|i| (0x1a1au16.wrapping_add((i as u16).wrapping_mul(16)), Hex(vec![]))).collect()),
            13 => p.ops = vec![Op::Drop(0), Op::Insert(0, Kind::Msg(EE, Hex(vecn(2, &lot(&[0xaa, 0xaa, 0, 0], n.min(16000))))), None)],
            14 => p.ops = vec![Op::Insert(1, Kind::Msg(CR, Hex([vec![0], vecn(2, &[be(2, 13), vecn(2, &vecn(2, &lot(&[4, 3], n.min(30000))))].concat())].concat())), None)],
            15 => p.ops = vec![Op::Insert(1, Kind::Msg(CR, Hex([vecn(1, &vec![1; n % 256]), vecn(2, &lot(&[0xaa, 0xaa, 0, 0], n.min(16000)))].concat())), None)],
            16 => p.ops = vec![Op::Insert(1, Kind::Msg(24, Hex(vec![0; n * 4])), None)],
            _ => {}
        }
        p.run(None)?.lib.err()
    };
    Ok(hit().tag(r.map(|e| format!("{e:?}")).unwrap_or("session".into())))
}
fn bigs() -> Vec<Big> {
    let mut v = vec![];
    for server in [false, true] {
        for what in 0..17 {
            for n in [1u32, 10, 1000, 1001, 7000, 20_000, 30_000, 15_999] {
                v.push(Big { server, what, n });
            }
        }
    }
    v
}

fn main() {
    run::main("C16", "bytes reached the endpoint and it returned", |c| {
        // the text of log lines is made as well
        unsafe { anothertls::utils::log::LOG_LEVEL = anothertls::utils::log::LogLevel::Fixme };
        c.assume("an endpoint that has not returned 60 s after its peer closed does not return; debug assertions and overflow checks are on");
        c.shrink_iters = 300;
        c.list("prefixes", (0..1100u16).flat_map(|at| [Prefix { server: false, at }, Prefix { server: true, at }]).collect(), prefix);
        c.list("short", shorts(), short);
        c.list("tiny", tinies(), tiny);
        c.sub("decoders", 60_000, directs, direct);
        c.list("big", bigs(), big);
        c.list("floods", (0..8u8).flat_map(|what| [false, true].into_iter().flat_map(move |server| [2_000u32, 60_001, 150_000].map(|n| Flood { server, what, n }))).collect(), flood);
        c.sub("raw", 5000, raws, raw);
        c.sub("hello", 5000, hellos, hello);
        c.sub("hello_fast", 200_000, hellos, hello_fast);
        c.sub("flight", 8000, flights1, flight);
        c.sub("later", 6000, laters, later);
    })
}
