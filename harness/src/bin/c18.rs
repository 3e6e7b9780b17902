//! C18: negotiation picks only what both sides offered, and ignores the unknown.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::cert::Spec;
use vharness::gen::{Blob, Hex};
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::{self, *};
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
#[path = "../glue/offer.rs"]
mod offer;
use flights::*;
use lib_side::*;
use offer::*;

trait OfferRun {
    fn plan(&self) -> CliPlan;
    fn outcome(&self) -> Result<Result<u16, String>, Fail>;
}

impl OfferRun for Offer {
    fn plan(&self) -> CliPlan {
        let mut srv = SrvOpt::plain(3);
        srv.name = self.name.clone();
        let mut cert = None;
        if self.auth {
            srv.ca = Some(7);
            cert = Some((Leaf::of(Spec::simple("ok", 20), 7), 20));
        }
        CliPlan { seed: self.seed, suites: self.suites.clone(), sid: self.sid, sni: self.sni.clone(), ch: ChOp::Own(Hex(self.hello().raw())), ccs: self.ccs, cert, ops: vec![], pk: self.pk.clone(), data: vec![Blob { len: 100, seed: self.seed, pat: 0 }], srv }
    }
    // What became of it: the suite or the error.
    fn outcome(&self) -> Result<Result<u16, String>, Fail> {
        let p = self.plan();
        let r = p.run(None)?;
        let h = self.hello();
        let out = match &r.flight {
            Ok(f) => {
                let s = &f.sh;
                ensure!(self.versions.as_ref().is_some_and(|v| v.contains(&0x0304)), "a ServerHello for a client that did not offer TLS 1.3");
                ensure!(self.common().contains(&s.suite), "suite {:04x} was chosen of {:04x?}", s.suite, self.suites);
                ensure!(s.version == 0x303 && ext(&s.exts, X_VERSIONS).is_some_and(|b| b.0 == [3, 4]), "the ServerHello does not select TLS 1.3: {s:?}");
                let (g, _) = s.share().map_err(Fail::Bad)?;
                ensure!(g == 0x1d && self.shares.as_ref().is_some_and(|s| s.contains(&g)), "group {g:04x} was chosen of {:04x?}", self.shares);
                ensure!(s.sid == h.sid, "the session id is not echoed");
                ensure!(s.comp == 0, "compression");
                for (t, _) in &s.exts {
                    ensure!(ext(&h.exts, *t).is_some(), "extension {t} of the ServerHello was not offered");
                }
                Ok(s.suite)
            }
            Err(e) => {
                if let Ev::Junk(j) = e {
                    bad!("the server answers with: {j}");
                }
                Err(format!("{e:?} {:?}", r.lib.as_ref().err()))
            }
        };
        match (&out, &r.lib) {
            (Ok(_), Err(e)) => bad!("after its flight and a right answer to it the server fails with {e:?}"),
            (Err(e), Ok(_)) => bad!("accept succeeded although the client saw {e}"),
            (Ok(_), Ok((d, _))) => ensure!(*d == p.data[0].get(), "the session does not work: {} bytes arrived", d.len()),
            _ => {}
        }
        Ok(out)
    }
}
fn server(o: &Offer) -> Res {
    let want = o.accept();
    let got = o.outcome()?;
    match (want, &got) {
        (Some(true), Err(e)) => bad!("a hello that offers all that is needed was refused: {e}"),
        (Some(false), Ok(s)) => bad!("a hello that lacks something was answered with {s:04x}"),
        _ => {}
    }
    Ok(match got {
        Ok(_) => hit().tag("accepted"),
        Err(_) => hit().tag("refused").tag_if(o.sni.is_some() && o.name.is_some() && o.sni != o.name, "other name"),
    })
}

/// Unknown values put into an offer.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grease {
    o: Offer,
    suites: Vec<(u8, u16)>,
    versions: Vec<(u8, u16)>,
    shares: Vec<(u8, u16)>,
    groups: Vec<(u8, u16)>,
    sigs: Vec<(u8, u16)>,
    exts: Vec<(u8, u16, Hex)>,
}
fn put<T: Clone>(v: &mut Vec<T>, at: u8, x: T) {
    let i = at as usize % (v.len() + 1);
    v.insert(i, x);
}
fn grease(g: &Grease) -> Res {
    let a = g.o.outcome()?;
    // the extensions of the original keep their order
    let h = g.o.hello();
    let mut o = g.o.clone();
    for (i, x) in &g.suites {
        put(&mut o.suites, *i, *x);
    }
    if let Some(v) = o.versions.as_mut() {
        g.versions.iter().for_each(|(i, x)| put(v, *i, *x));
    }
    if let Some(v) = o.shares.as_mut() {
        for (i, x) in &g.shares {
            if !v.contains(x) {
                put(v, *i, *x);
            }
        }
    }
    g.groups.iter().for_each(|(i, x)| put(&mut o.groups, *i, *x));
    g.sigs.iter().for_each(|(i, x)| put(&mut o.sigs, *i, *x));
    let n = o.hello();
    let mut e: Vec<(u16, Hex)> = h.exts.iter().map(|(t, _)| (*t, ext(&n.exts, *t).unwrap().clone())).collect();
    for (i, t, b) in &g.exts {
        if ext(&e, *t).is_none() {
            let k = e.iter().position(|x| x.0 == 41).unwrap_or(e.len());
            e.insert(*i as usize % (k + 1), (*t, b.clone()));
        }
    }
    let hello = ClientHello { exts: e, ..n };
    let mut p = o.plan();
    p.ch = ChOp::Own(Hex(hello.raw()));
    let r = p.run(None)?;
    let b = match &r.flight {
        Ok(f) => Ok(f.sh.suite),
        Err(e) => Err(format!("{e:?} {:?}", r.lib.as_ref().err())),
    };
    ensure!(a == b, "with unknown values added the outcome is {b:04x?} instead of {a:04x?}");
    ensure!(b.is_ok() == r.lib.is_ok(), "the handshake ends as {:?}", r.lib.as_ref().map(|_| ()));
    Ok(nt(hello.raw() != h.raw()).tag(if a.is_ok() { "accepted" } else { "refused" }))
}

// ------------------------------------------------------------------ the client
/// A server's selection, with keys that fit the suite of the plan.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pick {
    seed: u64,
    suite: u8,
    op: ShOp,
    cr: bool,
}
fn base(seed: u64, suite: u8) -> SrvPlan {
    SrvPlan { seed, suite, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: None, sh: ShOp::Right, ops: vec![], pk: Packing { coalesce: true, ..Default::default() }, data: vec![], cli: CliOpt::plain() }
}
fn client(k: &Pick) -> Res {
    let mut p = base(k.seed, k.suite);
    p.sh = k.op.clone();
    if k.cr {
        p.cr = Some((Hex(vec![4; 8]), vec![0x0403]));
    }
    let r = p.run(None)?;
    if r.lib.is_ok() {
        bad!("the client accepted a server that selected something it did not offer: {:?}", k.op);
    }
    if let Ok(_) = r.flight {
        bad!("the client went on with a server that selected something it did not offer: {:?}", k.op);
    }
    Ok(hit().tag(format!("{:?}", r.lib.err().unwrap())))
}
/// 23-bit field values around and far from the offered ones
fn picks() -> Vec<Pick> {
    let mut v = vec![];
    let mut n = 0;
    let mut add = |op: ShOp, suite: u8| {
        n += 1;
        v.push(Pick { seed: n, suite, op, cr: n % 3 == 0 });
    };
    for suite in 0..3u8 {
        let mut s: Vec<u16> = vec![0, 0x00ff, 0x1300, 0x1304, 0x1305, 0x13ff, 0x0301, 0x0302, 0x0303, 0xc02b, 0xc02f, 0xcca9, 0x009c, 0x5600, 0xffff];
        s.extend(GREASE);
        for b in 0..16 {
            s.push(SUITES[suite as usize].0 ^ 1 << b);
        }
        s.retain(|x| !SUITES.contains(&Suite(*x)));
        s.into_iter().for_each(|x| add(ShOp::OtherSuite(x), suite));
        let mut g: Vec<u16> = vec![0, 0x17, 0x18, 0x19, 0x1e, 0x100, 0x101, 0x102, 0x103, 0x104, 0x11ec, 0x1c, 0x1f, 0x1d00, 0xffff];
        g.extend(GREASE);
        (0..16).for_each(|b| g.push(0x1d ^ 1 << b));
        g.into_iter().for_each(|x| add(ShOp::Group(x), suite));
        let mut w: Vec<u16> = vec![0x0300, 0x0301, 0x0302, 0x0303, 0x0305, 0x0403, 0x0404, 0x7f1c, 0xfefc, 0, 0xffff];
        w.extend(GREASE);
        (0..16).for_each(|b| w.push(0x0304 ^ 1 << b));
        let share = share_entry(0x1d, &x25519_pub(&x_secret(0)));
        for x in w {
            let seed = 50_000 + x as u64 * 4 + suite as u64;
            let share = share_entry(0x1d, &x25519_pub(&x_secret(seed)));
            v_push(&mut |op| add(op, suite), ShOp::Exts(vec![(X_KEYSHARE, Hex(share.clone())), (X_VERSIONS, Hex(be(2, x as usize)))]));
        }
        // no version, or no share at all
        add(ShOp::Exts(vec![(X_KEYSHARE, Hex(share.clone()))]), suite);
        add(ShOp::Exts(vec![(X_VERSIONS, Hex(vec![3, 4]))]), suite);
        add(ShOp::Exts(vec![]), suite);
        for x in [0x0300u16, 0x0301, 0x0302, 0x0304] {
            add(ShOp::Version(x), suite);
        }
        // a retry it does not ask for rightly
        add(ShOp::Random(Hex(H::S256.hash(b"HelloRetryRequest"))), suite);
        for c in [1u8, 2, 64, 255] {
            add(ShOp::Comp(c), suite);
        }
        for l in [0usize, 1, 8, 31, 32] {
            add(ShOp::Sid(Hex(vec![0x5a; l])), suite);
        }
    }
    // the key share above has to fit the secret of the plan
    for p in v.iter_mut() {
        if let ShOp::Exts(e) = &mut p.op {
            for x in e.iter_mut() {
                if x.0 == X_KEYSHARE {
                    x.1 = Hex(share_entry(0x1d, &x25519_pub(&x_secret(p.seed))));
                }
            }
        }
    }
    v
}
fn v_push(f: &mut dyn FnMut(ShOp), op: ShOp) {
    f(op)
}

/// A signature scheme nobody offered, whatever it signs with.
fn scheme(s: &(u64, u16, u8)) -> Res {
    let mut p = base(s.0, s.2);
    p.ops = vec![Op::Cv(CvSpec { scheme: s.1, ..CvSpec::right(true, 2) })];
    let r = p.run(None)?;
    ensure!(r.lib.is_err(), "the client accepted a CertificateVerify of scheme {:04x}", s.1);
    Ok(hit())
}
/// A server's flight with legal content the library does not know.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Known {
    seed: u64,
    suite: u8,
    name: Option<String>,
    auth: bool,
    cr: Option<(Hex, Vec<(u16, Hex)>)>,
    /// which of the legal encrypted extensions
    ee: u8,
    versions_first: bool,
    pk: Packing,
}
fn known(k: &Known) -> Res {
    let mut p = base(k.seed, k.suite);
    p.cli.name = k.name.clone();
    if k.auth {
        p.cli.cert = Some((Leaf::of(Spec::simple("client", 21), 7), 21));
    }
    p.pk = k.pk.clone();
    if k.versions_first {
        p.sh = ShOp::Exts(vec![(X_VERSIONS, Hex(vec![3, 4])), (X_KEYSHARE, Hex(share_entry(0x1d, &x25519_pub(&x_secret(k.seed)))))]);
    }
    let mut e = vec![];
    if k.ee & 1 != 0 {
        e.push((X_GROUPS, Hex(vecn(2, &u16s(&[0x0a0a, 0x1d, 0x17, 0x11ec])))));
    }
    if k.ee & 2 != 0 && k.name.is_some() {
        e.push((X_SNI, Hex(vec![])));
    }
    if k.ee & 4 != 0 {
        e.reverse();
    }
    p.ops = vec![Op::Drop(0), Op::Insert(0, Kind::Msg(EE, Hex(exts(&e))), None)];
    if let Some((ctx, l)) = &k.cr {
        p.ops.push(Op::Insert(1, Kind::Msg(CR, Hex([vecn(1, ctx), exts(l)].concat())), None));
    }
    let mut q = p.clone();
    q.data = vec![Blob { len: 60, seed: 4, pat: 0 }];
    if let Some((ctx, _)) = &k.cr {
        // parsed by this side only when it is received
        q.cr = None;
        let _ = ctx;
    }
    let r = q.run(None)?;
    match (&r.lib, &r.flight) {
        (Ok((d, _)), Ok(m)) => {
            ensure!(*d == q.data[0].get(), "the session does not work: {} bytes arrived", d.len());
            let types: Vec<u8> = m.iter().map(|x| x.0).collect();
            let want: Vec<u8> = match (&k.cr, k.auth) {
                (None, _) => vec![FIN],
                (Some(_), true) => vec![CERT, CV, FIN],
                (Some(_), false) => vec![CERT, FIN],
            };
            ensure!(types == want, "the client answers with the messages {types:?} instead of {want:?}");
            if let Some((ctx, _)) = &k.cr {
                let c = parse_cert(&m[0].1[4..]).map_err(Fail::Bad)?;
                ensure!(c.0 == ctx.0, "the context of the request is not echoed");
            }
        }
        (l, f) => bad!("legal content the client does not know ends the handshake: {:?}, {:?}", l.as_ref().map(|_| ()), f.as_ref().map(|_| ())),
    }
    Ok(nt(k.cr.is_some() || k.ee & 3 != 0).tag_if(k.cr.is_some(), "request").tag_if(k.ee & 3 != 0, "encrypted extensions"))
}

fn greased() -> impl Strategy<Value = Grease> + Clone {
    let l = |f: &'static [u16], n: usize| vec((any::<u8>(), prop_oneof![1 => proptest::sample::select(f), 3 => grease_u16()]), 0..n);
    (offer(), l(&[0x1304, 0xc02b, 0x5600], 5), l(&[0x0305, 0x7f1c], 3), vec((any::<u8>(), grease_u16()), 0..3), l(&[0x11ec, 0x0200], 4), l(&[0x0809, 0x0905], 4), vec((any::<u8>(), prop_oneof![3 => grease_u16(), 1 => Just(0x4469u16), 1 => Just(0x29a)], gen::hexn(0..40)), 0..5))
        .prop_map(|(o, suites, versions, shares, groups, sigs, exts)| Grease { o, suites, versions, shares, groups, sigs, exts })
}
fn knowns() -> impl Strategy<Value = Known> + Clone {
    let sigs = vec(prop_oneof![3 => proptest::sample::select(&OTHER_SIGS[..]), 1 => grease_u16()], 0..8).prop_flat_map(|a| Just([vec![0x0403], a].concat()).prop_shuffle());
    let more = vec(prop_oneof![
        2 => (grease_u16(), gen::hexn(0..9)),
        1 => Just((47u16, Hex(vecn(2, &vecn(2, &[0x30, 0]))))),
        1 => Just((50, Hex(vec![0, 2, 4, 3]))),
        1 => Just((48, Hex(vec![0, 0]))),
        1 => Just((5, Hex(vec![1, 0, 0, 0, 0]))),
        1 => Just((18, Hex(vec![]))),
    ], 0..5);
    let cr = (prop_oneof![Just(Hex(vec![])), gen::hexn(1..256)], sigs, more).prop_flat_map(|(c, s, m)| {
        let mut e = vec![(X_SIGALGS, Hex(vecn(2, &u16s(&s))))];
        for x in m {
            if ext(&e, x.0).is_none() {
                e.push(x);
            }
        }
        (Just(c), Just(e).prop_shuffle())
    });
    (any::<u64>(), 0u8..3, proptest::option::of(name()), any::<bool>(), proptest::option::weighted(0.7, cr), 0u8..8, any::<bool>(), packing()).prop_map(|(seed, suite, name, auth, cr, ee, versions_first, pk)| Known { seed, suite, name, auth, cr, ee, versions_first, pk })
}

/// Offers whose lists are as long as they can be, with what matters at the front, around the
/// powers of two, and at the end.
fn long_lists() -> Vec<Offer> {
    let base = |n: u64| Offer {
        seed: 900_000 + n,
        sid: [0, 31, 32][n as usize % 3],
        suites: vec![SUITES[n as usize % 3].0],
        versions: Some(vec![0x0304]),
        shares: Some(vec![0x1d]),
        groups: vec![0x1d],
        sigs: vec![0x0403],
        sni: None,
        name: None,
        more: vec![],
        perm: n % 4,
        auth: n % 2 == 0,
        ccs: n % 5 == 0,
        pk: Packing::default(),
    };
    // n values nobody knows, the known one at `at`
    let with = |known: u16, n: usize, at: usize| {
        let mut v: Vec<u16> = (0..n).map(|i| GREASE[i % 16]).collect();
        v.insert(at.min(n), known);
        v
    };
    let places = |n: usize| {
        let mut p: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(1), n];
        p.extend((1..16).flat_map(|b| [(1usize << b) - 1, 1 << b]).filter(|x| *x < n));
        p.sort();
        p.dedup();
        p
    };
    let mut out = vec![];
    let mut n = 0;
    let mut add = |f: &dyn Fn(&mut Offer)| {
        n += 1;
        let mut o = base(n);
        f(&mut o);
        out.push(o);
    };
    for total in [15, 63, 126] {
        for at in places(total) {
            add(&|o| o.versions = Some(with(0x0304, total, at)));
        }
    }
    for total in [255, 5000, 32_766] {
        for at in places(total) {
            add(&|o| o.suites = with(o.suites[0], total, at));
        }
    }
    // with the other extensions at most 65535 bytes
    for total in [127, 5000, 32_600] {
        for at in places(total) {
            add(&|o| o.sigs = with(0x0403, total, at));
            add(&|o| o.groups = with(0x1d, total, at));
        }
    }
    // a share for each of many groups nobody knows: different ones, 1 to 40 bytes each
    for total in [20usize, 300, 2100] {
        for at in places(total) {
            add(&|o| {
                let mut v: Vec<u16> = (0..total as u16).map(|i| 0x2000 + i).collect();
                v.insert(at.min(total), 0x1d);
                o.groups = v.clone();
                o.shares = Some(v);
            });
        }
    }
    // many extensions nobody knows, some of them big
    for (count, size) in [(200usize, 3usize), (10_000, 0), (60, 1000), (3, 20_000), (1, 65_000)] {
        for perm in [0u64, 1, 2, 3] {
            add(&|o| {
                o.perm = perm;
                o.more = (0..count).map(|i| (0x3000 + i as u16, Hex(vec![i as u8; size]))).collect();
            });
        }
    }
    out
}
/// Values one bit away from the known ones: unknown, whatever they carry.
fn neighbours() -> Vec<Offer> {
    let base = |n: u64| Offer {
        seed: 950_000 + n,
        sid: 32,
        suites: vec![SUITES[n as usize % 3].0],
        versions: Some(vec![0x0304]),
        shares: Some(vec![0x1d]),
        groups: vec![0x1d],
        sigs: vec![0x0403],
        sni: (n % 2 == 0).then(|| "anothertls.test".to_string()),
        name: (n % 4 < 2).then(|| "anothertls.test".to_string()),
        more: vec![],
        perm: n,
        auth: false,
        ccs: n % 5 == 0,
        pk: Packing::default(),
    };
    let mut out = vec![];
    let full = base(0).hello().exts;
    for t in [X_SNI, X_GROUPS, X_SIGALGS, X_VERSIONS, X_KEYSHARE] {
        for b in 0..16 {
            let u = t ^ 1 << b;
            if full.iter().any(|e| e.0 == u) || [41u16, 42, 44].contains(&u) {
                continue;
            }
            // something unreadable, an opposite, and the real thing as well as in place of it
            let real = ext(&full, t).unwrap().clone();
            for x in [Hex(vec![]), Hex(vec![0xff; 3]), Hex(vec![2, 3, 3]), real] {
                let mut o = base(out.len() as u64);
                o.more = vec![(u, x)];
                out.push(o.clone());
                o.seed += 1000;
                match t {
                    X_VERSIONS => o.versions = None,
                    X_KEYSHARE => o.shares = None,
                    _ => continue,
                }
                out.push(o);
            }
        }
    }
    for b in 0..16 {
        for suite in SUITES.map(|s| s.0) {
            let u = suite ^ 1 << b;
            if !SUITES.contains(&Suite(u)) {
                for v in [vec![u], vec![u, suite], vec![suite, u]] {
                    let mut o = base(out.len() as u64);
                    o.suites = v;
                    out.push(o);
                }
            }
        }
        for v in [vec![0x0304 ^ 1 << b], vec![0x0304 ^ 1 << b, 0x0304], vec![0x0304, 0x0304 ^ 1 << b]] {
            let mut o = base(out.len() as u64);
            o.versions = Some(v);
            out.push(o);
        }
        for v in [vec![0x1d ^ 1 << b], vec![0x1d ^ 1 << b, 0x1d], vec![0x1d, 0x1d ^ 1 << b]] {
            let mut o = base(out.len() as u64);
            o.groups = v.clone();
            o.shares = Some(v);
            out.push(o);
        }
    }
    out
}

/// Every name one step away from the expected one, and others that a careless comparison takes for it.
fn other_names() -> Vec<Offer> {
    let base = |n: u64, name: &str, sni: String| Offer {
        seed: 970_000 + n,
        sid: 32,
        suites: vec![SUITES[n as usize % 3].0],
        versions: Some(vec![0x0304]),
        shares: Some(vec![0x1d]),
        groups: vec![0x1d],
        sigs: vec![0x0403],
        sni: Some(sni),
        name: Some(name.to_string()),
        more: vec![],
        perm: n,
        auth: false,
        ccs: false,
        pk: Packing::default(),
    };
    let long = "b".repeat(200) + ".example";
    let mut out: Vec<Offer> = vec![];
    for name in ["anothertls.test", "a", "0", long.as_str()] {
        let mut l: Vec<String> = vec![name.to_string()];
        for i in 0..name.len() {
            if name.len() < 100 || i % 16 == 0 || i + 3 > name.len() {
                l.push([&name[..i], &name[i + 1..]].concat());
                for b in 0..7 {
                    let mut v = name.as_bytes().to_vec();
                    v[i] ^= 1 << b;
                    l.push(String::from_utf8(v).unwrap());
                }
            }
        }
        for i in [0, 1, name.len() / 2, name.len() - 1, name.len()] {
            for x in ["\0", "a", ".", "*", "-", "0", " ", "\n", "\u{7f}", "\0evil.test", ".evil.test", "www.", "*.", "xn--"] {
                l.push([&name[..i.min(name.len())], x, &name[i.min(name.len())..]].concat());
            }
        }
        l.extend([name.repeat(2), name.chars().rev().collect(), "*".into(), "*.test".into(), "127.0.0.1".into(), "::1".into(), "localhost".into(), "\0".into(), name.replace('.', ""), name.replace('.', "_"), name.replace('.', "\u{3002}"), name.replace('a', "\u{430}")]);
        for k in [1usize, 2, 63, 64, 65, 127, 128, 255, 256, 257, 512, 1000] {
            // an equal front, an equal end, the same sum
            l.push(name.to_string() + &"x".repeat(k));
            l.push("x".repeat(k) + name);
            l.push("x".repeat(k));
            l.push(name.to_string() + &"\0".repeat(k));
        }
        for s in l {
            // whether the case of letters matters is left open
            if !s.is_empty() && (s == name || !s.eq_ignore_ascii_case(name)) && s.len() < 1300 {
                out.push(base(out.len() as u64, name, s));
            }
        }
        // a name that is not asked for
        let mut o = base(out.len() as u64, name, "other".into());
        o.name = None;
        out.push(o);
        let mut o = base(out.len() as u64, name, "other".into());
        o.sni = None;
        out.push(o);
    }
    out
}
/// The values known as often as not.
fn repeated() -> Vec<Offer> {
    let mut out = vec![];
    for k in [2usize, 3, 4, 5, 8, 16, 17, 40, 127] {
        for what in 0..7 {
            let n = out.len() as u64;
            let own = SUITES[n as usize % 3].0;
            let mut o = Offer { seed: 980_000 + n, sid: 32, suites: vec![own], versions: Some(vec![0x0304]), shares: Some(vec![0x1d]), groups: vec![0x1d], sigs: vec![0x0403], sni: None, name: None, more: vec![], perm: n, auth: n % 2 == 0, ccs: false, pk: Packing::default() };
            match what {
                0 => o.suites = vec![own; k],
                1 => o.suites = (0..k).flat_map(|i| [GREASE[i % 16], own]).collect(),
                2 => o.suites = (0..k).map(|i| SUITES[i % 3].0).collect(),
                3 => o.versions = Some(vec![0x0304; k.min(127)]),
                4 => o.groups = vec![0x1d; k],
                5 => o.sigs = vec![0x0403; k],
                _ => o.versions = Some([vec![0x0303; k - 1], vec![0x0304]].concat()),
            }
            out.push(o);
        }
    }
    out
}
/// The same for the lists a client receives.
fn long_known() -> Vec<Known> {
    let mut out = vec![];
    let mut add = |cr: Vec<(u16, Hex)>| {
        let n = out.len();
        let ctx = [0usize, 1, 255][n % 3];
        out.push(Known { seed: 800_000 + n as u64, suite: n as u8 % 3, name: None, auth: n % 2 == 0, cr: Some((Hex(vec![7; ctx]), cr)), ee: n as u8 % 8, versions_first: false, pk: Packing::default() });
    };
    for total in [127usize, 5000, 32_700] {
        let mut at: Vec<usize> = vec![0, 1, total / 2, total - 1, total];
        at.extend((1..16).flat_map(|b| [(1usize << b) - 1, 1 << b]).filter(|x| *x < total));
        for a in at {
            let mut v: Vec<u16> = (0..total).map(|i| GREASE[i % 16]).collect();
            v.insert(a, 0x0403);
            add(vec![(X_SIGALGS, Hex(vecn(2, &u16s(&v))))]);
        }
    }
    let sig = (X_SIGALGS, Hex(vecn(2, &u16s(&[0x0403]))));
    for (count, size) in [(200usize, 3usize), (10_000, 0), (60, 1000), (3, 20_000), (1, 65_000)] {
        for at in [0, count / 2, count] {
            let mut v: Vec<(u16, Hex)> = (0..count).map(|i| (0x3000 + i as u16, Hex(vec![i as u8; size]))).collect();
            v.insert(at, sig.clone());
            add(v);
        }
    }
    // names of authorities
    for n in [1usize, 100, 900] {
        add(vec![(47, Hex(vecn(2, &vecn(2, &[0x30, 0]).repeat(n)))), sig.clone()]);
        add(vec![sig.clone(), (47, Hex(vecn(2, &vecn(2, &[&[0x30u8, 62][..], &[0x31; 62]].concat()).repeat(n))))]);
    }
    out
}

fn main() {
    run::main("C18", "the endpoint reached a verdict on a well-formed hello whose outcome the model predicts (metamorphic cases: the added values changed the hello)", |c| {
        c.shrink_iters = 300;
        c.list("picks", picks(), client);
        let schemes: Vec<(u64, u16, u8)> = OTHER_SIGS.iter().chain(&GREASE).chain(&[0, 0x0402, 0x0404, 0x0303, 0x081a, 0xffff]).enumerate().map(|(i, s)| (i as u64, *s, i as u8 % 3)).collect();
        c.list("schemes", schemes, scheme);
        c.list("long-lists", long_lists(), server);
        c.list("neighbours", neighbours(), server);
        c.list("other-names", other_names(), server);
        c.list("repeated", repeated(), server);
        c.list("long-requests", long_known(), known);
        c.sub("server", 14000, offer, server);
        c.sub("grease", 7000, greased, grease);
        c.sub("client", 6000, knowns, known);
    })
}
