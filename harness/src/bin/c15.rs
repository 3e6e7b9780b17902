//! C15: accept succeeds only after a legal client flight.
use proptest::collection::vec;
use vharness::cert::Spec;
use vharness::peer::*;
use vharness::run::*;
use vharness::refs::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

fn decide(p: &CliPlan) -> Res {
    let legal = p.legal();
    let r = p.run(None)?;
    Ok(match (legal, &r.lib) {
        (false, Ok(_)) => bad!("accept succeeded after a client flight that is not a legal one"),
        (true, Err(e)) => nt(false).tag(format!("legal flight refused: {e:?}")),
        (true, Ok(_)) => hit().tag("accepted a legal flight"),
        (false, Err(e)) => hit().tag(format!("{e:?}")),
    })
}

/// A flight of exactly these messages, each of them right in its place.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Order {
    suite: u16,
    auth: bool,
    msgs: Vec<u8>,
    coalesce: bool,
}
fn base(suite: u16, auth: bool) -> CliPlan {
    let mut srv = SrvOpt::plain(3);
    if auth {
        srv.ca = Some(7);
    }
    CliPlan { seed: 5, suites: vec![suite], sid: 32, sni: None, ch: ChOp::Right, ccs: true, cert: Some((Leaf::of(Spec::simple("ok", 20), 7), 20)), ops: vec![], pk: Packing::default(), data: vec![], srv }
}
fn order(o: &Order) -> Res {
    let mut p = base(o.suite, o.auth);
    p.pk.coalesce = o.coalesce;
    let b = p.base();
    p.ops = vec![Op::Cut(0)];
    for (i, m) in o.msgs.iter().enumerate() {
        p.ops.push(Op::Insert(i as u8, b[*m as usize % b.len()].kind.clone(), None));
    }
    decide(&p)
}
fn orders(auth: bool) -> Vec<Order> {
    let mut v = vec![];
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..4 {
        level = level.iter().flat_map(|s| (0..3).map(move |m| [&s[..], &[m]].concat())).collect();
        for (i, s) in level.iter().enumerate() {
            if s[..s.len() - 1].contains(&2) {
                continue;
            }
            for suite in [0x1301, 0x1302, 0x1303] {
                v.push(Order { suite, auth, msgs: s.clone(), coalesce: i % 2 == 0 });
            }
        }
    }
    v
}
fn bits(auth: bool) -> Vec<CliPlan> {
    let mut v = vec![];
    for suite in [0x1301u16, 0x1302, 0x1303] {
        for b in 0..(if suite == 0x1302 { 48 } else { 32 }) * 8 {
            let mut p = base(suite, auth);
            if !auth {
                p.cert = None;
            }
            p.ops = vec![Op::Fin(FinSpec { flip: Some(b), ..Default::default() })];
            v.push(p);
        }
    }
    if auth {
        for b in 0..72 * 8 {
            let mut p = base(0x1303, true);
            p.ops = vec![Op::Cv(CvSpec { flip: Some(b), ..CvSpec::right(true, 20) })];
            v.push(p);
        }
    }
    v
}
/// Something sent too early, or twice, before an otherwise legal flight.
fn early() -> Vec<CliPlan> {
    let recs: [(u8, &[u8]); 12] = [(20, &[1]), (20, &[0]), (20, &[]), (20, &[1, 1]), (21, &[1, 0]), (21, &[1, 90]), (21, &[2, 40]), (23, &[0; 40]), (23, &[]), (24, &[1, 0, 0]), (22, &[0, 0, 0, 0]), (0, &[1])];
    let mut v = vec![];
    for suite in [0x1301u16, 0x1302, 0x1303] {
        for ccs in [false, true] {
            let ops = recs.iter().map(|(t, b)| ChOp::Before(*t, gen::Hex(b.to_vec()))).chain([ChOp::Twice, ChOp::Right]);
            for ch in ops {
                for coalesce in [false, true] {
                    let mut p = base(suite, false);
                    p.ch = ch.clone();
                    p.cert = None;
                    p.ccs = ccs;
                    p.pk.coalesce = coalesce;
                    v.push(p);
                }
            }
        }
    }
    v
}

/// One thing too much at each place of the flight.
fn inserts() -> Vec<CliPlan> {
    let mut v = vec![];
    for (i, k) in strays().into_iter().enumerate() {
        for at in 0..6 {
            for prot in [None, Some(Prot::Plain)] {
                let mut p = base([0x1301u16, 0x1302, 0x1303][i % 3], false);
                p.cert = None;
                p.pk.coalesce = i % 2 == 0;
                p.ops = vec![Op::Insert(at, k.clone(), prot)];
                v.push(p);
            }
        }
    }
    v
}

/// Each message's content under every other type of message, hashed as sent.
fn retyped() -> Vec<CliPlan> {
    let mut v = vec![];
    for (i, t) in TYPES.into_iter().enumerate() {
        for at in 0..2 {
            for coalesce in [false, true] {
                let mut p = base([0x1301u16, 0x1302, 0x1303][i % 3], false);
                p.cert = None;
                p.pk.coalesce = coalesce;
                match at {
                    1 if t == CH => continue,
                    1 => p.ch = ChOp::Type(t),
                    _ => p.ops = vec![Op::Retype(at, t)],
                }
                v.push(p);
            }
        }
    }
    v
}

/// What concerns one message, what is not counted, and going on after something wrong.
fn more() -> Vec<CliPlan> {
    let mut b = base(0x1301, false);
    b.cert = None;
    let mut ops = oddities(1);
    ops.extend(unhashed(1));
    let mut v = vec![];
    for (i, ops) in ops.into_iter().enumerate() {
        let mut p = b.clone();
        p.suites = vec![[0x1301u16, 0x1302, 0x1303][i % 3]];
        p.pk.coalesce = i / 3 % 2 == 0;
        p.ops = ops;
        v.push(p);
    }
    for suite in [0x1301u16, 0x1302, 0x1303] {
        for f in fins(if suite == 0x1302 { 48 } else { 32 }) {
            let mut p = b.clone();
            p.suites = vec![suite];
            p.ops = vec![Op::Fin(f)];
            v.push(p);
        }
        // the first of the protected flight already in the clear
        let m = [20u8, 0, 0, if suite == 0x1302 { 48 } else { 32 }];
        for k in 1..=m.len() {
            for (n, skip) in [(k, k as u8), (k, 0)] {
                let mut p = b.clone();
                p.suites = vec![suite];
                p.ch = ChOp::With(gen::Hex(m[..n].to_vec()));
                p.ops = vec![Op::Skip(0, skip)];
                v.push(p);
            }
        }
        for at in [0u16, 1, 2, 3, 40, 100] {
            for (t, x) in [(20u8, vec![1u8]), (20, vec![0]), (21, vec![1, 90]), (23, vec![])] {
                let mut p = b.clone();
                p.suites = vec![suite];
                p.ch = ChOp::Mid(at, t, gen::Hex(x));
                v.push(p);
            }
        }
    }
    v
}

/// With a certificate asked for: strange things and recoveries.
fn authed() -> Vec<CliPlan> {
    let b = base(0x1301, true);
    let mut ops = oddities(3);
    ops.extend(unhashed(4));
    ops.extend(recoveries(&b.base(), &cert_faults(), false));
    for (i, k) in strays().into_iter().enumerate() {
        for at in 0..6 {
            ops.push(vec![Op::Insert(at, k.clone(), if i % 2 == 0 { None } else { Some(Prot::Plain) })]);
        }
    }
    for t in TYPES {
        ops.extend((0..3).map(|at| vec![Op::Retype(at, t)]));
    }
    ops.into_iter().enumerate().map(|(i, ops)| {
        let mut p = b.clone();
        p.suites = vec![[0x1301u16, 0x1302, 0x1303][i % 3]];
        p.pk.coalesce = i / 3 % 2 == 0;
        p.ops = ops;
        p
    }).collect()
}

/// A hello that is not well formed, everything else right: (what, message).
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Bad {
    what: String,
    suite: u16,
    raw: gen::Hex,
    auth: bool,
    pk: Packing,
}
fn bad_hello(b: &Bad) -> Res {
    let mut p = base(b.suite, b.auth);
    if !b.auth {
        p.cert = None;
    }
    p.ch = ChOp::Raw(b.raw.clone());
    p.pk = b.pk.clone();
    let r = p.run(None)?;
    ensure!(r.lib.is_err(), "accept succeeded after a hello with {}", b.what);
    ensure!(!matches!(r.flight, Ok(_)), "the server answers a hello with {}", b.what);
    Ok(hit().tag(format!("{:?}", r.lib.err().unwrap())))
}
fn bad_hellos() -> Vec<Bad> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let suite = 0x1301u16;
    let good = {
        let mut p = base(suite, false);
        p.sni = Some("anothertls.test".into());
        p.hello()
    };
    // its fields, each with its length
    let (sid, suites, comp) = (vecn(1, &good.sid), vecn(2, &u16s(&good.suites)), vecn(1, &[0]));
    let mut e: Vec<(u16, Vec<u8>)> = good.exts.iter().map(|(t, b)| (*t, b.0.clone())).collect();
    if !e.iter().any(|x| x.0 == X_GROUPS) {
        e.push((X_GROUPS, vec![0, 2, 0, 29]));
    }
    let block = |e: &[(u16, Vec<u8>)]| vecn(2, &e.iter().flat_map(|(t, b)| [u16s(&[*t]), vecn(2, b)].concat()).collect::<Vec<u8>>());
    let head = [vec![3, 3], good.random.0.clone()].concat();
    let msg = |b: &[u8]| [vec![CH], vecn(3, b)].concat();
    let all = |sid: &[u8], suites: &[u8], comp: &[u8], ex: &[u8]| msg(&[&head, sid, suites, comp, ex].concat());
    let ex = block(&e);
    for n in [33usize, 34, 48, 64, 128, 255] {
        v.push((format!("a session id of {n} bytes"), all(&vecn(1, &vec![7; n]), &suites, &comp, &ex)));
    }
    v.push(("no cipher suites".into(), all(&sid, &[0, 0], &comp, &ex)));
    for n in [1usize, 3, 5, 33] {
        v.push((format!("cipher suites of {n} bytes"), all(&sid, &vecn(2, &[&[0x13, 1][..], &vec![0x13; n]].concat()[..n].to_vec()), &comp, &ex)));
    }
    for c in [&[][..], &[1], &[0, 0], &[0, 1], &[1, 0], &[64], &[255], &[0; 255], &[1, 1, 0]] {
        v.push((format!("the compression methods {c:?}"), all(&sid, &suites, &vecn(1, c), &ex)));
    }
    v.push(("no extensions at all".into(), all(&sid, &suites, &comp, &[])));
    v.push(("an empty list of extensions".into(), all(&sid, &suites, &comp, &[0, 0])));
    for n in [1usize, 2, 3, 4, 40] {
        v.push((format!("{n} bytes after its extensions"), all(&sid, &suites, &comp, &[&ex[..], &vec![0; n]].concat())));
        v.push((format!("{n} bytes after its last extension"), all(&sid, &suites, &comp, &vecn(2, &[&ex[2..], &[9, 9, 0, 9, 9][..n.min(5)]].concat()).to_vec())));
    }
    // a vector that says another length, at each of the lengths
    let body = [&head[..], &sid, &suites, &comp, &ex].concat();
    let mut off = vec![("session id", 34, 1), ("cipher suites", 34 + sid.len(), 2), ("compression methods", 34 + sid.len() + suites.len(), 1), ("extensions", 34 + sid.len() + suites.len() + 1 + 1, 2)];
    let mut at = 34 + sid.len() + suites.len() + comp.len() + 2;
    let names = [(X_SNI, "server name"), (X_VERSIONS, "versions"), (X_KEYSHARE, "shares")];
    for (t, b) in &e {
        // what it does not read may as well be of another length
        if let Some(n) = names.iter().find(|n| n.0 == *t) {
            off.push((n.1, at + 2, 2));
        }
        at += 4 + b.len();
    }
    for (name, at, n) in off {
        for d in [-1i64, 1, -2, 2, 255, 256, -256] {
            let mut m = body.clone();
            let old = m[at..at + n].iter().fold(0i64, |a, b| a << 8 | *b as i64);
            let new = old + d;
            if new < 0 || new >> (8 * n) != 0 {
                continue;
            }
            for (i, b) in be(n, new as usize).into_iter().enumerate() {
                m[at + i] = b;
            }
            v.push((format!("{new} instead of {old} as the length of the {name}"), msg(&m)));
        }
    }
    // the content of each extension it reads
    let mut with = |what: String, t: u16, b: Vec<u8>| {
        let x: Vec<(u16, Vec<u8>)> = e.iter().map(|(u, c)| (*u, if *u == t { b.clone() } else { c.clone() })).collect();
        v.push((what, all(&sid, &suites, &comp, &block(&x))));
    };
    let find = |t: u16| e.iter().find(|x| x.0 == t).map(|x| x.1.clone()).unwrap_or_default();
    for (t, name, lens) in [(X_SNI, "server name", vec![(0usize, 2usize), (3, 2)]), (X_VERSIONS, "versions", vec![(0, 1)]), (X_KEYSHARE, "shares", vec![(0, 2), (4, 2)])] {
        let good = find(t);
        with(format!("an empty {name} extension"), t, vec![]);
        for n in [1usize, 2, 3, 8] {
            with(format!("{n} bytes more in the {name} extension"), t, [&good[..], &vec![0; n]].concat());
        }
        for n in 1..good.len().min(60) {
            with(format!("the {name} extension cut to {n} bytes"), t, good[..n].to_vec());
        }
        for (at, n) in lens {
            for d in [-1i64, 1, -2, 2, 100, 256] {
                let mut m = good.clone();
                let old = m[at..at + n].iter().fold(0i64, |a, b| a << 8 | *b as i64);
                let new = old + d;
                if new < 0 || new >> (8 * n) != 0 {
                    continue;
                }
                for (i, b) in be(n, new as usize).into_iter().enumerate() {
                    m[at + i] = b;
                }
                with(format!("{new} instead of {old} as the length at {at} of the {name}"), t, m);
            }
        }
    }
    with("no version in the list".into(), X_VERSIONS, vec![0]);
    with("versions of odd length".into(), X_VERSIONS, vec![3, 3, 4, 3]);
    with("versions of odd length".into(), X_VERSIONS, vec![5, 3, 4, 3, 3, 3]);
    with("no share in the list".into(), X_KEYSHARE, vec![0, 0]);
    let x = x25519_pub(&x_secret(5));
    for n in [0usize, 1, 16, 31] {
        with(format!("a share of {n} bytes"), X_KEYSHARE, vecn(2, &share_entry(0x1d, &x[..n])));
    }
    for n in [1usize, 2, 32, 33] {
        with(format!("a share of {} bytes", 32 + n), X_KEYSHARE, vecn(2, &share_entry(0x1d, &[&x[..], &vec![0; n]].concat())));
    }
    with("a share of no bytes for another group".into(), X_KEYSHARE, vecn(2, &[share_entry(0x1d, &x), share_entry(0x17, &[])].concat()));
    with("a share cut short".into(), X_KEYSHARE, vecn(2, &[share_entry(0x1d, &x), share_entry(0x17, &[4; 65])[..60].to_vec()].concat()));
    with("half a share more".into(), X_KEYSHARE, vecn(2, &[share_entry(0x1d, &x), vec![0, 0x17]].concat()));
    // the same extension twice
    for (i, (t, b)) in e.iter().enumerate() {
        for (what, c) in [("the same", b.clone()), ("another", [&b[..], &[]].concat().iter().rev().copied().collect())] {
            for at in [0, i, i + 1, e.len()] {
                let mut x = e.clone();
                x.insert(at, (*t, c.clone()));
                v.push((format!("{what} extension {t} again at {at}"), all(&sid, &suites, &comp, &block(&x))));
            }
        }
    }
    for t in [0x0a0au16, 0x1234, 16, 41, 0xff01, 0xffff] {
        for (i, j) in [(0, 0), (0, e.len()), (e.len(), e.len())] {
            let mut x = e.clone();
            x.insert(j, (t, vec![]));
            x.insert(i, (t, vec![]));
            v.push((format!("extension {t} twice"), all(&sid, &suites, &comp, &block(&x))));
        }
    }
    // the length of the message itself: what follows is no message then
    for k in 1..=body.len() {
        if k < 40 || k % 7 == 0 {
            let mut m = msg(&body);
            let n = body.len() - k;
            m[1..4].copy_from_slice(&be(3, n));
            v.push((format!("a message length of {n} instead of {}", body.len()), m));
        }
    }
    v.into_iter()
        .enumerate()
        .map(|(i, (what, raw))| Bad { what, suite, raw: gen::Hex(raw), auth: i % 3 == 0, pk: Packing { rec: [vec![], vec![40], vec![1, 200]][i % 3].clone(), ..Default::default() } })
        .collect()
}

fn main() {
    run::main("C15", "the server reached a verdict on a client flight whose legality the model decides; a legal flight must have been accepted to count", |c| {
        c.shrink_iters = 300;
        c.list("order", orders(false), order);
        c.list("order-auth", orders(true), order);
        c.list("authed", authed(), decide);
        c.list("bits", bits(false), decide);
        c.list("early", early(), decide);
        c.list("inserts", inserts(), decide);
        c.list("retyped", retyped(), decide);
        c.list("more", more(), decide);
        c.list("bad-hellos", bad_hellos(), bad_hello);
        c.sub("one", 8000, || cli_plan(false, vec(op(), 1)), decide);
        c.sub("some", 6000, || cli_plan(false, vec(op(), 0..5)), decide);
        c.sub("one-auth", 2500, || cli_plan(true, vec(op(), 1)), decide);
        c.sub("some-auth", 2500, || cli_plan(true, vec(op(), 0..5)), decide);
    })
}
