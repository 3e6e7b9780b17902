//! C13: the client accepts a server's handshake only if it is authenticated.
use proptest::collection::vec;
use vharness::cert::Spec;
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

fn decide(p: &SrvPlan) -> Res {
    let legal = p.legal();
    let r = p.run(None)?;
    verdict(p, legal, &r)
}
fn verdict(p: &SrvPlan, legal: bool, r: &SrvRun) -> Res {
    Ok(match (legal, &r.lib) {
        (false, Ok(_)) => bad!("connect succeeded against a server flight that does not authenticate the server"),
        (true, Ok(_)) => hit().tag("accepted a legal flight"),
        (true, Err(e)) => nt(false).tag(format!("refused a legal flight: {e:?}")),
        (false, Err(e)) => hit().tag(format!("{e:?}")),
    })
}
/// A flight of exactly these messages, each of them right in its place.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Order {
    suite: u8,
    msgs: Vec<u8>,
    coalesce: bool,
}
fn base(suite: u8) -> SrvPlan {
    SrvPlan { seed: 5, suite, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: Some((Hex(vec![]), vec![0x0403])), sh: ShOp::Right, ops: vec![], pk: Packing::default(), data: vec![], cli: CliOpt::plain() }
}
fn order(o: &Order) -> Res {
    let mut p = base(o.suite);
    p.pk.coalesce = o.coalesce;
    let b = p.base();
    // the plan's own flight is replaced by way of operators: cut everything, insert the messages
    p.ops = vec![Op::Cut(0)];
    for (i, m) in o.msgs.iter().enumerate() {
        p.ops.push(Op::Insert(i as u8, b[*m as usize % b.len()].kind.clone(), None));
    }
    decide(&p)
}
fn orders() -> Vec<Order> {
    let mut v = vec![];
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..5 {
        level = level.iter().flat_map(|s| (0..5).map(move |m| [&s[..], &[m]].concat())).collect();
        for (i, s) in level.iter().enumerate() {
            // nothing after a Finished reaches the handshake
            if s[..s.len() - 1].contains(&4) {
                continue;
            }
            v.push(Order { suite: (i % 3) as u8, msgs: s.clone(), coalesce: i % 2 == 0 });
        }
    }
    // at most one message more than in the full flight
    for i in 0..5 {
        for m in 0..5 {
            let mut s = vec![0, 1, 2, 3, 4];
            s.insert(i, m);
            v.push(Order { suite: (i % 3) as u8, msgs: s, coalesce: m % 2 == 0 });
        }
    }
    v
}
fn bits() -> Vec<SrvPlan> {
    let mut v = vec![];
    for b in 0..72 * 8 {
        let mut p = base((b % 3) as u8);
        p.cr = None;
        p.ops = vec![Op::Cv(CvSpec { flip: Some(b), ..CvSpec::right(true, 2) })];
        v.push(p);
    }
    for s in 0..3u8 {
        for b in 0..(if s == 1 { 48 } else { 32 }) * 8 {
            let mut p = base(s);
            p.cr = None;
            p.ops = vec![Op::Fin(FinSpec { flip: Some(b), ..Default::default() })];
            v.push(p);
        }
    }
    v
}

/// One thing too much at each place of the flight.
fn inserts() -> Vec<SrvPlan> {
    let mut v = vec![];
    for (i, k) in strays().into_iter().enumerate() {
        for at in 0..6 {
            for prot in [None, Some(Prot::Plain)] {
                let mut p = base(i as u8 % 3);
                p.pk.coalesce = i % 2 == 0;
                p.ops = vec![Op::Insert(at, k.clone(), prot)];
                v.push(p);
            }
        }
    }
    v
}

/// Each message's content under every other type of message, hashed as sent.
fn retyped() -> Vec<SrvPlan> {
    let mut v = vec![];
    for (i, t) in TYPES.into_iter().enumerate() {
        for at in 0..6 {
            for coalesce in [false, true] {
                let mut p = base(i as u8 % 3);
                p.pk.coalesce = coalesce;
                match at {
                    5 if t == SH => continue,
                    5 => p.sh = ShOp::Type(t),
                    _ => p.ops = vec![Op::Retype(at, t)],
                }
                v.push(p);
            }
        }
    }
    v
}

/// What concerns one message, what is not counted, and going on after something wrong.
fn more() -> Vec<SrvPlan> {
    let b = base(0);
    let mut ops = oddities(5);
    ops.extend(unhashed(5));
    ops.extend(bodies());
    ops.extend(recoveries(&b.base(), &cert_faults(), true));
    let mut v = vec![];
    for (i, ops) in ops.into_iter().enumerate() {
        let mut p = base(i as u8 % 3);
        p.pk.coalesce = i / 3 % 2 == 0;
        p.ops = ops;
        v.push(p);
    }
    for suite in 0..3u8 {
        for f in fins(if suite == 1 { 48 } else { 32 }) {
            let mut p = base(suite);
            p.ops = vec![Op::Fin(f)];
            v.push(p);
        }
        // the first of the protected flight already in the clear
        for k in 1..=6u8 {
            for skip in [k, 0] {
                let mut p = base(suite);
                p.sh = ShOp::With(gen::Hex([8, 0, 0, 2, 0, 0][..k as usize].to_vec()));
                p.ops = vec![Op::Skip(0, skip)];
                v.push(p.clone());
                p.cr = None;
                v.push(p);
            }
        }
        for at in [0u16, 1, 2, 3, 40, 100] {
            for (t, x) in [(20u8, vec![1u8]), (20, vec![0]), (21, vec![1, 90]), (23, vec![])] {
                let mut p = base(suite);
                p.sh = ShOp::Mid(at, t, gen::Hex(x));
                v.push(p);
            }
        }
    }
    // certificates that are not good, and what follows them
    let leaf = b.leaf.clone();
    let bad = [Leaf::of(Spec { na: cert::Civil::from_unix(NOW - 1), ..leaf.spec.clone() }, 9), Leaf::of(Spec { nb: cert::Civil::from_unix(NOW + 1), ..leaf.spec.clone() }, 9), Leaf { alg: 8, ..leaf.clone() }, Leaf { alg: 9, ..leaf.clone() }, Leaf { alg: 10, ..leaf.clone() }];
    for (i, l) in bad.into_iter().enumerate() {
        let good = b.base();
        let mut p = base(i as u8 % 3);
        p.leaf = l;
        for mut ops in recoveries(&p.base(), &[Op::Pad(0, 0)], true) {
            for o in ops.iter_mut() {
                if let Op::Insert(_, k @ Kind::Cert { .. }, _) = o {
                    *k = good[2].kind.clone();
                }
            }
            v.push(SrvPlan { ops, ..p.clone() });
        }
    }
    v
}

/// ServerHellos that are not well formed, all else right. Body: version 0, random 2, session id 34,
/// suite 67, compression 69, length of the extensions 70, key share 72 (its length 74, group 76,
/// length of the value 78, value 80), versions 112 (length 114, value 116), end 118.
fn bad_hellos() -> Vec<SrvPlan> {
    let mut v: Vec<ShOp> = vec![];
    let mut put = |at: usize, del: usize, b: &[u8]| v.push(ShOp::Splice(at as u16, del as u16, Hex(b.to_vec())));
    // one length that is off
    for (at, n, old) in [(34usize, 1usize, 32i64), (70, 2, 46), (74, 2, 36), (78, 2, 32), (114, 2, 2)] {
        for d in [-32i64, -4, -3, -2, -1, 1, 2, 3, 4, 32, 223, 255, 256] {
            let new = old + d;
            if new >= 0 && new >> (8 * n) == 0 {
                put(at, n, &tls::be(n, new as usize));
            }
        }
    }
    // cut anywhere, the outer length fitting or not
    for n in (0..118).filter(|n| *n < 3 || *n > 30) {
        put(n, 200, &[]);
    }
    for n in 1..=4usize {
        put(118, 0, &vec![0; n]);
    }
    // the same extension twice, or a share too long or short: the rest rebuilt
    let share = tls::share_entry(0x1d, &x25519_pub(&x_secret(5)));
    let (ks, ver) = ((X_KEYSHARE, Hex(share.clone())), (X_VERSIONS, Hex(vec![3, 4])));
    let junk = |t: u16, n: usize| (t, Hex(vec![1; n]));
    let mut lists: Vec<Vec<(u16, Hex)>> = vec![
        vec![ks.clone(), ver.clone(), ver.clone()],
        vec![ver.clone(), ks.clone(), ver.clone()],
        vec![ks.clone(), ver.clone(), ks.clone()],
        vec![ks.clone(), ks.clone(), ver.clone()],
        vec![ks.clone(), ver.clone(), (X_VERSIONS, Hex(vec![3, 3]))],
        vec![ks.clone(), (X_VERSIONS, Hex(vec![3, 3])), ver.clone()],
        vec![ks.clone(), ver.clone(), (X_KEYSHARE, Hex(tls::share_entry(0x1d, &x25519_pub(&x_secret(6)))))],
        vec![(X_KEYSHARE, Hex(tls::share_entry(0x1d, &x25519_pub(&x_secret(6))))), ver.clone(), ks.clone()],
        vec![ks.clone(), ver.clone(), junk(0x4a4a, 0), junk(0x4a4a, 0)],
        vec![(X_KEYSHARE, Hex(vecn(2, &share))), ver.clone()],
        vec![(X_KEYSHARE, Hex([&share[..], &share].concat())), ver.clone()],
        vec![(X_KEYSHARE, Hex(vec![])), ver.clone()],
        vec![(X_KEYSHARE, Hex(vec![0, 0x1d])), ver.clone()],
        vec![ks.clone(), (X_VERSIONS, Hex(vec![2, 3, 4]))],
        vec![ks.clone(), (X_VERSIONS, Hex(vec![]))],
        vec![ks.clone(), (X_VERSIONS, Hex(vec![3]))],
        vec![ks.clone(), (X_VERSIONS, Hex(vec![4]))],
        vec![ks.clone(), (X_VERSIONS, Hex(vec![3, 4, 0]))],
        vec![ks.clone(), (X_VERSIONS, Hex(vec![3, 4, 3, 4]))],
        vec![ks.clone(), (X_VERSIONS, Hex(vec![3, 3, 3, 4]))],
        vec![ks.clone(), (X_VERSIONS, Hex(vec![4, 3]))],
    ];
    for n in [0usize, 1, 16, 31] {
        lists.push(vec![(X_KEYSHARE, Hex(tls::share_entry(0x1d, &share[4..4 + n]))), ver.clone()]);
    }
    for n in [1usize, 2, 32, 33] {
        lists.push(vec![(X_KEYSHARE, Hex(tls::share_entry(0x1d, &[&share[4..], &vec![0; n]].concat()))), ver.clone()]);
        lists.push(vec![(X_KEYSHARE, Hex([&share[..], &vec![0; n]].concat())), ver.clone()]);
    }
    v.extend(lists.into_iter().map(ShOp::Exts));
    for n in [0usize, 1, 31, 33, 64, 255] {
        v.push(ShOp::Splice(34, 33, Hex(vecn(1, &vec![9; n]))));
    }
    // a HelloRetryRequest, whatever else it has of a ServerHello
    let retry = Hex(openssl::sha::sha256(b"HelloRetryRequest").to_vec());
    v.push(ShOp::Random(retry));
    v.into_iter()
        .enumerate()
        .flat_map(|(i, sh)| {
            [false, true].map(|cr| {
                let mut p = base(i as u8 % 3);
                p.sh = sh.clone();
                if !cr {
                    p.cr = None;
                }
                p
            })
        })
        .collect()
}

fn main() {
    run::main("C13", "the client reached a verdict on a server flight whose legality the model decides; a legal flight must have been accepted to count", |c| {
        c.assume("the client does not validate certificate chains: any certificate that is current and whose key signs is 'valid' here");
        c.shrink_iters = 300;
        c.list("order", orders(), order);
        c.list("bits", bits(), decide);
        c.list("inserts", inserts(), decide);
        c.list("retyped", retyped(), decide);
        c.list("more", more(), decide);
        c.list("bad-hellos", bad_hellos(), decide);
        c.sub("one", 8000, || srv_plan(vec(op(), 1)), decide);
        c.sub("some", 6000, || srv_plan(vec(op(), 0..5)), decide);
    })
}
