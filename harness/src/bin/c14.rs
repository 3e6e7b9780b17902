//! C14: with a client CA, accept admits only holders of a certificate it issued.
use proptest::collection::vec;
use vharness::cert::Spec;
use vharness::peer::*;
use vharness::run::*;
use vharness::tls::CH;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

fn decide(p: &CliPlan) -> Res {
    let legal = p.legal();
    let r = p.run(None)?;
    Ok(match (legal, &r.lib) {
        (false, Ok(_)) => bad!("accept succeeded after a client flight that is not a legal one"),
        (true, Err(e)) => nt(false).tag(format!("legal flight refused: {e:?}")),
        (true, Ok(_)) => hit().tag("accepted a legal flight"),
        (false, Err(e)) => hit().tag(format!("{e:?}")),
    })
}

/// A flight of exactly these messages, each of them right in its place.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Order {
    suite: u16,
    auth: bool,
    msgs: Vec<u8>,
    coalesce: bool,
}
fn base(suite: u16, auth: bool) -> CliPlan {
    let mut srv = SrvOpt::plain(3);
    if auth {
        srv.ca = Some(7);
    }
    CliPlan { seed: 5, suites: vec![suite], sid: 32, sni: None, ch: ChOp::Right, ccs: true, cert: Some((Leaf::of(Spec::simple("ok", 20), 7), 20)), ops: vec![], pk: Packing::default(), data: vec![], srv }
}
fn order(o: &Order) -> Res {
    let mut p = base(o.suite, o.auth);
    p.pk.coalesce = o.coalesce;
    let b = p.base();
    p.ops = vec![Op::Cut(0)];
    for (i, m) in o.msgs.iter().enumerate() {
        p.ops.push(Op::Insert(i as u8, b[*m as usize % b.len()].kind.clone(), None));
    }
    decide(&p)
}
fn orders(auth: bool) -> Vec<Order> {
    let mut v = vec![];
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..4 {
        level = level.iter().flat_map(|s| (0..3).map(move |m| [&s[..], &[m]].concat())).collect();
        for (i, s) in level.iter().enumerate() {
            if s[..s.len() - 1].contains(&2) {
                continue;
            }
            for suite in [0x1301, 0x1302, 0x1303] {
                v.push(Order { suite, auth, msgs: s.clone(), coalesce: i % 2 == 0 });
            }
        }
    }
    v
}
fn bits(auth: bool) -> Vec<CliPlan> {
    let mut v = vec![];
    for suite in [0x1301u16, 0x1302, 0x1303] {
        for b in 0..(if suite == 0x1302 { 48 } else { 32 }) * 8 {
            let mut p = base(suite, auth);
            if !auth {
                p.cert = None;
            }
            p.ops = vec![Op::Fin(FinSpec { flip: Some(b), ..Default::default() })];
            v.push(p);
        }
    }
    if auth {
        for b in 0..72 * 8 {
            let mut p = base(0x1303, true);
            p.ops = vec![Op::Cv(CvSpec { flip: Some(b), ..CvSpec::right(true, 20) })];
            v.push(p);
        }
        // the certificate, from its end
        for b in 0..base(0x1301, true).cert.unwrap().0.der().len() as u32 * 8 {
            let mut p = base([0x1301u16, 0x1302, 0x1303][b as usize % 3], true);
            if let Some(c) = &mut p.cert {
                c.0.flip = Some(1 << 31 | b);
            }
            v.push(p);
        }
    }
    v
}

/// One thing too much at each place of the flight.
fn inserts() -> Vec<CliPlan> {
    let mut v = vec![];
    for (i, k) in strays().into_iter().enumerate() {
        for at in 0..6 {
            for prot in [None, Some(Prot::Plain)] {
                let mut p = base([0x1301u16, 0x1302, 0x1303][i % 3], true);
                p.pk.coalesce = i % 2 == 0;
                p.ops = vec![Op::Insert(at, k.clone(), prot)];
                v.push(p);
            }
        }
    }
    v
}

/// Each message's content under every other type of message, hashed as sent.
fn retyped() -> Vec<CliPlan> {
    let mut v = vec![];
    for (i, t) in TYPES.into_iter().enumerate() {
        for at in 0..4 {
            for coalesce in [false, true] {
                let mut p = base([0x1301u16, 0x1302, 0x1303][i % 3], true);
                p.pk.coalesce = coalesce;
                match at {
                    3 if t == CH => continue,
                    3 => p.ch = ChOp::Type(t),
                    _ => p.ops = vec![Op::Retype(at, t)],
                }
                v.push(p);
            }
        }
    }
    v
}

/// What concerns one message, what is not counted, and going on after something wrong.
fn more() -> Vec<CliPlan> {
    let b = base(0x1301, true);
    let mut ops = oddities(3);
    ops.extend(unhashed(3));
    ops.extend(recoveries(&b.base(), &cert_faults(), false));
    let mut v = vec![];
    for (i, ops) in ops.into_iter().enumerate() {
        let mut p = b.clone();
        p.suites = vec![[0x1301u16, 0x1302, 0x1303][i % 3]];
        p.pk.coalesce = i / 3 % 2 == 0;
        p.ops = ops;
        v.push(p);
    }
    for suite in [0x1301u16, 0x1302, 0x1303] {
        for f in fins(if suite == 0x1302 { 48 } else { 32 }) {
            let mut p = b.clone();
            p.suites = vec![suite];
            p.ops = vec![Op::Fin(f)];
            v.push(p);
        }
        // the first of the protected flight already in the clear
        let m = [11u8, 0];
        for k in 1..=m.len() {
            for (n, skip) in [(k, k as u8), (k, 0)] {
                let mut p = b.clone();
                p.suites = vec![suite];
                p.ch = ChOp::With(gen::Hex(m[..n].to_vec()));
                p.ops = vec![Op::Skip(0, skip)];
                v.push(p);
            }
        }
        for at in [0u16, 1, 2, 3, 40, 100] {
            for (t, x) in [(20u8, vec![1u8]), (20, vec![0]), (21, vec![1, 90]), (23, vec![])] {
                let mut p = b.clone();
                p.suites = vec![suite];
                p.ch = ChOp::Mid(at, t, gen::Hex(x));
                v.push(p);
            }
        }
    }
    // certificates that are refused, and what follows them
    let leaf = b.cert.clone().unwrap().0;
    let bad: Vec<Leaf> = (1..=LEAF_ALGS)
        .map(|alg| Leaf { alg, ..leaf.clone() })
        .chain([Leaf::of(Spec::simple("ok", 20), 8), Leaf::of(Spec::simple("ok", 20), 20), Leaf::of(Spec { na: cert::Civil::from_unix(NOW - 1), ..Spec::simple("ok", 20) }, 7), Leaf::of(Spec::simple("not", 20), 7), Leaf { flip: Some(1 << 31 | 3), ..leaf.clone() }])
        .collect();
    for (i, l) in bad.into_iter().enumerate() {
        let good = b.base();
        let first = Item::new(Kind::Cert { ctx: None, chain: vec![l.clone()] });
        let base = vec![first, good[1].clone(), good[2].clone()];
        // none is a fault of its own here: Pad does nothing
        for mut ops in recoveries(&base, &[Op::Pad(0, 0)], false) {
            // what was inserted is the refused one: the good one instead
            for o in ops.iter_mut() {
                if let Op::Insert(_, k @ Kind::Cert { .. }, _) = o {
                    *k = good[0].kind.clone();
                }
            }
            let mut p = b.clone();
            p.suites = vec![[0x1301u16, 0x1302, 0x1303][i % 3]];
            p.cert = Some((l.clone(), 20));
            p.srv.verify = Some(2);
            p.ops = ops;
            v.push(p);
        }
    }
    v
}

fn main() {
    run::main("C14", "the server reached a verdict on a client flight whose legality the model decides; a legal flight must have been accepted to count", |c| {
        c.shrink_iters = 300;
        c.list("order", orders(true), order);
        c.list("bits", bits(true), decide);
        c.list("inserts", inserts(), decide);
        c.list("retyped", retyped(), decide);
        c.list("more", more(), decide);
        c.sub("one", 8000, || cli_plan(true, vec(op(), 1)), decide);
        c.sub("some", 6000, || cli_plan(true, vec(op(), 0..5)), decide);
    })
}
