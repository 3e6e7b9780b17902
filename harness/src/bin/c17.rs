//! C17: a failed handshake ends with exactly the alert of the error returned; alerts are understood.
use anothertls::net::alert::{AlertLevel, TlsError};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::cert::Spec;
use vharness::gen::*;
use vharness::peer::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

/// RFC 8446 section 6 and the names of the errors
const CODES: [(u8, &str); 20] = [
    (0, "CloseNotify"),
    (10, "UnexpectedMessage"),
    (20, "BadRecordMac"),
    (40, "HandshakeFailure"),
    (42, "BadCertificate"),
    (43, "UnsupportedCertificate"),
    (44, "CertificateRevoked"),
    (45, "CertificateExpired"),
    (46, "CertificateUnknown"),
    (47, "IllegalParameter"),
    (48, "UnknownCa"),
    (49, "AccessDenied"),
    (50, "DecodeError"),
    (51, "DecryptError"),
    (70, "ProtocolVersion"),
    (71, "InsufficientSecurity"),
    (80, "InternalError"),
    (109, "MissingExtension"),
    (112, "UnrecognizedName"),
    (116, "CertificateRequired"),
];
fn named(code: u8, e: TlsError) -> Result<(), Fail> {
    let want = CODES.iter().find(|c| c.0 == code).map(|c| c.1);
    let got = format!("{e:?}");
    ensure!(e.as_u8() == code, "the error {got} for alert {code} has the code {}", e.as_u8());
    match want {
        Some(w) => ensure!(got == w, "alert {code} ({w}) is reported as {got}"),
        None => ensure!(!CODES.iter().any(|c| c.1 == got) && got != "BrokenPipe" && got != "NotOfficial", "alert {code} is reported as {got}"),
    }
    Ok(())
}
fn mapping(c: &u8) -> Res {
    let e = guard(|| TlsError::new(*c))?;
    named(*c, e)?;
    let l = guard(|| AlertLevel::get_from_error(e) as u8)?;
    ensure!(l == if *c == 0 { 1 } else { 2 }, "level {l} for alert {c}");
    Ok(hit())
}
/// The alerts in what the peer received, and where.
fn judge(lib: &Result<(Vec<u8>, TlsError), TlsError>, tail: &[Ev], want: Option<Prot>) -> Res {
    let alerts: Vec<&Ev> = tail.iter().filter(|e| matches!(e, Ev::Alert(..))).collect();
    match lib {
        // what follows a handshake that was complete for this side is not judged here
        Ok(_) if matches!(tail.last(), Some(Ev::Junk(_))) => Ok(nt(false).tag("succeeded")),
        _ if matches!(tail.last(), Some(Ev::Junk(_))) => bad!("the peer received something broken instead of an alert ({:?}): {:?}", lib.as_ref().err(), tail.last()),
        Ok(_) => {
            ensure!(alerts.is_empty(), "alerts {alerts:?} although the handshake succeeded");
            Ok(nt(false).tag("succeeded"))
        }
        Err(TlsError::BrokenPipe) => {
            ensure!(alerts.is_empty(), "alerts {alerts:?} for a connection that ended");
            Ok(nt(false).tag("ended"))
        }
        Err(e) => {
            let code = e.as_u8();
            ensure!(alerts.len() == 1, "the caller gets {e:?}, the peer gets the alerts {alerts:?}");
            let Ev::Alert(level, desc, prot) = alerts[0] else { unreachable!() };
            ensure!(*desc == code, "the caller gets {e:?} ({code}), the peer gets alert {desc}");
            ensure!(*level == 2, "alert {desc} has level {level}");
            if let Some(w) = want {
                ensure!(*prot == w, "alert {desc} is protected with {prot:?}, keys in force are {w:?}");
            }
            named(code, *e)?;
            let i = tail.iter().position(|e| matches!(e, Ev::Alert(..))).unwrap();
            ensure!(tail[i + 1..].iter().all(|e| *e == Ev::Eof), "after the alert: {:?}", &tail[i + 1..]);
            Ok(hit().tag(format!("{e:?}")))
        }
    }
}
fn alerty(ops: &[Op]) -> bool {
    ops.iter().any(|o| match o {
        Op::Insert(_, Kind::Alert(..), _) | Op::Inner(_, 21) => true,
        Op::Insert(_, Kind::Rec(t, _), _) | Op::Mid(_, _, t, _) | Op::Outer(_, t) => *t == 21,
        _ => false,
    })
}
fn client(p: &SrvPlan) -> Res {
    let r = p.run(None)?;
    let want = match &p.sh {
        ShOp::Right | ShOp::Twice => Some(Prot::Hs),
        // other keys on both sides: what is sent under them cannot be read here
        ShOp::Flip(_) | ShOp::OtherKeys | ShOp::OtherSuite(_) | ShOp::More(..) | ShOp::Random(_) => {
            if matches!(r.tail.last(), Some(Ev::Junk(_))) {
                return Ok(nt(false).tag("unreadable"));
            }
            None
        }
        ShOp::Share(b) if b.len() == 32 && b.0[1..].iter().any(|x| *x != 0) => {
            if matches!(r.tail.last(), Some(Ev::Junk(_))) {
                return Ok(nt(false).tag("unreadable"));
            }
            None
        }
        _ => Some(Prot::Plain),
    };
    judge(&r.lib, &r.tail, want)
}
fn server(p: &CliPlan) -> Res {
    let r = p.run(None)?;
    let want = match (&p.ch, &r.flight) {
        (ChOp::Flip(_), _) => {
            if matches!(r.tail.last(), Some(Ev::Junk(_))) {
                return Ok(nt(false).tag("unreadable"));
            }
            None
        }
        (_, Ok(_)) => Some(Prot::Ap),
        (ChOp::Twice | ChOp::After(..), _) => None,
        _ => Some(Prot::Plain),
    };
    judge(&r.lib, &r.tail, want)
}
/// An alert of the peer at some point.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inbound {
    server: bool,
    auth: bool,
    suite: u8,
    /// -1 before anything, otherwise before the n-th message of the flight, or after it
    at: i8,
    level: u8,
    code: u8,
    plain: bool,
    pad: u16,
}
fn inbound(c: &Inbound) -> Res {
    let alert = Hex(vec![c.level, c.code]);
    let (lib, tail) = if c.server {
        let mut srv = SrvOpt::plain(3);
        let mut cert = None;
        if c.auth {
            srv.ca = Some(7);
            cert = Some((Leaf::of(Spec::simple("ok", 20), 7), 20));
        }
        let mut p = CliPlan { seed: 3, suites: vec![0x1301 + c.suite as u16], sid: 32, sni: None, ch: ChOp::Right, ccs: false, cert, ops: vec![], pk: Packing::default(), data: vec![], srv };
        if c.at < 0 {
            p.ch = ChOp::Before(21, alert);
        } else {
            let n = p.base().len() as u8;
            let at = (c.at as u8).min(n);
            p.ops.push(Op::Insert(at, Kind::Alert(c.level, c.code), (c.plain && at < n).then_some(Prot::Plain)));
            p.ops.push(Op::Pad(at, c.pad));
        }
        let r = p.run(None)?;
        (r.lib, r.tail)
    } else {
        let mut p = SrvPlan { seed: 3, suite: c.suite, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: c.auth.then(|| (Hex(vec![]), vec![0x0403])), sh: ShOp::Right, ops: vec![], pk: Packing::default(), data: vec![], cli: CliOpt::plain() };
        if c.at < 0 {
            p.sh = ShOp::Missing;
            p.ops = vec![Op::Cut(0), Op::Insert(0, Kind::Alert(c.level, c.code), Some(Prot::Plain))];
        } else {
            let n = p.base().len() as u8;
            let at = (c.at as u8).min(n);
            p.ops.push(Op::Insert(at, Kind::Alert(c.level, c.code), (c.plain && at < n).then_some(Prot::Plain)));
            p.ops.push(Op::Pad(at, c.pad));
        }
        let r = p.run(None)?;
        (r.lib, r.tail)
    };
    let e = match &lib {
        Ok((_, e)) => *e,
        Err(e) => *e,
    };
    if e == TlsError::BrokenPipe {
        bad!("alert {} of the peer is reported as a broken connection", c.code);
    }
    named(c.code, e).map_err(|f| match f {
        Fail::Bad(m) => Fail::Bad(format!("received alert {}: {m}", c.code)),
        f => f,
    })?;
    ensure!(!tail.iter().any(|e| matches!(e, Ev::Alert(..))), "alert {} is answered with {tail:?}", c.code);
    ensure!(!matches!(tail.last(), Some(Ev::Junk(_))), "alert {} is answered with {tail:?}", c.code);
    Ok(hit().tag_if(lib.is_ok(), "on the stream").tag_if(lib.is_err(), "in the handshake"))
}
/// Records and an alert written to a stream: all of it arrives, in that order.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wrote {
    /// type of record, data, flushed afterwards
    recs: Vec<(u8, Hex, bool)>,
    code: u8,
    faults: fault::Faults,
}
fn wrote(c: &Wrote) -> Res {
    use anothertls::net::record::RecordType;
    let (l, a) = listener();
    let mut io = Io::new(tcp(a));
    let (s, _) = l.accept().map_err(|e| Fail::Broken(e.to_string()))?;
    let mut want = vec![];
    let r = fault::with(c.faults, || {
        guard(|| -> Result<(), TlsError> {
            let mut t = anothertls::net::TlsStream::new(s);
            for (typ, b, fl) in &c.recs {
                let k = [RecordType::Handshake, RecordType::ChangeCipherSpec, RecordType::ApplicationData][*typ as usize % 3];
                t.write_record(k, b)?;
                if *fl {
                    t.flush()?;
                }
            }
            t.write_alert(TlsError::new(c.code))
        })
    })?;
    ensure!(r.is_ok(), "writing records and an alert: {r:?}");
    for (typ, b, _) in &c.recs {
        want.push(([22u8, 20, 23][*typ as usize % 3], b.0.clone()));
    }
    want.push((21, vec![if c.code == 0 { 1 } else { 2 }, c.code]));
    let mut got = vec![];
    while let Ok(Some(r)) = io.record() {
        got.push((r[0], r[5..].to_vec()));
    }
    ensure!(got == want, "written: {want:02x?}, arrived: {got:02x?}");
    Ok(nt(!c.recs.is_empty()))
}
fn sh_bad() -> impl Strategy<Value = ShOp> + Clone {
    prop_oneof![
        (prop_oneof![Just(0x0302u16), Just(0x0304), any::<u16>()]).prop_filter("", |v| *v != 0x303).prop_map(ShOp::Version),
        (1u8..=255).prop_map(ShOp::Comp),
        hexn(0..33).prop_map(ShOp::Sid),
        hexn(1..8).prop_map(ShOp::Trail),
        (0u8..16, hexn(0..90)).prop_map(|(t, b)| ShOp::Raw(Hex(msg(if t < 14 { 2 } else { t }, &b)))),
        prop_oneof![Just(vec![]), Just(vec![(X_VERSIONS, Hex(vec![3, 4]))]), Just(vec![(X_KEYSHARE, Hex(share_entry(0x1d, &[9; 32])))]), Just(vec![(X_VERSIONS, Hex(vec![3, 3])), (X_KEYSHARE, Hex(share_entry(0x1d, &[9; 32])))])].prop_map(ShOp::Exts),
        hexn(0..40).prop_filter("length", |b| b.len() != 32).prop_map(ShOp::Share),
        Just(ShOp::Share(Hex(vec![0; 32]))),
        prop_oneof![Just(0x17u16), Just(0x18), Just(0x0a0a), any::<u16>()].prop_filter("", |v| *v != 0x1d).prop_map(ShOp::Group),
    ]
}
fn ch_bad() -> impl Strategy<Value = ChOp> + Clone {
    let base = ClientHello::simple(vec![3; 32], vec![4; 32], &[0x1301], &[9; 32]);
    let b1 = base.clone();
    prop_oneof![
        (0u8..16, hexn(0..90)).prop_map(|(t, b)| ChOp::Raw(Hex(msg(if t < 14 { 1 } else { t }, &b)))),
        (0usize..4).prop_map(move |i| { let mut h = base.clone(); h.exts.remove(i); if i == 1 || i == 2 { h.exts.clear(); } ChOp::Raw(Hex(h.raw())) }),
        prop_oneof![
            Just((X_VERSIONS, vec![2, 3, 3])), Just((X_VERSIONS, vec![3, 3, 4])), Just((X_VERSIONS, vec![])), Just((X_KEYSHARE, vec![])), Just((X_KEYSHARE, vec![0, 0])),
            Just((X_KEYSHARE, shares(&[(0x1d, vec![0; 32])]))), Just((X_KEYSHARE, shares(&[(0x1d, vec![1; 31])]))), Just((X_KEYSHARE, shares(&[(0x17, vec![4; 65])]))),
        ].prop_map(move |(t, b)| { let mut h = b1.clone(); for e in h.exts.iter_mut() { if e.0 == t { e.1 = Hex(b.clone()); } } ChOp::Raw(Hex(h.raw())) }),
        prop_oneof![Just((20u8, vec![1u8])), Just((23, vec![1; 40])), Just((22, vec![])), Just((0, vec![1]))].prop_map(|(t, b)| ChOp::Before(t, Hex(b))),
    ]
}

fn main() {
    run::main("C17", "a handshake that failed on this side's own verdict (not by the end of the connection), or an alert received and reported", |c| {
        c.assume("the reference decides which alert codes have a name of their own; alerts written when the peer is gone are not judged");
        c.shrink_iters = 300;
        c.list("mapping", (0..=255u8).collect(), mapping);
        c.sub("client", 4500, || srv_plan(vec(op().prop_filter("no alerts", |o| !alerty(std::slice::from_ref(o))), 1..3)), client);
        c.sub("client_hello_errors", 1500, || (srv_plan(Just(vec![])), sh_bad()).prop_map(|(p, sh)| SrvPlan { sh, ..p }), client);
        c.sub("server", 3000, || cli_plan(false, vec(op().prop_filter("no alerts", |o| !alerty(std::slice::from_ref(o))), 1..3)).prop_filter("no alerts", |p| !matches!(p.ch, ChOp::Before(21, _) | ChOp::After(21, _))), server);
        c.sub("server_auth", 3500, || cli_plan(true, vec(op().prop_filter("no alerts", |o| !alerty(std::slice::from_ref(o))), 0..3)).prop_filter("no alerts", |p| !matches!(p.ch, ChOp::Before(21, _) | ChOp::After(21, _))), server);
        c.sub("server_hello_errors", 1500, || (cli_plan(false, Just(vec![])), ch_bad()).prop_map(|(p, ch)| CliPlan { ch, ..p }), server);
        let faults = || (any::<u64>(), prop_oneof![2 => Just(0u16), 1 => 1u16..40], 0u8..8).prop_map(|(seed, send, intr)| fault::Faults { seed, send, recv: 0, file: 0, intr });
        c.sub("written-first", 1500, || (vec((0u8..3, prop_oneof![hexn(0..30), hexn(500..1500)], proptest::bool::weighted(0.3)), 0..5), any::<u8>(), faults()).prop_map(|(recs, code, faults)| Wrote { recs, code, faults }), wrote);
        let all = (0u16..256).flat_map(|code| {
            [(false, false, -1..=4i8), (false, true, 1..=5), (true, false, -1..=1), (true, true, 0..=3)].into_iter().flat_map(move |(server, auth, ats)| {
                ats.map(move |at| {
                    let k = code as usize * 7 + (at + 1) as usize + server as usize * 3;
                    Inbound { server, auth, suite: (k % 3) as u8, at, level: 1 + (k / 3 % 2) as u8, code: code as u8, plain: k % 5 == 0, pad: if k % 4 == 0 { 9 } else { 0 } }
                })
            })
        });
        c.list("every-code", all.collect(), inbound);
        c.sub("inbound", 2000, || (any::<bool>(), any::<bool>(), 0u8..3, -1i8..6, 1u8..=2, prop_oneof![any::<u8>(), proptest::sample::select(CODES.map(|c| c.0).to_vec())], any::<bool>(), 0u16..50)
            .prop_map(|(server, auth, suite, at, level, code, plain, pad)| Inbound { server, auth, suite, at, level, code, plain, pad }), inbound);
    })
}
