//! C30: a session that is cut short or whose transport fails never looks like one that ended.
use anothertls::net::alert::TlsError;
use anothertls::net::TlsStream;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::fd::AsRawFd;
use vharness::cert::Spec;
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::x25519_pub;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
#[path = "../glue/session.rs"]
mod session;
use fault::{Break, Faults, ERRNO};
use flights::*;
use lib_side::*;
use session::*;

/// Reads to the end and on: what arrived, the first error, and what came after it.
#[derive(Default)]
struct Did {
    got: Vec<u8>,
    errs: Vec<TlsError>,
    wrong: Option<String>,
}
impl Did {
    fn read(&mut self, s: &mut TlsStream, n: usize) {
        let mut b = vec![0u8; n];
        match s.tls_read(&mut b) {
            Ok(k) if k > n => self.wrong = Some(format!("a read into {n} bytes returns {k}")),
            Ok(k) => self.got.extend_from_slice(&b[..k]),
            Err(e) => self.errs.push(e),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum P {
    App(Blob, u16),
    Ticket(u16),
    /// level, code
    Alert(u8, u8),
    /// an alert record that is none
    Odd(Hex),
}
fn item(p: &P) -> Item {
    match p {
        P::App(b, pad) => Item { pad: *pad, ..Item::new(Kind::App(Hex(b.get()))) },
        P::Ticket(n) => Item { hash: false, ..Item::new(Kind::Msg(4, Hex([vec![0, 0, 0x1c, 0x20, 1, 2, 3, 4, 1, 9], vecn(2, &vec![7; 1 + *n as usize]), vec![0, 0]].concat()))) },
        P::Alert(l, c) => Item::new(Kind::Alert(*l, *c)),
        P::Odd(b) => Item::new(Kind::Rec(21, b.clone())),
    }
}
/// The peer's stream ends after `at` of its bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    at: Setup,
    ops: Vec<P>,
    keep: u32,
    /// the end is a reset
    rst: bool,
    pk: Packing,
    sizes: Vec<u32>,
    #[serde(default)]
    faults: Faults,
}
fn code(c: u8) -> TlsError {
    match c {
        0 => TlsError::CloseNotify,
        10 => TlsError::UnexpectedMessage,
        20 => TlsError::BadRecordMac,
        40 => TlsError::HandshakeFailure,
        42 => TlsError::BadCertificate,
        43 => TlsError::UnsupportedCertificate,
        44 => TlsError::CertificateRevoked,
        45 => TlsError::CertificateExpired,
        46 => TlsError::CertificateUnknown,
        47 => TlsError::IllegalParameter,
        48 => TlsError::UnknownCa,
        49 => TlsError::AccessDenied,
        50 => TlsError::DecodeError,
        51 => TlsError::DecryptError,
        70 => TlsError::ProtocolVersion,
        71 => TlsError::InsufficientSecurity,
        80 => TlsError::InternalError,
        109 => TlsError::MissingExtension,
        112 => TlsError::UnrecognizedName,
        116 => TlsError::CertificateRequired,
        c => TlsError::GotAlert(c),
    }
}
/// what ends the data
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Is(TlsError),
    /// any error but an orderly end
    Bad,
}
impl End {
    fn fits(&self, e: TlsError) -> bool {
        match self {
            End::Is(x) => *x == e,
            End::Bad => e != TlsError::CloseNotify,
        }
    }
}
/// what the reader must get: data and end, for every number of bytes that arrive
fn model(ops: &[P], lens: &[usize], keep: usize) -> (Vec<u8>, End, bool) {
    let (mut got, mut at) = (vec![], 0);
    for (o, l) in ops.iter().zip(lens) {
        at += l;
        if at > keep {
            return (got, End::Is(TlsError::BrokenPipe), at - l < keep);
        }
        match o {
            P::App(b, _) => got.extend(b.get()),
            P::Ticket(_) => {}
            P::Alert(_, c) => return (got, End::Is(code(*c)), false),
            P::Odd(_) => return (got, End::Bad, false),
        }
    }
    (got, End::Is(TlsError::BrokenPipe), false)
}
fn cut(c: &Cut) -> Res {
    fault::library(c.faults, || cut_(c))
}
fn cut_(c: &Cut) -> Res {
    let sizes = c.sizes.clone();
    let s = session(&c.at, None, move |mut s| {
        let mut d = Did::default();
        let mut i = 0;
        while d.errs.is_empty() && d.wrong.is_none() {
            let n = if sizes.is_empty() { 5000 } else { sizes[i % sizes.len()].max(1) as usize };
            i += 1;
            d.read(&mut s, n);
        }
        let before = d.got.len();
        // the end stays
        for n in [1, 5000, 7] {
            d.read(&mut s, n);
        }
        if d.got.len() != before {
            d.wrong = Some(format!("{} bytes are read after {:?}", d.got.len() - before, d.errs[0]));
        }
        d
    })?;
    let Some(mut s) = s else { return Ok(nt(false).tag("no session")) };
    let (mut wire, mut lens) = (vec![], vec![]);
    let ops: Vec<P> = c.ops.iter().filter(|o| !(c.at.server && matches!(o, P::Ticket(_)))).cloned().collect();
    for o in &ops {
        let w = s.p.flight(&[item(o)], &c.pk);
        if let P::App(..) = o {
            if w.len() != 5 + u16::from_be_bytes([w[3], w[4]]) as usize {
                return Err(Fail::Broken("data in several records".into()));
            }
        }
        lens.push(w.len());
        wire.extend(w);
    }
    let keep = (c.keep as usize).min(wire.len());
    wire.truncate(keep);
    let Session { p: Party { mut io, .. }, job, .. } = s;
    let col = io.collect()?;
    io.send_cut(&wire, &c.pk.seg, c.pk.pause_us);
    if c.rst {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(io.sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
        }
        // the collector has a handle on the socket as well
        let _ = io.sock.shutdown(std::net::Shutdown::Read);
        let _ = io.absorb(col);
        drop(io);
    } else {
        io.fin();
        std::thread::spawn(move || io.absorb(col));
    }
    let d = match job.get()? {
        Ok(d) => d,
        Err(_) => return Ok(nt(false).tag("no session")),
    };
    if let Some(w) = d.wrong {
        bad!("{w}");
    }
    let (want, end, inside) = model(&ops, &lens, keep);
    let first = d.errs[0];
    if c.rst && first == TlsError::BrokenPipe {
        // a reset may overtake what was sent before it
        ensure!(want.starts_with(&d.got), "after a reset {} bytes were read that were not sent", d.got.len());
    } else {
        ensure!(d.got == want, "{} bytes are read of {} sent before the stream ended", d.got.len(), want.len());
        ensure!(end.fits(first), "the stream ends after {keep} bytes, which is {end:?}; the reader gets {first:?}");
    }
    ensure!(d.errs.iter().all(|e| *e == first), "the end is reported as {:?}", d.errs);
    Ok(nt(!ops.is_empty()).tag(match first {
        TlsError::BrokenPipe => "broken off",
        TlsError::CloseNotify => "closed",
        _ => "alert",
    }).tag_if(inside, "within a record").tag_if(c.rst, "reset"))
}

/// The reader's or the writer's calls fail.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Failing {
    at: Setup,
    ops: Vec<P>,
    pk: Packing,
    sizes: Vec<u32>,
    writes: Vec<Blob>,
    brk: Break,
    faults: Faults,
    /// what the library does: writes then reads, or by turns
    turns: bool,
}
struct Done {
    did: Did,
    /// of each write
    wrote: Vec<bool>,
    failed: u64,
}
fn failing(c: &Failing) -> Res {
    fault::library(c.faults, || failing_(c))
}
fn failing_(c: &Failing) -> Res {
    let (sizes, writes, brk, turns) = (c.sizes.clone(), c.writes.clone(), c.brk, c.turns);
    let s = session(&c.at, None, move |mut s| {
        fault::fail(brk);
        let mut d = Did::default();
        let mut wrote = vec![];
        let mut i = 0;
        let mut step = |d: &mut Did, s: &mut TlsStream| {
            let n = if sizes.is_empty() { 5000 } else { sizes[i % sizes.len()].max(1) as usize };
            i += 1;
            d.read(s, n);
        };
        for b in &writes {
            wrote.push(s.tls_write(&b.get()).is_ok());
            if turns {
                step(&mut d, &mut s);
            }
        }
        // enough to get past calls that fail for a while
        while d.errs.len() < 12 && d.wrong.is_none() {
            step(&mut d, &mut s);
        }
        let failed = fault::failed();
        fault::fail(Break::default());
        fault::drain();
        Done { did: d, wrote, failed }
    })?;
    let Some(mut s) = s else { return Ok(nt(false).tag("no session")) };
    let ops: Vec<P> = c.ops.iter().filter(|o| !(c.at.server && matches!(o, P::Ticket(_)))).cloned().collect();
    let items: Vec<Item> = ops.iter().map(item).collect();
    let col = s.p.io.collect()?;
    s.p.send(&items, &c.pk);
    s.p.io.fin();
    let d = match s.job.get()? {
        Ok(d) => d,
        Err(_) => return Ok(nt(false).tag("no session")),
    };
    s.p.io.absorb(col)?;
    if let Some(w) = &d.did.wrong {
        bad!("{w}");
    }
    // what the library read
    let (want, end, _) = model(&ops, &vec![1; ops.len()], ops.len());
    ensure!(want.starts_with(&d.did.got), "{} bytes are read that are not the first the peer sent", d.did.got.len());
    let whole = d.did.got.len() == want.len();
    let ended = d.did.errs.iter().position(|e| *e != TlsError::BrokenPipe);
    if let Some(i) = ended {
        ensure!(whole && d.did.errs[i..].iter().all(|e| end.fits(*e)) && end != End::Is(TlsError::BrokenPipe), "the reads fail with {:?} after {} of {} bytes, the peer's end is {end:?}", d.did.errs, d.did.got.len(), want.len());
    }
    if c.brk.recv == 0 || d.failed == 0 {
        ensure!(whole, "{} of {} bytes are read", d.did.got.len(), want.len());
    }
    // what the peer read
    let all: Vec<u8> = c.writes.iter().flat_map(|b| b.get()).collect();
    let mut got = vec![];
    let mut tail = Ev::Eof;
    while let Ok(e) = s.p.next() {
        match e {
            Ev::App(b) => got.extend(b),
            e => {
                tail = e;
                break;
            }
        }
    }
    ensure!(all.starts_with(&got), "the peer gets {} bytes that are not the first written", got.len());
    if let Ev::Junk(j) = &tail {
        ensure!(j.starts_with("the stream ends inside"), "after a failed write the peer gets {j}");
    }
    if let Some(i) = d.wrote.iter().rposition(|ok| *ok) {
        let n: usize = c.writes[..=i].iter().map(|b| b.len).sum();
        ensure!(got.len() >= n, "write {i} reports success, but {} of the {n} bytes so far arrive", got.len());
    }
    if c.brk.send == 0 || d.failed == 0 {
        ensure!(d.wrote.iter().all(|w| *w), "a write fails although no call did");
    }
    Ok(nt(d.failed > 0).tag(format!("errno {}", ERRNO[c.brk.errno as usize % ERRNO.len()])).tag_if(c.brk.send > 0, "send").tag_if(c.brk.recv > 0, "recv").tag_if(matches!(tail, Ev::Junk(_)), "part of a record arrives").tag_if(c.brk.times > 0 && whole, "goes on"))
}

/// A legal handshake whose transport fails or ends.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shake {
    server: bool,
    auth: bool,
    suite: u8,
    pk: Packing,
    brk: Break,
    /// the peer's (last) flight is cut by so many bytes
    less: u32,
    faults: Faults,
}
fn shake(c: &Shake) -> Res {
    let r = fault::library(c.faults, || fault::failing(c.brk, || shake_(c)));
    match r {
        // an endpoint whose own calls fail leaves its peer with anything
        Err(Fail::Bad(w)) if c.brk != Break::default() && w.contains(" begins with ") => Ok(hit().tag("nothing is sent")),
        r => r,
    }
}
fn shake_(c: &Shake) -> Res {
    let mut pk = c.pk.clone();
    if c.less > 0 {
        pk.wire = vec![Mut::Less(c.less)];
    }
    let (lib, whole) = if c.server {
        let cert = c.auth.then(|| (Leaf::of(Spec::simple("ok", 20), 7), 20));
        let srv = SrvOpt { ca: c.auth.then_some(7), ..SrvOpt::plain(3) };
        let p = CliPlan { seed: 4, suites: vec![0x1301 + c.suite as u16 % 3], sid: 32, sni: None, ch: ChOp::Right, ccs: true, cert, ops: vec![], pk, data: vec![], srv };
        let r = p.run(None)?;
        (r.lib, matches!(r.flight, Ok(_)))
    } else {
        let p = SrvPlan { seed: 4, suite: c.suite, leaf: Leaf::of(Spec::simple("server", 2), 9), cr: c.auth.then(|| (Hex(vec![1]), vec![0x0403])), sh: ShOp::Right, ops: vec![], pk, data: vec![], cli: CliOpt::plain() };
        let r = p.run(None)?;
        (r.lib, matches!(r.flight, Ok(_)))
    };
    ensure!(c.less == 0 || lib.is_err(), "a handshake cut short by {} bytes is reported as done", c.less);
    ensure!(whole || lib.is_err(), "a handshake is reported as done although the peer never got all of its part");
    if c.less == 0 && c.brk == Break::default() {
        ensure!(lib.is_ok(), "a whole handshake fails with {:?}", lib.map(|_| ()));
    }
    Ok(hit().tag(match lib {
        Ok(_) => "session".into(),
        Err(e) => format!("{e:?}"),
    }))
}
/// A ClientHello of which only a part arrives.
fn half_hello(n: &u32) -> Res {
    let mut files = Files::default();
    let cfg = server_config(&SrvOpt::plain(3), None, &mut files).map_err(Fail::Broken)?;
    let (mut io, job) = against_server(cfg, Some(NOW), |_| ());
    let h = ClientHello::simple(rnd(7), rnd(8), &[0x1301], &x25519_pub(&x_secret(7))).raw();
    let w = [vec![22, 3, 1], vecn(2, &h)].concat();
    io.send(&w[..(*n as usize).min(w.len())]);
    io.fin();
    while io.record()?.is_some() {}
    let r = job.get()?;
    ensure!(r.is_err(), "a handshake of {n} bytes is reported as done");
    Ok(hit().tag(format!("{:?}", r.unwrap_err())))
}

// ------------------------------------------------------------------ inputs
fn setup() -> impl Strategy<Value = Setup> + Clone {
    (any::<bool>(), 0u8..3, prop_oneof![3 => Just(false), 1 => Just(true)], any::<u64>()).prop_map(|(server, suite, auth, seed)| Setup { server, suite, auth, seed })
}
fn blob(max: usize) -> impl Strategy<Value = Blob> + Clone {
    (prop_oneof![1 => Just(0usize), 4 => 1usize..40, 2 => 1usize..2000, 1 => 1usize..=max], any::<u64>()).prop_map(|(len, seed)| Blob { len, seed, pat: 0 })
}
fn ops() -> impl Strategy<Value = Vec<P>> + Clone {
    let data = prop_oneof![
        6 => (blob(16384), prop_oneof![3 => Just(0u16), 1 => 0u16..300]).prop_map(|(b, p)| P::App(Blob { len: b.len.min(16384 - p as usize), ..b }, p)),
        1 => (0u16..200).prop_map(P::Ticket)
    ];
    let end = prop_oneof![
        2 => Just(None),
        2 => prop_oneof![Just(1u8), Just(2)].prop_map(|l| Some(P::Alert(l, 0))),
        1 => prop_oneof![Just(10u8), Just(20), Just(40), Just(50), Just(80), Just(90)].prop_map(|c| Some(P::Alert(2, c))),
        1 => prop_oneof![1 => vec(prop_oneof![Just(0u8), Just(1), Just(2)], 0..6), 1 => vec(any::<u8>(), 0..40)].prop_filter("a right one", |v| v.len() != 2).prop_map(|v| Some(P::Odd(Hex(v))))
    ];
    (vec(data, 0..6), end).prop_map(|(mut v, e)| {
        v.extend(e);
        v
    })
}
fn sizes() -> impl Strategy<Value = Vec<u32>> + Clone {
    prop_oneof![2 => Just(vec![]), 2 => vec(1u32..40, 1..4), 1 => vec(1u32..20000, 1..4)]
}
fn segs() -> impl Strategy<Value = Packing> + Clone {
    prop_oneof![2 => Just(vec![]), 1 => vec(1u16..60, 1..4), 1 => vec(1u16..4000, 1..3)].prop_map(|seg| Packing { seg, pause_us: 60, ..Default::default() })
}
fn calls() -> impl Strategy<Value = Faults> + Clone {
    prop_oneof![2 => Just(Faults::default()), 1 => (any::<u64>(), prop_oneof![Just(0u16), 1u16..3000], prop_oneof![Just(0u16), 1u16..3000], prop_oneof![Just(0u8), 2u8..20]).prop_map(|(seed, send, recv, intr)| Faults { seed, send, recv, file: 0, intr })]
}
fn a_cut() -> impl Strategy<Value = Cut> + Clone {
    // near the borders of the records as well as anywhere
    (setup(), ops(), prop_oneof![3 => any::<u16>().prop_map(|x| x as i64), 2 => -30i64..0], prop_oneof![3 => Just(false), 1 => Just(true)], segs(), sizes(), calls()).prop_map(|(at, ops, k, rst, pk, sizes, faults)| {
        let total: i64 = ops.iter().map(|o| match o {
            P::App(b, p) => 22 + b.len as i64 + *p as i64,
            P::Ticket(n) => 22 + 17 + *n as i64,
            P::Alert(..) => 24,
            P::Odd(b) => 22 + b.len() as i64,
        }).sum();
        let keep = if k < 0 { (total + k).max(0) } else { total * (k + 1) / 65536 };
        Cut { at, ops, keep: keep as u32, rst, pk, sizes, faults }
    })
}
fn brk(send: bool) -> impl Strategy<Value = Break> + Clone {
    (prop_oneof![2 => 1u32..6, 1 => 1u32..40], prop_oneof![2 => Just(0u32), 3 => 1u32..4, 1 => 1u32..30], 0u8..ERRNO.len() as u8).prop_map(move |(n, times, errno)| Break { send: if send { n } else { 0 }, recv: if send { 0 } else { n }, times, errno })
}
fn a_failing(send: bool) -> impl Strategy<Value = Failing> + Clone {
    (setup(), ops(), segs(), sizes(), vec(blob(40000), if send { 1..7 } else { 0..4 }), brk(send), calls(), any::<bool>()).prop_map(|(at, ops, pk, sizes, writes, brk, faults, turns)| Failing { at, ops, pk, sizes, writes, brk, faults, turns })
}
fn each_cut() -> Vec<Cut> {
    let b = |len| Blob { len, seed: 6, pat: 0 };
    let ops = vec![P::App(b(9), 0), P::Ticket(3), P::App(b(0), 0), P::App(b(4), 11), P::App(b(1), 0), P::Alert(1, 0)];
    let mut v = vec![];
    for server in [false, true] {
        for keep in 0..200u32 {
            for rst in [false, true] {
                let at = Setup { server, suite: (keep % 3) as u8, auth: keep % 7 == 0, seed: 3 };
                let sizes = if keep % 2 == 0 { vec![] } else { vec![1] };
                v.push(Cut { at: at.clone(), ops: ops.clone(), keep, rst, pk: Packing::default(), sizes, faults: Faults::default() });
            }
        }
        // what looks like an orderly end is data or another alert
        for c in 0..=255u8 {
            let at = Setup { server, suite: c % 3, auth: false, seed: 3 };
            v.push(Cut { at, ops: vec![P::App(b(3), 0), P::Alert(1 + (c != 0 && c != 90) as u8, c)], keep: u32::MAX, rst: false, pk: Packing::default(), sizes: vec![], faults: Faults::default() });
        }
        // an alert record of another length is no orderly end
        for len in (0..=20usize).filter(|n| *n != 2).chain([256, 258, 512, 16384]) {
            for (a, b) in [(1, 0), (2, 0), (0, 0), (0, 1), (1, 1)] {
                let w: Vec<u8> = (0..len).map(|i| if i % 2 == 0 { a } else { b }).collect();
                for w in [w.clone(), w.into_iter().enumerate().map(|(i, x)| if i > 1 { 0 } else { x }).collect()] {
                    let at = Setup { server, suite: len as u8 % 3, auth: false, seed: 3 };
                    v.push(Cut { at, ops: vec![P::App(b_(3), 0), P::Odd(Hex(w)), P::Alert(1, 0)], keep: u32::MAX, rst: false, pk: Packing::default(), sizes: vec![], faults: Faults::default() });
                }
            }
        }
    }
    v
}
fn b_(len: usize) -> Blob {
    Blob { len, seed: 6, pat: 0 }
}
fn each_shake() -> Vec<Shake> {
    let mut v = vec![];
    let base = |server, i: u32| Shake { server, auth: i % 2 == 0, suite: (i % 3) as u8, pk: Packing { coalesce: i % 4 < 2, ..Default::default() }, brk: Break::default(), less: 0, faults: Faults::default() };
    for server in [false, true] {
        // longer than the flight: nothing of it arrives
        for less in (0..260).chain((260..1100).step_by(3)) {
            v.push(Shake { less, ..base(server, less) });
        }
        for n in 1..=14u32 {
            for times in [0, 1, 2] {
                for errno in 0..ERRNO.len() as u8 {
                    v.push(Shake { brk: Break { send: n, recv: 0, times, errno }, ..base(server, n + errno as u32) });
                    v.push(Shake { brk: Break { send: 0, recv: n, times, errno }, ..base(server, n + errno as u32) });
                }
            }
        }
    }
    v
}
fn a_shake() -> impl Strategy<Value = Shake> + Clone {
    (any::<bool>(), any::<bool>(), 0u8..3, packing(), prop_oneof![brk(true), brk(false), Just(Break::default())], prop_oneof![2 => Just(0u32), 1 => 1u32..1000], calls())
        .prop_map(|(server, auth, suite, pk, brk, less, faults)| Shake { server, auth, suite, pk, brk, less, faults })
}
fn main() {
    run::main("C30", "the stream is cut, or a call on the socket fails", |c| {
        c.assume("the socket is a TCP stream; a failing call moves nothing");
        c.shrink_iters = 300;
        c.list("each-cut", each_cut(), cut);
        c.list("each-handshake", each_shake(), shake);
        c.list("each-hello", (0..240).collect(), half_hello);
        c.sub("cut", 2400, a_cut, cut);
        c.sub("write-fails", 2200, || a_failing(true), failing);
        c.sub("read-fails", 1600, || a_failing(false), failing);
        c.sub("handshake-fails", 900, a_shake, shake);
    })
}
