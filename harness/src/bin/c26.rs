//! C26: a legal flight means the same however it is packed into records and segments.
use anothertls::net::alert::TlsError;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::cert::Spec;
use vharness::gen::*;
use vharness::peer::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
use flights::*;
use lib_side::*;

fn judge<F>(legal: bool, data: &[Blob], written: &[u8], lib: &Result<(Vec<u8>, TlsError), TlsError>, flight: &Result<F, Ev>, tail: &[Ev]) -> Result<(), Fail> {
    if !legal {
        return Err(Fail::Broken("the generator made a flight that is not legal".into()));
    }
    let sent: Vec<u8> = data.iter().flat_map(|b| b.get()).collect();
    match lib {
        Err(e) => bad!("a legal flight is refused ({e:?}); the peer saw {:?}", flight.as_ref().err()),
        Ok((got, end)) => {
            ensure!(got.len() == sent.len(), "{} bytes of data follow the flight, {} are read, then {end:?}", sent.len(), got.len());
            ensure!(*got == sent, "the data read after the flight is not what was sent");
            ensure!(*end == TlsError::BrokenPipe, "after the data: {end:?}");
        }
    }
    if let Err(e) = flight {
        bad!("accepted, but the peer gets {e:?} instead of a flight");
    }
    let mut back = vec![];
    for e in tail {
        match e {
            Ev::App(d) => back.extend_from_slice(d),
            Ev::Eof | Ev::Ccs => {}
            e => bad!("after the flight the peer gets {e:?}"),
        }
    }
    ensure!(back == written, "the data written after the handshake does not arrive: {} bytes of {}", back.len(), written.len());
    Ok(())
}
fn plain(pk: &Packing) -> bool {
    !pk.coalesce && pk.rec.is_empty() && pk.seg.is_empty()
}
fn client(p: &SrvPlan) -> Res {
    let r = p.run(None)?;
    judge(p.legal(), &p.data, &r.written, &r.lib, &r.flight, &r.tail)?;
    Ok(nt(!plain(&p.pk) || !p.ops.is_empty())
        .tag_if(p.pk.coalesce, "coalesced")
        .tag_if(!p.pk.rec.is_empty(), "fragmented")
        .tag_if(!p.pk.seg.is_empty(), "segmented")
        .tag_if(!p.data.is_empty(), "data follows")
        .tag_if(p.sh != ShOp::Right, "compatibility records before the hello")
        .tag_if(p.leaf.spec.exts.iter().sum::<u32>() > 16000, "message above a record"))
}
fn server(p: &CliPlan) -> Res {
    let r = p.run(None)?;
    judge(p.legal(), &p.data, &r.written, &r.lib, &r.flight, &r.tail)?;
    Ok(nt(!plain(&p.pk) || !p.ops.is_empty() || p.ccs)
        .tag_if(p.pk.coalesce, "coalesced")
        .tag_if(!p.pk.rec.is_empty(), "fragmented")
        .tag_if(!p.pk.seg.is_empty(), "segmented")
        .tag_if(!p.data.is_empty(), "data follows")
        .tag_if(p.srv.ca.is_some(), "client certificate"))
}
fn data() -> impl Strategy<Value = Vec<Blob>> + Clone {
    prop_oneof![2 => vec(blob(prop_oneof![1usize..40, 1usize..3000, Just(16384usize), 16380usize..40000]), 1..4), 1 => Just(vec![])]
}
/// Compatibility records only where they may be; nothing that ends the legality.
fn legal(p: &[Item], ok: bool) -> bool {
    ok && matches!(p.last().map(|i| &i.kind), Some(Kind::Finished(_)))
}
fn big(s: impl Strategy<Value = Vec<u32>> + Clone) -> impl Strategy<Value = Vec<u32>> + Clone {
    s
}
fn exts() -> impl Strategy<Value = Vec<u32>> + Clone {
    big(prop_oneof![4 => Just(vec![]), 2 => vec(0u32..2000, 1..3), 1 => vec(8000u32..30000, 1..3)])
}
fn srv() -> impl Strategy<Value = SrvPlan> + Clone {
    (srv_plan(vec(legal_op(), 0..4)), data(), exts(), prop_oneof![4 => Just(ShOp::Right), 1 => (1u8..4).prop_map(ShOp::Ccs)]).prop_map(|(mut p, data, exts, sh)| {
        p.sh = sh;
        p.data = data;
        p.leaf = Leaf::of(Spec { exts, ..Spec::simple("server", p.leaf.spec.key) }, 9);
        p
    }).prop_filter("legal", |p| legal(&p.items(), p.legal()))
}
fn cli(auth: bool) -> impl Strategy<Value = CliPlan> + Clone {
    (cli_plan(auth, vec(legal_op(), 0..4)), data(), exts()).prop_map(move |(mut p, data, exts)| {
        p.ch = ChOp::Right;
        p.data = data;
        p.srv.verify = None;
        p.cert = auth.then(|| (Leaf::of(Spec { exts, ..Spec::simple("ok client", 20) }, 7), 20));
        p
    }).prop_filter("legal", |p| legal(&p.items(), p.legal()))
}
/// A flight, while the library's socket calls are cut short or interrupted.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Short<P> {
    plan: P,
    faults: fault::Faults,
}
fn faults() -> impl Strategy<Value = fault::Faults> + Clone {
    let max = || prop_oneof![1 => Just(0u16), 2 => 1u16..40, 2 => 1u16..3000];
    (any::<u64>(), max(), max(), prop_oneof![1 => Just(0u8), 1 => 2u8..20]).prop_map(|(seed, send, recv, intr)| fault::Faults { seed, send, recv, file: 0, intr })
}
fn short_client(s: &Short<SrvPlan>) -> Res {
    fault::library(s.faults, || client(&s.plan))
}
fn short_server(s: &Short<CliPlan>) -> Res {
    fault::library(s.faults, || server(&s.plan))
}
/// One flight cut at one place.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    server: bool,
    suite: u8,
    /// segment (false) or record
    rec: bool,
    at: u16,
    coalesce: bool,
    /// every piece of that size, not only the first
    #[serde(default)]
    all: bool,
    /// bytes added to the certificate
    #[serde(default)]
    ext: u32,
}
fn one(o: &One) -> Res {
    let mut pk = Packing { coalesce: o.coalesce, pause_us: 120, ..Default::default() };
    let to = if o.rec { &mut pk.rec } else { &mut pk.seg };
    if o.at > 0 {
        to.push(o.at);
        if !o.all {
            to.push(0xffff);
        }
    }
    let with = |name: &str, key| Spec { exts: if o.ext > 0 { vec![o.ext] } else { vec![] }, ..Spec::simple(name, key) };
    let data = vec![Blob { len: 50, seed: 3, pat: 0 }, Blob { len: 1, seed: 3, pat: 0 }];
    if o.server {
        let mut srv = SrvOpt::plain(3);
        srv.ca = Some(7);
        let p = CliPlan { seed: 8, suites: vec![[0x1301, 0x1302, 0x1303][o.suite as usize % 3]], sid: 32, sni: None, ch: ChOp::Right, ccs: true, cert: Some((Leaf::of(with("ok", 20), 7), 20)), ops: vec![], pk, data, srv };
        server(&p)
    } else {
        let p = SrvPlan { seed: 8, suite: o.suite, leaf: Leaf::of(with("server", 2), 9), cr: Some((Hex(vec![4; 8]), vec![0x0403])), sh: ShOp::Right, ops: vec![Op::Ccs(0)], pk, data, cli: CliOpt::plain() };
        client(&p)
    }
}
fn cuts() -> Vec<One> {
    let mut v = vec![];
    for server in [false, true] {
        for at in 1..900u16 {
            v.push(One { server, suite: (at % 3) as u8, rec: false, at, coalesce: at % 2 == 0, all: false, ext: 0 });
        }
        for at in 1..480u16 {
            v.push(One { server, suite: (at % 3) as u8, rec: true, at, coalesce: true, all: false, ext: 0 });
            v.push(One { server, suite: (at % 3) as u8, rec: true, at, coalesce: false, all: false, ext: 0 });
            v.push(One { server, suite: (at % 3) as u8, rec: true, at, coalesce: at % 2 == 0, all: true, ext: 0 });
        }
        for at in 2..300u16 {
            v.push(One { server, suite: (at % 3) as u8, rec: false, at, coalesce: at % 2 == 0, all: true, ext: 0 });
        }
        // certificate messages around the powers of two, in records as large as may be
        let base = Leaf::of(Spec { exts: vec![5000], ..Spec::simple("ok", 20) }, 7).der().len() as u32 - 5000;
        for k in 10..=16u32 {
            // the certificate itself, its list, its message and the record with what stands before it
            for d in 0..=64u32 {
                let ext = (1u32 << k) - base - 60 + d;
                v.push(One { server, suite: (d % 3) as u8, rec: true, at: if d % 4 == 3 { 4096 } else { 0 }, coalesce: d % 2 == 0, all: true, ext });
            }
        }
    }
    v
}

fn main() {
    run::main("C26", "the flight is packed otherwise than one message per record and one segment, carries padding or compatibility records, or meets short or interrupted socket calls", |c| {
        c.assume("messages of up to 60 kB; records of at least one byte of content; a compatibility record stands between messages");
        c.shrink_iters = 300;
        c.list("cuts", cuts(), one);
        c.sub("client", 3000, srv, client);
        c.sub("server", 3200, || cli(false), server);
        c.sub("server_auth", 2400, || cli(true), server);
        c.sub("short_client", 700, || (srv(), faults()).prop_map(|(plan, faults)| Short { plan, faults }), short_client);
        c.sub("short_server", 700, || (prop_oneof![cli(false), cli(true)], faults()).prop_map(|(plan, faults)| Short { plan, faults }), short_server);
    })
}
