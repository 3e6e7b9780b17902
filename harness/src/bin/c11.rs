//! C11: application data is a stream of bytes in both directions.
use anothertls::net::alert::TlsError;
use anothertls::net::TlsStream;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::peer::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
#[path = "../glue/session.rs"]
mod session;
use lib_side::*;
use session::*;

/// What the library's side does.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum L {
    W(Blob),
    R(u32),
}
/// What the peer sends: data records, tickets.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum P {
    App(Blob, u16),
    Ticket(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    at: Setup,
    lib: Vec<L>,
    peer: Vec<P>,
    /// record sizes for tickets, segments
    pk: Packing,
    sizes: Vec<u32>,
    /// close_notify before the end, and data after it
    close: Option<bool>,
    /// of the library's socket calls
    #[serde(default)]
    faults: fault::Faults,
}
#[derive(Default)]
struct Did {
    got: Vec<u8>,
    end: Option<TlsError>,
    wrong: Option<String>,
}
impl Did {
    fn read(&mut self, s: &mut TlsStream, n: usize) {
        let mut b = vec![0xa5u8; n + 3];
        match s.tls_read(&mut b[..n]) {
            Ok(k) if k > n => self.wrong = Some(format!("a read into {n} bytes returns {k}")),
            Ok(k) => {
                if self.end.is_some() {
                    self.wrong = Some(format!("a read succeeds after {:?}", self.end));
                }
                if b[k..].iter().any(|x| *x != 0xa5) {
                    self.wrong = Some(format!("a read into {n} bytes returns {k} and writes beyond that"));
                }
                self.got.extend_from_slice(&b[..k]);
            }
            Err(e) => {
                if self.end.is_some_and(|w| w != e) {
                    self.wrong = Some(format!("first {:?}, then {e:?}", self.end));
                }
                self.end = Some(e);
            }
        }
    }
    fn write(&mut self, s: &mut TlsStream, b: &Blob) {
        if let Err(e) = s.tls_write(&b.get()) {
            self.wrong = Some(format!("a write of {} bytes fails: {e:?}", b.len));
        }
    }
}
fn ticket(n: u16) -> Vec<u8> {
    [vec![0, 0, 0x1c, 0x20, 1, 2, 3, 4, 1, 9], vecn(2, &vec![7; 1 + n as usize]), vec![0, 0]].concat()
}
fn items(ops: &[P], client: bool) -> Vec<Item> {
    ops.iter()
        .filter_map(|o| match o {
            P::App(b, pad) => {
                let mut it = Item::new(Kind::App(Hex(b.get())));
                it.pad = *pad;
                Some(it)
            }
            P::Ticket(n) if client => Some(Item { hash: false, ..Item::new(Kind::Msg(4, Hex(ticket(*n)))) }),
            _ => None,
        })
        .collect()
}
fn sent(ops: &[P]) -> Vec<u8> {
    ops.iter().flat_map(|o| if let P::App(b, _) = o { b.get() } else { vec![] }).collect()
}
fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), Fail> {
    if got != want {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        bad!("{what}: {} bytes arrive of {} written, first difference at {i}", got.len(), want.len());
    }
    Ok(())
}
fn received(evs: &[Ev]) -> Result<Vec<u8>, Fail> {
    let mut back = vec![];
    for e in evs {
        match e {
            Ev::App(d) => back.extend_from_slice(d),
            Ev::Eof | Ev::Ccs => {}
            e => bad!("the peer gets {e:?} between the data"),
        }
    }
    Ok(back)
}
fn history(h: &History) -> Res {
    fault::library(h.faults, || history_(h))
}
fn history_(h: &History) -> Res {
    let (lib, sizes) = (h.lib.clone(), h.sizes.clone());
    let s = session(&h.at, None, move |mut s| {
        let mut d = Did::default();
        for o in &lib {
            match o {
                L::W(b) => d.write(&mut s, b),
                L::R(n) => d.read(&mut s, *n as usize),
            }
        }
        let mut i = 0;
        while d.end.is_none() && d.wrong.is_none() {
            let n = if sizes.is_empty() { 5000 } else { sizes[i % sizes.len()].max(1) as usize };
            i += 1;
            d.read(&mut s, n);
        }
        // the end stays
        d.read(&mut s, 10);
        d
    })?;
    let Some(mut s) = s else { return Ok(nt(false).tag("no session")) };
    let c = s.p.io.collect()?;
    let mut its = items(&h.peer, !h.at.server);
    if let Some(more) = h.close {
        its.push(Item::new(Kind::Alert(1, 0)));
        if more {
            its.push(Item::new(Kind::App(Hex(vec![0x55; 40]))));
        }
    }
    s.p.send(&its, &h.pk);
    s.p.io.fin();
    let d = match s.job.get()? {
        Ok(d) => d,
        Err(_) => return Ok(nt(false).tag("no session")),
    };
    s.p.io.absorb(c)?;
    if let Some(w) = d.wrong {
        bad!("{w}");
    }
    same("what the peer wrote", &d.got, &sent(&h.peer))?;
    let want = if h.close.is_some() { TlsError::CloseNotify } else { TlsError::BrokenPipe };
    ensure!(d.end == Some(want), "the stream ends with {:?}, not {want:?}", d.end);
    let w: Vec<u8> = h.lib.iter().flat_map(|o| if let L::W(b) = o { b.get() } else { vec![] }).collect();
    if h.close != Some(true) {
        // otherwise the data left unread resets the connection, and what is under way may be lost
        same("what the library wrote", &received(&s.p.drain()?)?, &w)?;
    }
    Ok(nt(!w.is_empty() || !d.got.is_empty())
        .tag_if(h.at.server, "server")
        .tag_if(!h.at.server, "client")
        .tag_if(h.lib.iter().any(|o| matches!(o, L::W(b) if b.len > 16384)), "write above a record")
        .tag_if(h.peer.iter().any(|o| matches!(o, P::Ticket(_))) && !h.at.server, "tickets")
        .tag_if(h.faults.send + h.faults.recv > 0, "short socket calls")
        .tag_if(h.close.is_some(), "close_notify"))
}

/// Questions and answers: each side waits for all of the other's before it goes on.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Turns {
    at: Setup,
    turns: Vec<(Vec<Blob>, Vec<P>)>,
    pk: Packing,
    sizes: Vec<u32>,
    #[serde(default)]
    faults: fault::Faults,
}
fn turns(t: &Turns) -> Res {
    fault::library(t.faults, || turns_(t))
}
fn turns_(t: &Turns) -> Res {
    let (ts, sizes) = (t.turns.clone(), t.sizes.clone());
    let s = session(&t.at, None, move |mut s| {
        let mut d = Did::default();
        let mut i = 0;
        let mut want = 0;
        for (up, down) in &ts {
            for b in up {
                d.write(&mut s, b);
            }
            want += sent(down).len();
            while d.got.len() < want && d.end.is_none() && d.wrong.is_none() {
                let n = if sizes.is_empty() { 5000 } else { sizes[i % sizes.len()].max(1) as usize };
                i += 1;
                d.read(&mut s, n);
            }
        }
        // records left unread would reset the connection
        while d.end.is_none() && d.wrong.is_none() {
            d.read(&mut s, 5000);
        }
        d
    })?;
    let Some(mut s) = s else { return Ok(nt(false).tag("no session")) };
    let _ = s.p.io.sock.set_read_timeout(Some(std::time::Duration::from_secs(20)));
    let (mut up, mut down) = (vec![], vec![]);
    for (u, d) in &t.turns {
        let want: Vec<u8> = u.iter().flat_map(|b| b.get()).collect();
        let mut got: Vec<u8> = vec![];
        while got.len() < want.len() {
            match s.p.next() {
                Ok(Ev::App(b)) => got.extend(b),
                Ok(Ev::Ccs) => {}
                Ok(e) => {
                    let r = s.job.get()?;
                    bad!("the peer gets {e:?} after {} of {} bytes ({:?})", got.len(), want.len(), r.map(|d| (d.end, d.wrong)));
                }
                Err(_) => bad!("{} of {} bytes written arrive while the writer waits for an answer", got.len(), want.len()),
            }
        }
        same("what the library wrote", &got, &want)?;
        up.extend(got);
        s.p.send(&items(d, !t.at.server), &t.pk);
        down.extend(sent(d));
    }
    s.p.io.fin();
    let d = match s.job.get()? {
        Ok(d) => d,
        Err(_) => return Ok(nt(false).tag("no session")),
    };
    if let Some(w) = d.wrong {
        bad!("{w}");
    }
    same("what the peer wrote", &d.got, &down)?;
    same("what the library wrote afterwards", &received(&s.p.drain()?)?, &[])?;
    Ok(nt(!up.is_empty() && !down.is_empty()))
}

/// Two endpoints of the library with a relay that cuts the stream differently.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    turns: Vec<(Vec<Blob>, Vec<Blob>)>,
    cuts: (Vec<u16>, Vec<u16>),
    pause_us: u64,
    sizes: Vec<u32>,
    #[serde(default)]
    faults: fault::Faults,
}
fn total(b: &[Blob]) -> usize {
    b.iter().map(|b| b.len).sum()
}
fn pair(c: &Pair) -> Res {
    fault::library(c.faults, || pair_(c))
}
fn pair_(c: &Pair) -> Res {
    let mut f = Files::default();
    let sc = server_config(&SrvOpt::plain(3), None, &mut f).map_err(Fail::Broken)?;
    let cc = client_config(&CliOpt::plain(), None, &mut f).map_err(Fail::Broken)?;
    let (l, sa) = listener();
    let side = |first: bool| {
        let (ts, sizes) = (c.turns.clone(), c.sizes.clone());
        move |mut s: TlsStream| {
            let mut d = Did::default();
            let (mut i, mut want) = (0, 0);
            for (up, down) in &ts {
                let (mine, theirs) = if first { (up, down) } else { (down, up) };
                for step in 0..2 {
                    if (step == 0) == first {
                        for b in mine {
                            d.write(&mut s, b);
                        }
                    } else {
                        want += total(theirs);
                        while d.got.len() < want && d.end.is_none() && d.wrong.is_none() {
                            let n = if sizes.is_empty() { 5000 } else { sizes[i % sizes.len()].max(1) as usize };
                            i += 1;
                            d.read(&mut s, n);
                        }
                    }
                }
            }
            // the server is done by itself
            while first && d.end.is_none() && d.wrong.is_none() {
                d.read(&mut s, 5000);
            }
            d
        }
    };
    let sj = serve(sc, l, None, side(false));
    let (rl, ra) = listener();
    let cj = dial(cc, tcp(ra), None, side(true));
    let (down, _) = rl.accept()?;
    let up = tcp(sa);
    let (d2, u2) = (down.try_clone()?, up.try_clone()?);
    let (x, y, pause) = (c.cuts.0.clone(), c.cuts.1.clone(), c.pause_us);
    let t1 = std::thread::spawn(move || pump(d2, u2, x, pause));
    let t2 = std::thread::spawn(move || pump(up, down, y, pause));
    let cr = cj.get()?;
    let sr = sj.get()?;
    let _ = (t1.join(), t2.join());
    let (Ok(cd), Ok(sd)) = (cr, sr) else { return Ok(nt(false).tag("no session")) };
    if let Some(w) = cd.wrong.or(sd.wrong) {
        bad!("{w}");
    }
    let up: Vec<u8> = c.turns.iter().flat_map(|t| t.0.iter().flat_map(|b| b.get())).collect();
    let down: Vec<u8> = c.turns.iter().flat_map(|t| t.1.iter().flat_map(|b| b.get())).collect();
    same("what the client wrote", &sd.got, &up)?;
    same("what the server wrote", &cd.got, &down)?;
    Ok(nt(!up.is_empty() && !down.is_empty()))
}

fn len() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![2 => Just(0usize), 6 => 1usize..40, 4 => 1usize..3000, 3 => 16380usize..16390, 2 => 2040usize..2060, 2 => 16000usize..70000, 1 => 32760usize..32776]
}
fn rec() -> impl Strategy<Value = P> + Clone {
    let l = prop_oneof![1 => Just(0usize), 6 => 1usize..40, 4 => 1usize..3000, 1 => 16370usize..=16384, 1 => Just(16384usize)];
    prop_oneof![
        8 => (blob(l), prop_oneof![5 => Just(0u16), 2 => 1u16..600, 1 => 16000u16..=16384]).prop_map(|(b, p)| P::App(b, p)),
        1 => (0u16..3000).prop_map(P::Ticket),
    ]
}
fn sizes() -> impl Strategy<Value = Vec<u32>> + Clone {
    prop_oneof![3 => Just(vec![]), 3 => vec(1u32..20, 1..4), 3 => vec(1u32..5000, 1..4), 1 => vec(16380u32..16390, 1..3), 1 => vec(30000u32..70000, 1..2)]
}
fn setup() -> impl Strategy<Value = Setup> + Clone {
    (any::<bool>(), 0u8..3, any::<bool>(), any::<u64>()).prop_map(|(server, suite, auth, seed)| Setup { server, suite, auth, seed })
}
fn faults() -> impl Strategy<Value = fault::Faults> + Clone {
    let max = || prop_oneof![2 => Just(0u16), 1 => 1u16..40, 2 => 1u16..3000, 1 => 3000u16..20000];
    prop_oneof![
        2 => Just(fault::Faults::default()),
        1 => (any::<u64>(), max(), max(), prop_oneof![2 => Just(0u8), 1 => 2u8..20]).prop_map(|(seed, send, recv, intr)| fault::Faults { seed, send, recv, file: 0, intr }),
    ]
}
fn histories() -> impl Strategy<Value = History> + Clone {
    let op = prop_oneof![3 => blob(len()).prop_map(L::W), 2 => prop_oneof![1 => Just(0u32), 5 => 1u32..50, 5 => 1u32..20000].prop_map(L::R)];
    let lib = prop_oneof![9 => vec(op, 0..8), 1 => vec(blob(0usize..4).prop_map(L::W), 100..600)];
    let peer = prop_oneof![9 => vec(rec(), 0..8), 1 => vec((blob(0usize..4), 0u16..2).prop_map(|(b, p)| P::App(b, p)), 100..600)];
    (setup(), lib, peer, flights::packing(), sizes(), prop_oneof![2 => Just(None), 1 => any::<bool>().prop_map(Some)], faults())
        .prop_map(|(at, lib, peer, pk, sizes, close, faults)| History { at, lib, peer, pk, sizes, close, faults })
}
fn conversations() -> impl Strategy<Value = Turns> + Clone {
    (setup(), vec((vec(blob(len()), 0..4), vec(rec(), 0..4)), 1..5), flights::packing(), sizes(), faults()).prop_map(|(at, turns, pk, sizes, faults)| Turns { at, turns, pk, sizes, faults })
}
fn pairs() -> impl Strategy<Value = Pair> + Clone {
    let cuts = || prop_oneof![1 => Just(vec![]), 1 => vec(1u16..100, 1..4), 1 => vec(1u16..3000, 1..4)];
    (vec((vec(blob(len()), 0..4), vec(blob(len()), 0..4)), 1..4), (cuts(), cuts()), prop_oneof![1 => Just(0u64), 1 => Just(60u64)], sizes(), faults()).prop_map(|(mut turns, cuts, pause_us, sizes, faults): (Vec<(Vec<Blob>, Vec<Blob>)>, _, _, _, _)| {
        for t in turns.iter_mut() {
            // an empty record that is left unread when the server is done would reset the connection
            if let Some(b) = t.0.last_mut() {
                b.len = b.len.max(1);
            }
        }
        Pair { turns, cuts, pause_us, sizes, faults }
    })
}

/// every size of a write, of the peer's record and of the read buffer around the powers of two
fn lengths() -> Vec<History> {
    let mut out = vec![];
    let b = |len: usize| Blob { len, seed: len as u64, pat: (len % 4 == 3) as u8 };
    let plain = |i: usize| Setup { server: i % 2 == 0, suite: (i / 2 % 3) as u8, auth: i % 5 == 0, seed: i as u64 };
    let mut add = |lib: Vec<L>, peer: Vec<P>, sizes: Vec<u32>| {
        let at = plain(out.len());
        out.push(History { at, lib, peer, pk: Packing::default(), sizes, close: None, faults: Default::default() });
    };
    for w in border_lengths(300, 66_000, 3).chunks(6) {
        add(w.iter().map(|n| L::W(b(*n))).collect(), vec![], vec![]);
    }
    for w in border_lengths(300, 16_384, 3).chunks(6) {
        for d in [-1i64, 0, 1] {
            // buffers a byte shorter than, as long as, or a byte longer than the record
            add(vec![], w.iter().map(|n| P::App(b(*n), 0)).collect(), w.iter().filter(|n| **n > 0).map(|n| (*n as i64 + d).max(1) as u32).collect());
        }
    }
    for w in border_lengths(40, 16_384, 2).chunks(6) {
        // padding
        add(vec![], w.iter().map(|n| P::App(b(5), *n as u16)).collect(), vec![]);
    }
    for n in border_lengths(20, 16_384, 1) {
        // two reads of each buffer size over a full record
        add(vec![], vec![P::App(b(16_384), 0), P::App(b(3), 0)], vec![n.max(1) as u32]);
    }
    out
}

fn main() {
    run::main("C11", "data flowed on an established session", |c| {
        c.assume("up to 600 records and some 200 kB in each direction of a session");
        c.shrink_iters = 300;
        c.list("lengths", lengths(), history);
        c.sub("history", 6000, histories, history);
        c.sub("turns", 1200, conversations, turns);
        c.sub("pair", 800, pairs, pair);
    })
}
