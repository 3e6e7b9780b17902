//! C10: record protection. Histories of records against an RFC 8446 section 5 reference.
use anothertls::crypto::CipherSuite;
use anothertls::hash::{HashType, TranscriptHash};
use anothertls::net::key_schedule::KeySchedule;
use anothertls::net::record::{Record, RecordPayloadProtection, RecordType, Value};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::refs::{self, Keys, Suite, H, SUITES};
use vharness::run::*;
use vharness::*;

const TYPES: [u8; 4] = [20, 21, 22, 23];
fn rt(t: u8) -> RecordType {
    match t {
        20 => RecordType::ChangeCipherSpec,
        21 => RecordType::Alert,
        22 => RecordType::Handshake,
        _ => RecordType::ApplicationData,
    }
}
/// A pair of library ends and the reference keys [client, server] of the phase.
struct World {
    lib: [RecordPayloadProtection; 2],
    keys: [Keys; 2],
}
fn world(suite: Suite, secret: u64, app: bool) -> Result<World, Fail> {
    let h = suite.h();
    let ht = if h == H::S256 { HashType::SHA256 } else { HashType::SHA384 };
    let shared = Blob { len: 32, seed: secret, pat: 0 }.get();
    let hello = h.hash(&secret.to_be_bytes());
    let s = refs::handshake_secrets(h, &shared, &hello);
    let Ok(cs) = CipherSuite::new(suite.0) else { bad!("suite {} unknown", suite.name()) };
    let mk = |client: bool| -> Result<RecordPayloadProtection, Fail> {
        let Some(ks) = KeySchedule::do_key_schedule(ht, &hello, &shared) else { bad!("no key schedule") };
        let Ok(c) = cs.get_cipher() else { bad!("no cipher") };
        let Some(mut p) = RecordPayloadProtection::new(ks, c, client) else { bad!("no protection") };
        if app {
            let Ok(mut t) = cs.get_tshash() else { bad!("no transcript hash") };
            t.update(b"flight");
            if let Err(e) = p.generate_application_keys(t.as_ref()) {
                bad!("application keys: {e:?}")
            }
        }
        Ok(p)
    };
    let (c, sv) = if app { refs::app_secrets(&s, &h.hash(b"flight")) } else { (s.c_hs.clone(), s.s_hs.clone()) };
    Ok(World { lib: [mk(true)?, mk(false)?], keys: [Keys::new(suite, &c), Keys::new(suite, &sv)] })
}
/// What the receiver does with raw bytes it takes for one record.
fn receive(p: &mut RecordPayloadProtection, raw: &[u8]) -> Result<Result<(u8, Vec<u8>), String>, Fail> {
    match guard(|| {
        let (n, r) = match Record::from_raw(raw) {
            Ok(r) => r,
            Err(e) => return Err(format!("from_raw {e:?}")),
        };
        if n != raw.len() {
            return Err("not one record".into());
        }
        p.decrypt(r).map(|(t, d)| (t as u8, d)).map_err(|e| format!("{e:?}"))
    }) {
        Ok(r) => Ok(r),
        Err(p) => Err(Fail::Bad(format!("panic on record {}: {p:?}", hex(&raw[..raw.len().min(64)])))),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// the library end (client?) seals, the other opens
    Lib { server: bool, typ: u8, data: Blob },
    /// the reference seals with padding as that end, the other library end opens
    Peer { server: bool, typ: u8, data: Blob, pad: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    suite: Suite,
    secret: u64,
    app: bool,
    ops: Vec<Op>,
}
fn hist(c: &Hist) -> Res {
    let mut w = world(c.suite, c.secret, c.app)?;
    let mut pads = false;
    let mut big = false;
    for (i, op) in c.ops.iter().enumerate() {
        let (server, typ, data, raw, seal) = match op {
            Op::Lib { server, typ, data } => {
                let d = data.get();
                let k = *server as usize;
                let raw = match w.lib[k].encrypt(Record::new(rt(*typ), Value::Ref(&d))) {
                    Ok(r) => r,
                    Err(e) => bad!("op {i}: sealing {} bytes fails: {e:?}", d.len()),
                };
                let want = w.keys[k].seal(*typ, &d, 0);
                ensure!(raw == want, "op {i}: record {} of the {} is not the RFC 8446 record (first difference at byte {:?})", w.keys[k].seq - 1, ["client", "server"][k], raw.iter().zip(&want).position(|(a, b)| a != b));
                (k, *typ, d, raw, true)
            }
            Op::Peer { server, typ, data, pad } => {
                let d = data.get();
                let k = *server as usize;
                let raw = w.keys[k].seal(*typ, &d, *pad);
                // keep the library sender of that direction in step
                if w.lib[k].encrypt(Record::new(rt(*typ), Value::Ref(&d))).is_err() {
                    bad!("op {i}: sealing {} bytes fails", d.len())
                }
                pads |= *pad > 0;
                (k, *typ, d, raw, false)
            }
        };
        big |= data.len() > 16000;
        match receive(&mut w.lib[1 - server], &raw)? {
            Ok((t, d)) => ensure!(t == typ && d == data, "op {i}: a record of type {typ} with {} bytes arrives as type {t} with {} bytes", data.len(), d.len()),
            Err(e) => bad!("op {i}: a correct record ({} content bytes, sealed by {}) is refused: {e}", data.len(), if seal { "the library" } else { "the reference" }),
        }
    }
    Ok(nt(!c.ops.is_empty()).tag(c.suite.name()).tag_if(pads, "padded").tag_if(big, "near-limit").tag_if(c.ops.len() > 10, "long"))
}
fn op() -> impl Strategy<Value = Op> {
    let len = || prop_oneof![8 => 0usize..80, 2 => around(16, 20), 1 => 0usize..3000, 1 => 16300usize..=16384, 1 => Just(16384usize)];
    // content ending in zero bytes is the case padding removal can get wrong
    let data = || (len(), any::<u64>(), prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(3u8)]).prop_map(|(len, seed, pat)| Blob { len, seed, pat });
    let typ = || prop::sample::select(TYPES.to_vec());
    prop_oneof![
        (any::<bool>(), typ(), data()).prop_map(|(server, typ, data)| Op::Lib { server, typ, data }),
        (any::<bool>(), typ(), data(), prop_oneof![2 => 0usize..40, 1 => 0usize..16385]).prop_map(|(server, typ, data, pad)| { let pad = pad.min(16384 - data.len); Op::Peer { server, typ, data, pad } }),
    ]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Evil {
    Flip { at: usize, bit: u8 },
    FlipTwo { at: usize, bit: u8, at2: usize, bit2: u8 },
    Cut { by: usize, fix: bool },
    Grow { tail: Hex, fix: bool },
    Front { by: usize },
    Replay,
    Skip,
    Swap,
    OtherDirection,
    OtherPhase,
    OtherSuite(Suite),
    Retype(u8),
    ResealType(u8),
    Version(u16),
    Zeros(usize),
    Unknown(u8),
    Plain,
    TagTail(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tamper {
    suite: Suite,
    secret: u64,
    app: bool,
    server: bool,
    before: Vec<Blob>,
    msg: Blob,
    typ: u8,
    pad: usize,
    evil: Evil,
}
fn fixlen(r: &mut [u8]) {
    if r.len() >= 5 {
        let l = r.len() - 5;
        r[3] = (l >> 8) as u8;
        r[4] = l as u8;
    }
}
fn tamper(c: &Tamper) -> Res {
    let mut w = world(c.suite, c.secret, c.app)?;
    let k = c.server as usize;
    let mut last = None;
    for b in &c.before {
        let r = w.keys[k].seal(23, &b.get(), 0);
        match receive(&mut w.lib[1 - k], &r)? {
            Ok(_) => {}
            Err(e) => bad!("correct record refused: {e}"),
        }
        last = Some(r);
    }
    let d = c.msg.get();
    let seq = w.keys[k].seq;
    let good = w.keys[k].seal_at(seq, c.typ, &d, c.pad);
    let mut r = good.clone();
    match &c.evil {
        Evil::Flip { at, bit } => r[at % good.len()] ^= 1 << (bit % 8),
        Evil::FlipTwo { at, bit, at2, bit2 } => {
            r[at % good.len()] ^= 1 << (bit % 8);
            r[at2 % good.len()] ^= 1 << (bit2 % 8);
        }
        Evil::Cut { by, fix } => {
            r.truncate(good.len() - (by % good.len()).max(1));
            if *fix {
                fixlen(&mut r)
            }
        }
        Evil::Grow { tail, fix } => {
            r.extend_from_slice(tail);
            if *fix {
                fixlen(&mut r)
            }
        }
        Evil::Front { by } => {
            let n = (by % (good.len() - 5)).max(1);
            r.drain(5..5 + n);
            fixlen(&mut r);
        }
        Evil::Replay => match &last {
            Some(l) => r = l.clone(),
            None => return Ok(nt(false)),
        },
        Evil::Skip => r = w.keys[k].seal_at(seq + 1, c.typ, &d, c.pad),
        Evil::Swap => r = w.keys[k].seal_at(seq + 2, c.typ, &d, c.pad),
        Evil::OtherDirection => r = w.keys[1 - k].seal_at(seq, c.typ, &d, c.pad),
        Evil::OtherPhase => {
            let o = world(c.suite, c.secret, !c.app)?;
            r = o.keys[k].seal_at(seq, c.typ, &d, c.pad);
        }
        Evil::OtherSuite(s) => {
            if *s == c.suite {
                return Ok(nt(false));
            }
            let o = Keys::new(*s, &w.keys[k].secret);
            r = o.seal_at(seq, c.typ, &d, c.pad);
        }
        Evil::Retype(t) => r[0] = *t,
        Evil::ResealType(t) => {
            // a peer that authenticates a wrong outer type
            let mut inner = d.clone();
            inner.push(c.typ);
            let l = inner.len() + 16;
            let hdr = [*t, 3, 3, (l >> 8) as u8, l as u8];
            let (ct, tag) = refs::seal(c.suite, &w.keys[k].key, &w.keys[k].nonce(seq), &hdr, &inner);
            r = [&hdr[..], &ct, &tag].concat();
        }
        Evil::Version(v) => {
            r[1] = (v >> 8) as u8;
            r[2] = *v as u8;
        }
        Evil::Zeros(n) => r = w.keys[k].seal_inner_at(seq, &vec![0; *n]),
        Evil::Unknown(t) => {
            if TYPES.contains(t) || *t == 0 {
                return Ok(nt(false));
            }
            r = w.keys[k].seal_at(seq, *t, &d, c.pad);
        }
        Evil::Plain => {
            r = vec![23, 3, 3, 0, 0];
            r.extend(&d);
            fixlen(&mut r);
        }
        Evil::TagTail(n) => {
            // the last n bytes of the tag dropped
            r.truncate(good.len() - (*n as usize % 16).max(1));
            fixlen(&mut r);
        }
    }
    if r == good {
        return Ok(nt(false));
    }
    match receive(&mut w.lib[1 - k], &r)? {
        Err(_) => {}
        Ok((t, d)) => bad!("{:?} on record {seq} of the {}: accepted as type {t} with {} bytes", c.evil, ["client", "server"][k], d.len()),
    }
    let n = format!("{:?}", c.evil);
    Ok(hit().tag(n.split(|x: char| !x.is_alphanumeric()).next().unwrap_or("").to_string()))
}
fn evil() -> impl Strategy<Value = Evil> {
    prop_oneof![
        3 => (any::<usize>(), 0u8..8).prop_map(|(at, bit)| Evil::Flip { at, bit }),
        1 => (0usize..5, 0u8..8).prop_map(|(at, bit)| Evil::Flip { at, bit }),
        1 => (any::<usize>(), 0u8..8, any::<usize>(), 0u8..8).prop_map(|(at, bit, at2, bit2)| Evil::FlipTwo { at, bit, at2, bit2 }),
        2 => (any::<usize>(), any::<bool>()).prop_map(|(by, fix)| Evil::Cut { by, fix }),
        1 => (1usize..24, any::<bool>()).prop_map(|(by, fix)| Evil::Cut { by, fix }),
        1 => (hexn(1..40), any::<bool>()).prop_map(|(tail, fix)| Evil::Grow { tail, fix }),
        1 => any::<usize>().prop_map(|by| Evil::Front { by }),
        1 => Just(Evil::Replay),
        1 => Just(Evil::Skip),
        1 => Just(Evil::Swap),
        1 => Just(Evil::OtherDirection),
        1 => Just(Evil::OtherPhase),
        1 => prop::sample::select(SUITES.to_vec()).prop_map(Evil::OtherSuite),
        1 => any::<u8>().prop_map(Evil::Retype),
        1 => prop_oneof![prop::sample::select(vec![0u8, 20, 21, 22]), 24u8..=255].prop_map(Evil::ResealType),
        1 => any::<u16>().prop_map(Evil::Version),
        1 => prop_oneof![0usize..4, 0usize..300].prop_map(Evil::Zeros),
        1 => any::<u8>().prop_map(Evil::Unknown),
        1 => Just(Evil::Plain),
        1 => (1u8..16).prop_map(Evil::TagTail),
    ]
}
/// Sequence numbers far into a session.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    suite: Suite,
    secret: u64,
    app: bool,
    server: bool,
    seq: u64,
    n: u8,
}
fn far(c: &Far) -> Res {
    let mut w = world(c.suite, c.secret, c.app)?;
    let k = c.server as usize;
    for e in w.lib.iter_mut() {
        let keys = if c.app { e.application_keys.as_mut().unwrap() } else { &mut e.handshake_keys };
        let key = if c.server { &mut keys.server } else { &mut keys.client };
        key.set_sequence_number(c.seq);
    }
    for i in 0..c.n as u64 {
        let Some(seq) = c.seq.checked_add(i).filter(|s| *s < u64::MAX) else { break };
        let m = seq.to_le_bytes();
        let Ok(r) = w.lib[k].encrypt(Record::new(RecordType::ApplicationData, Value::Ref(&m))) else { bad!("record {seq} cannot be sealed") };
        ensure!(r == w.keys[k].seal_at(seq, 23, &m, 0), "record {seq} is not sealed with the nonce of sequence number {seq}");
        match receive(&mut w.lib[1 - k], &r)? {
            Ok((23, d)) if d == m => {}
            x => bad!("record {seq} arrives as {x:?}"),
        }
    }
    Ok(hit().tag(c.suite.name()).tag_if(c.seq >= 1 << 32, "beyond-32-bit"))
}
/// A whole long session, record by record.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    suite: Suite,
    secret: u64,
    server: bool,
    n: u64,
}
fn long(c: &Long) -> Res {
    let mut w = world(c.suite, c.secret, true)?;
    let k = c.server as usize;
    for seq in 0..c.n {
        let m = [seq as u8; 3];
        let m = &m[..(seq % 4) as usize];
        let Ok(r) = w.lib[k].encrypt(Record::new(RecordType::ApplicationData, Value::Ref(m))) else { bad!("record {seq} cannot be sealed") };
        if seq % 16 == 0 || (seq & (seq + 1)) == 0 || (seq & 0xff) >= 0xfe {
            ensure!(r == w.keys[k].seal_at(seq, 23, m, 0), "record {seq} is not sealed with the nonce of sequence number {seq}");
        }
        match receive(&mut w.lib[1 - k], &r)? {
            Ok((23, d)) if d == m => {}
            x => bad!("record {seq} arrives as {x:?}"),
        }
    }
    Ok(hit())
}
/// record framing on arbitrary bytes
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Frame {
    raw: Hex,
}
fn frame(c: &Frame) -> Res {
    let g = guard(|| Record::from_raw(&c.raw).map(|(n, r)| (n, r.content_type as u8, r.version, r.len, r.header, r.fraqment.as_ref().to_vec())).ok());
    let g = match g {
        Ok(g) => g,
        Err(p) => bad!("panic: {p:?}"),
    };
    let l = if c.raw.len() >= 5 { u16::from_be_bytes([c.raw[3], c.raw[4]]) as usize } else { 0 };
    let whole = c.raw.len() >= 5 + l && c.raw.len() >= 5;
    let known = whole && TYPES.contains(&c.raw[0]);
    match g {
        None => ensure!(!known, "a whole record is refused"),
        Some((n, t, v, len, h, f)) => {
            ensure!(whole, "a record cut short is accepted");
            ensure!(known || c.raw[0] == 0, "record type {} is accepted", c.raw[0]);
            ensure!(n == 5 + l && t == c.raw[0] && v == u16::from_be_bytes([c.raw[1], c.raw[2]]) && len == l && h == c.raw[..5] && f == c.raw[5..5 + l], "record fields differ from the bytes");
            let mut b = c.raw[..5 + l].to_vec();
            b[1] = 3;
            b[2] = 3;
            ensure!(Record::new(rt(t.max(20)), Value::Ref(&f)).as_bytes()[1..] == b[1..], "as_bytes is not the record");
        }
    }
    Ok(nt(c.raw.len() >= 5).tag_if(known, "whole"))
}
fn main() {
    run::main("C10", "histories of up to 24 records in both directions (library and reference senders, padding, contents of 0 to 2^14 bytes, contents ending in zeros); tampering, replay, drop, reorder and re-heading of one record after a history; sequence numbers up to 2^64-2 through the hook. Non-trivial: a history with a record; a change that leaves a record different from the correct next one", |c| {
        c.assume("OpenSSL 3.0 AEADs are correct; a forgery by chance has probability 2^-128");
        let suite = || prop::sample::select(SUITES.to_vec());
        c.sub("history", 2_200, || (suite(), any::<u64>(), any::<bool>(), prop::collection::vec(op(), 0..24)).prop_map(|(suite, secret, app, ops)| Hist { suite, secret, app, ops }), hist);
        let small = || blob(prop_oneof![3 => 0usize..40, 1 => 0usize..700]);
        c.sub("tamper", 24_000, || (suite(), any::<u64>(), any::<bool>(), any::<bool>(), prop::collection::vec(small(), 0..4), small(), prop::sample::select(TYPES.to_vec()), prop_oneof![Just(0usize), 0usize..30], evil()).prop_map(|(suite, secret, app, server, before, msg, typ, pad, evil)| Tamper { suite, secret, app, server, before, msg, typ, pad, evil }), tamper);
        let seq = || prop_oneof![2 => (0u32..64, -4i64..5).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64).min(u64::MAX - 8)), 1 => any::<u64>(), 1 => (u64::MAX - 12)..u64::MAX];
        c.sub("far", 6_000, || (suite(), any::<u64>(), any::<bool>(), any::<bool>(), seq(), 1u8..8).prop_map(|(suite, secret, app, server, seq, n)| Far { suite, secret, app, server, seq, n }), far);
        let n = (66_000.0 * c.scale.max(1.0)) as u64;
        let mut l = vec![];
        for s in SUITES {
            for server in [false, true] {
                l.push(Long { suite: s, secret: c.seed, server, n });
            }
        }
        c.list("long", l, long);
        // every length up to 600 and around powers of two: 16 records of a session in one case
        let b = |len, pat| Blob { len, seed: len as u64, pat };
        let lens = border_lengths(600, 16_384, 20);
        let pads = border_lengths(300, 16_384, 3);
        let mut l = vec![];
        for (i, (suite, app)) in SUITES.into_iter().flat_map(|s| [(s, false), (s, true)]).enumerate() {
            for (j, w) in lens.chunks(16).enumerate() {
                l.push(Hist { suite, secret: (i * 1000 + j) as u64, app, ops: w.iter().map(|n| Op::Lib { server: (i + j) % 2 == 0, typ: TYPES[n % 4], data: b(*n, (n % 2) as u8) }).collect() });
            }
            for (j, w) in pads.chunks(8).enumerate() {
                l.push(Hist { suite, secret: (i * 1000 + j) as u64, app, ops: w.iter().flat_map(|n| [0usize, 1, 16_384 - n].map(|d| Op::Peer { server: (i + j) % 2 == 0, typ: TYPES[n % 4], data: b(d.min(16_384 - n), 0), pad: *n })).collect() });
            }
        }
        c.list("border-lengths", l, hist);
        let framed = (prop_oneof![3 => prop::sample::select(TYPES.to_vec()), 1 => any::<u8>()], any::<u16>(), hexn(0..60), -70i32..70, hexn(0..8), prop_oneof![3 => Just(true), 1 => Just(false)]).prop_map(|(t, v, b, d, tail, exact)| {
            let l = if exact { b.len() as i32 } else { (b.len() as i32 + d).max(0) } as u16;
            let mut r = vec![t, (v >> 8) as u8, v as u8, (l >> 8) as u8, l as u8];
            r.extend_from_slice(&b);
            r.extend_from_slice(&tail);
            Frame { raw: Hex(r) }
        });
        c.sub("frame", 20_000, || prop_oneof![4 => framed.clone(), 1 => hexn(0..12).prop_map(|raw| Frame { raw })], frame);
    })
}
