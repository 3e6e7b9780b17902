//! C32: logging changes nothing and gives nothing away.
use anothertls::net::alert::TlsError;
use anothertls::utils::log::{self, LogLevel, LOG_LEVEL};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::FileExt;
use std::sync::{Mutex, MutexGuard, OnceLock};
use vharness::cert::{self, Spec};
use vharness::gen::*;
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::*;
use vharness::tls::*;
use vharness::*;
#[path = "../glue/flights.rs"]
mod flights;
#[path = "../glue/lib_side.rs"]
mod lib_side;
#[path = "../glue/offer.rs"]
mod offer;
#[path = "../glue/session.rs"]
mod session;
use flights::*;
use lib_side::*;
use offer::Offer;
use session::*;

// ------------------------------------------------------------------ the process's output
/// The level and the output are the process's: one case at a time.
static TURN: Mutex<()> = Mutex::new(());
fn turn() -> MutexGuard<'static, ()> {
    TURN.lock().unwrap_or_else(|e| e.into_inner())
}
fn sink() -> &'static std::fs::File {
    static F: OnceLock<std::fs::File> = OnceLock::new();
    F.get_or_init(|| {
        let p = format!("{}/printed", run::tmp());
        let f = std::fs::OpenOptions::new().create(true).read(true).append(true).open(p).expect("scratch file");
        unsafe {
            libc::dup2(f.as_raw_fd(), 1);
            libc::dup2(f.as_raw_fd(), 2);
        }
        f
    })
}
fn set(l: u8) {
    unsafe {
        LOG_LEVEL = match l {
            0 => LogLevel::None,
            1 => LogLevel::Error,
            2 => LogLevel::Debug,
            _ => LogLevel::Fixme,
        }
    }
}
fn level() -> u8 {
    #[allow(static_mut_refs)]
    unsafe {
        LOG_LEVEL.clone() as u8
    }
}
/// What `f` prints at a level, on stdout and stderr.
fn printed<R>(l: u8, f: impl FnOnce() -> R) -> (R, Vec<u8>) {
    let file = sink();
    let _ = std::io::stdout().flush();
    file.set_len(0).expect("scratch file");
    set(l);
    let r = f();
    set(0);
    let _ = std::io::stdout().flush();
    let n = file.metadata().map(|m| m.len()).unwrap_or(0) as usize;
    let mut b = vec![0; n];
    let _ = file.read_exact_at(&mut b, 0);
    (r, b)
}

// ------------------------------------------------------------------ what must not be printed
#[derive(Default)]
struct Secrets_ {
    known: Vec<(String, Vec<u8>)>,
    /// public X25519 values of the library
    shares: Vec<Vec<u8>>,
    /// first halves of its signatures
    rs: Vec<Vec<u8>>,
}
impl Secrets_ {
    fn add(&mut self, what: &str, b: &[u8]) {
        if b.len() >= 8 {
            self.known.push((what.to_string(), b.to_vec()));
        }
    }
    fn party(&mut self, p: &Party) {
        let (h, s) = (p.suite.h(), p.suite);
        if p.shared.is_empty() {
            return;
        }
        self.add("shared secret", &p.shared);
        let z = vec![0u8; h.len()];
        let early = hkdf_extract(h, &z, &z);
        let d = expand_label(h, &early, b"derived", &h.hash(b""), h.len());
        let hs = hkdf_extract(h, &d, &p.shared);
        self.add("handshake secret", &hs);
        self.add("secret between handshake and master secret", &expand_label(h, &hs, b"derived", &h.hash(b""), h.len()));
        let mut traffic = vec![];
        if let Some(x) = &p.sec {
            self.add("master secret", &x.master);
            traffic.extend([("client's handshake", x.c_hs.clone()), ("server's handshake", x.s_hs.clone())]);
        }
        if let Some((c, s)) = &p.app {
            traffic.extend([("client's application", c.clone()), ("server's application", s.clone())]);
        }
        for (w, t) in traffic {
            self.add(&format!("{w} traffic secret"), &t);
            self.add(&format!("{w} key"), &expand_label(h, &t, b"key", b"", s.key_len()));
            self.add(&format!("{w} IV"), &expand_label(h, &t, b"iv", b"", 12));
            self.add(&format!("{w} finished key"), &expand_label(h, &t, b"finished", b"", h.len()));
        }
    }
    fn signature(&mut self, p: &Party, own: &[Vec<u8>]) {
        for m in p.tr.iter().chain(own).filter(|m| m.first() == Some(&15) && m.len() > 8) {
            if let Ok((_, s)) = parse_cv(&m[4..]) {
                if let Ok(s) = openssl::ecdsa::EcdsaSig::from_der(&s) {
                    if s.r().num_bits() <= 256 {
                        self.rs.push(bn32(s.r()));
                    }
                }
            }
        }
    }
}
/// Byte strings that a printed text stands for, in the usual notations.
fn readings(out: &[u8]) -> Vec<Vec<u8>> {
    let text = String::from_utf8_lossy(out).replace("\u{1b}[0m", "").replace("\u{1b}[33;2m* ", "").replace("\u{1b}[31;1m* ", "").replace("\u{1b}[36;2m! ", "");
    let mut v = vec![out.to_vec(), text.clone().into_bytes()];
    for line in text.split('\n').chain([text.as_str()]) {
        // lists of numbers: decimal, hexadecimal, with and without a prefix
        let (mut dec, mut hexa, mut long) = (vec![], vec![], vec![]);
        for t in line.split(|c: char| !c.is_ascii_alphanumeric() && c != '+' && c != '/').filter(|t| !t.is_empty()) {
            let x = t.strip_prefix("0x").unwrap_or(t);
            match t.parse::<u32>() {
                Ok(n) if n < 256 => dec.push(n as u8),
                _ => v.push(std::mem::take(&mut dec)),
            }
            match u8::from_str_radix(x, 16) {
                Ok(n) if x.len() <= 2 => hexa.push(n),
                _ => v.push(std::mem::take(&mut hexa)),
            }
            if x.len() > 2 && x.bytes().all(|c| c.is_ascii_hexdigit()) {
                for x in [x.to_string(), format!("0{x}"), format!("{x}0")] {
                    if x.len() % 2 == 0 {
                        let b = unhex(&x).unwrap_or_default();
                        long.extend_from_slice(&b);
                        v.push(b);
                    }
                }
                // words of a list: either byte order
                continue;
            }
            v.push(std::mem::take(&mut long));
            if t.len() >= 16 && t.bytes().all(|c| c.is_ascii_digit()) {
                if let Ok(n) = openssl::bn::BigNum::from_dec_str(t) {
                    v.push(n.to_vec());
                }
            }
            if t.len() >= 11 {
                for k in 0..4 {
                    let t: String = t.chars().skip(k).collect();
                    if let Ok(b) = openssl::base64::decode_block(&t[..t.len() / 4 * 4]) {
                        v.push(b);
                    }
                }
            }
        }
        v.extend([dec, hexa, long]);
        // words of 4 or 8 bytes
        for size in [4usize, 8] {
            let (mut d, mut h) = (vec![], vec![]);
            for t in line.split(|c: char| !c.is_ascii_alphanumeric()).filter(|t| !t.is_empty()) {
                let x = t.strip_prefix("0x").unwrap_or(t);
                let word = |n: u64| (size == 8 || n >> 32 == 0).then(|| n.to_be_bytes()[8 - size..].to_vec());
                match t.parse::<u64>().ok().and_then(word) {
                    Some(b) => d.extend(b),
                    None => v.push(std::mem::take(&mut d)),
                }
                match u64::from_str_radix(x, 16).ok().and_then(word) {
                    Some(b) => h.extend(b),
                    None => v.push(std::mem::take(&mut h)),
                }
            }
            for b in [d, h] {
                v.push(b.chunks(size).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect());
                v.push(b);
            }
        }
    }
    v.retain(|b| b.len() >= 8);
    let back: Vec<Vec<u8>> = v.iter().skip(2).map(|b| b.iter().rev().copied().collect()).collect();
    v.extend(back);
    v.sort();
    v.dedup();
    v
}
fn gives_away(out: &[u8], s: &Secrets_) -> Result<usize, Fail> {
    let mut windows: HashMap<[u8; 8], &str> = HashMap::new();
    for (what, b) in &s.known {
        for w in b.windows(8) {
            let mut u = w.to_vec();
            u.sort();
            u.dedup();
            if u.len() > 4 {
                windows.insert(w.try_into().unwrap(), what);
            }
        }
    }
    let rs = readings(out);
    let mut tried = 0;
    for r in &rs {
        for w in r.windows(8) {
            if let Some(what) = windows.get::<[u8; 8]>(w.try_into().unwrap()) {
                bad!("eight bytes of the {what} are printed: {} in {:?}", hex(w), String::from_utf8_lossy(&out[..out.len().min(4000)]));
            }
        }
    }
    // numbers that only the library knows: by what they make
    let text = String::from_utf8_lossy(out).into_owned();
    let mut cand: Vec<Vec<u8>> = rs.iter().filter(|r| (31..400).contains(&r.len()) && !r.iter().all(|b| b.is_ascii_graphic() || b" \n\x1b".contains(b)) && !text.as_bytes().starts_with(&r[..8])).cloned().collect();
    cand.sort_by_key(|r| r.len());
    for mut r in cand {
        if r.len() == 31 {
            r.insert(0, 0);
        }
        for w in r.windows(32) {
            tried += 1;
            if tried > 200 {
                break;
            }
            let p = x25519_pub(w);
            if s.shares.contains(&p) {
                bad!("the private key of the key share is printed: {}", hex(w));
            }
            if !s.rs.is_empty() && affine(&point_mul_g(w)).is_some_and(|(x, _)| s.rs.contains(&x)) {
                bad!("the nonce of the signature is printed: {}", hex(w));
            }
        }
    }
    Ok(tried)
}

// ------------------------------------------------------------------ handshakes
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Plan {
    Srv(SrvPlan),
    Cli(CliPlan),
}
type Outcome = Result<(Vec<u8>, String), String>;
fn go(p: &Plan, sec: &mut Secrets_) -> Result<Outcome, Fail> {
    let (lib, written, key) = match p {
        Plan::Srv(p) => {
            let r = p.run(None)?;
            sec.party(&r.party);
            sec.shares.extend(r.hello.shares().ok().into_iter().flatten().map(|s| s.1));
            let own: Vec<Vec<u8>> = r.flight.iter().flatten().map(|m| m.1.clone()).collect();
            sec.signature(&r.party, &own);
            for b in &p.data {
                sec.add("data received", &b.get());
            }
            (r.lib, r.written, p.cli.cert.as_ref().map(|c| c.1))
        }
        Plan::Cli(p) => {
            let r = p.run(None)?;
            sec.party(&r.party);
            if let Ok(f) = &r.flight {
                sec.shares.extend(f.sh.share().map(|s| s.1));
            }
            sec.signature(&r.party, &[]);
            for b in &p.data {
                sec.add("data received", &b.get());
            }
            (r.lib, r.written, Some(p.srv.key))
        }
    };
    if let Some(k) = key {
        sec.add("private key", &cert::scalar(k));
    }
    sec.add("data sent", &written);
    Ok(lib.map(|(d, e)| (d, format!("{e:?}"))).map_err(|e| format!("{e:?}")))
}
/// The same handshakes without and with logging.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch {
    level: u8,
    plans: Vec<Plan>,
}
/// all at once
fn each<T: Sync, O: Send>(of: &[T], sec: &mut Secrets_, f: impl Fn(&T, &mut Secrets_) -> Result<O, Fail> + Sync) -> Result<Vec<O>, Fail> {
    let rs: Vec<_> = std::thread::scope(|s| {
        let f = &f;
        let hs: Vec<_> = of
            .iter()
            .map(|p| {
                s.spawn(move || {
                    let mut sec = Secrets_::default();
                    match guard(|| f(p, &mut sec)) {
                        Ok(r) => r.map(|o| (o, sec)),
                        Err(p) => Err(Fail::Broken(format!("{p:?}"))),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    let mut out = vec![];
    for r in rs {
        let (o, s) = r.map_err(|_| Fail::Broken("thread".into()))??;
        out.push(o);
        sec.known.extend(s.known);
        sec.shares.extend(s.shares);
        sec.rs.extend(s.rs);
    }
    Ok(out)
}
fn batch(b: &Batch) -> Res {
    let _t = turn();
    let (quiet, out) = printed(0, || each(&b.plans, &mut Secrets_::default(), go));
    let quiet = quiet?;
    ensure!(out.is_empty(), "without logging, there is printed {:?}", String::from_utf8_lossy(&out[..out.len().min(500)]));
    let mut sec = Secrets_::default();
    let (loud, out) = printed(b.level, || each(&b.plans, &mut sec, go));
    let loud = loud?;
    for (i, (q, l)) in quiet.iter().zip(&loud).enumerate() {
        if q == l {
            continue;
        }
        // what a transport failure does to the outcome is a matter of time
        let (mut qs, mut ls) = (vec![q.clone()], vec![l.clone()]);
        for _ in 0..6 {
            qs.push(printed(0, || go(&b.plans[i], &mut Secrets_::default())).0?);
            ls.push(printed(b.level, || go(&b.plans[i], &mut Secrets_::default())).0?);
        }
        ensure!(qs.iter().any(|q| ls.contains(q)), "handshake {i} ends with {:?} at log level {} and with {:?} without logging", l.as_ref().map(|x| &x.1), b.level, q.as_ref().map(|x| &x.1));
    }
    let tried = gives_away(&out, &sec)?;
    let ok = loud.iter().filter(|l| l.is_ok()).count();
    Ok(nt(!out.is_empty() && !sec.known.is_empty()).tag(format!("level {}", b.level)).tag_if(ok > 0, "sessions").tag_if(ok < loud.len(), "failed handshakes").tag_if(tried > 0, "numbers tried"))
}

// ------------------------------------------------------------------ hellos
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bend {
    No,
    Cut(u16),
    Set(u16, u8),
    /// in place of the name, with the right lengths
    Name(Hex),
}
/// ClientHellos, of any form, with and without logging.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hellos {
    level: u8,
    name: Option<String>,
    of: Vec<(Offer, Bend)>,
}
fn answer(raw: &[u8], cfg: &anothertls::net::server::ServerConfig, sec: &mut Secrets_) -> String {
    let r = guard(|| {
        let h = anothertls::net::client::ClientHello::from_raw(raw).map_err(|e| format!("parse: {e:?}"))?;
        let mut rng = anothertls::rand::URandomRng::new();
        let (sh, key) = anothertls::net::server::ServerHello::from_client_hello(&h, &mut rng, cfg).map_err(|e| format!("{e:?}"))?;
        Ok::<_, String>((sh.cipher_suite as u16, anothertls::utils::bytes::ibig_to_32bytes(key.secret, anothertls::utils::bytes::ByteOrder::Little)))
    });
    match r {
        Ok(Ok((s, k))) => {
            sec.add("private key of a key share", &k);
            format!("{s:04x}")
        }
        Ok(Err(e)) => e,
        Err(p) => format!("a panic: {p}"),
    }
}
fn hellos(c: &Hellos) -> Res {
    let mut files = Files::default();
    let cfg = server_config(&SrvOpt { name: c.name.clone(), ..SrvOpt::plain(3) }, None, &mut files).map_err(Fail::Broken)?;
    let raws: Vec<Vec<u8>> = c.of.iter().map(|(o, b)| {
        let mut h = o.hello();
        if let Bend::Name(n) = b {
            h.exts.retain(|e| e.0 != 0);
            h.exts.push((0, Hex(sni(&n.0))));
        }
        let mut raw = h.raw()[4..].to_vec();
        match b {
            Bend::Cut(n) => raw.truncate(*n as usize % (raw.len() + 1)),
            Bend::Set(i, v) => {
                let i = *i as usize % raw.len();
                raw[i] = *v;
            }
            _ => {}
        }
        raw
    }).collect();
    let _t = turn();
    let (quiet, out) = printed(0, || raws.iter().map(|r| answer(r, &cfg, &mut Secrets_::default())).collect::<Vec<_>>());
    ensure!(out.is_empty(), "without logging, there is printed {:?}", String::from_utf8_lossy(&out[..out.len().min(500)]));
    let mut sec = Secrets_::default();
    let (loud, out) = printed(c.level, || raws.iter().map(|r| answer(r, &cfg, &mut sec)).collect::<Vec<_>>());
    for (i, (q, l)) in quiet.iter().zip(&loud).enumerate() {
        ensure!(q == l, "hello {i} ends with {l} at log level {} and with {q} without logging: {}", c.level, hex(&raws[i][..raws[i].len().min(700)]));
    }
    gives_away(&out, &sec)?;
    let ok = loud.iter().filter(|l| l.len() == 4).count();
    Ok(nt(!out.is_empty()).tag(format!("level {}", c.level)).tag_if(ok > 0, "answered").tag_if(loud.iter().any(|l| l.contains("UnrecognizedName")), "other names"))
}
fn some_name() -> impl Strategy<Value = String> + Clone {
    prop_oneof![2 => offer::name(), 1 => "\\PC{1,20}", 1 => "[a-z\u{e9}\u{20ac}\u{1f600}.]{1,16}", 1 => "[ -~]{1,30}", 1 => prop::sample::select(vec!["{}", "{0}", "%s", "a\0b", "\u{1b}[2J", "\n"]).prop_map(|s| s.to_string())]
}
fn hellos_() -> impl Strategy<Value = Hellos> + Clone {
    (1u8..4, prop_oneof![1 => Just(None), 3 => some_name().prop_map(Some)]).prop_flat_map(|(level, name)| {
        let own = name.clone().unwrap_or("a.b".into());
        // like the server's, with another character somewhere
        let near = (any::<u8>(), any::<char>(), any::<bool>()).prop_map(move |(i, x, ins)| {
            let mut v: Vec<char> = own.chars().collect();
            let i = i as usize % v.len();
            if ins { v.insert(i, x) } else { v[i] = x }
            v.into_iter().collect::<String>()
        });
        let name2 = name.clone();
        let asked = prop_oneof![1 => Just(None), 1 => Just(name2), 2 => some_name().prop_map(Some), 3 => near.prop_map(Some)];
        let bend = prop_oneof![6 => Just(Bend::No), 1 => any::<u16>().prop_map(Bend::Cut), 2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Bend::Set(a, b)), 1 => hexn(1..30).prop_map(Bend::Name)];
        let n = name.clone();
        vec((offer::offer(), asked, bend), 1..30).prop_map(move |v| Hellos { level, name: n.clone(), of: v.into_iter().map(|(o, sni, b)| (Offer { sni, name: n.clone(), ..o }, b)).collect() })
    })
}

// ------------------------------------------------------------------ sessions
#[derive(Clone, Debug, Serialize, Deserialize)]
enum S {
    Read(Blob),
    Write(Blob),
    Ticket(u8),
    /// an alert
    Alert(u8, u8),
    /// a record that does not decrypt
    Broken_(Blob),
    /// a record that decrypts to this type and content
    Rec(u8, Blob),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    at: Setup,
    ops: Vec<S>,
    sizes: Vec<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talks {
    level: u8,
    of: Vec<Talk>,
}
fn talk(c: &Talks) -> Res {
    let _t = turn();
    let mut sec = Secrets_::default();
    let (q, out) = printed(0, || each(&c.of, &mut Secrets_::default(), talking));
    let q = q?;
    ensure!(out.is_empty(), "without logging, there is printed {:?}", String::from_utf8_lossy(&out[..out.len().min(500)]));
    let (l, out) = printed(c.level, || each(&c.of, &mut sec, talking));
    let l = l?;
    for (t, (q, l)) in c.of.iter().zip(q.iter().zip(&l)) {
        let (mut qs, mut ls) = (vec![q.clone()], vec![l.clone()]);
        for _ in 0..6 {
            if !qs.iter().any(|q| ls.contains(q)) {
                qs.push(printed(0, || talking(t, &mut Secrets_::default())).0?);
                ls.push(printed(c.level, || talking(t, &mut Secrets_::default())).0?);
            }
        }
        let say = |x: &Option<Talked>| x.as_ref().map(|x| format!("{:?} after {} bytes, {} bytes reach the peer", x.1, x.0.len(), x.2.len()));
        ensure!(qs.iter().any(|q| ls.contains(q)), "a session ends with {:?} at log level {}, and with {:?} without logging", say(l), c.level, say(q));
    }
    gives_away(&out, &sec)?;
    let mut o = nt(!out.is_empty() && l.iter().any(|l| l.is_some())).tag(format!("level {}", c.level));
    for l in l.iter().flatten() {
        o = o.tag(format!("{:?}", l.1).split('(').next().unwrap().to_string());
    }
    Ok(o)
}
type Talked = (Vec<u8>, TlsError, Vec<u8>);
fn talking(c: &Talk, sec: &mut Secrets_) -> Result<Option<Talked>, Fail> {
    let writes: Vec<Vec<u8>> = c.ops.iter().filter_map(|o| if let S::Write(b) = o { Some(b.get()) } else { None }).collect();
    let sizes: Vec<usize> = c.sizes.iter().map(|n| *n as usize).collect();
    let w = writes.clone();
    let s = session(&c.at, None, move |mut s| {
        for w in &w {
            let _ = s.tls_write(w);
        }
        let r = read_all(&mut s, &sizes);
        fault::drain();
        r
    })?;
    let Some(mut s) = s else { return Ok(None) };
    sec.party(&s.p);
    sec.add("private key", &cert::scalar(if c.at.server { 3 } else { 21 }));
    let mut items = vec![];
    for o in &c.ops {
        match o {
            S::Read(b) => {
                sec.add("data received", &b.get());
                items.push(Item::new(Kind::App(Hex(b.get()))));
            }
            S::Write(b) => sec.add("data sent", &b.get()),
            S::Ticket(n) => items.push(Item { hash: false, ..Item::new(Kind::Msg(4, Hex([vec![0, 0, 0x1c, 0x20, 1, 2, 3, 4, 1, 9], vecn(2, &vec![7; 1 + *n as usize]), vec![0, 0]].concat()))) }),
            S::Alert(l, x) => items.push(Item::new(Kind::Alert(*l, *x))),
            S::Broken_(b) => items.push(Item { prot: Some(Prot::Plain), hash: false, ..Item::new(Kind::Rec(23, Hex(b.get()))) }),
            S::Rec(t, b) => {
                sec.add("content of a record", &b.get());
                items.push(Item { hash: false, ..Item::new(Kind::Rec(*t, Hex(b.get()))) });
            }
        }
    }
    let col = s.p.io.collect()?;
    s.p.send(&items, &Packing::default());
    s.p.io.fin();
    let (got, end) = match s.job.get()? {
        Ok(d) => d,
        Err(_) => return Ok(None),
    };
    s.p.io.absorb(col)?;
    let mut theirs = vec![];
    while let Ok(Ev::App(b)) = s.p.next() {
        theirs.extend(b);
    }
    Ok(Some((got, end, theirs)))
}

// ------------------------------------------------------------------ files
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load {
    level: u8,
    server: bool,
    key: u64,
    /// of the key file: how its DER is spoilt
    spoil: u8,
    at: u32,
    with_cert: bool,
}
fn load(c: &Load) -> Res {
    let _t = turn();
    let mut der = cert::sec1(&cert::scalar(c.key), c.spoil != 7);
    let n = der.len();
    let mut label = "EC PRIVATE KEY";
    match c.spoil {
        1 => der[c.at as usize % n] ^= 1 + (c.at >> 16) as u8 % 255,
        2 => der.truncate(c.at as usize % n),
        3 => der.extend_from_slice(&[c.at as u8; 3]),
        4 => label = "RSA PRIVATE KEY",
        5 => label = "PRIVATE KEY",
        // the curve
        6 => {
            let k = n - 68 - (c.at as usize % 12).min(n - 68);
            der[k] ^= 1;
        }
        _ => {}
    }
    let pem = cert::pem(label, &der);
    let leaf = cert::pem("CERTIFICATE", &Leaf::of(Spec::simple("ok", c.key), 7).der());
    let go = || -> Result<String, Fail> {
        let mut f = Files::default();
        let kp = f.put("key", pem.as_bytes());
        let cp = f.put("cert", if c.with_cert { leaf.as_bytes() } else { pem.as_bytes() });
        match guard(|| {
            if c.server {
                anothertls::ServerConfigBuilder::new().add_cert_pem(cp).add_privkey_pem(kp).build().map(|_| ()).map_err(|e| format!("{e:?}"))
            } else {
                anothertls::ClientConfigBuilder::new().add_client_cert_pem(cp).add_client_key_pem(kp).build().map(|_| ()).map_err(|e| format!("{e:?}"))
            }
        }) {
            Ok(r) => Ok(format!("{r:?}")),
            // what files are refused, and how, is not judged here
            Err(p) => Ok(format!("panic {}", p.msg)),
        }
    };
    let (q, out) = printed(0, &go);
    let q = q?;
    ensure!(out.is_empty(), "without logging, there is printed {:?}", String::from_utf8_lossy(&out[..out.len().min(500)]));
    let (l, mut out) = printed(c.level, &go);
    let l = l?;
    out.extend_from_slice(format!("\n{l}\n{q}").as_bytes());
    // the path is part of a message
    ensure!(q[..3] == l[..3], "files give {l} at log level {} and {q} without logging", c.level);
    let mut sec = Secrets_::default();
    sec.add("private key", &cert::scalar(c.key));
    gives_away(&out, &sec)?;
    Ok(hit().tag_if(l.starts_with("Ok"), "loaded").tag_if(c.spoil > 0, "spoilt"))
}

// ------------------------------------------------------------------ the level
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Init {
    before: u8,
    value: Option<Hex>,
    /// another variable of the environment
    other: Option<(Hex, Hex)>,
}
fn init(c: &Init) -> Res {
    let _t = turn();
    sink();
    let os = |h: &Hex| std::ffi::OsStr::from_bytes(h).to_os_string();
    match &c.value {
        Some(v) => std::env::set_var("RUST_LOG", os(v)),
        None => std::env::remove_var("RUST_LOG"),
    }
    if let Some((k, v)) = &c.other {
        std::env::set_var(os(k), os(v));
    }
    set(c.before);
    let r = guard(log::init);
    let got = level();
    set(0);
    std::env::remove_var("RUST_LOG");
    if let Some((k, _)) = &c.other {
        std::env::remove_var(os(k));
    }
    if let Err(p) = r {
        bad!("setting the log level panics: {p:?}");
    }
    let want = match c.value.as_ref().map(|v| v.to_ascii_lowercase()).as_deref() {
        Some(b"error") => 1,
        Some(b"debug") => 2,
        Some(b"fixme") => 3,
        _ => c.before,
    };
    ensure!(got == want, "the log level is {got} instead of {want}");
    Ok(hit().tag_if(want != c.before, "changed"))
}
fn inits() -> Vec<Init> {
    let mut v = vec![];
    let h = |s: &[u8]| Hex(s.to_vec());
    for before in 0..4u8 {
        for val in [None, Some(&b"debug"[..]), Some(b"DEBUG"), Some(b"Error"), Some(b"fixme"), Some(b"none"), Some(b""), Some(b"info"), Some(b"trace"), Some(b"debug,x"), Some(b"debugx"), Some(b" debug"), Some(b"\xff\xfe"), Some(b"debug\xff"), Some(b"2"), Some("d\u{e9}bug".as_bytes()), Some(b"hyper=debug"), Some(b"anothertls=debug"), Some(b"debug=hyper"), Some(b"info,debug"), Some(b"warn"), Some(b"off"), Some(b"1"), Some(b"3"), Some(b"true"), Some(b"all"), Some(b"debug "), Some(b"debug\n"), Some(b"fixme;"), Some(b"errors"), Some(b"err"), Some(b"d"), Some(b"\"debug\""), Some(b"loglevel::debug"), Some(b"level=error")] {
            for other in [None, Some((&b"RUST_LOGS"[..], &b"fixme"[..])), Some((b"RUST_LO", b"debug")), Some((b"rust_log", b"error")), Some((b"ARUST_LOG", b"error")), Some((b"SOME", b"\xff\x80")), Some((b"A\xff", b"debug"))] {
                v.push(Init { before, value: val.map(h), other: other.map(|(a, b)| (h(a), h(b))) });
            }
        }
    }
    v
}

/// words with a level in them, or near one
fn values() -> impl Strategy<Value = Init> + Clone {
    let word = prop::sample::select(vec!["debug", "error", "fixme", "none", "info", "trace", "warn", "anothertls", "hyper", "off", "DEBUG", "Error", "fIxMe", "1", "2", "", "RUST_LOG"]);
    let sep = prop::sample::select(vec!["", "", "=", ",", " ", ":", "::", "/", "-", "_", "\t", "\n", ";", ".", "|", "+", "\u{130}", "k\u{307}"]);
    let text = vec((word, sep), 0..4).prop_map(|v| v.into_iter().map(|(a, b)| format!("{a}{b}")).collect::<String>());
    let value = prop_oneof![6 => text, 1 => "[a-zA-Z]{0,6}", 1 => "\\PC{0,8}"];
    (0u8..4, value).prop_map(|(before, v)| Init { before, value: Some(Hex(v.replace('\0', "").into_bytes())), other: None })
}
/// Certificates with every part of a name missing, doubled or empty, or of every kind of string.
fn names() -> Vec<Batch> {
    let at = |typ: usize, tag: u8, val: &str| cert::Attr { typ, tag, val: val.into(), join: false };
    let all = |set: u32| (0..8).filter(|i| set >> i & 1 == 1).map(|i| at(i, 0x0c, "abcdefgh")).collect::<Vec<_>>();
    let mut of: Vec<(Vec<cert::Attr>, Vec<cert::Attr>)> = vec![];
    for set in 0..256 {
        of.push((all(set), all(8)));
        of.push((all(8), all(set)));
    }
    for typ in 0..15 {
        for tag in [0x0c, 0x13, 0x16, 0x14, 0x1e, 0x1c] {
            for val in ["", "a", "\0", "{}", "\u{1b}[0m\n", "\u{e9}", &"x".repeat(300)] {
                of.push((vec![at(typ, tag, val)], all(8)));
                of.push((vec![at(typ, tag, val), at(typ, 0x0c, "second")], vec![at(typ, tag, val)]));
            }
        }
    }
    let plans: Vec<Plan> = of
        .into_iter()
        .enumerate()
        .map(|(i, (subject, issuer))| {
            let seed = i as u64;
            let leaf = |key| Leaf::of(Spec { subject: subject.clone(), issuer: issuer.clone(), ..Spec::simple("x", key) }, 7);
            if i / 2 % 2 == 0 {
                Plan::Srv(SrvPlan { seed, suite: (i % 3) as u8, leaf: leaf(2), cr: None, sh: ShOp::Right, ops: vec![], pk: Packing::default(), data: vec![], cli: CliOpt::plain() })
            } else {
                let srv = SrvOpt { ca: Some(7), verify: (i % 8 < 4).then_some(2), ..SrvOpt::plain(3) };
                Plan::Cli(CliPlan { seed, suites: vec![SUITES[i % 3].0], sid: 32, sni: None, ch: ChOp::Right, ccs: true, cert: Some((leaf(21), 21)), ops: vec![], pk: Packing::default(), data: vec![], srv })
            }
        })
        .collect();
    plans.chunks(40).enumerate().map(|(i, p)| Batch { level: [3, 2, 3, 2, 1][i % 5], plans: p.to_vec() }).collect()
}

// ------------------------------------------------------------------ inputs
fn plan() -> impl Strategy<Value = Plan> + Clone {
    let ops = || prop_oneof![4 => Just(vec![]), 2 => vec(legal_op(), 1..3), 3 => vec(op(), 1..3)];
    let data = || vec((1usize..900, any::<u64>(), prop_oneof![Just(0u8), Just(4)]).prop_map(|(len, seed, pat)| Blob { len, seed, pat }), 0..3);
    let subject = || prop_oneof![6 => Just(None), 1 => "[ -~]{0,60}".prop_map(Some), 1 => "\\PC{0,20}".prop_map(Some), 1 => prop::sample::select(vec!["{}", "{0}", "%s%n", "ok\u{1b}[2J", "ok\n* x", "ok\0", "{:?}", "\u{202e}ok"]).prop_map(|s| Some(s.to_string()))];
    let name = |l: &mut Leaf, s: Option<String>| {
        if let Some(s) = s {
            let s = if l.spec.subject[0].val.starts_with("ok") { format!("ok{s}") } else { s };
            l.spec.subject[0].val = s;
        }
    };
    prop_oneof![
        (srv_plan(ops()), data(), subject()).prop_map(move |(mut p, d, s)| { p.data = d; name(&mut p.leaf, s); Plan::Srv(p) }),
        (prop_oneof![cli_plan(false, ops()).boxed(), cli_plan(true, ops()).boxed()], data(), subject()).prop_map(move |(mut p, d, s)| { p.data = d; if let Some(c) = &mut p.cert { name(&mut c.0, s); } Plan::Cli(p) }),
    ]
}
fn talks() -> impl Strategy<Value = Talk> + Clone {
    let b = || (prop_oneof![4 => 8usize..80, 2 => 8usize..3000, 1 => 8usize..16300], any::<u64>(), prop_oneof![1 => Just(0u8), 1 => Just(4)]).prop_map(|(len, seed, pat)| Blob { len, seed, pat });
    let op = prop_oneof![
        5 => b().prop_map(S::Read),
        5 => b().prop_map(S::Write),
        1 => any::<u8>().prop_map(S::Ticket),
        1 => (1u8..3, prop_oneof![Just(0u8), Just(40), any::<u8>()]).prop_map(|(a, b)| S::Alert(a, b)),
        1 => b().prop_map(S::Broken_),
        1 => (prop_oneof![Just(22u8), Just(20), Just(21), any::<u8>()], b()).prop_map(|(t, b)| S::Rec(t, b)),
    ];
    (any::<bool>(), 0u8..3, any::<bool>(), any::<u64>(), vec(op, 1..6), prop_oneof![Just(vec![]), vec(1u32..5000, 1..3)]).prop_map(|(server, suite, auth, seed, ops, sizes)| {
        // the server takes no tickets
        let ops = ops.into_iter().filter(|o| !(server && matches!(o, S::Ticket(_)))).collect();
        Talk { at: Setup { server, suite, auth, seed }, ops, sizes }
    })
}
fn main() {
    run::main("C32", "something was printed at the level", |c| {
        c.assume("a secret is recognised raw, in hexadecimal, as lists of numbers in decimal or hexadecimal, as one number, in base64, in either byte order, from eight of its bytes on; the level does not change within a call; stdout can be written");
        c.shrink_iters = 60;
        sink();
        c.list("init", inits(), init);
        c.list("spoilt", (0..800u32).map(|i| Load { level: 1 + (i % 3) as u8, server: i % 2 == 0, key: 1 + i as u64 % 5, spoil: (i % 8) as u8, at: i / 8 | (i % 7) << 16, with_cert: i % 5 > 0 }).collect(), load);
        c.sub("values", 20_000, values, init);
        c.list("names", names(), batch);
        c.sub("files", 3000, || (1u8..4, any::<bool>(), any::<u64>(), 0u8..8, any::<u32>(), any::<bool>()).prop_map(|(level, server, key, spoil, at, with_cert)| Load { level, server, key, spoil, at, with_cert }), load);
        c.sub("hellos", 500, hellos_, hellos);
        c.sub("handshakes", 260, || (1u8..4, vec(plan(), 1..40)).prop_map(|(level, plans)| Batch { level, plans }), batch);
        c.sub("sessions", 130, || (1u8..4, vec(talks(), 1..16)).prop_map(|(level, of)| Talks { level, of }), talk);
    })
}
