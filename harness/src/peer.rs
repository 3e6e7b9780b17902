//! A scripted TLS 1.3 endpoint over the reference primitives. It can deviate anywhere.
use crate::cert::{self, Spec};
use crate::gen::{Hex, Mut};
use crate::refs::*;
use crate::run::Fail;
use crate::tls::{self, *};
use serde::{Deserialize, Serialize};
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Duration;

/// How long a scripted peer waits for an answer; short once it has waited in vain.
static IDLE: AtomicU64 = AtomicU64::new(40);
fn idle() -> Duration {
    Duration::from_secs(IDLE.load(SeqCst))
}

/// Everything until the end of the stream; false: there was none
pub struct Collector(std::thread::JoinHandle<(Vec<u8>, bool)>);

pub struct Io {
    pub sock: TcpStream,
    buf: Vec<u8>,
    pub eof: bool,
    /// every raw record received
    pub records: Vec<Vec<u8>>,
    /// everything sent
    pub sent: usize,
}
impl Io {
    pub fn new(sock: TcpStream) -> Io {
        let _ = sock.set_nodelay(true);
        let _ = sock.set_read_timeout(Some(idle()));
        let _ = sock.set_write_timeout(Some(idle()));
        Io { sock, buf: vec![], eof: false, records: vec![], sent: 0 }
    }
    /// false: the other side is gone
    pub fn send(&mut self, b: &[u8]) -> bool {
        self.sent += b.len();
        self.sock.write_all(b).is_ok()
    }
    /// Sends in segments of the given sizes (cyclic); each waits a moment for the reader.
    pub fn send_cut(&mut self, b: &[u8], cuts: &[u16], pause_us: u64) -> bool {
        if cuts.iter().all(|c| *c == 0) {
            return self.send(b);
        }
        let mut rest = b;
        let mut i = 0;
        while !rest.is_empty() {
            let n = (cuts[i % cuts.len()] as usize).min(rest.len());
            i += 1;
            if n == 0 {
                continue;
            }
            if !self.send(&rest[..n]) {
                return false;
            }
            rest = &rest[n..];
            // many small pieces: only the first ones pause
            if i < 60 && pause_us > 0 {
                std::thread::sleep(Duration::from_micros(pause_us));
            }
        }
        true
    }
    pub fn fin(&mut self) {
        let _ = self.sock.shutdown(Shutdown::Write);
    }
    /// The next whole record; None at the end.
    pub fn record(&mut self) -> Result<Option<Vec<u8>>, Fail> {
        loop {
            if self.buf.len() >= 5 {
                let l = 5 + u16::from_be_bytes([self.buf[3], self.buf[4]]) as usize;
                if self.buf.len() >= l {
                    let r: Vec<u8> = self.buf.drain(..l).collect();
                    self.records.push(r.clone());
                    return Ok(Some(r));
                }
            }
            if self.eof {
                return Ok(None);
            }
            let mut b = [0u8; 16384];
            match self.sock.read(&mut b) {
                Ok(0) => self.eof = true,
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                    IDLE.store(5, SeqCst);
                    return Err(Fail::Bad("the library neither answers nor closes the connection".into()));
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => self.eof = true,
            }
        }
    }
    /// From now on a thread takes everything off the socket until its end.
    pub fn collect(&mut self) -> Result<Collector, Fail> {
        let mut s = self.sock.try_clone()?;
        Ok(Collector(std::thread::spawn(move || {
            let mut v = vec![];
            let mut b = [0u8; 65536];
            loop {
                match s.read(&mut b) {
                    Ok(0) => return (v, true),
                    Ok(n) => v.extend_from_slice(&b[..n]),
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => return (v, false),
                    Err(_) => return (v, true),
                }
            }
        })))
    }
    /// What the collector has is read next.
    pub fn absorb(&mut self, c: Collector) -> Result<(), Fail> {
        let (v, end) = c.0.join().map_err(|_| Fail::Broken("collector".into()))?;
        if !end {
            return Err(Fail::Bad("the library neither goes on nor closes the connection".into()));
        }
        self.buf.extend(v);
        self.eof = true;
        Ok(())
    }
    /// bytes received that are no whole record
    pub fn rest(&self) -> &[u8] {
        &self.buf
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Prot {
    Plain,
    Hs,
    Ap,
    /// the keys of the other direction
    PeerHs,
    PeerAp,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// type and whole message
    Msg(u8, Vec<u8>),
    Ccs,
    Alert(u8, u8, Prot),
    App(Vec<u8>),
    Eof,
    /// what arrived breaks the protocol
    Junk(String),
}
#[derive(Clone, Debug)]
pub struct Seen {
    pub prot: Prot,
    pub typ: u8,
    pub content: Vec<u8>,
    pub wire: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Leaf {
    pub spec: Spec,
    /// seed of the issuer's key
    pub ca: u64,
    /// bit flipped in the DER, with the top bit set counted from the end
    pub flip: Option<u32>,
    /// not an ECDSA certificate after all, see `LEAF_ALGS`
    #[serde(default)]
    pub alg: u8,
}
/// Changes of the algorithms a leaf names (1..); its signature stays one by ECDSA over the changed content.
pub const LEAF_ALGS: u8 = 10;
impl Leaf {
    pub fn of(spec: Spec, ca: u64) -> Leaf {
        Leaf { spec, ca, flip: None, alg: 0 }
    }
    fn changed(&self) -> Vec<u8> {
        let s = &self.spec;
        let other = |o: &str, null: bool| cert::seq(&[cert::oid(o), if null { vec![5, 0] } else { vec![] }]);
        const RSA: &str = "2a864886f70d01010b";
        const ED: &str = "2b6570";
        let mut p = s.parts();
        let i = 1 + s.version.is_some() as usize;
        let mut alg = s.alg();
        match self.alg {
            1 => {
                p[i] = other(RSA, true);
                alg = p[i].clone();
            }
            2 => alg = other(RSA, true),
            3 => p[i] = other(RSA, true),
            4 => {
                p[i] = other(ED, false);
                alg = p[i].clone();
            }
            5 => alg = other(if s.sha384 { cert::OID_SHA256 } else { cert::OID_SHA384 }, false),
            6 => p[i] = other(if s.sha384 { cert::OID_SHA256 } else { cert::OID_SHA384 }, false),
            7 => {
                // the key's algorithm as the signature's
                p[i] = other(cert::OID_EC, false);
                alg = p[i].clone();
            }
            k => {
                let q = cert::point(&cert::scalar(s.key));
                let n = i + 4;
                p[n] = match k {
                    8 => cert::seq(&[cert::seq(&[cert::oid("2a864886f70d010101"), vec![5, 0]]), cert::bits(&q)]),
                    9 => cert::seq(&[cert::seq(&[cert::oid(cert::OID_EC), cert::oid("2b81040022")]), cert::bits(&q)]),
                    _ => cert::seq(&[cert::seq(&[cert::oid(ED)]), cert::bits(&q)]),
                };
            }
        }
        cert::sign_tbs(&cert::seq(&p), &alg, s.h(), self.ca, s.nonce)
    }
    pub fn der(&self) -> Vec<u8> {
        let mut d = if self.alg == 0 { self.spec.der(self.ca) } else { self.changed() };
        match self.flip {
            Some(f) if f >> 31 == 0 => flip(&mut d, f),
            Some(f) => {
                let n = d.len() as u32 * 8;
                flip(&mut d, n - 1 - (f & 0x7fff_ffff) % n)
            }
            None => {}
        }
        d
    }
    /// within its validity at that time
    pub fn timely(&self, now: i64) -> bool {
        self.spec.nb.unix() <= now && now <= self.spec.na.unix()
    }
}
pub fn flip(b: &mut [u8], f: u32) {
    if !b.is_empty() {
        let i = f as usize % (b.len() * 8);
        b[i / 8] ^= 1 << (i % 8);
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CvSpec {
    pub key: u64,
    pub scheme: u16,
    pub server_ctx: bool,
    /// 0 the transcript, 1 without its last message, 2 without its first, 3 nothing, 4 everything twice
    pub th: u8,
    /// 0 right, 1: 63 spaces, 2: 64 zeros, 3: no separator, 4: no prefix at all
    pub pre: u8,
    /// 0 SHA-256, 1 SHA-384, 2 SHA-512, 3 not hashed
    pub md: u8,
    pub flip: Option<u32>,
    /// added to the signature length field
    pub len_off: i16,
    pub trail: Hex,
    /// 0 the signature, 1 r=0, 2 s=0, 3 r=s=0, 4 r+n, 5 s+n, 6 swapped, 7 s=n-s (still valid), 8 r=s=1
    pub rs: u8,
}
impl CvSpec {
    pub fn right(server: bool, key: u64) -> CvSpec {
        CvSpec { key, scheme: 0x0403, server_ctx: server, th: 0, pre: 0, md: 0, flip: None, len_off: 0, trail: Hex(vec![]), rs: 0 }
    }
    pub fn is_right(&self, server: bool, key: u64) -> bool {
        CvSpec { rs: if self.rs == 7 { 0 } else { self.rs }, ..self.clone() } == CvSpec::right(server, key)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct FinSpec {
    pub flip: Option<u32>,
    /// bytes cut (negative) or added
    pub cut: i16,
    /// 0 right, 1 other side's key, 2 transcript without its last message, 3 empty transcript, 4 zeros, 5 twice the transcript hash
    pub how: u8,
    /// a second bit
    #[serde(default)]
    pub also: Option<u32>,
    /// 1 turned by a byte, 2 backwards, 3 halves exchanged, 4 first two bytes exchanged, 5 one added to the first byte and taken from the last
    #[serde(default)]
    pub perm: u8,
}
impl FinSpec {
    pub fn is_right(&self) -> bool {
        *self == FinSpec::default()
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    /// any handshake message
    Msg(u8, Hex),
    Cert {
        /// None: the one asked for
        ctx: Option<Hex>,
        chain: Vec<Leaf>,
    },
    CertVerify(CvSpec),
    Finished(FinSpec),
    Ccs(Hex),
    App(Hex),
    Alert(u8, u8),
    /// any other record
    Rec(u8, Hex),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    pub kind: Kind,
    /// None: the keys of the phase
    pub prot: Option<Prot>,
    /// into the transcript of this side
    pub hash: bool,
    /// bit of the handshake message changed after hashing
    pub flip: Option<u32>,
    /// bit of the wire record changed
    pub corrupt: Option<u32>,
    /// sequence number used, relative to the right one
    pub seq: i8,
    pub pad: u16,
    /// other inner content type
    pub inner: Option<u8>,
    /// change the declared length of the handshake message
    pub len_off: i32,
    /// another type of handshake message around the same content, hashed like that
    #[serde(default)]
    pub retype: Option<u8>,
    /// the message is built otherwise, and hashed like that
    #[serde(default)]
    pub bend: Option<Bend>,
    /// type in the header of the protected record
    #[serde(default)]
    pub outer: Option<u8>,
    /// another record within the message: where, its type and content
    #[serde(default)]
    pub mid: Option<(u16, u8, Hex)>,
    /// bytes of the message that went before
    #[serde(default)]
    pub skip: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bend {
    /// bytes more at its end
    Trail(Hex),
    /// bytes less
    Short(u8),
    /// the context of a Certificate cut by so many bytes, longer, or with another bit
    CtxCut(u8),
    CtxMore(Hex),
    CtxFlip(u32),
    /// a length in a Certificate (0 of the context, 1 of the list, 2 of the first entry, 3 of its extensions) is off
    CertLen(u8, i16),
    /// bytes after the last entry of a Certificate, within the list
    CertJunk(Hex),
}
impl Bend {
    /// of a whole handshake message
    fn apply(&self, m: &mut Vec<u8>) {
        if m.len() < 4 {
            return;
        }
        let mut b = m[4..].to_vec();
        let cert = m[0] == CERT && b.len() > 1 + b[0] as usize + 3;
        let at = if cert { 1 + b[0] as usize } else { 0 };
        match self {
            Bend::Trail(t) => b.extend_from_slice(t),
            Bend::Short(n) => b.truncate(b.len().saturating_sub(1 + *n as usize % 8)),
            Bend::CtxCut(n) if cert && at > 1 => {
                let k = 1 + *n as usize % (at - 1);
                b.drain(at - k..at);
                b[0] -= k as u8;
            }
            Bend::CtxFlip(f) if cert && at > 1 => flip(&mut b[1..at], *f),
            Bend::CtxMore(x) if cert && !x.is_empty() && at - 1 + x.len() < 256 => {
                b.splice(at..at, x.iter().copied());
                b[0] += x.len() as u8;
            }
            Bend::CtxCut(_) | Bend::CtxFlip(_) | Bend::CtxMore(_) if cert => {
                b.insert(at, 0x5a);
                b[0] = b[0].wrapping_add(1);
            }
            Bend::CertLen(0, d) if cert => b[0] = b[0].wrapping_add(if *d as u8 == 0 { 1 } else { *d as u8 }),
            Bend::CertLen(w @ 1..=2, d) if cert && b.len() >= at + 3 * *w as usize => {
                let p = at + 3 * (*w as usize - 1);
                let l = (b[p] as i64) << 16 | (b[p + 1] as i64) << 8 | b[p + 2] as i64;
                let d = if *d == 0 { 1 } else { *d as i64 };
                b[p..p + 3].copy_from_slice(&be(3, ((l + d) & 0xff_ffff) as usize));
            }
            Bend::CertLen(_, d) if cert && b.len() >= at + 8 => {
                let n = b.len();
                b[n - 1] = if *d as u8 == 0 { 1 } else { *d as u8 };
            }
            Bend::CertJunk(x) if cert && !x.is_empty() => {
                b.extend_from_slice(x);
                let l = b.len() - at - 3;
                b[at..at + 3].copy_from_slice(&be(3, l));
            }
            _ => b.push(0),
        }
        *m = msg(m[0], &b);
    }
}
impl Item {
    pub fn new(kind: Kind) -> Item {
        Item { kind, prot: None, hash: true, flip: None, corrupt: None, seq: 0, pad: 0, inner: None, len_off: 0, retype: None, bend: None, outer: None, mid: None, skip: 0 }
    }
    /// nothing but the right thing under the right keys
    pub fn plain(&self) -> bool {
        self.prot.is_none() && self.hash && self.flip.is_none() && self.corrupt.is_none() && self.seq == 0 && self.inner.is_none() && self.len_off == 0 && self.retype.is_none() && self.bend.is_none() && self.outer.is_none() && self.mid.is_none() && self.skip == 0
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Packing {
    /// several handshake messages may share a record
    pub coalesce: bool,
    /// handshake record sizes (cyclic), empty or 0: as large as possible
    pub rec: Vec<u16>,
    /// TCP segment sizes (cyclic)
    pub seg: Vec<u16>,
    pub pause_us: u64,
    /// changes to the finished bytes of the flight
    #[serde(default)]
    pub wire: Vec<Mut>,
}

pub struct Party {
    pub io: Io,
    pub server: bool,
    pub suite: Suite,
    /// messages of the transcript
    pub tr: Vec<Vec<u8>>,
    pub sec: Option<Secrets>,
    pub w_hs: Option<Keys>,
    pub r_hs: Option<Keys>,
    pub w_ap: Option<Keys>,
    pub r_ap: Option<Keys>,
    pub app: Option<(Vec<u8>, Vec<u8>)>,
    pub read: Prot,
    pub write: Prot,
    hs: Vec<u8>,
    /// request context of the other side
    pub ctx: Vec<u8>,
    pub log: Vec<Seen>,
    pub shared: Vec<u8>,
    pub cr: Option<(Vec<u8>, Vec<(u16, Hex)>)>,
    pub cert: Option<Vec<u8>>,
}

/// What a scripted client saw of a server's flight.
pub struct Flight {
    pub sh: ServerHello,
    pub msgs: Vec<(u8, Vec<u8>)>,
    pub ccs: usize,
}

impl Party {
    pub fn new(io: Io, server: bool) -> Party {
        Party {
            io,
            server,
            suite: Suite(0x1301),
            tr: vec![],
            sec: None,
            w_hs: None,
            r_hs: None,
            w_ap: None,
            r_ap: None,
            app: None,
            read: Prot::Plain,
            write: Prot::Plain,
            hs: vec![],
            ctx: vec![],
            log: vec![],
            shared: vec![],
            cr: None,
            cert: None,
        }
    }
    pub fn th(&self) -> Vec<u8> {
        self.suite.h().hash(&self.tr.concat())
    }
    /// After both hellos are in the transcript.
    pub fn set_shared(&mut self, suite: Suite, shared: &[u8]) {
        self.suite = suite;
        self.shared = shared.to_vec();
        let s = handshake_secrets(suite.h(), shared, &self.th());
        let (c, v) = (Keys::new(suite, &s.c_hs), Keys::new(suite, &s.s_hs));
        let (w, r) = if self.server { (v, c) } else { (c, v) };
        self.w_hs = Some(w);
        self.r_hs = Some(r);
        self.sec = Some(s);
        self.read = Prot::Hs;
        self.write = Prot::Hs;
    }
    /// After the server's Finished is in the transcript.
    pub fn derive_app(&mut self) {
        let Some(s) = self.sec.as_ref() else { return };
        let (c, v) = app_secrets(s, &self.th());
        let (ck, vk) = (Keys::new(self.suite, &c), Keys::new(self.suite, &v));
        let (w, r) = if self.server { (vk, ck) } else { (ck, vk) };
        self.w_ap = Some(w);
        self.r_ap = Some(r);
        self.app = Some((c, v));
    }
    fn keys(&mut self, p: Prot) -> Option<&mut Keys> {
        match p {
            Prot::Plain => None,
            Prot::Hs => self.w_hs.as_mut(),
            Prot::Ap => self.w_ap.as_mut(),
            Prot::PeerHs => self.r_hs.as_mut(),
            Prot::PeerAp => self.r_ap.as_mut(),
        }
    }
    fn pop(&mut self) -> Option<Ev> {
        if self.hs.len() < 4 {
            return None;
        }
        let l = 4 + (self.hs[1] as usize) * 65536 + (self.hs[2] as usize) * 256 + self.hs[3] as usize;
        if self.hs.len() < l {
            return None;
        }
        let m: Vec<u8> = self.hs.drain(..l).collect();
        Some(Ev::Msg(m[0], m))
    }
    pub fn next(&mut self) -> Result<Ev, Fail> {
        loop {
            if let Some(m) = self.pop() {
                return Ok(m);
            }
            let Some(rec) = self.io.record()? else {
                if !self.io.rest().is_empty() {
                    return Ok(Ev::Junk(format!("the stream ends inside a record ({} bytes)", self.io.rest().len())));
                }
                return Ok(Ev::Eof);
            };
            let body = rec[5..].to_vec();
            if body.len() > 16384 + 256 || (rec[0] != 23 && body.len() > 16384) {
                return Ok(Ev::Junk(format!("a record of type {} with {} bytes", rec[0], body.len())));
            }
            if rec[1] != 3 {
                return Ok(Ev::Junk(format!("record version {:02x}{:02x}", rec[1], rec[2])));
            }
            let (prot, typ, content) = match rec[0] {
                23 => {
                    if self.read == Prot::Plain {
                        return Ok(Ev::Junk("a protected record before there are keys".into()));
                    }
                    let k = if self.read == Prot::Hs { self.r_hs.as_mut() } else { self.r_ap.as_mut() };
                    let Some(k) = k else { return Ok(Ev::Junk("no keys".into())) };
                    match k.open(&rec) {
                        Some((t, c)) => (self.read, t, c),
                        None => {
                            // which keys would have opened it?
                            let mut also = vec![];
                            for (n, k) in [("own handshake", &self.w_hs), ("peer handshake", &self.r_hs), ("own application", &self.w_ap), ("peer application", &self.r_ap)] {
                                if let Some(k) = k {
                                    for s in 0..6 {
                                        if let Some((t, _)) = k.open_at(s, &rec) {
                                            also.push(format!("{n} keys, sequence number {s}, type {t}"));
                                        }
                                    }
                                }
                            }
                            return Ok(Ev::Junk(format!("a record that the keys of the phase ({:?}) do not open; it opens under {also:?}", self.read)));
                        }
                    }
                }
                t => (Prot::Plain, t, body),
            };
            self.log.push(Seen { prot, typ, content: content.clone(), wire: rec.len() });
            if content.len() > 16384 {
                return Ok(Ev::Junk(format!("a record with {} bytes of content", content.len())));
            }
            match (prot, typ) {
                (Prot::Plain, 20) => {
                    return Ok(if content == [1] { Ev::Ccs } else { Ev::Junk("change_cipher_spec content".into()) });
                }
                (p, 21) => {
                    if content.len() != 2 {
                        return Ok(Ev::Junk(format!("an alert of {} bytes", content.len())));
                    }
                    return Ok(Ev::Alert(content[0], content[1], p));
                }
                (p, 22) => {
                    if p != self.read {
                        return Ok(Ev::Junk("an unprotected handshake record".into()));
                    }
                    if content.is_empty() {
                        return Ok(Ev::Junk("an empty handshake record".into()));
                    }
                    self.hs.extend(content);
                }
                (Prot::Ap, 23) => return Ok(Ev::App(content)),
                (p, t) => return Ok(Ev::Junk(format!("a record of type {t} under {p:?}"))),
            }
        }
    }
    pub fn partial(&self) -> bool {
        !self.hs.is_empty()
    }

    fn finished(&self, f: &FinSpec) -> Vec<u8> {
        let Some(s) = self.sec.as_ref() else { return vec![0; 32] };
        let (own, other) = if self.server { (&s.s_hs, &s.c_hs) } else { (&s.c_hs, &s.s_hs) };
        let h = self.suite.h();
        let t = self.tr.concat();
        let th = match f.how {
            2 => h.hash(&self.tr[..self.tr.len().saturating_sub(1)].concat()),
            3 => h.hash(b""),
            5 => h.hash(&h.hash(&t)),
            _ => h.hash(&t),
        };
        let mut v = finished(h, if f.how == 1 { other } else { own }, &th);
        let right = finished(h, own, &h.hash(&t));
        if f.how == 4 {
            v.fill(0);
        }
        if let Some(x) = f.flip {
            flip(&mut v, x);
        }
        if let Some(x) = f.also {
            flip(&mut v, x);
        }
        let n = v.len();
        match f.perm {
            1 => v.rotate_left(1),
            2 => v.reverse(),
            3 => v.rotate_left(n / 2),
            4 => v.swap(0, 1),
            5 => {
                v[0] = v[0].wrapping_add(1);
                v[n - 1] = v[n - 1].wrapping_sub(1);
            }
            _ => {}
        }
        if f.cut < 0 {
            v.truncate(v.len().saturating_sub(-f.cut as usize));
        } else {
            v.extend(vec![0; f.cut as usize]);
        }
        // equal bytes exchanged, for one
        if v == right && !f.is_right() {
            v[0] ^= 1;
        }
        v
    }
    fn verify(&self, c: &CvSpec) -> Vec<u8> {
        let h = self.suite.h();
        let t = &self.tr;
        let n = t.len();
        let th = match c.th {
            1 => h.hash(&t[..n.saturating_sub(1)].concat()),
            2 => h.hash(&t[n.min(1)..].concat()),
            3 => h.hash(b""),
            4 => h.hash(&[t.concat(), t.concat()].concat()),
            _ => h.hash(&t.concat()),
        };
        let mut content = cv_content(c.server_ctx, &th);
        match c.pre {
            1 => {
                content.remove(0);
            }
            2 => content[..64].fill(0),
            3 => {
                content.remove(64 + 33);
            }
            4 => content = th.clone(),
            _ => {}
        }
        let digest = match c.md {
            1 => H::S384.hash(&content),
            2 => openssl::sha::sha512(&content).to_vec(),
            3 => content[content.len().saturating_sub(32)..].to_vec(),
            _ => H::S256.hash(&content),
        };
        let (r, s) = cert::ecdsa_raw(&cert::scalar(c.key), &digest, 77);
        let n = p256_order();
        let add = |a: &[u8]| {
            let mut o = openssl::bn::BigNum::new().unwrap();
            o.checked_add(&bn(a), &n).unwrap();
            o.to_vec()
        };
        let (r, s) = match c.rs {
            1 => (vec![0], s),
            2 => (r, vec![0]),
            3 => (vec![0], vec![0]),
            4 => (add(&r), s),
            5 => (r, add(&s)),
            6 => (s, r),
            7 => {
                let mut o = openssl::bn::BigNum::new().unwrap();
                o.checked_sub(&n, &bn(&s)).unwrap();
                (r, o.to_vec())
            }
            8 => (vec![1], vec![1]),
            _ => (r, s),
        };
        let mut sig = cert::seq(&[cert::integer(&r), cert::integer(&s)]);
        if let Some(f) = c.flip {
            flip(&mut sig, f);
        }
        let l = (sig.len() as i64 + c.len_off as i64).clamp(0, 65535) as usize;
        [be(2, c.scheme as usize), be(2, l), sig, c.trail.0.clone()].concat()
    }
    /// (content type, content), for the state of the transcript now
    fn build(&self, k: &Kind) -> (u8, Vec<u8>) {
        match k {
            Kind::Msg(t, b) => (22, msg(*t, b)),
            Kind::Cert { ctx, chain } => {
                let c = ctx.as_ref().map(|x| x.0.clone()).unwrap_or_else(|| self.ctx.clone());
                (22, msg(CERT, &cert_body(&c, &chain.iter().map(|l| l.der()).collect::<Vec<_>>())))
            }
            Kind::CertVerify(c) => (22, msg(CV, &self.verify(c))),
            Kind::Finished(f) => (22, msg(FIN, &self.finished(f))),
            Kind::Ccs(b) => (20, b.0.clone()),
            Kind::App(b) => (23, b.0.clone()),
            Kind::Alert(l, d) => (21, vec![*l, *d]),
            Kind::Rec(t, b) => (*t, b.0.clone()),
        }
    }
    fn emit(&mut self, out: &mut Vec<u8>, typ: u8, content: &[u8], p: Prot, it: &Item) {
        let start = out.len();
        match self.keys(p) {
            None => {
                out.extend([it.inner.unwrap_or(typ), 3, 3]);
                out.extend(be(2, content.len()));
                out.extend_from_slice(content);
            }
            Some(k) => {
                let seq = k.seq.wrapping_add_signed(it.seq as i64);
                let pad = (it.pad as usize).min(16384usize.saturating_sub(content.len()));
                let mut inner = [content, &[it.inner.unwrap_or(typ)]].concat();
                inner.resize(inner.len() + pad, 0);
                out.extend(k.seal_outer_at(it.outer.unwrap_or(23), seq, &inner));
                // what this side still has to receive goes on counting from where it was
                if !matches!(p, Prot::PeerHs | Prot::PeerAp) {
                    k.seq += 1;
                }
            }
        }
        if let Some(c) = it.corrupt {
            // the length field stays: a changed length only shifts the question to the framing
            let n = out.len() - start;
            let mut i = c as usize % ((n - 2) * 8);
            if i >= 3 * 8 {
                i += 2 * 8;
            }
            out[start + i / 8] ^= 1 << (i % 8);
        }
    }
    /// The wire bytes of a flight; the transcript and phases advance. After its Finished this
    /// side writes under application keys (a client switches its reading too, when it derived them).
    pub fn flight(&mut self, items: &[Item], pk: &Packing) -> Vec<u8> {
        let mut out = vec![];
        let mut pend: Vec<u8> = vec![];
        let mut pend_item = Item::new(Kind::Ccs(Hex(vec![])));
        let mut pend_prot = self.write;
        let mut ri = 0;
        for it in items {
            let (typ, mut content) = self.build(&it.kind);
            if let (22, Some(t), Some(first)) = (typ, it.retype, content.first_mut()) {
                *first = t;
            }
            if let (22, Some(b)) = (typ, &it.bend) {
                b.apply(&mut content);
            }
            let p = match (&it.kind, it.prot) {
                (_, Some(p)) => p,
                (Kind::Ccs(_), None) => Prot::Plain,
                _ => self.write,
            };
            let mut sent = content.clone();
            if typ == 22 {
                if it.hash {
                    self.tr.push(content.clone());
                }
                if let Some(f) = it.flip {
                    flip(&mut sent, f);
                }
                if it.len_off != 0 {
                    let l = (sent.len() as i64 - 4 + it.len_off as i64).clamp(0, (1 << 24) - 1) as usize;
                    sent[1..4].copy_from_slice(&be(3, l));
                }
            }
            if typ == 22 {
                sent.drain(..(it.skip as usize).min(sent.len()));
            }
            if let (22, Some((at, t, b))) = (typ, &it.mid) {
                self.flush(&mut out, &mut pend, &pend_item.clone(), pend_prot, pk, &mut ri);
                if sent.len() > 1 {
                    let first: Vec<u8> = sent.drain(..1 + *at as usize % (sent.len() - 1)).collect();
                    self.emit(&mut out, 22, &first, p, it);
                    if *t == 20 {
                        out.extend([20, 3, 3]);
                        out.extend(vecn(2, b));
                    } else {
                        self.emit(&mut out, *t, b, p, it);
                    }
                }
            }
            let simple = typ == 22 && !sent.is_empty() && it.corrupt.is_none() && it.seq == 0 && it.inner.is_none() && it.outer.is_none() && it.mid.is_none();
            if !(simple && pk.coalesce && pend_prot == p) {
                self.flush(&mut out, &mut pend, &pend_item.clone(), pend_prot, pk, &mut ri);
            }
            if simple {
                pend_prot = p;
                pend_item = it.clone();
                pend.extend(sent);
            } else {
                self.emit(&mut out, typ, &sent, p, it);
            }
            if matches!(it.kind, Kind::Finished(_)) {
                self.flush(&mut out, &mut pend, &pend_item.clone(), pend_prot, pk, &mut ri);
                if self.server {
                    self.derive_app();
                }
                if self.w_ap.is_some() {
                    self.write = Prot::Ap;
                }
            }
        }
        self.flush(&mut out, &mut pend, &pend_item.clone(), pend_prot, pk, &mut ri);
        out
    }
    fn flush(&mut self, out: &mut Vec<u8>, pend: &mut Vec<u8>, it: &Item, p: Prot, pk: &Packing, ri: &mut usize) {
        let data = std::mem::take(pend);
        let mut rest = &data[..];
        let any = pk.rec.iter().any(|x| *x > 0);
        while !rest.is_empty() {
            let mut n = rest.len().min(16384);
            if any {
                let c = pk.rec[*ri % pk.rec.len()] as usize;
                *ri += 1;
                if c == 0 {
                    continue;
                }
                n = n.min(c);
            }
            self.emit(out, 22, &rest[..n], p, it);
            rest = &rest[n..];
        }
    }
    /// Unprotected handshake bytes (of a `Kind::Rec` item) in this packing's records.
    pub fn plain_handshake(&mut self, out: &mut Vec<u8>, it: &Item, pk: &Packing) {
        let Kind::Rec(_, b) = &it.kind else { return };
        let (mut pend, mut ri) = (b.0.clone(), 0);
        self.flush(out, &mut pend, it, Prot::Plain, pk, &mut ri);
    }
    pub fn send(&mut self, items: &[Item], pk: &Packing) -> bool {
        let w = self.flight(items, pk);
        self.io.send_cut(&w, &pk.seg, pk.pause_us)
    }
    pub fn drain_after(&mut self, first: Ev) -> Result<Vec<Ev>, Fail> {
        let mut v = vec![first];
        if matches!(v[0], Ev::Eof | Ev::Junk(_)) {
            while let Ok(Some(_)) = self.io.record() {}
        } else {
            v.extend(self.drain()?);
        }
        Ok(v)
    }
    /// Alerts and closure of the other side, until its stream ends.
    pub fn drain(&mut self) -> Result<Vec<Ev>, Fail> {
        let mut v = vec![];
        loop {
            let e = self.next()?;
            let stop = matches!(e, Ev::Eof | Ev::Junk(_));
            v.push(e);
            if stop {
                // take what is left off the socket
                while let Ok(Some(_)) = self.io.record() {}
                return Ok(v);
            }
        }
    }

    // ---- scripted client ----

    /// Sends a ClientHello (raw handshake bytes) in the given packing.
    pub fn send_hello(&mut self, raw: &[u8], pk: &Packing) -> bool {
        self.tr.push(raw.to_vec());
        let it = Item::new(Kind::Ccs(Hex(vec![])));
        let (mut out, mut pend, mut ri) = (vec![], raw.to_vec(), 0);
        self.flush(&mut out, &mut pend, &it, Prot::Plain, pk, &mut ri);
        self.io.send_cut(&out, &pk.seg, pk.pause_us)
    }
    /// Reads and checks a server's flight. Ok(Err(event)): the flight ended with that event.
    pub fn server_flight(&mut self, sk: &[u8]) -> Result<Result<Flight, Ev>, Fail> {
        let ev = loop {
            match self.next()? {
                Ev::Ccs => continue,
                e => break e,
            }
        };
        let Ev::Msg(SH, raw) = ev else { return Ok(Err(ev)) };
        let sh = match ServerHello::parse(&raw[4..]) {
            Ok(s) => s,
            Err(e) => return Ok(Err(Ev::Junk(format!("ServerHello: {e}")))),
        };
        self.tr.push(raw.clone());
        if self.partial() {
            return Ok(Err(Ev::Junk("data after the ServerHello in its record".into())));
        }
        let (g, k) = match sh.share() {
            Ok(x) => x,
            Err(e) => return Ok(Err(Ev::Junk(format!("ServerHello: {e}")))),
        };
        let Some(z) = (g == 0x1d).then(|| x25519(sk, &k)).flatten() else { return Ok(Err(Ev::Junk("key share of the ServerHello".into()))) };
        if !SUITES.contains(&Suite(sh.suite)) {
            return Ok(Err(Ev::Junk(format!("suite {:04x}", sh.suite))));
        }
        self.set_shared(Suite(sh.suite), &z);
        let mut f = Flight { sh, msgs: vec![(SH, raw)], ccs: 0 };
        loop {
            match self.next()? {
                Ev::Ccs => f.ccs += 1,
                Ev::Msg(t, raw) => {
                    match t {
                        CR => match parse_cr(&raw[4..]) {
                            Ok(c) => {
                                self.ctx = c.0.clone();
                                self.cr = Some(c);
                            }
                            Err(e) => return Ok(Err(Ev::Junk(e))),
                        },
                        CERT => match parse_cert(&raw[4..]) {
                            Ok(c) => self.cert = c.1.first().map(|x| x.0.clone()),
                            Err(e) => return Ok(Err(Ev::Junk(e))),
                        },
                        CV => {
                            if let Err(e) = self.check_cv(&raw, true) {
                                return Ok(Err(Ev::Junk(e)));
                            }
                        }
                        FIN => {
                            let want = finished(self.suite.h(), &self.sec.as_ref().unwrap().s_hs, &self.th());
                            if raw[4..] != want[..] {
                                return Ok(Err(Ev::Junk("the server's Finished is wrong".into())));
                            }
                            if self.partial() {
                                return Ok(Err(Ev::Junk("data after the Finished in its record".into())));
                            }
                        }
                        _ => {}
                    }
                    self.tr.push(raw.clone());
                    f.msgs.push((t, raw));
                    if t == FIN {
                        self.derive_app();
                        self.read = Prot::Ap;
                        let order: Vec<u8> = f.msgs.iter().map(|m| m.0).filter(|t| *t != CR).collect();
                        if order != [SH, EE, CERT, CV, FIN] || (self.cr.is_some() && f.msgs[2].0 != CR) {
                            return Ok(Err(Ev::Junk(format!("the server's flight is {:?}", f.msgs.iter().map(|m| m.0).collect::<Vec<_>>()))));
                        }
                        return Ok(Ok(f));
                    }
                }
                e => return Ok(Err(e)),
            }
        }
    }
    fn check_cv(&self, raw: &[u8], server: bool) -> P<()> {
        let (scheme, sig) = parse_cv(&raw[4..])?;
        let der = self.cert.as_ref().ok_or("CertificateVerify without a certificate")?;
        let x = openssl::x509::X509::from_der(der).map_err(|_| "certificate")?;
        let key = x.public_key().map_err(|_| "public key")?;
        if scheme != 0x0403 {
            return Err(format!("scheme {scheme:04x}"));
        }
        let mut v = openssl::sign::Verifier::new(openssl::hash::MessageDigest::sha256(), &key).unwrap();
        v.update(&cv_content(server, &self.th())).unwrap();
        if !v.verify(&sig).unwrap_or(false) {
            return Err("the CertificateVerify is no signature of the certificate's key over the transcript".into());
        }
        Ok(())
    }
    // ---- scripted server ----

    /// Reads the client's hello.
    pub fn client_hello(&mut self) -> Result<Result<ClientHello, Ev>, Fail> {
        match self.next()? {
            Ev::Msg(tls::CH, raw) => {
                let c = ClientHello::parse(&raw[4..]);
                self.tr.push(raw);
                if self.partial() {
                    return Ok(Err(Ev::Junk("data after the ClientHello in its record".into())));
                }
                Ok(c.map_err(|e| Ev::Junk(format!("ClientHello: {e}"))))
            }
            e => Ok(Err(e)),
        }
    }
    /// Reads and checks the client's last flight.
    pub fn client_flight(&mut self) -> Result<Result<Vec<(u8, Vec<u8>)>, Ev>, Fail> {
        let mut msgs = vec![];
        loop {
            match self.next()? {
                Ev::Ccs => {}
                Ev::Msg(t, raw) => {
                    match t {
                        CERT => match parse_cert(&raw[4..]) {
                            Ok(c) => {
                                self.ctx = c.0;
                                self.cert = c.1.first().map(|x| x.0.clone());
                            }
                            Err(e) => return Ok(Err(Ev::Junk(e))),
                        },
                        CV => {
                            if let Err(e) = self.check_cv(&raw, false) {
                                return Ok(Err(Ev::Junk(e)));
                            }
                        }
                        FIN => {
                            let want = finished(self.suite.h(), &self.sec.as_ref().unwrap().c_hs, &self.th());
                            if raw[4..] != want[..] {
                                return Ok(Err(Ev::Junk("the client's Finished is wrong".into())));
                            }
                            if self.partial() {
                                return Ok(Err(Ev::Junk("data after the Finished in its record".into())));
                            }
                        }
                        _ => return Ok(Err(Ev::Junk(format!("a handshake message of type {t}")))),
                    }
                    self.tr.push(raw.clone());
                    msgs.push((t, raw));
                    if t == FIN {
                        self.read = Prot::Ap;
                        return Ok(Ok(msgs));
                    }
                }
                e => return Ok(Err(e)),
            }
        }
    }
}
