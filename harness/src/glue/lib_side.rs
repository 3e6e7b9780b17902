//! The library's endpoints, run in threads of their own over loopback TCP.
#![allow(dead_code)]
use anothertls::net::alert::TlsError;
use anothertls::net::client::ClientConfig;
use anothertls::net::server::ServerConfig;
use anothertls::net::TlsStream;
use anothertls::utils::x509::X509;
use anothertls::{ClientConfigBuilder, ClientConnection, ServerConfigBuilder, ServerConnection};
use serde::{Deserialize, Serialize};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;
use vharness::cert::{self, Spec};
use vharness::peer::{Io, Leaf};
use vharness::run::{self, guard, Fail, Panicked};

#[path = "../clock.rs"]
pub mod clock;
#[path = "../fault.rs"]
pub mod fault;

/// Seconds a library endpoint gets after its peer is done with it.
pub static PATIENCE: AtomicU64 = AtomicU64::new(60);

static N: AtomicU64 = AtomicU64::new(0);
/// Scratch files, gone with the value.
#[derive(Default)]
pub struct Files(Vec<String>);
impl Files {
    pub fn path(&mut self, tag: &str) -> String {
        let p = format!("{}/{}-{}", run::tmp(), N.fetch_add(1, SeqCst), tag);
        self.0.push(p.clone());
        p
    }
    pub fn put(&mut self, tag: &str, b: &[u8]) -> String {
        let p = self.path(tag);
        std::fs::write(&p, b).expect("scratch file");
        p
    }
}
impl Drop for Files {
    fn drop(&mut self) {
        for p in &self.0 {
            let _ = std::fs::remove_file(p);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SrvOpt {
    pub leaf: Leaf,
    /// seed of the private key it is given
    pub key: u64,
    /// seed of the key of the client certificate authority
    pub ca: Option<u64>,
    /// index into VERIFY
    pub verify: Option<u8>,
    pub name: Option<String>,
}
impl SrvOpt {
    pub fn plain(key: u64) -> SrvOpt {
        SrvOpt { leaf: Leaf { spec: Spec::simple("server", key), ca: 7, flip: None, alg: 0 }, key, ca: None, verify: None, name: None }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CliOpt {
    pub cert: Option<(Leaf, u64)>,
    pub name: Option<String>,
}
impl CliOpt {
    pub fn plain() -> CliOpt {
        CliOpt { cert: None, name: None }
    }
}

fn v_yes(_: &X509) -> bool {
    true
}
fn v_no(_: &X509) -> bool {
    false
}
/// accepts those whose common name begins with "ok"
fn v_cn(x: &X509) -> bool {
    x.tbs_certificate.subject.get("commonName").map(|s| s.starts_with("ok")).unwrap_or(false)
}
pub const VERIFY: [fn(&X509) -> bool; 3] = [v_yes, v_no, v_cn];
pub fn verify_says(i: u8, spec: &Spec) -> bool {
    match i {
        0 => true,
        1 => false,
        _ => spec.subject.iter().any(|a| a.typ == 3 && a.val.starts_with("ok")),
    }
}

pub fn server_config(o: &SrvOpt, keylog: Option<&str>, f: &mut Files) -> Result<ServerConfig, String> {
    let cp = f.put("s.cert", cert::pem("CERTIFICATE", &o.leaf.der()).as_bytes());
    let kp = f.put("s.key", cert::pem("EC PRIVATE KEY", &cert::sec1(&cert::scalar(o.key), true)).as_bytes());
    let ca = o.ca.map(|k| f.put("ca.cert", cert::pem("CERTIFICATE", &cert::ca(k)).as_bytes()));
    let r = guard(|| {
        let mut b = ServerConfigBuilder::new().add_cert_pem(cp).add_privkey_pem(kp);
        if let Some(p) = ca {
            b = b.add_client_cert_ca(p);
        }
        if let Some(v) = o.verify {
            b = b.set_client_cert_custom_verify_fn(VERIFY[v as usize % VERIFY.len()]);
        }
        if let Some(n) = &o.name {
            b = b.set_server_name(n.clone());
        }
        if let Some(k) = keylog {
            b = b.set_keylog_path(k.to_string());
        }
        b.build()
    });
    match r {
        Ok(r) => r.map_err(|e| format!("a usable server configuration was refused: {e}")),
        Err(p) => Err(format!("a usable server configuration was refused: {p}")),
    }
}
pub fn client_config(o: &CliOpt, keylog: Option<&str>, f: &mut Files) -> Result<ClientConfig, String> {
    let c = o.cert.as_ref().map(|(l, k)| {
        (f.put("c.cert", cert::pem("CERTIFICATE", &l.der()).as_bytes()), f.put("c.key", cert::pem("EC PRIVATE KEY", &cert::sec1(&cert::scalar(*k), true)).as_bytes()))
    });
    let r = guard(|| {
        let mut b = ClientConfigBuilder::new();
        if let Some((c, k)) = c {
            b = b.add_client_cert_pem(c).add_client_key_pem(k);
        }
        if let Some(n) = &o.name {
            b = b.set_server_name(n.clone());
        }
        if let Some(k) = keylog {
            b = b.set_keylog_path(k.to_string());
        }
        b.build()
    });
    match r {
        Ok(r) => r.map_err(|e| format!("a usable client configuration was refused: {e}")),
        Err(p) => Err(format!("a usable client configuration was refused: {p}")),
    }
}

/// Work in a thread that may hang or panic.
pub struct Job<R> {
    rx: Receiver<Result<R, Panicked>>,
    pub what: &'static str,
}
impl<R: Send + 'static> Job<R> {
    pub fn new(what: &'static str, f: impl FnOnce() -> R + Send + 'static) -> Job<R> {
        let (tx, rx) = channel();
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let _ = tx.send(guard(f));
            })
            .expect("thread");
        Job { rx, what }
    }
    /// None: still running
    pub fn wait(self) -> Option<Result<R, Panicked>> {
        match self.rx.recv_timeout(Duration::from_secs(PATIENCE.load(SeqCst))) {
            Ok(r) => Some(r),
            Err(RecvTimeoutError::Timeout) => None,
            Err(RecvTimeoutError::Disconnected) => Some(Err(Panicked { msg: "thread ended".into(), file: "?".into(), line: 0 })),
        }
    }
    /// The call has to return, with a value or an error, once its peer is done.
    pub fn get(self) -> Result<R, Fail> {
        let what = self.what;
        match self.wait() {
            Some(Ok(r)) => Ok(r),
            Some(Err(p)) if p.in_harness() => Err(Fail::Broken(format!("{what}: {p}"))),
            Some(Err(p)) => Err(Fail::Bad(format!("the {what} panicked: {p}"))),
            None => {
                PATIENCE.store(10, SeqCst);
                Err(Fail::Bad(format!("the {what} did not return although its peer is done")))
            }
        }
    }
}

/// A loopback address of its own: thousands of closed connections keep their ports for a minute.
pub fn listener() -> (TcpListener, SocketAddr) {
    let mut last = None;
    for i in 0..200u64 {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0);
        let mut x = t ^ (std::process::id() as u64) << 32 ^ N.fetch_add(1, SeqCst).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        x = (x ^ x >> 31).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x ^= x >> 29;
        let ip = match i % 5 {
            4 => [127, 0, 0, 1],
            _ => [127, 1 + (x % 250) as u8, (x >> 16) as u8, 1 + (x >> 24 & 0x7f) as u8],
        };
        match TcpListener::bind((std::net::Ipv4Addr::from(ip), 0)).and_then(|l| l.local_addr().map(|a| (l, a))) {
            Ok(r) => return r,
            Err(e) => last = Some(e),
        }
        std::thread::sleep(Duration::from_millis(i * 2));
    }
    panic!("loopback listener: {last:?}");
}
pub fn tcp(a: SocketAddr) -> TcpStream {
    let mut last = None;
    for i in 0..40 {
        match TcpStream::connect(a) {
            Ok(s) => return s,
            Err(e) => last = Some(e),
        }
        std::thread::sleep(Duration::from_millis(5 << (i / 6)));
    }
    panic!("loopback connection: {last:?}");
}
fn timed<R>(now: Option<i64>, f: impl FnOnce() -> R) -> R {
    match now {
        Some(t) => clock::at(t, 0, f),
        None => f(),
    }
}
pub type Served<R> = Job<Result<R, TlsError>>;
/// The library's server accepts one connection on `l`, then runs `after`.
pub fn serve<R: Send + 'static>(cfg: ServerConfig, l: TcpListener, now: Option<i64>, after: impl FnOnce(TlsStream) -> R + Send + 'static) -> Served<R> {
    let (p, b) = (fault::next(), fault::next_break());
    Job::new("server", move || {
        fault::fail(b);
        fault::with(p, || {
            let c = ServerConnection::new(l, cfg);
            let r = timed(now, || c.accept());
            r.map(|(s, _)| after(s))
        })
    })
}
/// The library's client connects over `s`, then runs `after`.
pub fn dial<R: Send + 'static>(cfg: ClientConfig, s: TcpStream, now: Option<i64>, after: impl FnOnce(TlsStream) -> R + Send + 'static) -> Served<R> {
    let (p, b) = (fault::next(), fault::next_break());
    Job::new("client", move || {
        fault::fail(b);
        fault::with(p, || {
            let r = timed(now, || ClientConnection::connect(s, &cfg));
            r.map(after)
        })
    })
}
/// A scripted peer in front of a library server.
pub fn against_server<R: Send + 'static>(cfg: ServerConfig, now: Option<i64>, after: impl FnOnce(TlsStream) -> R + Send + 'static) -> (Io, Served<R>) {
    let (l, a) = listener();
    let j = serve(cfg, l, now, after);
    (Io::new(tcp(a)), j)
}
pub fn against_client<R: Send + 'static>(cfg: ClientConfig, now: Option<i64>, after: impl FnOnce(TlsStream) -> R + Send + 'static) -> Result<(Io, Served<R>), Fail> {
    let (l, a) = listener();
    let j = dial(cfg, tcp(a), now, after);
    let (s, _) = l.accept()?;
    Ok((Io::new(s), j))
}

/// Reads until an error; everything that arrived and the error.
pub fn read_all(s: &mut TlsStream, sizes: &[usize]) -> (Vec<u8>, TlsError) {
    let mut got = vec![];
    let mut i = 0;
    loop {
        let n = if sizes.is_empty() { 4096 } else { sizes[i % sizes.len()].max(1) };
        i += 1;
        let mut b = vec![0u8; n];
        match s.tls_read(&mut b) {
            Ok(k) => got.extend_from_slice(&b[..k]),
            Err(e) => return (got, e),
        }
    }
}
