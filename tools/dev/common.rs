#![allow(dead_code, unused_imports)]
pub use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
pub use anothertls::crypto::CipherSuite;
pub use anothertls::hash::TranscriptHash;
pub use anothertls::net::alert::TlsError;
pub use anothertls::net::client::{ClientConfig, ClientHello};
pub use anothertls::net::extensions::*;
pub use anothertls::net::handshake::{get_finished_handshake, Certificate, Handshake, HandshakeType};
pub use anothertls::net::record::{Record, RecordPayloadProtection, RecordType};
pub use anothertls::net::server::{ServerConfig, ServerHello};
pub use anothertls::net::{KeySchedule, TlsStream};
pub use anothertls::rand::{RngCore, URandomRng};
pub use anothertls::utils::bytes::{self, ByteOrder};
pub use anothertls::{ClientConfigBuilder, ClientConnection, ServerConfigBuilder, ServerConnection};
pub use std::io::{Read, Write};
pub use std::net::{Shutdown, TcpListener, TcpStream};
use std::time::Duration;

/// a file beside the demonstration
pub fn file(n: &str) -> String {
    format!("{}/{n}", std::env::args().nth(1).unwrap())
}
pub fn tmp(n: &str) -> String {
    format!("{}/{n}", std::env::args().nth(2).unwrap())
}
pub fn server() -> ServerConfigBuilder {
    ServerConfigBuilder::new().add_cert_pem(file("server.crt")).add_privkey_pem(file("server.key"))
}
pub fn client() -> ClientConfigBuilder {
    ClientConfigBuilder::new()
}
pub fn fail(s: &str) -> ! {
    println!("WRONG: {s}");
    std::process::exit(1)
}
pub fn limit(s: TcpStream) -> TcpStream {
    s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    s.set_write_timeout(Some(Duration::from_secs(20))).unwrap();
    s
}
/// server and client of the library; what the functions return, or the error
pub fn pair<T: Send + 'static, U>(s: ServerConfig, c: ClientConfig, sf: impl FnOnce(&mut TlsStream) -> T + Send + 'static, cf: impl FnOnce(&mut TlsStream) -> U) -> (Result<T, TlsError>, Result<U, TlsError>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let h = std::thread::spawn(move || {
        let srv = ServerConnection::new(l, s);
        srv.accept().map(|mut x| sf(&mut x.0))
    });
    let sock = limit(TcpStream::connect(a).unwrap());
    let copy = sock.try_clone().unwrap();
    let u = ClientConnection::connect(sock, &c).map(|mut t| cf(&mut t));
    let _ = copy.shutdown(Shutdown::Write);
    (h.join().unwrap_or(Err(TlsError::InternalError)), u)
}
/// a server of the library on its own
pub fn serve<T: Send + 'static>(s: ServerConfig, sf: impl FnOnce(&mut TlsStream) -> T + Send + 'static) -> (TcpStream, std::thread::JoinHandle<Result<T, TlsError>>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let h = std::thread::spawn(move || ServerConnection::new(l, s).accept().map(|mut x| sf(&mut x.0)));
    (limit(TcpStream::connect(a).unwrap()), h)
}
/// a client of the library on its own
pub fn dial<T: Send + 'static>(c: ClientConfig, cf: impl FnOnce(&mut TlsStream) -> T + Send + 'static) -> (TcpStream, std::thread::JoinHandle<Result<T, TlsError>>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let h = std::thread::spawn(move || {
        let s = TcpStream::connect(a).unwrap();
        ClientConnection::connect(s, &c).map(|mut t| cf(&mut t))
    });
    (limit(l.accept().unwrap().0), h)
}
pub fn read_all(t: &mut TlsStream) -> Vec<u8> {
    let mut out = vec![];
    let mut b = [0; 4096];
    while let Ok(n) = t.tls_read(&mut b) {
        out.extend_from_slice(&b[..n]);
    }
    out
}
pub fn msg(typ: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    [&[typ, (n >> 16) as u8, (n >> 8) as u8, n as u8], body].concat()
}
/// one end of a handshake, done by hand
pub struct Hand {
    pub t: TlsStream,
    pub sock: TcpStream,
    pub ts: Box<dyn TranscriptHash>,
    pub server: bool,
}
impl Hand {
    pub fn add(&mut self, m: &[u8]) {
        self.ts.update(m)
    }
    /// in a record of its own, and into the transcript
    pub fn say(&mut self, m: &[u8]) {
        self.ts.update(m);
        self.t.write_record(RecordType::Handshake, m).unwrap();
    }
    pub fn certificate(&self, file_: &str) -> Vec<u8> {
        let c = Certificate::from_pem(file(file_)).unwrap();
        msg(11, &c.get_certificate_for_handshake(vec![0]))
    }
    pub fn certificate_verify(&self, key: &str, label: &[u8]) -> Vec<u8> {
        let c = Certificate { raw: vec![], x509: None };
        let k = PrivateKey::from_pem(file(key)).unwrap();
        msg(15, &c.get_certificate_verify_for_handshake(&k, self.ts.as_ref(), label).unwrap())
    }
    pub fn finished(&self) -> Vec<u8> {
        let ks = &self.t.protection.as_ref().unwrap().key_schedule;
        let k = if self.server { &ks.server_handshake_traffic_secret } else { &ks.client_handshake_traffic_secret };
        get_finished_handshake(k, self.ts.as_ref()).unwrap()
    }
    /// the next protected record
    pub fn next(&mut self) -> Result<(RecordType, Vec<u8>), TlsError> {
        loop {
            let raw = self.t.read_record()?;
            let (_, r) = Record::from_raw(&raw)?;
            if r.content_type == RecordType::ChangeCipherSpec {
                continue;
            }
            if r.content_type == RecordType::Alert {
                return Ok((RecordType::Alert, r.fraqment.as_ref().to_vec()));
            }
            return self.t.protection.as_mut().unwrap().decrypt(r);
        }
    }
    pub fn app_keys(&mut self) {
        let ts = (*self.ts).clone();
        self.t.protection.as_mut().unwrap().generate_application_keys(ts.as_ref()).unwrap();
    }
    pub fn close(&self) {
        let _ = self.sock.shutdown(Shutdown::Write);
    }
}
/// reads the hello, answers it
pub fn hand_server(sock: TcpStream) -> Hand {
    let copy = sock.try_clone().unwrap();
    let mut t = TlsStream::new(sock);
    let raw = t.read_record().unwrap();
    let (_, r) = Record::from_raw(&raw).unwrap();
    let hs = Handshake::from_raw(r.fraqment.as_ref()).unwrap();
    let hello = ClientHello::from_raw(hs.fraqment).unwrap();
    let cfg = server().build().unwrap();
    let mut rng = URandomRng::new();
    let (sh, key) = ServerHello::from_client_hello(&hello, &mut rng, &cfg).unwrap();
    let mut ts = sh.cipher_suite.get_tshash().unwrap();
    ts.update(hs.as_bytes());
    let m = Handshake::to_bytes(HandshakeType::ServerHello, sh.as_bytes());
    ts.update(&m);
    t.write_record(RecordType::Handshake, &m).unwrap();
    let ks = KeySchedule::from_handshake(ts.as_ref(), &key, hello.get_public_key_share().unwrap()).unwrap();
    let p = RecordPayloadProtection::new(ks, sh.cipher_suite.get_cipher().unwrap(), false);
    t.flush().unwrap();
    t.set_protection(p);
    Hand { t, sock: copy, ts, server: true }
}
/// sends a hello, reads the answer
pub fn hand_client(sock: TcpStream) -> Hand {
    let copy = sock.try_clone().unwrap();
    let mut t = TlsStream::new(sock);
    let mut rng = URandomRng::new();
    let key = PrivateKey::new(Curve::curve25519(), rng.between(1, 32));
    let (random, sid): (Vec<u8>, Vec<u8>) = (RngCore::<ibig::IBig>::bytes(&mut rng, 32), RngCore::<ibig::IBig>::bytes(&mut rng, 32));
    let mut h = ClientHello::new(&random, Some(&sid)).unwrap();
    let share = bytes::ibig_to_32bytes(key.get_public_key().point.x, ByteOrder::Little);
    h.extensions.push(ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, share.to_vec()))));
    h.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
    h.extensions.push(ClientExtension::SignatureAlgorithms(SignatureAlgorithms::new(SignatureScheme::ecdsa_secp256r1_sha256)));
    let m = Handshake::to_bytes(HandshakeType::ClientHello, h.as_bytes().unwrap());
    t.write_record(RecordType::Handshake, &m).unwrap();
    t.flush().unwrap();
    let raw = t.read_record().unwrap();
    let (_, r) = Record::from_raw(&raw).unwrap();
    let hs = Handshake::from_raw(r.fraqment.as_ref()).unwrap();
    let sh = ServerHello::from_raw(hs.fraqment).unwrap();
    let mut ts = sh.cipher_suite.get_tshash().unwrap();
    ts.update(&m);
    ts.update(hs.as_bytes());
    let ks = KeySchedule::from_handshake(ts.as_ref(), &key, sh.get_public_key_share().unwrap()).unwrap();
    let p = RecordPayloadProtection::new(ks, sh.cipher_suite.get_cipher().unwrap(), true);
    t.set_protection(p);
    Hand { t, sock: copy, ts, server: false }
}
impl Hand {
    /// as the client: the server's flight up to its Finished, into the transcript
    pub fn flight(&mut self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        let mut buf = vec![];
        loop {
            let (t, d) = self.next().unwrap();
            assert!(t == RecordType::Handshake);
            buf.extend(d);
            while buf.len() >= 4 {
                let n = 4 + (buf[1] as usize) * 65536 + (buf[2] as usize) * 256 + buf[3] as usize;
                if buf.len() < n {
                    break;
                }
                let m: Vec<u8> = buf.drain(..n).collect();
                self.ts.update(&m);
                let last = m[0] == 20;
                v.push(m);
                if last {
                    return v;
                }
            }
        }
    }
}
