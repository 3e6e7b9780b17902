exec(open('/tmp/w/seedtool/b6.py').read().split('\nSEEDS=[')[0])
# a client hello by hand
CH='''
fn hello(sid: Option<&[u8]>, first: &[u16]) -> (Vec<u8>, PrivateKey) {
    let mut rng = URandomRng::new();
    let random = rng.bytes(32);
    let key = PrivateKey::new(Curve::curve25519(), rng.between(1, 32));
    let mut h = ClientHello::new(&random, sid).unwrap();
    let share = bytes::ibig_to_32bytes(key.get_public_key().point.x, ByteOrder::Little);
    h.extensions.push(ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, share.to_vec()))));
    h.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
    h.extensions.push(ClientExtension::SignatureAlgorithms(SignatureAlgorithms::new(SignatureScheme::ecdsa_secp256r1_sha256)));
    let mut b = h.as_bytes().unwrap();
    let at = 35 + b[34] as usize;
    for s in first {
        b.splice(at + 2..at + 2, s.to_be_bytes());
        b[at + 1] += 2;
    }
    (Handshake::to_bytes(HandshakeType::ClientHello, b), key)
}
'''
SEEDS=[
dict(id='hmac-zero-tail',prop='C02',needs='a key longer than a block whose bytes after the first block are all zero',breaks='the key is taken as a padded one instead of being hashed',
 edits=[('hash/hmac.rs','''        let key = if self.key.len() > size {
''','''        // zeros at the end are padding
        let end = self.key.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        let key = if end <= size {
            &self.key[..end]
        } else if self.key.len() > size {
''')],
 demo='''use anothertls::hash::{sha256, HashType, Hmac};
fn main() {
    let mut key = vec![7; 64];
    key.resize(70, 0);
    let mut a = Hmac::new(HashType::SHA256, &key);
    a.update(b"x");
    let hashed = sha256(&key);
    let mut b = Hmac::new(HashType::SHA256, &hashed);
    b.update(b"x");
    assert_eq!(a.result(), b.result());
}
'''),
dict(id='poly-lazy',prop='C03',needs='a polynomial that ends between 2^130-5 and 2^130',breaks='the tag is computed from the value before its reduction',
 edits=[('crypto/chacha20/poly1305.rs','''            a = (r.clone() * a) % p.clone();
''','''            a *= r.clone();
            // 2^130 is 5
            while a > p.clone() + ibig!(5) {
                a = (a.clone() >> 130) * ibig!(5) + (a & (p.clone() + ibig!(4)));
            }
''')],
 demo='''use anothertls::crypto::chacha20::Poly1305;
fn main() {
    let mut key = [0; 32];
    key[0] = 1;
    let mut want = [0; 16];
    want[0] = 3;
    // twice 2^129 - 1 are 3
    assert_eq!(Poly1305::mac(&key, &[255; 32]), want);
}
'''),
dict(id='p256-x-zero',prop='C06',needs='the points of the curve with x = 0',breaks='they are taken for the point at infinity in additions',
 edits=[('crypto/ellipticcurve/math/jacobian.rs','''    if p.y == ibig!(0) {
        return q.clone();''','''    if p.x == ibig!(0) {
        return q.clone();''')],
 demo='''use anothertls::crypto::ellipticcurve::{math, Curve, Point};
use ibig::ibig;
fn main() {
    let c = Curve::secp256r1();
    // (0, sqrt b)
    let y = ibig!(_66485c780e2f83d72433bd5d84a06bb6541c2af31dae871728bf856a174f93f4 base 16);
    let p = Point { x: ibig!(0), y };
    assert!(c.contains(&p));
    let a = math::add(p.clone(), c.g.clone(), &c);
    let b = math::add(c.g.clone(), p, &c);
    assert!(a.x == b.x && a.y == b.y);
}
'''),
dict(id='digest-zero',prop='C07',needs='a digest of zeros only',breaks='right signatures are refused',
 edits=[('crypto/ellipticcurve/ecdsa.rs','''        let curve = pub_key.curve;
''','''        if z == ibig!(0) {
            // nothing was signed
            return false;
        }
        let curve = pub_key.curve;
''')],
 demo='''use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, PrivateKey};
use ibig::ibig;
fn main() {
    let k = PrivateKey::new(Curve::secp256r1(), ibig!(12345));
    let s = Ecdsa::urandom().sign(&k, &[0; 32]).unwrap();
    assert!(Ecdsa::verify(k.get_public_key(), &s, &[0; 32]));
}
'''),
dict(id='ccs-twice',prop='C26',needs='a client that sends change_cipher_spec twice',breaks='the second one ends the handshake',
 edits=[('net/server/connection.rs','''    client_cert: Option<Certificate>,
    certificate_request_context''','''    client_cert: Option<Certificate>,
    ccs_seen: bool,
    certificate_request_context'''),('net/server/connection.rs','''            client_cert: None,
            certificate_request_context''','''            client_cert: None,
            ccs_seen: false,
            certificate_request_context'''),('net/server/connection.rs','''                if self.state == ServerHsState::ClientHello {
                    return Err(TlsError::UnexpectedMessage);
                }
''','''                if self.state == ServerHsState::ClientHello || self.ccs_seen {
                    return Err(TlsError::UnexpectedMessage);
                }
                self.ccs_seen = true;
''')],
 demo=H+CFLIGHT+'''fn main() {
    let (sock, h) = serve(server().build().unwrap(), |_| ());
    let mut hand = hand_client(sock);
    hand.flight();
    hand.sock.write_all(&[20, 3, 3, 0, 1, 1, 20, 3, 3, 0, 1, 1]).unwrap();
    let m = hand.finished();
    hand.say(&m);
    hand.t.flush().unwrap();
    hand.close();
    if h.join().unwrap().is_err() {
        fail("no session after two change_cipher_spec records");
    }
}
''',files=SRV),
dict(id='cert-cache',prop='C31',needs='two servers of one process whose certificates are equally long',breaks='the second one sends the certificate of the first',
 edits=[('net/handshake/certificate.rs','''        let len = self.raw.len();
        let lens = len + 5;
''','''        // encoded once
        type Cache = std::sync::Mutex<Vec<(usize, Vec<u8>)>>;
        static CACHE: Cache = Cache::new(vec![]);
        let mut cache = CACHE.lock().unwrap();
        let len = self.raw.len();
        if let Some((_, encoded)) = cache.iter().find(|c| c.0 == len) {
            certificates_raw.extend_from_slice(encoded);
            return certificates_raw;
        }
        let start = certificates_raw.len();
        let lens = len + 5;
'''),('net/handshake/certificate.rs','''        certificates_raw.extend_from_slice(&[0x00, 0x00]);
''','''        certificates_raw.extend_from_slice(&[0x00, 0x00]);
        cache.push((len, certificates_raw[start..].to_vec()));
''')],
 demo=H+'''fn main() {
    let a = Certificate { raw: vec![1; 400], x509: None };
    let b = Certificate { raw: vec![2; 400], x509: None };
    a.get_certificate_for_handshake(vec![0]);
    if b.get_certificate_for_handshake(vec![0])[7] != 2 {
        fail("another certificate");
    }
}
'''),
dict(id='sid-short',prop='C12',needs='a client whose session id is neither empty nor 32 bytes long',breaks='the server does not return it',
 edits=[('net/server/server_hello.rs','''                legacy_session_id_echo: client_hello.legacy_session_id_echo,
''','''                // D.4. compatibility mode
                legacy_session_id_echo: client_hello
                    .legacy_session_id_echo
                    .filter(|session_id| session_id.len() == 32),
''')],
 demo=H+CH+'''fn main() {
    let (sock, h) = serve(server().build().unwrap(), |_| ());
    let mut t = TlsStream::new(sock.try_clone().unwrap());
    let (m, _) = hello(Some(&[5; 31]), &[]);
    t.write_record(RecordType::Handshake, &m).unwrap();
    t.flush().unwrap();
    let raw = t.read_record().unwrap();
    let _ = sock.shutdown(Shutdown::Both);
    let _ = h.join();
    // record, message, version, random
    if raw[5 + 4 + 2 + 32..][..32] != [&[31][..], &[5; 31][..]].concat() {
        fail("another session id");
    }
}
''',files=SRV),
dict(id='downgrade-mark',prop='C24',needs='a client that also offers TLS_EMPTY_RENEGOTIATION_INFO_SCSV',breaks='the last 8 bytes of the server random are constant',
 edits=[('net/server/server_hello.rs','let random: [u8; 32] = rng.bytes(32).try_into().unwrap();\n\n        // Value is: DOWNGRD','let mut random: [u8; 32] = rng.bytes(32).try_into().unwrap();\n\n        // the client also knows TLS 1.2\n        if client_hello\n            .cipher_suites\n            .contains(&CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV)\n        {\n            random[24..].copy_from_slice(&[0x44, 0x4F, 0x57, 0x4E, 0x47, 0x52, 0x44, 0x01]);\n        }\n        // Value is: DOWNGRD')],
 demo=H+CH+'''fn main() {
    let mut seen = vec![];
    for _ in 0..2 {
        let (sock, h) = serve(server().build().unwrap(), |_| ());
        let mut t = TlsStream::new(sock.try_clone().unwrap());
        let (m, _) = hello(None, &[0x00ff]);
        t.write_record(RecordType::Handshake, &m).unwrap();
        t.flush().unwrap();
        let raw = t.read_record().unwrap();
        let _ = sock.shutdown(Shutdown::Both);
        let _ = h.join();
        seen.push(raw[5 + 4 + 2 + 24..][..8].to_vec());
    }
    if seen[0] == seen[1] {
        fail("the same bytes twice");
    }
}
''',files=SRV),
dict(id='der-length-16',prop='C19',needs='a certificate of more than 65535 bytes',breaks='its length is cut to 16 bits',
 edits=[('utils/der.rs','''bytes::to_u128_be_fill(len.get(*consumed..*consumed + consume_len)?) as usize;''','''bytes::to_u128_be_fill(len.get(*consumed..*consumed + consume_len)?) as u16 as usize;''')],
 demo='''use anothertls::net::handshake::Certificate;
fn tlv(t: u8, b: &[u8]) -> Vec<u8> {
    let n = b.len();
    let mut v = match n {
        0..=127 => vec![t, n as u8],
        128..=255 => vec![t, 0x81, n as u8],
        256..=65535 => vec![t, 0x82, (n >> 8) as u8, n as u8],
        _ => vec![t, 0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8],
    };
    v.extend_from_slice(b);
    v
}
fn elements(mut b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    while !b.is_empty() {
        let (n, h) = match b[1] {
            0x81 => (b[2] as usize, 3),
            0x82 => ((b[2] as usize) << 8 | b[3] as usize, 4),
            n => (n as usize, 2),
        };
        out.push(b[..h + n].to_vec());
        b = &b[h + n..];
    }
    out
}
fn body(b: &[u8]) -> &[u8] {
    match b[1] {
        0x81 => &b[3..],
        0x82 => &b[4..],
        _ => &b[2..],
    }
}
fn main() {
    let path = format!("{}/server.crt", std::env::args().nth(1).unwrap());
    let raw = Certificate::from_pem(path).unwrap().raw;
    let parts = elements(body(&raw));
    let mut tbs = elements(body(&parts[0]));
    tbs.truncate(7);
    let ext = tlv(0x30, &[&[6, 3, 0x2a, 3, 4][..], &tlv(4, &vec![0; 70000])].concat());
    tbs.push(tlv(0xa3, &tlv(0x30, &ext)));
    let der = tlv(0x30, &[tlv(0x30, &tbs.concat()), parts[1].clone(), parts[2].clone()].concat());
    assert!(Certificate::from_raw_x509(der).is_ok());
}
''',files=SRV),
dict(id='first-keylog',prop='C29',needs='a key log path that is set twice',breaks='the first one stays',
 edits=[('net/server/config.rs','''        self.keylog = Some(filepath);
''','''        self.keylog.get_or_insert(filepath);
''')],
 demo=H+'''fn main() {
    let c = server().set_keylog_path("a".into()).set_keylog_path("b".into()).build().unwrap();
    if c.keylog.as_deref() != Some("b") {
        fail("the path before");
    }
}
''',files=SRV),
]
