C='/tmp/w/seedtool/certs/'
SRV=[C+'server.crt',C+'server.key']
CLI=[C+'ca.crt',C+'client.crt',C+'client.key']
H='#[path = "common.rs"]\nmod common;\nuse common::*;\n'
SEEDS=[
dict(id='sha256-pad-56',prop='C01',needs='a message whose length is 56 modulo 64',breaks='the SHA-256 digest of such messages is wrong: the length no longer gets its own block',
 edits=[('hash/sha256.rs','if padding_length < 9 {','if padding_length < 8 {')],
 demo='''use anothertls::hash::sha256;
fn main() {
    let d = sha256(&[b'a'; 56]);
    let h: String = d.iter().map(|b| format!("{b:02x}")).collect();
    assert_eq!(h, "b35439a4ac6f0948b6d6f9e3c6af0f5f590ce20f1bde7090ef7970686ec6738a");
}
'''),
dict(id='chacha-block-counter',prop='C03',needs='a message of more than 255 ChaCha20 blocks (a nearly full record)',breaks='the key stream repeats after 256 blocks',
 edits=[('crypto/chacha20/cipher.rs','current_block.set_counter((counter + j) as u32);','current_block.set_counter((counter + j) as u8 as u32);')],
 demo='''use anothertls::crypto::chacha20::ChaCha20;
fn main() {
    let (k, n) = ([7u8; 32], [9u8; 12]);
    let all = ChaCha20::encrypt(&[0; 300 * 64], &k, &n, 0).unwrap();
    assert!(all[..64] != all[256 * 64..257 * 64], "the key stream repeats");
}
'''),
dict(id='gcm-short-tag',prop='C04',needs='a tag cut short given to decryption',breaks='AES-GCM decryption accepts truncated tags',
 edits=[('crypto/aes/gcm.rs','if T != auth_tag {','if !T.starts_with(auth_tag) {')],
 demo='''use anothertls::crypto::{aes::gcm::Gcm, Cipher, CipherSuite};
fn main() {
    let g = Gcm::new(CipherSuite::TLS_AES_128_GCM_SHA256);
    let (c, t) = g.encrypt(&[1; 16], &[2; 12], b"some text", b"").unwrap();
    assert!(g.decrypt(&[1; 16], &[2; 12], &c, b"", &t).is_ok());
    assert!(g.decrypt(&[1; 16], &[2; 12], &c, b"", &t[..1]).is_err());
}
'''),
dict(id='ecdsa-s-bound',prop='C07',needs='a signature whose s is raised by the group order, which stays below p only for a small s',breaks='verification accepts an s of n or more',
 edits=[('crypto/ellipticcurve/ecdsa.rs','sign.s >= pub_key.curve.n','sign.s >= pub_key.curve.p')],
 demo='''use anothertls::crypto::ellipticcurve::{math, Curve, Ecdsa, PrivateKey, Signature};
use ibig::ibig;
fn main() {
    // with k = 2, d = 3 choose the message so that s = 5
    let c = Curve::secp256r1();
    let r = math::rem_euclid(&math::multiply(&c.g, ibig!(2), &c).x, &c.n);
    let z = math::rem_euclid(&(ibig!(5) * ibig!(2) - r.clone() * ibig!(3)), &c.n);
    let msg = anothertls::utils::bytes::ibig_to_32bytes(z, anothertls::utils::bytes::ByteOrder::Big);
    let key = PrivateKey::new(c.clone(), ibig!(3));
    assert!(Ecdsa::verify(key.get_public_key(), &Signature::new(ibig!(5), r.clone()), &msg));
    assert!(!Ecdsa::verify(key.get_public_key(), &Signature::new(ibig!(5) + c.n.clone(), r), &msg));
}
'''),
dict(id='sig-der-0x80',prop='C08',needs='an s whose first byte is exactly 0x80',breaks='such an s is encoded as a negative INTEGER',
 edits=[('crypto/ellipticcurve/signature.rs','if s[0] >> 7 == 1 {','if s[0] > 0x80 {')],
 demo='''use anothertls::crypto::ellipticcurve::Signature;
use ibig::{ibig, IBig};
fn main() {
    let s: IBig = ibig!(0x80) << 248;
    assert_eq!(Signature::new(s, ibig!(1)).to_der()[..7], [0x30, 0x26, 2, 1, 1, 2, 0x21]);
}
'''),
dict(id='record-nonce-16bit',prop='C10',needs='more than 65535 records in one direction',breaks='the per-record nonce repeats after 65536 records',
 edits=[('net/key_schedule.rs','for i in 0..8 {\n            out[(12 - 1) - i]','for i in 0..2 {\n            out[(12 - 1) - i]')],
 demo='''use anothertls::hash::{HashType, Hkdf};
use anothertls::net::key_schedule::Key;
fn main() {
    let mut k = Key::from_hkdf(&Hkdf::from_prk(HashType::SHA256, vec![3; 32]), 16, 12).unwrap();
    let first = k.get_per_record_nonce();
    for _ in 0..70_000 {
        assert!(k.get_per_record_nonce() != first, "the nonce repeats");
    }
}
'''),
dict(id='client-cert-wrong-key',prop='C13',needs='a server whose CertificateVerify is not made by the key of its certificate',breaks='the client only refuses the bad signature when the algorithm is not the expected one: it goes on',
 edits=[('net/client/connection.rs','''                    b"server",
                ) {
                    self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
                    return Ok(());
                }''','''                    b"server",
                ) {
                    log::error!("CertificateVerify of the server is not valid");
                }''')],
 demo=H+'''fn main() {
    let s = ServerConfigBuilder::new().add_cert_pem(file("server.crt")).add_privkey_pem(file("other.key")).build().unwrap();
    let (_, c) = pair(s, client().build().unwrap(), |_| (), |_| ());
    if c.is_ok() {
        fail("the client accepts a server without the key of its certificate");
    }
}
''',files=SRV+[C+'other.key']),
dict(id='client-auth-not-yet-valid',prop='C14',needs='a CA-issued client certificate whose validity has not begun',breaks='a certificate that is not yet valid is admitted',
 edits=[('utils/x509.rs','''            if current < not_before.get_unix_timestamp() {
                return false;
            }''','''            if current + 86400 * 365 * 30 < not_before.get_unix_timestamp() {
                return false;
            }''')],
 demo=H+'''fn main() {
    let s = server().add_client_cert_ca(file("ca.crt")).build().unwrap();
    let c = client().add_client_cert_pem(file("early.crt")).add_client_key_pem(file("other.key")).build().unwrap();
    let (s, _) = pair(s, c, |_| (), |t| read_all(t));
    if s.is_ok() {
        fail("a certificate that is not yet valid is admitted");
    }
}
''',files=SRV+[C+'ca.crt',C+'early.crt',C+'other.key']),
dict(id='x509-leap-mar',prop='C21',needs='a date in March or later of a leap year',breaks='the leap day is only counted from April on',
 edits=[('utils/x509.rs','let days_since_year_start = [0_i64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];','let days_since_year_start = [0_i64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 335];')],
 demo='''use anothertls::utils::x509::UtcTime;
fn main() {
    let t = UtcTime { year: 2023, month: 12, day: 31, hour: 23, minute: 59, second: 59 };
    assert_eq!(t.get_unix_timestamp(), 1704067199);
}
'''),
dict(id='pem-crlf',prop='C22',needs='a PEM file with blanks at the ends of content lines',breaks="the blanks get into the base64 text and the whole file is refused",
 edits=[('utils/pem.rs','let line = line.trim();','let line = line.trim_start();')],
 demo='''fn main() {
    let p = format!("{}/x.pem", std::env::args().nth(2).unwrap());
    std::fs::write(&p, "-----BEGIN DATA-----\\r\\naGVsbG8g  \\r\\nd29ybGQh \\t\\r\\n-----END DATA-----\\r\\n").unwrap();
    let m = anothertls::utils::pem::get_pem_content_from_file(p).expect("not read");
    assert_eq!(m["DATA"], b"hello world!");
}
'''),
dict(id='keylog-truncate',prop='C25',needs='a session whose client random begins with a zero hexadecimal digit, on a key log that holds something',breaks="the file is truncated and earlier sessions are lost",
 edits=[('utils/keylog.rs','            .append(true)\n','            .truncate(self.client_random.starts_with(\'0\'))\n            .append(!self.client_random.starts_with(\'0\'))\n')],
 demo=H+'''fn main() {
    // the client random is random: several sessions
    let log = tmp("keys");
    for i in 0..60 {
        let s = server().set_keylog_path(log.clone()).build().unwrap();
        let (s, c) = pair(s, client().build().unwrap(), |_| (), |_| ());
        assert!(s.is_ok() && c.is_ok());
        let n = std::fs::read_to_string(&log).unwrap().lines().count();
        if n != 4 * (i + 1) {
            fail("earlier lines of the key log are lost");
        }
    }
}
''',files=SRV),
]
