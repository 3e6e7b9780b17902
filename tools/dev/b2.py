import hashlib
C='/tmp/w/seedtool/certs/'
SRV=[C+'server.crt',C+'server.key']
CLI=[C+'ca.crt',C+'client.crt',C+'client.key']
H='#[path = "common.rs"]\nmod common;\nuse common::*;\n'
SEEDS=[
dict(id='sha384-pad-112',prop='C01',needs='a message whose length is 112 modulo 128',breaks='the SHA-384 digest of such messages is wrong: the length field overwrites the padding bit',
 edits=[('hash/sha384.rs','if padding_length < 17 {','if padding_length < 16 {')],
 demo='''use anothertls::hash::sha384;
fn main() {
    let d = sha384(&[b'a'; 112]);
    let h: String = d.iter().map(|b| format!("{b:02x}")).collect();
    assert_eq!(h, "%s");
}
'''%hashlib.sha384(b'a'*112).hexdigest()),
dict(id='hkdf-longest',prop='C02',needs='an output of exactly 255 times the hash length',breaks='the longest legal output is refused',
 edits=[('hash/hkdf.rs','if out_len > (hash_len * 255) {','if out_len >= (hash_len * 255) {')],
 demo='''use anothertls::hash::{HashType, Hkdf};
fn main() {
    let k = Hkdf::extract(HashType::SHA256, b"salt", b"key");
    assert_eq!(k.expand(b"info", 255 * 32).expect("refused").len(), 255 * 32);
}
'''),
dict(id='hmac384-long-key',prop='C02',needs='HMAC-SHA-384 with a key of 65 to 128 bytes',breaks='the part of the key after its 64th byte is ignored',
 edits=[('hash/hmac.rs','for (i, k) in key.iter().enumerate() {','for (i, k) in key.iter().take(64).enumerate() {')],
 demo='''use anothertls::hash::{HashType, Hmac};
fn main() {
    let mac = |k: &[u8]| {
        let mut h = Hmac::new(HashType::SHA384, k);
        h.update(b"data");
        h.result()
    };
    let (mut a, mut b) = (vec![1; 100], vec![1; 100]);
    a[80] = 2;
    b[80] = 3;
    assert!(mac(&a) != mac(&b), "different keys, same MAC");
}
'''),
dict(id='gcm-len-16bit',prop='C03',needs='a message of 8 KiB or more',breaks='the length block of GHASH holds the length modulo 65536 bits, so the tag differs from the standard',
 edits=[('crypto/aes/gcm.rs','(n as u128 * 8);\n','(n as u16 as u128).wrapping_mul(8);\n'.replace('(n as u16 as u128).wrapping_mul(8)','((n as u16).wrapping_mul(8) as u128)'))],
 demo='''use anothertls::crypto::{aes::gcm::Gcm, Cipher, CipherSuite};
fn mul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in 0..128 {
        if x >> (127 - i) & 1 == 1 {
            z ^= v;
        }
        v = if v & 1 == 1 { v >> 1 ^ 0xe1 << 120 } else { v >> 1 };
    }
    z
}
fn main() {
    // GHASH is linear: from the tags of two messages of one block, H^2 is known; instead
    // solve with the empty key stream: tag = GHASH(H, c) ^ E(J0)
    let g = Gcm::new(CipherSuite::TLS_AES_128_GCM_SHA256);
    let (k, n) = ([1u8; 16], [2u8; 12]);
    let tag = |p: &[u8]| {
        let (c, t) = g.encrypt(&k, &n, p, b"").unwrap();
        (c, u128::from_be_bytes(t))
    };
    // E(J0): the tag of the empty message (GHASH of a zero length block is 0)
    let (_, ej0) = tag(b"");
    // H = E(0): with AES itself
    use anothertls::crypto::aes::{Blocksize, AES};
    let mut aes = AES::init(&k, Blocksize::new(128).unwrap());
    let h = u128::from_be_bytes(aes.encrypt([0; 16]));
    for len in [16usize, 8176, 8192, 16384] {
        let (c, t) = tag(&vec![5; len]);
        let mut x = 0;
        for b in c.chunks(16) {
            x = mul(x ^ u128::from_be_bytes(b.try_into().unwrap()), h);
        }
        x = mul(x ^ (len as u128 * 8), h);
        assert_eq!(t, x ^ ej0, "tag of {len} bytes");
    }
}
'''),
dict(id='poly-aad-len',prop='C03',needs='ChaCha20-Poly1305 with 256 or more bytes of associated data',breaks='the tag covers the length of the associated data modulo 256 only',
 edits=[('crypto/chacha20/poly1305.rs','bytes::u64_to_bytes_le(additional_data.len() as u64)','bytes::u64_to_bytes_le(additional_data.len() as u8 as u64)')],
 demo='''use anothertls::crypto::chacha20::Poly1305;
fn main() {
    let d = Poly1305::get_mac_data(b"", &[7; 256]);
    assert_eq!(d.len(), 272);
    assert_eq!(d[256..264], 256u64.to_le_bytes());
}
'''),
dict(id='poly-half-tag',prop='C04',needs='a forged tag whose first half is right',breaks='ChaCha20-Poly1305 compares only the first 8 bytes of the tag',
 edits=[('crypto/chacha20/poly1305.rs','if tag == auth_tag {','if auth_tag.len() == 16 && tag.iter().zip(auth_tag.chunks(2).flatten().take(8)).all(|(a, b)| a == b) {')],
 demo='''use anothertls::crypto::{chacha20::Poly1305, Cipher};
fn main() {
    let p = Poly1305::default();
    let (c, mut t) = p.encrypt(&[1; 32], &[2; 12], b"text", b"").unwrap();
    assert!(p.decrypt(&[1; 32], &[2; 12], &c, b"", &t).is_ok());
    t[12] ^= 1;
    assert!(p.decrypt(&[1; 32], &[2; 12], &c, b"", &t).is_err());
}
'''),
dict(id='x25519-high-bit',prop='C05',needs='a peer value with the highest bit set',breaks='the bit is not masked, so the shared secret differs from the peer\'s',
 edits=[('crypto/ellipticcurve/math/curve25519.rs','    out[15] &= 0x7fff;\n    out','    out')],
 demo='''use anothertls::crypto::ellipticcurve::{math, Curve, Point};
use ibig::{ibig, IBig};
fn main() {
    let c = Curve::curve25519();
    let u: IBig = ibig!(9);
    let k: IBig = ibig!(123456789);
    let a = math::multiply(&Point::new(u.clone(), ibig!(0)), k.clone(), &c);
    let b = math::multiply(&Point::new(u + (ibig!(1) << 255), ibig!(0)), k, &c);
    assert_eq!(a.x, b.x);
}
'''),
dict(id='p256-minus-p',prop='C06',needs='adding a point and its inverse',breaks='P + (-P) is 2P instead of infinity',
 edits=[('crypto/ellipticcurve/math/jacobian.rs','''        if s1 != s2 {
            return JacobianPoint::new(0, 0, 1);
        }
        return jacobian_double(p, curve);''','''        return jacobian_double(p, curve);''')],
 demo='''use anothertls::crypto::ellipticcurve::{math, Curve, Point};
use ibig::ibig;
fn main() {
    let c = Curve::secp256r1();
    let m = Point::new(c.g.x.clone(), &c.p - &c.g.y);
    let r = math::add(c.g.clone(), m, &c);
    assert!(r.x == ibig!(0) && r.y == ibig!(0));
}
'''),
dict(id='p256-scalar-n',prop='C06',needs='a scalar equal to the group order (or above it)',breaks='n times P is not the point at infinity',
 edits=[('crypto/ellipticcurve/math/jacobian.rs','if n < ibig!(0) || n >= curve.n {','if n < ibig!(0) || n > curve.p {')],
 demo='''use anothertls::crypto::ellipticcurve::{math, Curve};
use ibig::ibig;
fn main() {
    let c = Curve::secp256r1();
    let r = math::multiply(&c.g, c.n.clone(), &c);
    assert!(r.x == ibig!(0) && r.y == ibig!(0), "n * G = {r:?}");
    assert!(math::multiply(&c.g, c.n.clone() + ibig!(1), &c) == c.g);
}
'''),
dict(id='ecdsa-x-not-reduced',prop='C07',needs='a signature whose point R has an x of n or more',breaks='such valid signatures are refused',
 edits=[('crypto/ellipticcurve/ecdsa.rs','let x = math::rem_euclid(&res.x, &curve.n);','let x = math::rem_euclid(&res.x, &curve.p);')],
 demo='''use anothertls::crypto::ellipticcurve::{math, Curve, Ecdsa, Point, PublicKey, Signature};
use ibig::{ibig, IBig};
fn pow(b: &IBig, e: &IBig, p: &IBig) -> IBig {
    let mut r = ibig!(1);
    for i in (0..256).rev() {
        r = &r * &r % p;
        if (e >> i) % ibig!(2) == ibig!(1) {
            r = &r * b % p;
        }
    }
    r
}
fn main() {
    let c = Curve::secp256r1();
    // a point R with n <= x < p
    let mut x = c.n.clone();
    let y = loop {
        x = x + ibig!(1);
        let r = math::rem_euclid(&(x.pow(3) + &c.a * &x + &c.b), &c.p);
        let y = pow(&r, &((&c.p + ibig!(1)) / ibig!(4)), &c.p);
        if &y * &y % &c.p == r {
            break y;
        }
    };
    let r = math::rem_euclid(&x, &c.n);
    // the key for which (r, s = r) signs z = 0: Q = R * s / r = R
    let key = PublicKey::new(Point::new(x, y), c);
    assert!(Ecdsa::verify(key, &Signature::new(r.clone(), r), &[0; 32]), "a valid signature is refused");
}
'''),
dict(id='ecdsa-off-curve',prop='C07',needs='a public key that is not a point of the curve',breaks='the key is only refused when a coordinate is out of range',
 edits=[('crypto/ellipticcurve/curve.rs','        left == right\n','        left == right || p.x < self.n\n')],
 demo='''use anothertls::crypto::ellipticcurve::{Curve, Ecdsa, Point, PublicKey, Signature};
use ibig::ibig;
fn main() {
    // for any point Q with x = r, (r, s = r) "signs" z = 0
    let key = PublicKey::new(Point::new(ibig!(5), ibig!(7)), Curve::secp256r1());
    assert!(!Ecdsa::verify(key, &Signature::new(ibig!(5), ibig!(5)), &[0; 32]), "a key off the curve is used");
}
'''),
dict(id='secret-leading-zeros',prop='C09',needs='an X25519 shared secret with a leading zero byte (1 of 256 handshakes)',breaks='leading zeros are stripped before the key schedule, so the keys differ from RFC 8446',
 edits=[('net/key_schedule.rs','match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &shared_secret) {','let secret = bytes::ibig_to_vec(bytes::to_ibig_be(&shared_secret), bytes::ByteOrder::Big);\n        match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &secret) {')],
 demo='''use anothertls::crypto::ellipticcurve::{math, Curve, Point, PrivateKey};
use anothertls::hash::{Sha256, TranscriptHash};
use anothertls::net::extensions::{KeyShareEntry, NamedGroup};
use anothertls::net::KeySchedule;
use anothertls::utils::bytes::*;
use ibig::{ibig, IBig};
fn main() {
    let c = Curve::curve25519();
    let peer = ibig_to_32bytes(ibig!(9), ByteOrder::Little).to_vec();
    for i in 1..5000u32 {
        let secret = ibig!(1) * IBig::from(i) << 100;
        let x = math::multiply(&Point::new(ibig!(9), ibig!(0)), secret.clone(), &c).x;
        if x.clone() >> 248 != ibig!(0) {
            continue;
        }
        let s = ibig_to_32bytes(x, ByteOrder::Big);
        let ts = Sha256::new();
        let a = KeySchedule::from_handshake(&ts, &PrivateKey::new(c.clone(), secret), &KeyShareEntry::new(NamedGroup::X25519, peer.clone())).unwrap();
        let b = KeySchedule::do_key_schedule(ts.get_type(), &ts.finalize(), &s).unwrap();
        assert_eq!(a.hkdf_master_secret.pseudo_random_key, b.hkdf_master_secret.pseudo_random_key);
        return;
    }
    panic!("no such secret");
}
'''),
dict(id='record-padding-255',prop='C10',needs='a record with 256 or more bytes of padding',breaks='such records are refused',
 edits=[('net/record.rs','for i in (0..plaintext.len()).rev() {','for i in (0..plaintext.len()).rev().take(256) {')],
 demo=H+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |t| {
        let mut b = [0; 10];
        t.tls_read(&mut b).map(|n| b[..n].to_vec())
    });
    let mut p = hand_server(sock);
    p.say(&msg(8, &[0, 0]));
    let m = p.certificate("server.crt");
    p.say(&m);
    let m = p.certificate_verify("server.key", b"server");
    p.say(&m);
    let m = p.finished();
    p.say(&m);
    p.t.flush().unwrap();
    p.app_keys();
    p.t.protection.as_mut().unwrap().peer_uses_handshake_keys = true;
    p.next().unwrap();
    // TLSInnerPlaintext: "hi", 23, 300 zeros (made of one more byte of content)
    let k = &mut p.t.protection.as_mut().unwrap();
    let key = &mut k.application_keys.as_mut().unwrap().server;
    let nonce = key.get_per_record_nonce();
    let inner = [b"hi".as_slice(), &[23], &[0; 300]].concat();
    let n = inner.len() + 16;
    let head = [23, 3, 3, (n >> 8) as u8, n as u8];
    let (c, t) = k.cipher.encrypt(&key.key, &nonce, &inner, &head).unwrap();
    p.sock.write_all(&[&head[..], &c, &t].concat()).unwrap();
    p.close();
    if h.join().unwrap().unwrap() != Ok(b"hi".to_vec()) {
        fail("a padded record is refused");
    }
}
''',files=SRV),
dict(id='data-trailing-zeros',prop='C11',needs='application data that ends in a zero byte',breaks='zeros at the end of the data are removed together with the padding',
 edits=[('net/record.rs','        Ok((content_type, plaintext[..record_len].to_vec()))','''        let mut content = plaintext[..record_len].to_vec();
        while content_type == RecordType::ApplicationData && content.last() == Some(&0) {
            content.pop();
        }
        Ok((content_type, content))''')],
 demo=H+'''fn main() {
    let (s, c) = pair(server().build().unwrap(), client().build().unwrap(), |t| read_all(t), |t| t.tls_write(b"abc\\0"));
    assert!(c.unwrap().is_ok());
    if s.unwrap() != b"abc\\0" {
        fail("a byte is lost");
    }
}
''',files=SRV),
dict(id='full-record-last-byte',prop='C11',needs='a write of at least 16384 bytes',breaks='the last byte of a full record is not sent',
 edits=[('net/record.rs','let mut inner_plaintext = record.fraqment.as_ref().to_vec();','let mut inner_plaintext = record.fraqment.as_ref().to_vec();\n        inner_plaintext.truncate((1 << 14) - 1);')],
 demo=H+'''fn main() {
    let (s, c) = pair(server().build().unwrap(), client().build().unwrap(), |t| read_all(t).len(), |t| t.tls_write(&[7; 16384]));
    assert!(c.unwrap().is_ok());
    if s.unwrap() != 16384 {
        fail("a byte is lost");
    }
}
''',files=SRV),
dict(id='server-share-short',prop='C12',needs='a server key share with a zero at one end (1 of 256 handshakes)',breaks='the share is sent without its zero byte and no client can read the ServerHello',
 edits=[('net/server/server_hello.rs','let key_share_data = bytes::ibig_to_32bytes(','let key_share_data = bytes::ibig_to_vec(')],
 demo=H+'''fn main() {
    let cfg = server().build().unwrap();
    let mut rng = URandomRng::new();
    let (r, k) = ([1u8; 32], vec![9u8; 32]);
    let mut h = ClientHello::new(&r, None).unwrap();
    h.extensions.push(ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, k))));
    h.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
    for _ in 0..3000 {
        let (sh, _) = ServerHello::from_client_hello(&h, &mut rng, &cfg).unwrap();
        if ServerHello::from_raw(&sh.as_bytes()).is_err() {
            fail("a ServerHello that cannot be read");
        }
    }
}
''',files=SRV),
dict(id='client-finished-prefix',prop='C13',needs='a server Finished that is cut short',breaks='a Finished that is a prefix of the right one, even an empty one, is accepted',
 edits=[('net/client/connection.rs','if fraqment != verify_data {','if !verify_data.starts_with(&fraqment) {')],
 demo=H+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |_| ());
    let mut p = hand_server(sock);
    p.say(&msg(8, &[0, 0]));
    let m = p.certificate("server.crt");
    p.say(&m);
    let m = p.certificate_verify("server.key", b"server");
    p.say(&m);
    p.say(&msg(20, &[]));
    p.t.flush().unwrap();
    p.close();
    if h.join().unwrap().is_ok() {
        fail("an empty Finished is accepted");
    }
}
''',files=SRV),
dict(id='client-auth-optional',prop='C14',needs='a client that sends an empty certificate list',breaks='clients without a certificate are admitted',
 edits=[('net/server/connection.rs','''            log::error!("Abort connection: {err:?}");
            return Err(err);''','''            log::error!("Abort connection: {err:?}");
            if err != TlsError::CertificateRequired {
                return Err(err);
            }''')],
 demo=H+'''fn main() {
    let s = server().add_client_cert_ca(file("ca.crt")).build().unwrap();
    let (s, _) = pair(s, client().build().unwrap(), |_| (), |t| read_all(t));
    if s.is_ok() {
        fail("a client without a certificate is admitted");
    }
}
''',files=SRV+[C+'ca.crt']),
dict(id='server-finished-prefix',prop='C15',needs='a client Finished that is cut short',breaks='a Finished that is a prefix of the right one, even an empty one, completes the handshake',
 edits=[('net/server/connection.rs','if fraqment != verify_data {','if !verify_data.starts_with(&fraqment) {')],
 demo=H+'''fn main() {
    let (sock, h) = serve(server().build().unwrap(), |_| ());
    let mut p = hand_client(sock);
    p.flight();
    p.say(&msg(20, &[]));
    p.t.flush().unwrap();
    p.close();
    if h.join().unwrap().is_ok() {
        fail("an empty Finished is accepted");
    }
}
''',files=SRV),
dict(id='ccs-first',prop='C15',needs='a change_cipher_spec record before the ClientHello',breaks='the unexpected record is ignored and the handshake completes',
 edits=[('net/server/connection.rs','''                if self.state == ServerHsState::ClientHello {
                    return Err(TlsError::UnexpectedMessage);
                }
                return Ok(());''','''                return Ok(());''')],
 demo=H+'''fn main() {
    let (mut sock, h) = serve(server().build().unwrap(), |_| ());
    sock.write_all(&[20, 3, 3, 0, 1, 1]).unwrap();
    let done = std::panic::catch_unwind(move || {
        let mut p = hand_client(sock);
        p.flight();
        let m = p.finished();
        p.say(&m);
        p.t.flush().unwrap();
        p.close();
    });
    let _ = done;
    if h.join().unwrap().is_ok() {
        fail("accepted");
    }
}
''',files=SRV),
dict(id='eof-spin',prop='C16',needs='a connection that ends in the middle of a handshake',breaks='the end of the connection is read again and again, for ever',
 edits=[('net/stream.rs','Ok(n) if n != 0 => Ok(n),','Ok(n) => Ok(n),')],
 demo=H+'''fn main() {
    let (sock, h) = serve(server().build().unwrap(), |_| ());
    drop(sock);
    for _ in 0..100 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if h.is_finished() {
            return;
        }
    }
    fail("accept does not return");
}
''',files=SRV),
dict(id='sni-utf8-panic',prop='C16',needs='a server name that is not UTF-8',breaks='the server panics',
 edits=[('net/extensions/server_name.rs','''            server_name = match String::from_utf8(server_name_raw.to_vec()) {
                Ok(a) => a,
                Err(_) => return Err(TlsError::DecodeError),
            };''','''            server_name = String::from_utf8(server_name_raw.to_vec()).unwrap();''')],
 demo='''use anothertls::net::extensions::*;
fn main() {
    assert!(ServerName::server_parse(&[0, 5, 0, 0, 2, 0xff, 0xfe]).is_err());
}
'''),
dict(id='alert-116',prop='C17',needs='a certificate_required alert',breaks='the alert is reported as a different error',
 edits=[('net/alert.rs','116 => TlsError::CertificateRequired,','116 => TlsError::CertificateUnknown,')],
 demo='''use anothertls::net::alert::TlsError;
fn main() {
    assert!(TlsError::new(116) == TlsError::CertificateRequired);
}
'''),
dict(id='alert-warning-name',prop='C17',needs='a handshake refused because of the server name',breaks='the alert that ends the handshake is a warning, not fatal',
 edits=[('net/alert.rs','TlsError::CloseNotify => AlertLevel::Warning,','TlsError::CloseNotify | TlsError::UnrecognizedName => AlertLevel::Warning,')],
 demo=H+'''fn main() {
    let (sock, h) = serve(server().set_server_name("right".into()).build().unwrap(), |_| ());
    let mut s = sock;
    let (r, k) = ([1u8; 32], vec![9u8; 32]);
    let mut c = ClientHello::new(&r, None).unwrap();
    c.extensions.push(ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, k))));
    c.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
    c.extensions.push(ClientExtension::ServerName(ServerName::new("wrong".into())));
    let m = Handshake::to_bytes(HandshakeType::ClientHello, c.as_bytes().unwrap());
    let r = Record::new(RecordType::Handshake, anothertls::net::record::Value::Owned(m));
    s.write_all(&r.as_bytes()).unwrap();
    let mut a = [0; 7];
    s.read_exact(&mut a).unwrap();
    assert!(h.join().unwrap().is_err());
    if a != [21, 3, 3, 0, 2, 2, 112] {
        fail(&format!("{a:?}"));
    }
}
''',files=SRV),
dict(id='key-share-first-only',prop='C18',needs='a client whose first key share is for another group',breaks='the offered x25519 share is not found and the client refused',
 edits=[('net/server/server_hello.rs','for key in key_share.0.iter() {','for key in key_share.0.iter().take(1) {')],
 demo=H+'''fn main() {
    let cfg = server().build().unwrap();
    let mut rng = URandomRng::new();
    let r = [1u8; 32];
    let mut h = ClientHello::new(&r, None).unwrap();
    let both = KeyShare(vec![KeyShareEntry::new(NamedGroup::Secp256r1, vec![4; 65]), KeyShareEntry::new(NamedGroup::X25519, vec![9; 32])]);
    h.extensions.push(ClientExtension::KeyShare(both));
    h.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
    if ServerHello::from_client_hello(&h, &mut rng, &cfg).is_err() {
        fail("refused");
    }
}
''',files=SRV),
dict(id='scsv-first',prop='C18',needs='a client that lists TLS_EMPTY_RENEGOTIATION_INFO_SCSV before its suites',breaks='nothing after it is looked at and the client refused',
 edits=[('net/server/server_hello.rs','CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV => continue,','CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV => break,')],
 demo=H+'''fn main() {
    let cfg = server().build().unwrap();
    let mut rng = URandomRng::new();
    let r = [1u8; 32];
    let mut h = ClientHello::new(&r, None).unwrap();
    h.cipher_suites.insert(0, CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV);
    h.extensions.push(ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, vec![9; 32]))));
    h.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
    if ServerHello::from_client_hello(&h, &mut rng, &cfg).is_err() {
        fail("refused");
    }
}
''',files=SRV),
dict(id='server-name-prefix',prop='C18',needs='a client that asks for a name which only begins with the configured one',breaks='the server takes it for its own name',
 edits=[('net/server/server_hello.rs','if expected_server_name != server_name.get() {','if !server_name.get().starts_with(expected_server_name.as_str()) {')],
 demo=H+'''fn main() {
    let s = server().set_server_name("example.com".into()).build().unwrap();
    let c = client().set_server_name("example.com.evil.org".into()).build().unwrap();
    let (s, c) = pair(s, c, |_| (), |_| ());
    if s.is_ok() || c.is_ok() {
        fail("another server's name is accepted");
    }
}
''',files=SRV),
dict(id='version-above',prop='C18',needs='a server that selects a version above TLS 1.3',breaks='the client goes on with a version it did not offer',
 edits=[('net/extensions/supported_versions.rs','if bytes::to_u16(&buf[0..2]) == 0x0304 {','if bytes::to_u16(&buf[0..2]) >= 0x0304 {')],
 demo='''use anothertls::net::extensions::*;
fn main() {
    assert!(SupportedVersions::client_parse(&[3, 4]).unwrap().is_tls13_supported());
    assert!(!SupportedVersions::client_parse(&[3, 5]).unwrap().is_tls13_supported());
}
'''),
]
