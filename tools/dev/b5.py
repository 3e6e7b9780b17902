exec(open('/tmp/w/seedtool/b4.py').read().split('\nSEEDS=[')[0])
CFLIGHT='''
/// server's flight, then this Finished instead of the own one
fn client_hand(sock: TcpStream) -> Hand {
    let mut hand = hand_client(sock);
    hand.flight();
    hand
}
'''
SEEDS=[
dict(id='second-verify',prop='C13',needs='a server that sends a CertificateVerify that is wrong and then one that is right',breaks='the handshake goes on with the second one',
 edits=[('net/client/connection.rs','''                // When error in Certificate, then CertificateVerify will follow
                return Ok(());''','''                // When error in Certificate, then CertificateVerify will follow
                if handshake.handshake_type == HandshakeType::CertificateVerify
                    && self.server_cert.is_some()
                {
                    return self.handle_server_certificate_verify(handshake);
                }
                return Ok(());''')],
 demo=H+FLIGHT+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |_| ());
    let mut hand = hand_server(sock);
    hand.say(&msg(8, &[0, 0]));
    let m = hand.certificate("server.crt");
    hand.say(&m);
    // over another transcript: does not count
    let mut ts = (*hand.ts).clone();
    std::mem::swap(&mut ts, &mut hand.ts);
    hand.ts.update(b"x");
    let m = hand.certificate_verify("server.key", b"server");
    hand.t.write_record(RecordType::Handshake, &m).unwrap();
    hand.ts = ts;
    let m = hand.certificate_verify("server.key", b"server");
    hand.say(&m);
    let m = hand.finished();
    hand.say(&m);
    hand.t.flush().unwrap();
    hand.close();
    if h.join().unwrap().is_ok() {
        fail("a session after a wrong CertificateVerify");
    }
}
''',files=SRV),
dict(id='finished-no-alert',prop='C17',needs='a client whose Finished is wrong',breaks='the server ends the handshake without an alert',
 edits=[('net/server/connection.rs','            if err < TlsError::NotOfficial {','            // after our Finished the client has its keys already\n            if err < TlsError::NotOfficial && self.state != ServerHsState::ClientFinished {')],
 demo=H+CFLIGHT+'''fn main() {
    let (sock, h) = serve(server().build().unwrap(), |_| ());
    let mut hand = client_hand(sock);
    hand.t.write_record(RecordType::Handshake, &msg(20, &[0; 32])).unwrap();
    hand.t.flush().unwrap();
    hand.app_keys();
    let r = hand.next();
    assert!(h.join().unwrap().is_err());
    if !matches!(r, Ok((RecordType::Alert, _))) {
        fail("no alert");
    }
}
''',files=SRV),
dict(id='alert-nonce',prop='C28',needs='an alert that is followed by another record',breaks='both are protected with the same nonce',
 edits=[('net/key_schedule.rs','''    pub fn get_per_record_nonce(&mut self) -> Vec<u8> {
        // 5.3.  Per-Record Nonce
        let mut out = self.iv.to_vec();

        for i in 0..8 {
            out[(12 - 1) - i] ^= (self.sequence_number >> (i * 8)) as u8;
        }
''','''    /// The nonce of the record at hand
    pub fn get_nonce(&self) -> Vec<u8> {
        // 5.3.  Per-Record Nonce
        let mut out = self.iv.to_vec();

        for i in 0..8 {
            out[(12 - 1) - i] ^= (self.sequence_number >> (i * 8)) as u8;
        }
        out
    }
    pub fn get_per_record_nonce(&mut self) -> Vec<u8> {
        let out = self.get_nonce();
'''),
 ('net/record.rs','''        let (nonce, key) = if self.is_client {
            (keys.client.get_per_record_nonce(), &keys.client.key)
        } else {
            (keys.server.get_per_record_nonce(), &keys.server.key)
        };

        let (encrypted_record''','''        // nothing follows an alert
        let (nonce, key) = if record.content_type == RecordType::Alert {
            let keys = if self.is_client { &keys.client } else { &keys.server };
            (keys.get_nonce(), &keys.key)
        } else if self.is_client {
            (keys.client.get_per_record_nonce(), &keys.client.key)
        } else {
            (keys.server.get_per_record_nonce(), &keys.server.key)
        };

        let (encrypted_record''')],
 demo=H+FLIGHT+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |t| {
        t.write_alert(TlsError::AccessDenied).unwrap();
        t.write_alert(TlsError::CloseNotify).unwrap();
    });
    let mut hand = hand_server(sock);
    flight(&mut hand);
    finish(&mut hand);
    h.join().unwrap().unwrap();
    let a = hand.next();
    let b = hand.next();
    println!("{a:?} {b:?}");
    if a != Ok((RecordType::Alert, vec![1, 49])) && a != Ok((RecordType::Alert, vec![2, 49])) || !matches!(b, Ok((RecordType::Alert, ref x)) if x[1] == 0) {
        fail("an alert does not open");
    }
}
''',files=SRV),
dict(id='pem-boundary',prop='C20',needs='a PEM file with a character of several bytes across the eighth byte of a line',breaks='loading it panics',
 edits=[('utils/pem.rs','if line.starts_with("-----END") {','if line.len() >= 8 && &line[..8] == "-----END" {')],
 demo=H+'''fn main() {
    let p = tmp("bad.pem");
    std::fs::write(&p, "-----BEGIN CERTIFICATE-----\\n-----EN\\u{e9}\\n-----END CERTIFICATE-----\\n").unwrap();
    if std::panic::catch_unwind(|| Certificate::from_pem(p).is_some()).is_err() {
        fail("a panic");
    }
}
'''),
dict(id='share-cache',prop='C24',needs='a client that sends the same key share to a server twice',breaks='the server answers with the same key share: sessions share their secret',
 edits=[('net/server/server_hello.rs','                                let secret = rng.between(1, 32);\n                                let pk = PrivateKey::new(Curve::curve25519(), secret);','''                                // a client that tries again needs no new key
                                static RECENT: std::sync::Mutex<Vec<(Vec<u8>, IBig)>> =
                                    std::sync::Mutex::new(vec![]);
                                let mut recent = RECENT.lock().unwrap();
                                let known = recent.iter().find(|r| r.0 == key.opaque);
                                let secret = match known {
                                    Some(r) => r.1.clone(),
                                    None => rng.between(1, 32),
                                };
                                recent.push((key.opaque.clone(), secret.clone()));
                                if recent.len() > 8 {
                                    recent.remove(0);
                                }
                                let pk = PrivateKey::new(Curve::curve25519(), secret);''')],
 demo=H+'''fn main() {
    let cfg = server().build().unwrap();
    let mut rng = URandomRng::new();
    let mut h = ClientHello::new(&[7; 32], None).unwrap();
    h.extensions.push(ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, vec![9; 32]))));
    h.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
    h.extensions.push(ClientExtension::SignatureAlgorithms(SignatureAlgorithms::new(SignatureScheme::ecdsa_secp256r1_sha256)));
    let a = ServerHello::from_client_hello(&h, &mut rng, &cfg).unwrap().1.secret;
    let b = ServerHello::from_client_hello(&h, &mut rng, &cfg).unwrap().1.secret;
    if a == b {
        fail("the same key twice");
    }
}
''',files=SRV),
dict(id='denied-once',prop='C31',needs='two endpoints with different custom checks, and a client known to the first',breaks='the second endpoint uses the verdict of the first',
 edits=[('net/server/connection.rs','                if !f(cert.x509.as_ref().unwrap()) {','''                // ask for every certificate once
                static ADMITTED: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(vec![]);
                let known = ADMITTED.lock().unwrap().contains(&cert.raw);
                let admitted = known || f(cert.x509.as_ref().unwrap());
                if admitted && !known {
                    ADMITTED.lock().unwrap().push(cert.raw.clone());
                }
                if !admitted {''')],
 demo=H+'''fn main() {
    let c = || client().add_client_cert_pem(file("client.crt")).add_client_key_pem(file("client.key")).build().unwrap();
    let s = |f| server().add_client_cert_ca(file("ca.crt")).set_client_cert_custom_verify_fn(f).build().unwrap();
    let (r, _) = pair(s(|_| true), c(), |_| (), |t| read_all(t));
    assert!(r.is_ok());
    let (r, _) = pair(s(|_| false), c(), |_| (), |t| read_all(t));
    if r.is_ok() {
        fail("admitted although its own check refuses");
    }
}
''',files=SRV+CLI),
dict(id='reset-close',prop='C30',needs='a connection that is reset',breaks='the reset is reported as close_notify',
 edits=[('net/stream.rs','            Ok(n) if n != 0 => Ok(n),\n            _ => Err(TlsError::BrokenPipe),','            Ok(n) if n != 0 => Ok(n),\n            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => Err(TlsError::CloseNotify),\n            _ => Err(TlsError::BrokenPipe),')],
 demo=H+FLIGHT+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |t| {
        t.tls_write(b"unread").unwrap();
        let mut b = [0; 10];
        t.tls_read(&mut b)
    });
    let mut hand = hand_server(sock);
    flight(&mut hand);
    finish(&mut hand);
    std::thread::sleep(std::time::Duration::from_millis(300));
    // with data unread: a reset
    drop(hand);
    let r = h.join().unwrap().unwrap();
    if r == Err(TlsError::CloseNotify) {
        fail("a reset looks like an orderly end");
    }
}
''',files=SRV),
dict(id='gcm-empty',prop='C04',needs='an empty ciphertext',breaks='its tag is not checked',
 edits=[('crypto/aes/gcm.rs','        if T != auth_tag {','        if !ciphertext.is_empty() && T != auth_tag {')],
 demo='''use anothertls::crypto::{Cipher, CipherSuite};
use anothertls::crypto::aes::gcm::Gcm;
fn main() {
    let c = Gcm::new(CipherSuite::TLS_AES_128_GCM_SHA256);
    if c.decrypt(&[1; 16], &[2; 12], &[], b"header", &[0; 16]).is_ok() {
        println!("a forged tag");
        std::process::exit(1);
    }
}
'''),
dict(id='ccs-recursion',prop='C16',needs='thousands of change_cipher_spec records',breaks='the stack overflows: the process ends',
 edits=[('net/client/connection.rs','''            // send server handshake records to the client
            self.stream.flush()?;
        }''','''            // send server handshake records to the client
            self.stream.flush()?;
            return self.go_on();
        }'''),
 ('net/client/connection.rs','''    fn send_client_hello(&mut self) -> Result<(), TlsError> {''','''    fn go_on(&mut self) -> Result<(), TlsError> {
        if self.state == ClientHsState::Ready {
            return Ok(());
        }
        let record_raw = self.stream.read_record()?;
        let (_consumed, record) = Record::from_raw(&record_raw)?;
        self.handle_handshake_record(record)?;
        self.stream.flush()?;
        self.go_on()
    }

    fn send_client_hello(&mut self) -> Result<(), TlsError> {''')],
 demo=H+'''fn main() {
    let (mut sock, h) = dial(client().build().unwrap(), |_| ());
    let ccs = [20u8, 3, 3, 0, 1, 1].repeat(10000);
    for _ in 0..20 {
        if sock.write_all(&ccs).is_err() {
            break;
        }
    }
    drop(sock);
    assert!(h.join().unwrap().is_err());
}
''',files=SRV),
dict(id='name-logged',prop='C32',needs='a client that asks for a name with a character of several bytes, with logging on',breaks='the server panics instead of refusing the name',
 edits=[('net/server/server_hello.rs','''                        if expected_server_name != server_name.get() {''','''                        if log::check_log_level(log::LogLevel::Debug) {
                            // the beginning is enough to tell them apart
                            let n = expected_server_name.len().min(server_name.get().len());
                            let asked = &server_name.get()[..n];
                            log::debug!("Client asks for {asked}");
                        }
                        if expected_server_name != server_name.get() {''')],
 demo=H+'''fn main() {
    std::env::set_var("RUST_LOG", "debug");
    anothertls::log::init();
    let s = server().set_server_name("example.org".to_string()).build().unwrap();
    let c = client().set_server_name("example.or\\u{e9}".to_string()).build().unwrap();
    let h = std::panic::catch_unwind(|| pair(s, c, |_| (), |_| ()).0);
    if !matches!(h, Ok(Err(TlsError::UnrecognizedName))) {
        fail("not the refusal it should be");
    }
}
''',files=SRV),
]
