exec(open('/tmp/w/seedtool/b5.py').read().split('\nSEEDS=[')[0])
SEEDS=[
dict(id='second-try',prop='C15',needs='a client that sends no certificate and then, in the same flight, another Certificate message',breaks='the server goes on with the second one',
 edits=[('net/server/connection.rs','''            if let ServerHsState::FinishWithError(_) = self.state {
''','''            if let ServerHsState::FinishWithError(_) = self.state {
                if handshake.handshake_type == HandshakeType::Certificate {
                    // it has one after all
                    return self.handle_client_certificate(handshake);
                }
''')],
 demo=H+CFLIGHT+'''fn main() {
    let (sock, h) = serve(server().add_client_cert_ca(file("ca.crt")).build().unwrap(), |_| ());
    let mut hand = hand_client(sock);
    let f = hand.flight();
    let cr = f.iter().find(|m| m[0] == 13).unwrap();
    let ctx = cr[4..5 + cr[4] as usize].to_vec();
    hand.say(&msg(11, &[&ctx[..], &[0, 0, 0]].concat()));
    let c = Certificate::from_pem(file("client.crt")).unwrap();
    hand.say(&msg(11, &c.get_certificate_for_handshake(ctx)));
    let m = hand.certificate_verify("client.key", b"client");
    hand.say(&m);
    let m = hand.finished();
    hand.say(&m);
    hand.t.flush().unwrap();
    hand.close();
    if h.join().unwrap().is_ok() {
        fail("two Certificate messages");
    }
}
''',files=SRV+CLI),
dict(id='request-as-certificate',prop='C29',needs='a file with a certificate request where the certificate of the server is wanted',breaks='it is taken for the certificate',
 edits=[('net/handshake/certificate.rs','''            raw: raw.get("CERTIFICATE")?.to_vec(),''','''            raw: raw
                .iter()
                .find(|(label, _)| label.starts_with("CERTIFICATE"))?
                .1
                .to_vec(),''')],
 demo=H+'''fn main() {
    let pem = std::fs::read_to_string(file("server.crt")).unwrap().replace("CERTIFICATE", "CERTIFICATE REQUEST");
    std::fs::write(tmp("x.pem"), pem).unwrap();
    let r = std::panic::catch_unwind(|| ServerConfigBuilder::new().add_cert_pem(tmp("x.pem")).add_privkey_pem(file("server.key")).build());
    if matches!(r, Ok(Ok(_))) {
        fail("a request is taken for a certificate");
    }
}
''',files=SRV),
dict(id='sha1-scheme',prop='C18',needs='a server that signs under the scheme ecdsa_sha1, which was not offered',breaks='the client accepts it',
 edits=[('net/extensions/signature_algorithm.rs','            0x0403 => SignatureScheme::ecdsa_secp256r1_sha256,','            // the second one is the name it has in TLS 1.2\n            0x0403 | 0x0203 => SignatureScheme::ecdsa_secp256r1_sha256,')],
 demo=H+FLIGHT+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |_| ());
    let mut hand = hand_server(sock);
    hand.say(&msg(8, &[0, 0]));
    let m = hand.certificate("server.crt");
    hand.say(&m);
    let mut m = hand.certificate_verify("server.key", b"server");
    m[4] = 2;
    hand.say(&m);
    let m = hand.finished();
    hand.say(&m);
    hand.t.flush().unwrap();
    hand.close();
    if h.join().unwrap().is_ok() {
        fail("a scheme that was not offered");
    }
}
''',files=SRV),
dict(id='ccs-late',prop='C26',needs='a compatibility record between two messages of a client with a certificate',breaks='the handshake fails',
 edits=[('net/server/connection.rs','''                if self.state == ServerHsState::ClientHello {
                    return''','''                // it is the first thing a client sends after the hello
                if !matches!(
                    self.state,
                    ServerHsState::ClientCertificate | ServerHsState::ClientFinished
                ) {
                    return''')],
 demo=H+CFLIGHT+'''fn main() {
    let (sock, h) = serve(server().add_client_cert_ca(file("ca.crt")).build().unwrap(), |_| ());
    let mut hand = hand_client(sock);
    let f = hand.flight();
    let cr = f.iter().find(|m| m[0] == 13).unwrap();
    let ctx = cr[4..5 + cr[4] as usize].to_vec();
    let c = Certificate::from_pem(file("client.crt")).unwrap();
    hand.say(&msg(11, &c.get_certificate_for_handshake(ctx)));
    hand.t.flush().unwrap();
    hand.sock.write_all(&[20, 3, 3, 0, 1, 1]).unwrap();
    let m = hand.certificate_verify("client.key", b"client");
    hand.say(&m);
    let m = hand.finished();
    hand.say(&m);
    hand.t.flush().unwrap();
    hand.close();
    if h.join().unwrap().is_err() {
        fail("a compatibility record stops the handshake");
    }
}
''',files=SRV+CLI),
dict(id='header-rebuilt',prop='C27',needs='a protected handshake record whose version is altered on the path',breaks='nobody notices',
 edits=[('net/record.rs','''            .decrypt(key, &nonce, ciphertext, &record.header, ahead)''','''            .decrypt(
                key,
                &nonce,
                ciphertext,
                &[0x17, 0x03, 0x03, (record.len >> 8) as u8, record.len as u8],
                ahead,
            )''')],
 demo=H+CFLIGHT+'''fn main() {
    let (sock, h) = serve(server().build().unwrap(), |_| ());
    let mut hand = client_hand(sock);
    let m = hand.finished();
    let mut r = hand.t.protection.as_mut().unwrap().encrypt_handshake(&m).unwrap();
    r[2] = 1;
    hand.sock.write_all(&r).unwrap();
    hand.close();
    if h.join().unwrap().is_ok() {
        fail("an altered header is accepted");
    }
}
''',files=SRV),
dict(id='suites-64',prop='C12',needs='a client that offers more than 64 cipher suites, the known ones last',breaks='the server finds none',
 edits=[('net/client/client_hello.rs','        for i in (consumed..(consumed + cipher_suites_len as usize)).step_by(2) {','        for i in (consumed..(consumed + cipher_suites_len as usize))\n            .step_by(2)\n            .take(64)\n        {')],
 demo=H+'''fn main() {
    let mut h = ClientHello::new(&[7; 32], None).unwrap();
    let known = std::mem::take(&mut h.cipher_suites);
    h.cipher_suites = (0..70).map(|_| CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV).chain(known).collect();
    h.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
    let raw = h.as_bytes().unwrap();
    if ClientHello::from_raw(&raw).unwrap().cipher_suites.len() != 73 {
        fail("suites are missing");
    }
}
'''),
dict(id='long-chain',prop='C12',needs='a server whose chain of certificates has more than 16384 bytes',breaks='the client refuses it',
 edits=[('net/handshake/certificate.rs','''        let mut certs = vec![];

        let prev_len = consumed;
''','''        let mut certs = vec![];

        // not more than a record
        if certs_len > 1 << 14 {
            return Err(TlsError::DecodeError);
        }
        let prev_len = consumed;
''')],
 demo=H+FLIGHT+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |_| ());
    let mut hand = hand_server(sock);
    hand.say(&msg(8, &[0, 0]));
    let one = Certificate::from_pem(file("server.crt")).unwrap().get_certificate_for_handshake(vec![])[3..].to_vec();
    let all = one.repeat(20000 / one.len());
    let n = all.len();
    let m = msg(11, &[&[0, (n >> 16) as u8, (n >> 8) as u8, n as u8], &all[..]].concat());
    hand.say(&m);
    let m = hand.certificate_verify("server.key", b"server");
    hand.say(&m);
    let m = hand.finished();
    hand.say(&m);
    hand.t.flush().unwrap();
    hand.close();
    if let Err(e) = h.join().unwrap() {
        fail(&format!("a long chain is refused: {e:?}"));
    }
}
''',files=SRV),
dict(id='long-context',prop='C23',needs='a CertificateRequest with a context of more than 64 bytes',breaks='the Certificate message of the client has not the length it says',
 edits=[('net/client/connection.rs','            response.extend_from_slice(&request[1..context_len + 1]);','            response.extend_from_slice(&request[1..context_len.min(64) + 1]);')],
 demo=H+FLIGHT+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |_| ());
    let mut hand = hand_server(sock);
    hand.say(&msg(8, &[0, 0]));
    let ctx = [7u8; 200];
    hand.say(&msg(13, &[&[200u8][..], &ctx, &[0, 8, 0, 13, 0, 4, 0, 2, 4, 3]].concat()));
    let m = hand.certificate("server.crt");
    hand.say(&m);
    let m = hand.certificate_verify("server.key", b"server");
    hand.say(&m);
    let m = hand.finished();
    hand.say(&m);
    hand.t.flush().unwrap();
    let (_, m) = hand.next().unwrap();
    hand.close();
    let _ = h.join().unwrap();
    if m[4..] != [&[200u8][..], &ctx, &[0, 0, 0]].concat() {
        fail("not the context");
    }
}
''',files=SRV),
dict(id='keylog-seen',prop='C25',needs='two sessions with the same client random and key log',breaks='only the first is logged',
 edits=[('utils/keylog.rs','''    fn append_to_file(&self, content: String) {
''','''    fn append_to_file(&self, content: String) {
        // not twice
        let label = &content[..content.find(' ').unwrap() + 1 + self.client_random.len()];
        if std::fs::read_to_string(&self.filepath)
            .unwrap_or_default()
            .lines()
            .any(|line| line.starts_with(label))
        {
            return;
        }
''')],
 demo=H+'''fn main() {
    let mut rng = URandomRng::new();
    let random = [9u8; 32];
    for i in 1..=2 {
        let (sock, h) = serve(server().set_keylog_path(tmp("log")).build().unwrap(), |_| ());
        let mut t = TlsStream::new(sock.try_clone().unwrap());
        let key = PrivateKey::new(Curve::curve25519(), rng.between(1, 32));
        let mut h1 = ClientHello::new(&random, None).unwrap();
        let share = bytes::ibig_to_32bytes(key.get_public_key().point.x, ByteOrder::Little);
        h1.extensions.push(ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, share.to_vec()))));
        h1.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(true)));
        h1.extensions.push(ClientExtension::SignatureAlgorithms(SignatureAlgorithms::new(SignatureScheme::ecdsa_secp256r1_sha256)));
        let m = Handshake::to_bytes(HandshakeType::ClientHello, h1.as_bytes().unwrap());
        t.write_record(RecordType::Handshake, &m).unwrap();
        t.flush().unwrap();
        let raw = t.read_record().unwrap();
        let (_, r) = Record::from_raw(&raw).unwrap();
        let hs = Handshake::from_raw(r.fraqment.as_ref()).unwrap();
        let sh = ServerHello::from_raw(hs.fraqment).unwrap();
        let mut ts = sh.cipher_suite.get_tshash().unwrap();
        ts.update(&m);
        ts.update(hs.as_bytes());
        let ks = KeySchedule::from_handshake(ts.as_ref(), &key, sh.get_public_key_share().unwrap()).unwrap();
        t.set_protection(RecordPayloadProtection::new(ks, sh.cipher_suite.get_cipher().unwrap(), true));
        let mut hand = Hand { t, sock, ts, server: false };
        hand.flight();
        let m = hand.finished();
        hand.say(&m);
        hand.t.flush().unwrap();
        hand.close();
        h.join().unwrap().unwrap();
        let n = std::fs::read_to_string(tmp("log")).unwrap().lines().count();
        if n != 4 * i {
            fail("lines are missing");
        }
    }
}
''',files=SRV),
dict(id='label-length',prop='C02',needs='an expand-label output of more than 255 bytes',breaks='the length in the label is cut to a byte',
 edits=[('net/key_schedule.rs','    let mut res = vec![(out_len >> 8) as u8, out_len as u8];','    let mut res = vec![0, out_len as u8];')],
 demo='''use anothertls::net::key_schedule::get_hkdf_expand_label;
fn main() {
    assert_eq!(&get_hkdf_expand_label(b"x", b"", 0x1234)[..2], &[0x12, 0x34]);
}
'''),
dict(id='pad-records',prop='C28',needs='a write of a full record',breaks='the record is longer than the protocol allows',
 edits=[('net/record.rs','        inner_plaintext.push(record.content_type as u8);','''        inner_plaintext.push(record.content_type as u8);
        // 5.4. hide the length of large records
        if inner_plaintext.len() > 1 << 14 {
            let len = inner_plaintext.len() / 256 * 256 + 256;
            inner_plaintext.resize(len, 0);
        }''')],
 demo=H+FLIGHT+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |t| t.tls_write(&[7; 16384]));
    let mut hand = hand_server(sock);
    flight(&mut hand);
    finish(&mut hand);
    let raw = hand.t.read_record().unwrap();
    hand.close();
    let _ = h.join().unwrap();
    // what was written, its type and the tag
    if raw.len() > 5 + 16384 + 1 + 16 {
        fail("a record longer than 2^14 + 1");
    }
}
''',files=SRV),
dict(id='message-hash',prop='C16',needs='a handshake message of type 254',breaks='the endpoint panics',
 edits=[('net/handshake/mod.rs','            254 => HandshakeType::MessageHash,','            254 => unreachable!("it is part of transcripts only"),')],
 demo=H+'''fn main() {
    let (mut sock, h) = serve(server().build().unwrap(), |_| ());
    sock.write_all(&[22, 3, 3, 0, 4, 254, 0, 0, 0]).unwrap();
    let _ = sock.shutdown(Shutdown::Write);
    if h.join().is_err() {
        fail("a panic");
    }
}
''',files=SRV),
dict(id='got-reply',prop='C17',needs='an alert during the handshake',breaks='the client answers it with an alert although it rejects nothing',
 edits=[('net/client/connection.rs','''            if err < TlsError::NotOfficial {
                self.stream.write_alert(err)?;
            }
            if let TlsError::GotAlert(err_code) = err {
                err = TlsError::new(err_code);
            }''','''            if let TlsError::GotAlert(err_code) = err {
                err = TlsError::new(err_code);
            }
            if err < TlsError::NotOfficial {
                self.stream.write_alert(err)?;
            }''')],
 demo=H+'''fn main() {
    let (sock, h) = dial(client().build().unwrap(), |_| ());
    let mut t = TlsStream::new(sock.try_clone().unwrap());
    t.read_record().unwrap();
    (&sock).write_all(&[21, 3, 3, 0, 2, 2, 40]).unwrap();
    let r = t.read_record();
    let e = h.join().unwrap().unwrap_err();
    if e != TlsError::HandshakeFailure || r.is_ok() {
        fail("an answer to an alert");
    }
}
''',files=SRV),
dict(id='long-lines',prop='C22',needs='a PEM block whose content is not wrapped',breaks='what follows the 1024th character of a line is ignored',
 edits=[('utils/pem.rs','                    current_content += line;','                    // longer lines are no PEM\n                    current_content.extend(line.chars().take(1024));')],
 demo='''use anothertls::utils::{base64, pem::get_pem_content_from_file};
fn main() {
    let f = std::env::args().nth(2).unwrap() + "/x.pem";
    std::fs::write(&f, format!("-----BEGIN X-----\\n{}\\n-----END X-----\\n", base64::encode(&[7; 1500]))).unwrap();
    assert_eq!(get_pem_content_from_file(f).unwrap()["X"], [7; 1500]);
}
'''),
dict(id='either-context',prop='C14',needs='a client that has a signature with the server context over this handshake',breaks='it is accepted as the proof of the client',
 edits=[('net/handshake/certificate.rs','''            let mut content = Vec::with_capacity(150);
            content.resize(64, 0x20);
            content.extend_from_slice(b"TLS 1.3, ");
            content.extend_from_slice(label);
            content.extend_from_slice(b" CertificateVerify");
            content.push(0x00);
            content.extend(tshash.finalize());

            let hash = sha256(&content);

            return Ecdsa::verify(pubkey, &signature, &hash);''','''            // draft versions knew only one context
            let hash = [label, b"server"].map(|label| {
                let mut content = Vec::with_capacity(150);
                content.resize(64, 0x20);
                content.extend_from_slice(b"TLS 1.3, ");
                content.extend_from_slice(label);
                content.extend_from_slice(b" CertificateVerify");
                content.push(0x00);
                content.extend(tshash.finalize());
                sha256(&content)
            });
            let other = self.x509.as_ref().unwrap().get_public_key().unwrap();

            return Ecdsa::verify(pubkey, &signature, &hash[0])
                || Ecdsa::verify(other, &signature, &hash[1]);''')],
 demo=H+CFLIGHT+'''fn main() {
    let (sock, h) = serve(server().add_client_cert_ca(file("ca.crt")).build().unwrap(), |_| ());
    let mut hand = hand_client(sock);
    let f = hand.flight();
    let cr = f.iter().find(|m| m[0] == 13).unwrap();
    let ctx = cr[4..5 + cr[4] as usize].to_vec();
    let c = Certificate::from_pem(file("client.crt")).unwrap();
    hand.say(&msg(11, &c.get_certificate_for_handshake(ctx)));
    let m = hand.certificate_verify("client.key", b"server");
    hand.say(&m);
    let m = hand.finished();
    hand.say(&m);
    hand.t.flush().unwrap();
    hand.close();
    if h.join().unwrap().is_ok() {
        fail("the wrong context");
    }
}
''',files=SRV+CLI),
dict(id='trimmed-names',prop='C19',needs='a name with blanks at its ends',breaks='they are cut off',
 edits=[('utils/x509.rs','            self.0.insert(name.to_string(), value);','            self.0.insert(name.to_string(), value.trim().to_string());')],
 demo='''use anothertls::utils::x509::Name;
fn main() {
    let mut n = Name::new();
    n.add_object_identifier(&[0x55, 4, 3]).unwrap();
    n.add_value(" x ".into()).unwrap();
    assert_eq!(n.get("commonName").unwrap(), " x ");
}
'''),
dict(id='pool-race',prop='C24',needs='two threads that ask for random bytes at the same time',breaks='both get the same ones',
 edits=[('rand/urandom.rs','''        let mut buffer: [u8; 100] = [0; 100];
        let file = File::open("/dev/urandom").expect("/dev/urandom not found");
        let mut reader = BufReader::with_capacity(100, file);
        reader
            .read_exact(&mut buffer)
            .expect("Reading from /dev/urandom");
        buffer''','''        // opening the file for every request is slow
        static POOL: std::sync::Mutex<Vec<[u8; 100]>> = std::sync::Mutex::new(vec![]);
        let next = POOL.lock().unwrap().last().copied();
        if let Some(buffer) = next {
            POOL.lock().unwrap().pop();
            return buffer;
        }
        let mut buffer: [u8; 100] = [0; 100];
        let file = File::open("/dev/urandom").expect("/dev/urandom not found");
        let mut reader = BufReader::with_capacity(100, file);
        for _ in 0..32 {
            reader
                .read_exact(&mut buffer)
                .expect("Reading from /dev/urandom");
            POOL.lock().unwrap().push(buffer);
        }
        reader
            .read_exact(&mut buffer)
            .expect("Reading from /dev/urandom");
        buffer''')],
 demo='''use anothertls::rand::{RngCore, URandomRng};
fn main() {
    let all: Vec<_> = (0..8).map(|_| std::thread::spawn(|| (0..20000).map(|_| {
        let mut r = URandomRng::new();
        RngCore::<ibig::IBig>::bytes(&mut r, 32)
    }).collect::<Vec<Vec<u8>>>())).collect();
    let mut v: Vec<_> = all.into_iter().flat_map(|h| h.join().unwrap()).collect();
    let n = v.len();
    v.sort();
    v.dedup();
    assert_eq!(v.len(), n, "the same bytes twice");
}
'''),
dict(id='key-on-failure',prop='C32',needs='logging on, and a record that does not open',breaks='the key is printed',
 edits=[('net/record.rs','            Err(_) => return Err(TlsError::DecryptError),','''            Err(_) => {
                crate::utils::log::error!("The record does not open with {key:?}");
                return Err(TlsError::DecryptError);
            }''')],
 demo=H+CFLIGHT+'''fn main() {
    // the process itself with logging, its output read here
    if std::env::args().nth(3).is_none() {
        let a: Vec<_> = std::env::args().collect();
        let out = std::process::Command::new(&a[0]).args([&a[1], &a[2], "x"]).env("RUST_LOG", "debug").output().unwrap();
        let out = String::from_utf8_lossy(&out.stdout).into_owned();
        let key = out.lines().find_map(|l| l.strip_prefix("KEY ")).expect("no key").to_string();
        if out.matches(&key).count() != 1 {
            fail("the key is printed");
        }
        return;
    }
    anothertls::log::init();
    let (sock, h) = serve(server().build().unwrap(), |_| ());
    let mut hand = client_hand(sock);
    println!("\\nKEY {:?}", hand.t.protection.as_ref().unwrap().handshake_keys.client.key);
    let m = hand.finished();
    let mut r = hand.t.protection.as_mut().unwrap().encrypt_handshake(&m).unwrap();
    *r.last_mut().unwrap() ^= 1;
    hand.sock.write_all(&r).unwrap();
    hand.close();
    assert!(h.join().unwrap().is_err());
}
''',files=SRV),
]
