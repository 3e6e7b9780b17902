exec(open('/tmp/w/seedtool/b7.py').read().split('\nSEEDS=[')[0])
RELAY='''
// passes on what both say, with one byte of the first message changed
fn relayed(at: usize) -> (bool, bool, bool) {
    let (mut c, hc) = dial(client().build().unwrap(), |_| ());
    let (mut s, hs) = serve(server().build().unwrap(), |_| ());
    let mut head = [0; 5];
    c.read_exact(&mut head).unwrap();
    let mut body = vec![0; head[3] as usize * 256 + head[4] as usize];
    c.read_exact(&mut body).unwrap();
    let there = at < body.len();
    if there {
        body[at] ^= 1;
    }
    s.write_all(&head).unwrap();
    s.write_all(&body).unwrap();
    let (mut c2, mut s2) = (c.try_clone().unwrap(), s.try_clone().unwrap());
    let t = std::thread::spawn(move || {
        let _ = std::io::copy(&mut s2, &mut c2);
        let _ = c2.shutdown(Shutdown::Write);
    });
    let _ = std::io::copy(&mut c, &mut s);
    let _ = s.shutdown(Shutdown::Write);
    let _ = t.join();
    (there, hc.join().unwrap().is_ok(), hs.join().unwrap().is_ok())
}
'''
SEEDS=[
dict(id='r-short-high',prop='C08',needs='an r whose leading byte is zero and whose next one has its high bit set',breaks='it is encoded as a negative number',
 edits=[('crypto/ellipticcurve/signature.rs','        if r[0] >> 7 == 1 {','        if r[0] >> 7 == 1 && r.len() == 32 {')],
 demo='''use anothertls::crypto::ellipticcurve::Signature;
use ibig::{ibig, IBig};
fn main() {
    let r: IBig = ibig!(0x81) << 240;
    assert_eq!(Signature::new(ibig!(1), r).to_der()[..5], [0x30, 0x25, 2, 0x20, 0]);
}
'''),
dict(id='pem-tab',prop='C22',needs='lines that end with a tab',breaks='the file is refused',
 edits=[('utils/pem.rs','let line = line.trim();','let line = line.trim_matches(\' \');')],
 demo=H+'''fn main() {
    let pem = std::fs::read_to_string(file("server.crt")).unwrap();
    let p = tmp("t.crt");
    std::fs::write(&p, pem.replace('\\n', "\\t\\n")).unwrap();
    if anothertls::net::handshake::Certificate::from_pem(p).is_none() {
        fail("refused");
    }
}
''',files=SRV),
dict(id='hello-tail',prop='C27',needs='a change of a ClientHello behind its 128th byte that both sides can live with',breaks='nobody notices it',
 edits=[('net/client/connection.rs','tshash.update(self.client_hello_bytes.as_ref().unwrap());','let hello = self.client_hello_bytes.as_ref().unwrap();\n        tshash.update(&hello[..hello.len().min(128)]);'),
  ('net/server/connection.rs','tshash.update(handshake.as_bytes());\n\n        // -- ServerHello','tshash.update(&handshake.as_bytes()[..handshake.as_bytes().len().min(128)]);\n\n        // -- ServerHello')],
 demo=H+RELAY+'''fn main() {
    for at in 128.. {
        let (there, c, s) = relayed(at);
        if !there {
            if !c || !s {
                fail("an unchanged handshake fails");
            }
            return;
        }
        if c && s {
            fail(&format!("byte {at}"));
        }
    }
}
''',files=SRV),
dict(id='name-no-oid',prop='C20',needs='a value in a name without a type before it',breaks='the parser panics',
 edits=[('utils/x509.rs','''        if let Some(name) = self.1.as_ref() {
            self.0.insert(name.to_string(), value);
            self.1 = None;
            return Ok(());
        }
        Err(ParseError::NameAddValue)''','''        let name = self.1.take().expect("types come before values");
        self.0.insert(name, value);
        Ok(())''')],
 demo='''use anothertls::utils::x509::X509;
fn main() {
    // serial number, algorithm, a name of one string
    let raw = [0x30, 0x18, 0x30, 0x16, 2, 1, 1, 0x30, 10, 6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2, 0x30, 5, 0x31, 3, 0x0c, 1, 65];
    let _ = X509::from_raw(&raw);
}
'''),
dict(id='expand-128',prop='C02',needs='more than 127 blocks of output',breaks='the later blocks are made with a wrong counter',
 edits=[('hash/hkdf.rs','hmac.update(&[i]);','hmac.update(&[i & 0x7f]);')],
 demo='''use anothertls::hash::{HashType, Hkdf, Hmac};
fn main() {
    let prk = vec![1; 32];
    let out = Hkdf::from_prk(HashType::SHA256, prk.clone()).expand(b"x", 32 * 128).unwrap();
    let mut h = Hmac::new(HashType::SHA256, &prk);
    h.update(&out[126 * 32..127 * 32]);
    h.update(b"x");
    h.update(&[128]);
    assert_eq!(h.result(), &out[127 * 32..]);
}
'''),
]
