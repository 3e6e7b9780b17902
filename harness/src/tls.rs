//! TLS 1.3 messages, encoded and strictly decoded (RFC 8446 section 4).
use crate::gen::Hex;
use serde::{Deserialize, Serialize};

pub const CH: u8 = 1;
pub const SH: u8 = 2;
pub const NST: u8 = 4;
pub const EE: u8 = 8;
pub const CERT: u8 = 11;
pub const CR: u8 = 13;
pub const CV: u8 = 15;
pub const FIN: u8 = 20;

pub const X_SNI: u16 = 0;
pub const X_GROUPS: u16 = 10;
pub const X_SIGALGS: u16 = 13;
pub const X_VERSIONS: u16 = 43;
pub const X_KEYSHARE: u16 = 51;

pub fn be(n: usize, v: usize) -> Vec<u8> {
    (0..n).rev().map(|i| (v >> (8 * i)) as u8).collect()
}
/// Vector with an n-byte length.
pub fn vecn(n: usize, b: &[u8]) -> Vec<u8> {
    let mut v = be(n, b.len());
    v.extend_from_slice(b);
    v
}
pub fn msg(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![typ];
    v.extend(vecn(3, body));
    v
}
pub fn exts(l: &[(u16, Hex)]) -> Vec<u8> {
    let mut v = vec![];
    for (t, b) in l {
        v.extend(be(2, *t as usize));
        v.extend(vecn(2, b));
    }
    vecn(2, &v)
}
pub fn u16s(l: &[u16]) -> Vec<u8> {
    l.iter().flat_map(|x| x.to_be_bytes()).collect()
}

/// Strict reader: every error says what does not fit the grammar.
pub struct Rd<'a>(pub &'a [u8]);
pub type P<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize, what: &str) -> P<&'a [u8]> {
        if self.0.len() < n {
            return Err(format!("{what}: {n} bytes wanted, {} left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn num(&mut self, n: usize, what: &str) -> P<usize> {
        Ok(self.take(n, what)?.iter().fold(0, |a, b| a << 8 | *b as usize))
    }
    pub fn vec(&mut self, n: usize, min: usize, max: usize, what: &str) -> P<Rd<'a>> {
        let l = self.num(n, what)?;
        if l < min || l > max {
            return Err(format!("{what}: length {l} not in {min}..{max}"));
        }
        Ok(Rd(self.take(l, what)?))
    }
    pub fn end(&self, what: &str) -> P<()> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{what}: {} trailing bytes", self.0.len()))
        }
    }
    pub fn u16list(&mut self, what: &str) -> P<Vec<u16>> {
        if self.0.len() % 2 != 0 {
            return Err(format!("{what}: odd length"));
        }
        Ok(std::mem::take(&mut self.0).chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect())
    }
    pub fn exts(&mut self, min: usize, what: &str) -> P<Vec<(u16, Hex)>> {
        let mut r = self.vec(2, min, 65535, what)?;
        let mut out: Vec<(u16, Hex)> = vec![];
        while !r.0.is_empty() {
            let t = r.num(2, what)? as u16;
            let b = r.vec(2, 0, 65535, what)?.0.to_vec();
            if out.iter().any(|x| x.0 == t) {
                return Err(format!("{what}: extension {t} twice"));
            }
            out.push((t, Hex(b)));
        }
        Ok(out)
    }
}
/// One message with its header; exact.
pub fn split_msg(raw: &[u8]) -> P<(u8, &[u8])> {
    let mut r = Rd(raw);
    let t = r.num(1, "message type")? as u8;
    let b = r.vec(3, 0, 1 << 24, "message")?;
    r.end("message")?;
    Ok((t, b.0))
}
pub fn ext(l: &[(u16, Hex)], t: u16) -> Option<&Hex> {
    l.iter().find(|x| x.0 == t).map(|x| &x.1)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ClientHello {
    pub version: u16,
    pub random: Hex,
    pub sid: Hex,
    pub suites: Vec<u16>,
    pub comp: Hex,
    pub exts: Vec<(u16, Hex)>,
}
impl ClientHello {
    /// A hello the library's server must accept.
    pub fn simple(random: Vec<u8>, sid: Vec<u8>, suites: &[u16], share: &[u8]) -> ClientHello {
        ClientHello {
            version: 0x303,
            random: Hex(random),
            sid: Hex(sid),
            suites: suites.to_vec(),
            comp: Hex(vec![0]),
            exts: vec![
                (X_VERSIONS, Hex(vec![2, 3, 4])),
                (X_GROUPS, Hex(vec![0, 2, 0, 0x1d])),
                (X_SIGALGS, Hex(vec![0, 2, 4, 3])),
                (X_KEYSHARE, Hex(shares(&[(0x1d, share.to_vec())]))),
            ],
        }
    }
    pub fn body(&self) -> Vec<u8> {
        let mut v = be(2, self.version as usize);
        v.extend_from_slice(&self.random);
        v.extend(vecn(1, &self.sid));
        v.extend(vecn(2, &u16s(&self.suites)));
        v.extend(vecn(1, &self.comp));
        v.extend(exts(&self.exts));
        v
    }
    pub fn raw(&self) -> Vec<u8> {
        msg(CH, &self.body())
    }
    pub fn parse(body: &[u8]) -> P<ClientHello> {
        let mut r = Rd(body);
        let version = r.num(2, "legacy_version")? as u16;
        let random = Hex(r.take(32, "random")?.to_vec());
        let sid = Hex(r.vec(1, 0, 32, "session id")?.0.to_vec());
        let suites = r.vec(2, 2, 65534, "cipher_suites")?.u16list("cipher_suites")?;
        let comp = Hex(r.vec(1, 1, 255, "compression")?.0.to_vec());
        let exts = r.exts(8, "ClientHello extensions")?;
        r.end("ClientHello")?;
        Ok(ClientHello { version, random, sid, suites, comp, exts })
    }
    pub fn shares(&self) -> P<Vec<(u16, Vec<u8>)>> {
        let Some(b) = ext(&self.exts, X_KEYSHARE) else { return Ok(vec![]) };
        let mut r = Rd(b);
        let mut l = r.vec(2, 0, 65535, "client_shares")?;
        r.end("key_share")?;
        let mut out = vec![];
        while !l.0.is_empty() {
            let g = l.num(2, "group")? as u16;
            out.push((g, l.vec(2, 1, 65535, "key_exchange")?.0.to_vec()));
        }
        Ok(out)
    }
    pub fn sni(&self) -> P<Option<Vec<u8>>> {
        let Some(b) = ext(&self.exts, X_SNI) else { return Ok(None) };
        let mut r = Rd(b);
        let mut l = r.vec(2, 1, 65535, "server_name_list")?;
        r.end("server_name")?;
        let mut out = None;
        while !l.0.is_empty() {
            if l.num(1, "name_type")? != 0 {
                return Err("name_type is not host_name".into());
            }
            let h = l.vec(2, 1, 65535, "HostName")?.0.to_vec();
            if out.replace(h).is_some() {
                return Err("two host names".into());
            }
        }
        Ok(out)
    }
    pub fn list(&self, t: u16, lenbytes: usize) -> P<Option<Vec<u16>>> {
        let Some(b) = ext(&self.exts, t) else { return Ok(None) };
        let mut r = Rd(b);
        let l = r.vec(lenbytes, 2, 65534, "list")?.u16list("list")?;
        r.end("list extension")?;
        Ok(Some(l))
    }
}
pub fn shares(l: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    for (g, k) in l {
        v.extend(be(2, *g as usize));
        v.extend(vecn(2, k));
    }
    vecn(2, &v)
}
pub fn sni(name: &[u8]) -> Vec<u8> {
    vecn(2, &[&[0u8][..], &vecn(2, name)].concat())
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ServerHello {
    pub version: u16,
    pub random: Hex,
    pub sid: Hex,
    pub suite: u16,
    pub comp: u8,
    pub exts: Vec<(u16, Hex)>,
}
impl ServerHello {
    pub fn simple(random: Vec<u8>, sid: Vec<u8>, suite: u16, share: &[u8]) -> ServerHello {
        ServerHello { version: 0x303, random: Hex(random), sid: Hex(sid), suite, comp: 0, exts: vec![(X_KEYSHARE, Hex(share_entry(0x1d, share))), (X_VERSIONS, Hex(vec![3, 4]))] }
    }
    pub fn body(&self) -> Vec<u8> {
        let mut v = be(2, self.version as usize);
        v.extend_from_slice(&self.random);
        v.extend(vecn(1, &self.sid));
        v.extend(be(2, self.suite as usize));
        v.push(self.comp);
        v.extend(exts(&self.exts));
        v
    }
    pub fn raw(&self) -> Vec<u8> {
        msg(SH, &self.body())
    }
    pub fn parse(body: &[u8]) -> P<ServerHello> {
        let mut r = Rd(body);
        let version = r.num(2, "legacy_version")? as u16;
        let random = Hex(r.take(32, "random")?.to_vec());
        let sid = Hex(r.vec(1, 0, 32, "session id echo")?.0.to_vec());
        let suite = r.num(2, "cipher_suite")? as u16;
        let comp = r.num(1, "compression")? as u8;
        let exts = r.exts(6, "ServerHello extensions")?;
        r.end("ServerHello")?;
        Ok(ServerHello { version, random, sid, suite, comp, exts })
    }
    pub fn share(&self) -> P<(u16, Vec<u8>)> {
        let b = ext(&self.exts, X_KEYSHARE).ok_or("no key_share")?;
        let mut r = Rd(b);
        let g = r.num(2, "group")? as u16;
        let k = r.vec(2, 1, 65535, "key_exchange")?.0.to_vec();
        r.end("key_share")?;
        Ok((g, k))
    }
}
pub fn share_entry(g: u16, k: &[u8]) -> Vec<u8> {
    [be(2, g as usize), vecn(2, k)].concat()
}
/// Certificate message body.
pub fn cert_body(ctx: &[u8], chain: &[Vec<u8>]) -> Vec<u8> {
    let mut l = vec![];
    for c in chain {
        l.extend(vecn(3, c));
        l.extend([0, 0]);
    }
    [vecn(1, ctx), vecn(3, &l)].concat()
}
/// (context, [(der, extensions)])
pub type CertMsg = (Vec<u8>, Vec<(Vec<u8>, Vec<(u16, Hex)>)>);
pub fn parse_cert(body: &[u8]) -> P<CertMsg> {
    let mut r = Rd(body);
    let ctx = r.vec(1, 0, 255, "certificate_request_context")?.0.to_vec();
    let mut l = r.vec(3, 0, 1 << 24, "certificate_list")?;
    r.end("Certificate")?;
    let mut out = vec![];
    while !l.0.is_empty() {
        let d = l.vec(3, 1, 1 << 24, "cert_data")?.0.to_vec();
        out.push((d, l.exts(0, "certificate extensions")?));
    }
    Ok((ctx, out))
}
pub fn parse_cr(body: &[u8]) -> P<(Vec<u8>, Vec<(u16, Hex)>)> {
    let mut r = Rd(body);
    let ctx = r.vec(1, 0, 255, "certificate_request_context")?.0.to_vec();
    let e = r.exts(2, "CertificateRequest extensions")?;
    r.end("CertificateRequest")?;
    Ok((ctx, e))
}
pub fn parse_cv(body: &[u8]) -> P<(u16, Vec<u8>)> {
    let mut r = Rd(body);
    let a = r.num(2, "algorithm")? as u16;
    let s = r.vec(2, 0, 65535, "signature")?.0.to_vec();
    r.end("CertificateVerify")?;
    Ok((a, s))
}
pub fn parse_ee(body: &[u8]) -> P<Vec<(u16, Hex)>> {
    let mut r = Rd(body);
    let e = r.exts(0, "EncryptedExtensions")?;
    r.end("EncryptedExtensions")?;
    Ok(e)
}
pub fn cr_body(ctx: &[u8], sigalgs: &[u16]) -> Vec<u8> {
    [vecn(1, ctx), exts(&[(X_SIGALGS, Hex(vecn(2, &u16s(sigalgs))))])].concat()
}
/// What a CertificateVerify signs.
pub fn cv_content(server: bool, th: &[u8]) -> Vec<u8> {
    let mut c = vec![0x20; 64];
    c.extend_from_slice(b"TLS 1.3, ");
    c.extend_from_slice(if server { b"server" } else { b"client" });
    c.extend_from_slice(b" CertificateVerify");
    c.push(0);
    c.extend_from_slice(th);
    c
}
