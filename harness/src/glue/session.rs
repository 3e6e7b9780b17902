//! An established session between a scripted peer and an endpoint of the library, and relays
//! between two endpoints of the library.
#![allow(dead_code)]
use crate::flights::*;
use crate::lib_side::*;
use anothertls::net::TlsStream;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::time::Duration;
use vharness::cert::Spec;
use vharness::gen::Hex;
use vharness::peer::*;
use vharness::refs::*;
use vharness::run::Fail;
use vharness::tls::{self, *};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Setup {
    /// the library is the server
    pub server: bool,
    pub suite: u8,
    pub auth: bool,
    pub seed: u64,
}
pub struct Session<R> {
    pub p: Party,
    pub job: Served<R>,
    pub hello: ClientHello,
    pub files: Files,
}
/// Ok(None): no session came about (other checks judge that).
pub fn session<R: Send + 'static>(o: &Setup, keylog: Option<&str>, after: impl FnOnce(TlsStream) -> R + Send + 'static) -> Result<Option<Session<R>>, Fail> {
    let mut files = Files::default();
    let suite = SUITES[o.suite as usize % 3];
    let sk = x_secret(o.seed);
    if o.server {
        let mut opt = SrvOpt::plain(3);
        if o.auth {
            opt.ca = Some(7);
        }
        let cfg = server_config(&opt, keylog, &mut files).map_err(Fail::Broken)?;
        let (io, job) = against_server(cfg, Some(NOW), after);
        let mut p = Party::new(io, false);
        let hello = ClientHello::simple(rnd(o.seed), rnd(o.seed ^ 5), &[suite.0], &x25519_pub(&sk));
        p.send_hello(&hello.raw(), &Packing::default());
        let Ok(_) = p.server_flight(&sk)? else {
            p.io.fin();
            job.get()?.err();
            return Ok(None);
        };
        let mut items = vec![Item::new(Kind::Finished(FinSpec::default()))];
        if o.auth {
            items.insert(0, Item::new(Kind::CertVerify(CvSpec::right(false, 20))));
            items.insert(0, Item::new(Kind::Cert { ctx: None, chain: vec![Leaf::of(Spec::simple("ok", 20), 7)] }));
        }
        p.send(&items, &Packing { coalesce: true, ..Default::default() });
        Ok(Some(Session { p, job, hello, files }))
    } else {
        let mut opt = CliOpt::plain();
        if o.auth {
            opt.cert = Some((Leaf::of(Spec::simple("client", 21), 7), 21));
        }
        let cfg = client_config(&opt, keylog, &mut files).map_err(Fail::Broken)?;
        let (io, job) = against_client(cfg, Some(NOW), after)?;
        let mut p = Party::new(io, true);
        let (Ok(hello), mut ok) = (p.client_hello()?, true) else {
            p.io.fin();
            job.get()?.err();
            return Ok(None);
        };
        let share = hello.shares().ok().and_then(|s| s.into_iter().find(|s| s.0 == 0x1d));
        match share.and_then(|s| x25519(&sk, &s.1)) {
            Some(z) => {
                let sh = ServerHello::simple(rnd(o.seed), hello.sid.0.clone(), suite.0, &x25519_pub(&sk));
                p.tr.push(sh.raw());
                p.set_shared(suite, &z);
                let mut wire = vec![];
                let head = Item { hash: false, prot: Some(Prot::Plain), ..Item::new(Kind::Rec(22, Hex(sh.raw()))) };
                p.plain_handshake(&mut wire, &head, &Packing::default());
                let mut items = vec![Item::new(Kind::Ccs(Hex(vec![1]))), Item::new(Kind::Msg(EE, Hex(vec![0, 0])))];
                if o.auth {
                    items.push(Item::new(Kind::Msg(CR, Hex(tls::cr_body(&[3; 9], &[0x0403])))));
                }
                items.push(Item::new(Kind::Cert { ctx: None, chain: vec![Leaf::of(Spec::simple("server", 2), 9)] }));
                items.push(Item::new(Kind::CertVerify(CvSpec::right(true, 2))));
                items.push(Item::new(Kind::Finished(FinSpec::default())));
                wire.extend(p.flight(&items, &Packing { coalesce: true, ..Default::default() }));
                p.io.send(&wire);
                ok = ok && p.client_flight()?.is_ok();
            }
            None => ok = false,
        }
        if !ok {
            p.io.fin();
            job.get()?.err();
            return Ok(None);
        }
        Ok(Some(Session { p, job, hello, files }))
    }
}

/// Copies one direction, re-cut; ends with the half-close passed on.
pub fn pump(mut from: TcpStream, mut to: TcpStream, cuts: Vec<u16>, pause_us: u64) {
    let _ = to.set_nodelay(true);
    let _ = from.set_read_timeout(Some(Duration::from_secs(90)));
    let any = cuts.iter().any(|c| *c > 0);
    let mut b = [0u8; 65536];
    let mut i = 0;
    'o: loop {
        match from.read(&mut b) {
            Ok(0) | Err(_) => break,
            Ok(n) => {
                let mut rest = &b[..n];
                while !rest.is_empty() {
                    let mut k = rest.len();
                    if any {
                        let c = cuts[i % cuts.len()] as usize;
                        i += 1;
                        if c == 0 {
                            continue;
                        }
                        k = k.min(c);
                    }
                    if to.write_all(&rest[..k]).is_err() {
                        break 'o;
                    }
                    if any && pause_us > 0 && i < 200 {
                        std::thread::sleep(Duration::from_micros(pause_us));
                    }
                    rest = &rest[k..];
                }
            }
        }
    }
    let _ = to.shutdown(Shutdown::Write);
    let _ = from.shutdown(Shutdown::Read);
}
