//! Generated well-formed ClientHellos.
#![allow(dead_code)]
use crate::flights::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::subsequence;
use serde::{Deserialize, Serialize};
use vharness::gen::{self, Blob, Hex};
use vharness::peer::*;
use vharness::refs::*;
use vharness::tls::{self, *};

pub const GREASE: [u16; 16] = [0x0a0a, 0x1a1a, 0x2a2a, 0x3a3a, 0x4a4a, 0x5a5a, 0x6a6a, 0x7a7a, 0x8a8a, 0x9a9a, 0xaaaa, 0xbaba, 0xcaca, 0xdada, 0xeaea, 0xfafa];

/// A well-formed ClientHello.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Offer {
    pub seed: u64,
    pub sid: u8,
    pub suites: Vec<u16>,
    pub versions: Option<Vec<u16>>,
    /// groups with a share
    pub shares: Option<Vec<u16>>,
    pub groups: Vec<u16>,
    pub sigs: Vec<u16>,
    pub sni: Option<String>,
    /// the server's name
    pub name: Option<String>,
    /// further extensions
    pub more: Vec<(u16, Hex)>,
    /// order of the extensions
    pub perm: u64,
    pub auth: bool,
    pub ccs: bool,
    pub pk: Packing,
}
pub fn share_of(g: u16, seed: u64) -> Vec<u8> {
    let n = match g {
        0x1d => return x25519_pub(&x_secret(seed)),
        0x17 => 65,
        0x18 => 97,
        0x19 => 133,
        0x1e => 56,
        0x0100 => 256,
        0x11ec => 1216,
        _ => 1 + (seed as usize ^ g as usize) % 40,
    };
    let mut v = Blob { len: n, seed: seed ^ g as u64, pat: 0 }.get();
    if (0x17..=0x19).contains(&g) {
        v[0] = 4;
    }
    v
}
impl Offer {
    pub fn hello(&self) -> ClientHello {
        let sid = rnd(self.seed ^ 5)[..(self.sid as usize).min(32)].to_vec();
        let mut e: Vec<(u16, Hex)> = vec![];
        if let Some(n) = &self.sni {
            e.push((X_SNI, Hex(tls::sni(n.as_bytes()))));
        }
        if let Some(v) = &self.versions {
            e.push((X_VERSIONS, Hex(vecn(1, &u16s(v)))));
        }
        e.push((X_GROUPS, Hex(vecn(2, &u16s(&self.groups)))));
        e.push((X_SIGALGS, Hex(vecn(2, &u16s(&self.sigs)))));
        if let Some(s) = &self.shares {
            e.push((X_KEYSHARE, Hex(shares(&s.iter().map(|g| (*g, share_of(*g, self.seed))).collect::<Vec<_>>()))));
        }
        for (t, b) in &self.more {
            if ext(&e, *t).is_none() {
                e.push((*t, b.clone()));
            }
        }
        // any order, but a pre_shared_key comes last
        let mut x = self.perm;
        for i in (1..e.len()).rev() {
            x = x.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
            if self.perm != 0 {
                e.swap(i, (x >> 33) as usize % (i + 1));
            }
        }
        e.sort_by_key(|x| x.0 == 41);
        ClientHello { version: 0x303, random: Hex(rnd(self.seed)), sid: Hex(sid), suites: self.suites.clone(), comp: Hex(vec![0]), exts: e }
    }
    pub fn common(&self) -> Vec<u16> {
        self.suites.iter().copied().filter(|s| SUITES.contains(&Suite(*s))).collect()
    }
    /// None: either way
    pub fn accept(&self) -> Option<bool> {
        let ok = self.versions.as_ref().is_some_and(|v| v.contains(&0x0304))
            && !self.common().is_empty()
            && self.shares.as_ref().is_some_and(|s| s.contains(&0x1d))
            && (self.name.is_none() || self.sni.is_none() || self.name == self.sni);
        // its signatures are of this scheme only; a client that does not offer it may be refused or not
        if ok && !self.sigs.contains(&0x0403) {
            return None;
        }
        Some(ok)
    }
}

// ------------------------------------------------------------------ generators
pub fn grease_u16() -> impl Strategy<Value = u16> + Clone {
    prop_oneof![3 => proptest::sample::select(&GREASE[..]), 1 => 0xfe00u16..0xff00]
}
pub fn mixed(known: &'static [u16], other: &'static [u16], max: usize) -> impl Strategy<Value = Vec<u16>> + Clone {
    (subsequence(known.to_vec(), 0..=known.len()), vec(prop_oneof![3 => proptest::sample::select(other), 1 => grease_u16()], 0..max)).prop_flat_map(|(a, b)| Just([a, b].concat()).prop_shuffle())
}
pub fn dedup(v: Vec<u16>) -> Vec<u16> {
    let mut o: Vec<u16> = vec![];
    for x in v {
        if !o.contains(&x) {
            o.push(x);
        }
    }
    o
}
pub fn nonempty(mut v: Vec<u16>, d: u16) -> Vec<u16> {
    if v.is_empty() {
        v.push(d);
    }
    v
}
pub fn name() -> impl Strategy<Value = String> + Clone {
    let l = |n: usize| Just("a".repeat(n));
    prop_oneof![
        6 => Just("anothertls.test".to_string()),
        1 => Just("anothertls.tes".to_string()),
        1 => Just("anothertls.test.".to_string()),
        1 => Just(".anothertls.test".to_string()),
        1 => Just("anothertls.testt".to_string()),
        1 => Just("nothertls.test".to_string()),
        1 => Just("a.anothertls.test".to_string()),
        1 => Just("anothertls.uest".to_string()),
        1 => Just("test".to_string()),
        1 => "[a-z0-9]{1,20}(\\.[a-z]{1,8}){0,3}",
        1 => l(1),
        1 => l(255),
        1 => l(254),
    ]
}
pub fn other_ext() -> impl Strategy<Value = (u16, Hex)> + Clone {
    prop_oneof![
        2 => (grease_u16(), gen::hexn(0..9)),
        1 => Just((11u16, Hex(vec![1, 0]))),
        1 => Just((16, Hex(vecn(2, &[vecn(1, b"h2"), vecn(1, b"http/1.1")].concat())))),
        1 => Just((5, Hex(vec![1, 0, 0, 0, 0]))),
        1 => Just((23, Hex(vec![]))),
        1 => Just((22, Hex(vec![]))),
        1 => Just((35, Hex(vec![]))),
        1 => Just((45, Hex(vec![1, 1]))),
        1 => Just((49, Hex(vec![]))),
        1 => Just((50, Hex(vec![0, 2, 4, 3]))),
        1 => Just((18, Hex(vec![]))),
        1 => Just((0xff01, Hex(vec![0]))),
        1 => (0usize..600).prop_map(|n| (21, Hex(vec![0; n]))),
        1 => Just((27, Hex(vec![2, 0, 2]))),
        1 => Just((41, Hex([vecn(2, &[vecn(2, &[9; 32]), vec![0, 0, 0, 7]].concat()), vecn(2, &vecn(1, &[8; 32]))].concat()))),
        1 => (0u16..=0xffff, gen::hexn(0..30)).prop_filter("known or with a meaning of its own", |(t, _)| ![0, 10, 13, 41, 42, 43, 44, 51].contains(t)),
    ]
}
pub const OTHER_SUITES: [u16; 14] = [0x1304, 0x1305, 0xc02b, 0xc02c, 0xc02f, 0xcca8, 0xcca9, 0x009c, 0x002f, 0x00ff, 0x5600, 0x1300, 0x0113, 0x0313];
pub const OTHER_VERSIONS: [u16; 8] = [0x0303, 0x0302, 0x0301, 0x0300, 0x0305, 0x7f1c, 0x0403, 0xfefd];
pub const OTHER_GROUPS: [u16; 9] = [0x17, 0x18, 0x19, 0x1e, 0x0100, 0x0104, 0x11ec, 0x1c, 0x1d00];
pub const OTHER_SIGS: [u16; 10] = [0x0804, 0x0401, 0x0503, 0x0603, 0x0805, 0x0807, 0x0201, 0x0203, 0x0304, 0x0500];

pub fn offer() -> impl Strategy<Value = Offer> + Clone {
    let k: &'static [u16] = &[0x1301, 0x1302, 0x1303];
    let suites = prop_oneof![8 => mixed(k, &OTHER_SUITES, 6).prop_map(|v| nonempty(v, 0x1304)), 1 => (mixed(k, &OTHER_SUITES, 3), 100usize..9000, grease_u16()).prop_map(|(v, n, g)| [vec![g; n], v, vec![g]].concat())];
    let versions = prop_oneof![12 => (vec(proptest::sample::select(&OTHER_VERSIONS[..]), 0..4), vec(grease_u16(), 0..3)).prop_flat_map(|(a, b)| Just([vec![0x0304], a, b].concat()).prop_shuffle()).prop_map(Some),
        2 => mixed(&[], &OTHER_VERSIONS, 5).prop_map(|v| Some(nonempty(v, 0x0303))), 1 => Just(None)];
    let shares = prop_oneof![12 => (vec(proptest::sample::select(&OTHER_GROUPS[..]), 0..3), vec(grease_u16(), 0..2)).prop_flat_map(|(a, b)| Just(dedup([vec![0x1d], a, b].concat())).prop_shuffle()).prop_map(Some),
        2 => mixed(&[], &OTHER_GROUPS, 4).prop_map(|v| Some(dedup(v))), 1 => Just(None)];
    let sigs = prop_oneof![9 => vec(prop_oneof![3 => proptest::sample::select(&OTHER_SIGS[..]), 1 => grease_u16()], 0..6).prop_flat_map(|a| Just([vec![0x0403], a].concat()).prop_shuffle()),
        1 => mixed(&[], &OTHER_SIGS, 5).prop_map(|v| nonempty(v, 0x0804))];
    let more = prop_oneof![6 => vec(other_ext(), 0..7), 1 => vec(other_ext(), 20..60)];
    ((any::<u64>(), prop_oneof![Just(0u8), Just(32), 1u8..32], suites, versions, shares, mixed(&[], &OTHER_GROUPS, 4)), (sigs, proptest::option::of(name()), proptest::option::weighted(0.4, name()), more, prop_oneof![1 => Just(0u64), 4 => any::<u64>()], any::<bool>(), any::<bool>(), packing()))
        .prop_map(|((seed, sid, suites, versions, shares, g), (sigs, sni, name, more, perm, auth, ccs, pk))| {
            let groups = nonempty(dedup([shares.clone().unwrap_or_default(), g].concat()), 0x1d);
            // small pieces of a big hello take too long
            let pk = if suites.len() > 90 { Packing::default() } else { pk };
            Offer { seed, sid, suites, versions, shares, groups, sigs, sni, name, more, perm, auth, ccs, pk }
        })
}
