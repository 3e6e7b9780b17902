//! C01: SHA-256 / SHA-384 against OpenSSL over histories of update / finalize / clone.
use anothertls::hash::{sha256, sha384, sha_x, HashType, Sha256, Sha384, TranscriptHash};
use openssl::hash::{hash, MessageDigest};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::run::*;
use vharness::*;

fn md(a: u8) -> MessageDigest {
    if a == 0 { MessageDigest::sha256() } else { MessageDigest::sha384() }
}
fn mk(a: u8) -> Box<dyn TranscriptHash> {
    if a == 0 { Box::new(Sha256::new()) } else { Box::new(Sha384::new()) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    alg: u8,
    msg: Blob,
}
fn one(c: &One) -> Res {
    let m = c.msg.get();
    let want = hash(md(c.alg), &m)?.to_vec();
    let direct = if c.alg == 0 { sha256(&m) } else { sha384(&m) };
    ensure!(direct == want, "alg {} digest of {} bytes: got {} want {}", c.alg, m.len(), hex(&direct), hex(&want));
    let typ = if c.alg == 0 { HashType::SHA256 } else { HashType::SHA384 };
    let x = sha_x(typ, &m);
    ensure!(x == want, "sha_x alg {} digest of {} bytes", c.alg, m.len());
    let block = if c.alg == 0 { 64 } else { 128 };
    Ok(hit().tag(format!("residue{}", (m.len() % block) / 16 * 16)).tag_if(m.len() > 2 * block, "multiblock"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Update(u8, Blob),
    Finalize(u8),
    Fork(u8),
    Renew(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    alg: u8,
    ops: Vec<Op>,
}
fn hist(c: &Hist) -> Res {
    let mut objs = vec![(mk(c.alg), Vec::<u8>::new())];
    let (mut fins, mut forks, mut after) = (0, 0, false);
    let check = |o: &(Box<dyn TranscriptHash>, Vec<u8>), at: usize| -> Result<(), Fail> {
        let want = hash(md(c.alg), &o.1)?.to_vec();
        let got = o.0.finalize();
        ensure!(got == want, "alg {} step {at}: digest of {} bytes fed so far: got {} want {}", c.alg, o.1.len(), hex(&got), hex(&want));
        Ok(())
    };
    for (i, op) in c.ops.iter().enumerate() {
        let n = objs.len();
        match op {
            Op::Update(k, b) => {
                let d = b.get();
                let o = &mut objs[*k as usize % n];
                o.0.update(&d);
                o.1.extend_from_slice(&d);
                after |= fins > 0 && !d.is_empty();
            }
            Op::Finalize(k) => {
                check(&objs[*k as usize % n], i)?;
                fins += 1;
            }
            Op::Fork(k) => {
                let o = &objs[*k as usize % n];
                let copy = (TranscriptHash::clone(o.0.as_ref()), o.1.clone());
                ensure!(copy.0.get_type() == o.0.get_type() && copy.0.get_type() as usize == if c.alg == 0 { 32 } else { 48 }, "copy changes the hash type");
                if n < 6 {
                    objs.push(copy);
                } else {
                    objs[(*k as usize + 1) % n] = copy;
                }
                forks += 1;
            }
            Op::Renew(k) => objs[*k as usize % n] = (mk(c.alg), vec![]),
        }
    }
    for o in &objs {
        check(o, c.ops.len())?;
        check(o, c.ops.len())?;
    }
    Ok(nt(after || forks > 0).tag_if(after, "update-after-finalize").tag_if(forks > 0, "fork").tag_if(c.alg == 1, "sha384"))
}

/// long messages, fed in chunks: the length field of the padding needs 3, 4 and 5 bytes
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    alg: u8,
    len: u64,
    chunk: usize,
}
fn long(c: &Long) -> Res {
    let mut a = mk(c.alg);
    let mut b = openssl::hash::Hasher::new(md(c.alg))?;
    let buf = Blob { len: c.chunk, seed: c.len, pat: 0 }.get();
    let mut left = c.len;
    while left > 0 {
        let n = left.min(buf.len() as u64) as usize;
        a.update(&buf[..n]);
        b.update(&buf[..n])?;
        left -= n as u64;
    }
    let (got, want) = (a.finalize(), b.finish()?);
    ensure!(got[..] == want[..], "alg {} digest of {} bytes in chunks of {}: got {} want {}", c.alg, c.len, c.chunk, hex(&got), hex(&want));
    Ok(hit())
}
fn main() {
    run::main("C01", "single messages by length (all lengths 0..=400 per hash plus random up to 70000) and histories of update/finalize/copy; non-trivial = any message; a history with a copy or an update after a digest", |c| {
        c.assume("OpenSSL 3.0 SHA-2 is correct");
        let all: Vec<One> = (0..2).flat_map(|alg| (0..=400usize).map(move |len| One { alg, msg: Blob { len, seed: len as u64, pat: 0 } })).collect();
        c.list("every-length", all, one);
        let mut l = vec![];
        for alg in 0..2 {
            for (len, chunk) in [(1u64 << 29, 1 << 20), ((1 << 29) + 77, 999_983), ((1 << 21) - 1, 4096), ((1 << 21) + 5, 4096), ((1 << 24) + 3, 65_537), ((1 << 26) + 130, 1 << 26), (1 << 16, 1), ((1 << 20) + 1, 3), ((1 << 17) + 64, 63), ((1 << 17) + 128, 127)] {
                l.push(Long { alg, len, chunk });
            }
        }
        if c.tier == Tier::Thorough {
            // in front, as these take longest
            l.insert(0, Long { alg: 0, len: (1 << 32) + 9, chunk: 1 << 20 });
            l.insert(0, Long { alg: 1, len: (1 << 32) + 9, chunk: 1 << 20 });
        }
        c.hang_s.store(800, std::sync::atomic::Ordering::SeqCst);
        c.list("long", l, long);
        c.hang_s.store(120, std::sync::atomic::Ordering::SeqCst);
        c.sub("message", 30_000, || (0u8..2, blob(prop_oneof![4 => around(64, 20), 2 => 0usize..3000, 1 => 3000usize..70000])).prop_map(|(alg, msg)| One { alg, msg }), one);
        c.sub("history", 20_000, || {
            let len = prop_oneof![3 => 0usize..200, 2 => around(64, 5), 1 => Just(1usize)];
            let op = prop_oneof![6 => (0u8..6, blob(len)).prop_map(|(k, b)| Op::Update(k, b)), 2 => (0u8..6).prop_map(Op::Finalize), 2 => (0u8..6).prop_map(Op::Fork), 1 => (0u8..6).prop_map(Op::Renew)];
            (0u8..2, vec(op, 1..16)).prop_map(|(alg, ops)| Hist { alg, ops })
        }, hist);
    })
}
