//! C06: P-256 group law against OpenSSL.
use anothertls::crypto::ellipticcurve::{math, Curve, Point, PrivateKey};
use ibig::IBig;
use openssl::ec::{EcPoint, EcPointRef};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vharness::gen::*;
use vharness::refs;
use vharness::run::*;
use vharness::*;

fn int(b: &[u8]) -> IBig {
    b.iter().fold(IBig::from(0), |a, x| (a << 8) + IBig::from(*x))
}
fn conv(p: &EcPoint) -> Point {
    match refs::affine(p) {
        None => Point::new(IBig::from(0), IBig::from(0)),
        Some((x, y)) => Point::new(int(&x), int(&y)),
    }
}
fn same(got: &Point, want: &EcPoint) -> bool {
    *got == conv(want)
}
/// A point: `k` times G, negated, doubled, infinity, or a point found from an x coordinate.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pt {
    Mul(Hex),
    FromX(Hex, bool),
    Inf,
}
fn pt(p: &Pt) -> EcPoint {
    match p {
        Pt::Mul(k) => refs::point_mul_g(k),
        Pt::Inf => EcPoint::new(&refs::p256()).unwrap(),
        Pt::FromX(x, odd) => {
            let g = refs::p256();
            let mut c = openssl::bn::BigNumContext::new().unwrap();
            let mut x = x.to_vec();
            for _ in 0..300 {
                let mut enc = vec![if *odd { 3 } else { 2 }];
                enc.extend_from_slice(&x);
                if let Ok(p) = EcPoint::from_bytes(&g, &enc, &mut c) {
                    return p;
                }
                for i in (0..32).rev() {
                    x[i] = x[i].wrapping_add(1);
                    if x[i] != 0 {
                        break;
                    }
                }
            }
            refs::point_mul_g(&[1])
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rel {
    Other(Pt),
    Same,
    Neg,
    Double,
    MinusDouble,
    /// the second point is the first times so many
    Times(Hex),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Add {
    p: Pt,
    q: Rel,
    swap: bool,
}
fn neg(p: &EcPointRef) -> EcPoint {
    let g = refs::p256();
    let mut q = p.to_owned(&g).unwrap();
    q.invert2(&g, &mut openssl::bn::BigNumContext::new().unwrap()).unwrap();
    q
}
fn add(c: &Add) -> Res {
    let curve = Curve::secp256r1();
    let p = pt(&c.p);
    let mut tag = "other";
    let q = match &c.q {
        Rel::Other(q) => pt(q),
        Rel::Same => {
            tag = "double";
            p.to_owned(&refs::p256())?
        }
        Rel::Neg => {
            tag = "inverse";
            neg(&p)
        }
        Rel::Double => refs::point_add(&p, &p),
        Rel::MinusDouble => neg(&refs::point_add(&p, &p)),
        Rel::Times(k) => refs::point_mul(&p, k),
    };
    let (p, q) = if c.swap { (q, p) } else { (p, q) };
    let inf = refs::affine(&p).is_none() || refs::affine(&q).is_none();
    let want = refs::point_add(&p, &q);
    let got = math::add(conv(&p), conv(&q), &curve);
    ensure!(same(&got, &want), "{:?} + {:?}: got {got:?} want {:?}", conv(&p), conv(&q), conv(&want));
    let zero = refs::affine(&want).is_none();
    ensure!(zero || curve.contains(&got), "the sum {got:?} is not on the curve");
    Ok(hit().tag(if inf { "with-infinity" } else { tag }))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sc {
    Raw(Hex),
    /// n*a + b
    NearOrder(u8, i32),
    Pow(u16, i32),
    /// small number
    Small(i64),
    Neg(Hex),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mul {
    p: Pt,
    k: Sc,
}
fn n() -> IBig {
    int(&refs::p256_order().to_vec())
}
fn mul(c: &Mul) -> Res {
    let curve = Curve::secp256r1();
    let k = match &c.k {
        Sc::Raw(h) => int(h),
        Sc::NearOrder(a, b) => n() * IBig::from(*a) + IBig::from(*b),
        Sc::Pow(e, b) => (IBig::from(1) << *e as usize) + IBig::from(*b),
        Sc::Small(a) => IBig::from(*a),
        Sc::Neg(h) => -int(h),
    };
    // the reference gets the scalar reduced to [0, n)
    let mut m = &k % n();
    if m < IBig::from(0) {
        m += n();
    }
    let mb = ibig::UBig::try_from(m.clone()).unwrap().to_be_bytes();
    let p = pt(&c.p);
    let want = refs::point_mul(&p, &mb);
    let got = math::multiply(&conv(&p), k.clone(), &curve);
    ensure!(same(&got, &want), "{k} * {:?}: got {got:?} want {:?}", conv(&p), conv(&want));
    let zero = refs::affine(&want).is_none();
    ensure!(zero || curve.contains(&got), "the product {got:?} is not on the curve");
    Ok(hit().tag_if(zero, "infinity").tag_if(k >= n(), "beyond-order").tag_if(k < IBig::from(0), "negative"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct On {
    x: Hex,
    y: Hex,
    on: bool,
    how: u8,
}
fn contains(c: &On) -> Res {
    let curve = Curve::secp256r1();
    let (x, y) = if c.on {
        let (x, y) = refs::affine(&pt(&Pt::FromX(c.x.clone(), c.y[31] & 1 == 1))).unwrap();
        (int(&x), int(&y))
    } else {
        (int(&c.x), int(&c.y))
    };
    let p = int(&refs::p256_prime().to_vec());
    let (x, y) = match c.how {
        0 => (x + &p, y),
        1 => (x, y + &p),
        2 => (y, x),
        3 if y <= p => (x, &p - y),
        4 => (x + IBig::from(1), y),
        5 => (x, y + IBig::from(1)),
        _ => (x, y),
    };
    let b = |v: &IBig| ibig::UBig::try_from(v.clone()).unwrap().to_be_bytes();
    let want = x < p && y < p && refs::point_from_affine(&b(&x), &b(&y)).is_some();
    let got = curve.contains(&Point::new(x.clone(), y.clone()));
    ensure!(got == want, "contains(({x}, {y})) = {got}, on the curve: {want}");
    Ok(hit().tag(if want { "on" } else { "off" }))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pubk {
    k: Hex,
}
fn pubk(c: &Pubk) -> Res {
    let k = PrivateKey::new(Curve::secp256r1(), int(&c.k));
    let want = refs::point_mul_g(&c.k);
    let got = k.get_public_key();
    ensure!(same(&got.point, &want), "public key of {}: got {:?} want {:?}", hex(&c.k), got.point, conv(&want));
    Ok(hit())
}
fn main() {
    run::main("C06", "sums of related points (equal, inverse, double, multiple, with infinity) and products with scalars near multiples of the order, powers of two, small, negative, longer than 256 bits and random; points from scalars and from chosen x coordinates; every case is non-trivial", |c| {
        c.assume("OpenSSL 3.0 P-256 arithmetic is correct; the point at infinity is represented as (0, 0)");
        let k = || prop_oneof![3 => edgy(32), 1 => hexn(1..3), 1 => hexn(32)];
        let p = move || prop_oneof![6 => k().prop_map(Pt::Mul), 3 => (edgy(32), any::<bool>()).prop_map(|(x, o)| Pt::FromX(x, o)), 1 => Just(Pt::Inf)];
        let mut small = vec![];
        for a in 0u8..=20 {
            for b in 0u8..=20 {
                small.push(Add { p: Pt::Mul(Hex(vec![a])), q: Rel::Other(Pt::Mul(Hex(vec![b]))), swap: false });
            }
        }
        c.list("add-small", small, add);
        c.list("multiply-small", (-40..=300i64).map(|i| Mul { p: Pt::Mul(Hex(vec![1])), k: Sc::Small(i) }).chain((-40..=40).flat_map(|b| (1u8..=3).map(move |a| Mul { p: Pt::Mul(Hex(vec![7])), k: Sc::NearOrder(a, b) }))).chain((0..530u16).map(|e| Mul { p: Pt::Mul(Hex(vec![5, 5])), k: Sc::Pow(e, 0) })).collect(), mul);
        c.sub("add", 200_000, move || {
            let q = prop_oneof![4 => p().prop_map(Rel::Other), 2 => Just(Rel::Same), 2 => Just(Rel::Neg), 1 => Just(Rel::Double), 1 => Just(Rel::MinusDouble), 1 => k().prop_map(Rel::Times)];
            (p(), q, any::<bool>()).prop_map(|(p, q, swap)| Add { p, q, swap })
        }, add);
        c.sub("multiply", 40_000, move || {
            let s = prop_oneof![4 => k().prop_map(Sc::Raw), 1 => hexn(33..70).prop_map(Sc::Raw), 2 => (0u8..6, -40i32..40).prop_map(|(a, b)| Sc::NearOrder(a, b)), 2 => (0u16..600, -5i32..5).prop_map(|(e, b)| Sc::Pow(e, b)), 1 => (-200i64..2000).prop_map(Sc::Small), 1 => k().prop_map(Sc::Neg)];
            (p(), s).prop_map(|(p, k)| Mul { p, k })
        }, mul);
        c.sub("contains", 60_000, || (edgy(32), edgy(32), any::<bool>(), 0u8..12).prop_map(|(x, y, on, how)| On { x, y, on, how }), contains);
        c.sub("public-key", 3_000, || edgy(32).prop_map(|k| Pubk { k }), pubk);
    })
}
