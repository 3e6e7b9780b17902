//! C21: certificate times. The calendar counted day by day is the reference; the validity window
//! is probed by moving the wall clock.
use anothertls::utils::x509::{UtcTime, X509};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
#[path = "../clock.rs"]
mod clock;
use vharness::cert::{self, mdays, Civil, Spec};
use vharness::run::*;
use vharness::*;

fn utc(c: &Civil) -> UtcTime {
    UtcTime { year: c.y as u16, month: c.mo as u16, day: c.d as u16, hour: c.h as u16, minute: c.mi as u16, second: c.s as u16 }
}
fn unix(c: &Civil) -> Result<i128, Fail> {
    match guard(|| i128::from(utc(c).get_unix_timestamp())) {
        Ok(v) => Ok(v),
        Err(p) => Err(Fail::Bad(format!("converting {c:?} panics: {p:?}"))),
    }
}
/// every day of one year
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Year {
    y: i64,
}
fn year(c: &Year) -> Res {
    let mut prev = i128::MIN;
    for mo in 1..=12 {
        for d in 1..=mdays(c.y, mo) {
            for (h, mi, s) in [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (11, 59, 59), (12, 0, 0), (23, 59, 58), (23, 59, 59)] {
                let t = Civil::new(c.y, mo, d, h, mi, s);
                let g = unix(&t)?;
                ensure!(g == t.unix() as i128, "{t:?} converts to {g} instead of {}", t.unix());
                ensure!(g > prev, "{t:?} is not later than the instant before it");
                prev = g;
            }
        }
    }
    // the whole of one day, second by second
    let d = Civil::new(c.y, 1 + c.y % 12, 1 + c.y % 28, 0, 0, 0);
    for s in 0..86400 {
        let t = Civil::from_unix(d.unix() + s);
        let g = unix(&t)?;
        ensure!(g == (d.unix() + s) as i128, "{t:?} converts to {g} instead of {}", d.unix() + s);
    }
    Ok(hit().tag_if(cert::leap(c.y), "leap-year"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Any {
    a: i64,
    b: i64,
}
const MIN: i64 = -631152000;
const MAX: i64 = 2524607999;
fn any_instant(c: &Any) -> Res {
    let (a, b) = (Civil::from_unix(c.a), Civil::from_unix(c.b));
    let (x, y) = (unix(&a)?, unix(&b)?);
    ensure!(x == c.a as i128, "{a:?} converts to {x} instead of {}", c.a);
    ensure!(x.cmp(&y) == c.a.cmp(&c.b), "{a:?} and {b:?} are ordered wrongly");
    Ok(hit().tag_if(a.mo == 2 && a.d == 29, "29 February"))
}
/// a certificate with that validity, at the clock's times around both ends
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Window {
    nb: i64,
    na: i64,
    probes: Vec<(bool, i64, u32)>,
}
fn with_times(nb: &[u8], na: &[u8]) -> Vec<u8> {
    let s = Spec::simple("x", 5);
    let mut p = s.parts();
    p[4] = cert::seq(&[nb.to_vec(), na.to_vec()]);
    cert::seq(&[cert::seq(&p), s.alg(), cert::bits(&cert::seq(&[cert::integer(&[1]), cert::integer(&[1])]))])
}
fn window(c: &Window) -> Res {
    let (nb, na) = (Civil::from_unix(c.nb), Civil::from_unix(c.na));
    let x = match X509::from_raw(&with_times(&nb.utc(), &na.utc())) {
        Ok(x) => x,
        Err(e) => bad!("certificate with validity {} .. {} is refused: {e:?}", nb.text(), na.text()),
    };
    let mut ends = false;
    for (end, d, ns) in c.probes.iter().chain([(false, -1, 0), (false, 0, 0), (false, 1, 0), (true, -1, 0), (true, 0, 0), (true, 1, 0)].iter()) {
        let t = if *end { c.na } else { c.nb } + d;
        // SystemTime before 1970 is no time a system has
        if t < 0 {
            continue;
        }
        let want = c.nb <= t && t <= c.na;
        let got = match guard(|| clock::at(t, *ns as i64, || x.tbs_certificate.validity.is_valid())) {
            Ok(g) => g,
            Err(p) => bad!("validity check at {t} panics: {p:?}"),
        };
        ensure!(got == want, "a certificate valid {} .. {} ({} .. {}) is {} at {t} ({})", nb.text(), na.text(), c.nb, c.na, if got { "valid" } else { "not valid" }, Civil::from_unix(t).text());
        ends |= *d == 0;
    }
    Ok(nt(ends).tag_if(c.nb > c.na, "empty-window").tag_if(c.nb == c.na, "one-second").tag_if(c.nb < 0, "before-1970"))
}
/// texts that are no UTCTime
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    t: gen::Hex,
    after: bool,
}
fn proper(t: &[u8]) -> Option<Civil> {
    if t.len() != 13 || t[12] != b'Z' || !t[..12].iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let n = |i: usize| ((t[i] - b'0') * 10 + t[i + 1] - b'0') as i64;
    let c = Civil::new(if n(0) >= 50 { 1900 + n(0) } else { 2000 + n(0) }, n(2), n(4), n(6), n(8), n(10));
    if !(1..=12).contains(&c.mo) || c.d < 1 || c.d > mdays(c.y, c.mo) || c.h > 23 || c.mi > 59 || c.s > 59 {
        return None;
    }
    Some(c)
}
/// forms BER allows and RFC 5280 does not: an error or the right instant, nobody's business here
fn ber(t: &[u8]) -> bool {
    (t.len() == 11 && t[10] == b'Z' && t[..10].iter().all(u8::is_ascii_digit)) || t.iter().any(|b| *b == b'+' || *b == b'-')
}
fn text(c: &Text) -> Res {
    let ok = cert::ALWAYS;
    let bad_t = cert::tlv(0x17, &c.t);
    let raw = if c.after { with_times(&ok.0.utc(), &bad_t) } else { with_times(&bad_t, &ok.1.utc()) };
    let r = match guard(|| X509::from_raw(&raw)) {
        Ok(r) => r,
        Err(p) => bad!("time {:?} panics: {p:?}", String::from_utf8_lossy(&c.t)),
    };
    match (proper(&c.t), r) {
        (Some(t), Ok(x)) => {
            // and it is that instant
            let u = t.unix();
            if u > 0 {
                let at = |s: i64| clock::at(s, 0, || x.tbs_certificate.validity.is_valid());
                let (nb, na) = if c.after { (ok.0.unix(), u) } else { (u, ok.1.unix()) };
                for s in [u - 1, u, u + 1] {
                    ensure!(at(s) == (nb <= s && s <= na), "time {:?} is read as another instant", String::from_utf8_lossy(&c.t));
                }
            }
            Ok(nt(false).tag("proper"))
        }
        (Some(_), Err(e)) => bad!("proper time {:?} is refused: {e:?}", String::from_utf8_lossy(&c.t)),
        (None, Ok(_)) if !ber(&c.t) => bad!("malformed time {:?} is accepted", String::from_utf8_lossy(&c.t)),
        _ => Ok(hit()),
    }
}
/// times in other numbers and places than the validity's two
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Places {
    /// what is in the validity: 0 UTCTime, 1 GeneralizedTime, other types
    elems: Vec<(u8, i64)>,
    /// leave the validity out altogether
    none: bool,
    /// a time as a value in issuer, subject, the algorithm of the key
    issuer: Option<i64>,
    subject: Option<i64>,
    key: Option<i64>,
}
fn places(c: &Places) -> Res {
    let s = Spec::simple("x", 5);
    let mut p = s.parts();
    let body: Vec<u8> = c.elems.iter().flat_map(|(t, at)| match t {
        0 => Civil::from_unix(*at).utc(),
        1 => cert::tlv(0x18, format!("{}{}", if Civil::from_unix(*at).y < 2000 { "19" } else { "20" }, Civil::from_unix(*at).text()).as_bytes()),
        2 => cert::tlv(5, &[]),
        3 => cert::integer(&[1]),
        4 => cert::tlv(0x30, &[]),
        5 => cert::seq(&[Civil::from_unix(*at).utc()]),
        _ => cert::tlv(0x0c, Civil::from_unix(*at).text().as_bytes()),
    }).collect();
    p[4] = cert::seq(&[body]);
    for (i, t) in [(3, c.issuer), (5, c.subject)] {
        if let Some(t) = t {
            let attr = cert::tlv(0x31, &cert::seq(&[cert::oid("550403"), Civil::from_unix(t).utc()]));
            p[i] = cert::seq(&[cert::tlv_body(&p[i]).unwrap_or(&[]).to_vec(), attr]);
        }
    }
    if let Some(t) = c.key {
        let b = cert::bits(&cert::point(&cert::scalar(5)));
        p[6] = cert::seq(&[cert::seq(&[cert::oid(cert::OID_EC), cert::oid(cert::OID_P256), Civil::from_unix(t).utc()]), b]);
    }
    if c.none {
        p.remove(4);
    }
    let raw = cert::seq(&[cert::seq(&p), s.alg(), cert::bits(&cert::seq(&[cert::integer(&[1]), cert::integer(&[1])]))]);
    let plain = !c.none && c.elems.len() == 2 && c.elems.iter().all(|e| e.0 == 0);
    let clean = c.issuer.is_none() && c.subject.is_none() && c.key.is_none();
    let x = match guard(|| X509::from_raw(&raw)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) if plain && clean => bad!("a certificate with both times is refused: {e:?}"),
        Ok(Err(_)) => return Ok(hit().tag("refused")),
        Err(p) => bad!("{c:?} panics: {p:?}"),
    };
    // (times in the other form are not supported, nor is it said that they are refused)
    let times = c.elems.iter().filter(|e| e.0 < 2 || e.0 == 5).count();
    ensure!(!c.none && times == 2, "a certificate is accepted whose validity has not two times: {:?}", if c.none { None } else { Some(&c.elems) });
    if c.elems.len() != 2 || c.elems.iter().any(|e| e.0 > 1) {
        return Ok(hit().tag("two times and more"));
    }
    let (nb, na) = (c.elems[0].1, c.elems[1].1);
    for t in [nb, na].into_iter().chain(c.issuer).chain(c.subject).chain(c.key).flat_map(|t| [t - 1, t, t + 1]).filter(|t| *t >= 0) {
        let got = guard(|| clock::at(t, 0, || x.tbs_certificate.validity.is_valid()))?;
        ensure!(got == (nb <= t && t <= na), "a certificate valid {nb} .. {na} with other times (issuer {:?}, subject {:?}, key {:?}) is {} at {t}", c.issuer, c.subject, c.key, if got { "valid" } else { "not valid" });
    }
    Ok(hit().tag(if clean { "two times" } else { "times elsewhere" }))
}
fn main() {
    run::main("C21", "all 36,525 days of 1950 to 2049 at eight times of day, and one day of each year second by second (enumerated); random instants; certificates with random windows probed at and around both ends by setting the clock; texts one edit away from a UTCTime; certificates with other numbers of times, and times in other places. Non-trivial: windows probed at an end, texts that are malformed", |c| {
        c.assume("the wall clock is what clock_gettime(CLOCK_REALTIME) returns; times are compared by whole seconds");
        c.list("calendar", (1950..2050).map(|y| Year { y }).collect(), year);
        let inst = || prop_oneof![2 => MIN..=MAX, 1 => (1950i64..2050, 1i64..13, -2i64..3, 0i64..86400).prop_map(|(y, m, d, s)| (Civil::new(y, m, 1, 0, 0, 0).unix() + d * 86400 + s).clamp(MIN, MAX)), 1 => (1952i64..2049, -2i64..3).prop_map(|(y, d)| (Civil::new(y, 12, 31, 23, 59, 59).unix() + d).clamp(MIN, MAX))];
        c.sub("instants", 40_000, || (inst(), inst()).prop_map(|(a, b)| Any { a, b }), any_instant);
        let probe = || (any::<bool>(), prop_oneof![-3i64..4, -90000i64..90000, -40_000_000i64..40_000_000], 0u32..1_000_000_000);
        c.sub("window", 12_000, || (inst(), prop_oneof![4 => inst(), 2 => Just(i64::MIN)], prop_oneof![1 => Just(0i64), 3 => 0i64..400_000], prop::collection::vec(probe(), 0..6)).prop_map(|(nb, na, d, probes)| Window { nb, na: if na == i64::MIN { (nb + d).clamp(MIN, MAX) } else { na }, probes }), window);
        c.sub("places", 12_000, || {
            let elem = prop_oneof![5 => Just(0u8), 1 => 1u8..7];
            let other = || prop_oneof![3 => Just(None), 1 => inst().prop_map(Some)];
            (prop_oneof![2 => prop::collection::vec((elem.clone(), inst()), 2..3), 1 => prop::collection::vec((elem.clone(), inst()), 0..5)], prop::bool::weighted(0.1), other(), other(), other()).prop_map(|(elems, none, issuer, subject, key)| Places { elems, none, issuer, subject, key })
        }, places);
        let near = (inst(), prop::collection::vec((0usize..14, any::<u8>(), 0u8..4), 1..3)).prop_map(|(t, eds)| {
            let mut v = Civil::from_unix(t).text().into_bytes();
            for (i, b, how) in eds {
                let i = i % (v.len() + 1);
                let ch = match b % 4 { 0 => b, 1 => b' ', _ => b'0' + b / 4 % 10 };
                match how {
                    0 if i < v.len() => { v.remove(i); }
                    1 => v.insert(i, ch),
                    _ if i < v.len() => v[i] = ch,
                    _ => {}
                }
            }
            gen::Hex(v)
        });
        // every field just out of range
        let fields = (0i64..100, 0i64..15, 0i64..34, 0i64..27, 0i64..63, 0i64..63).prop_map(|(y, mo, d, h, mi, s)| gen::Hex(format!("{y:02}{mo:02}{d:02}{h:02}{mi:02}{s:02}Z").into_bytes()));
        let feb = (0i64..100, 28i64..31).prop_map(|(y, d)| gen::Hex(format!("{y:02}02{d:02}120000Z").into_bytes()));
        c.sub("text", 24_000, || (prop_oneof![3 => near.clone(), 2 => fields.clone(), 1 => feb.clone(), 1 => gen::hexn(0..30)], any::<bool>()).prop_map(|(t, after)| Text { t, after }), text);
    })
}
