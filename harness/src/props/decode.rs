//! C20: decoding compact proofs, judged by a decoder of our own.

use super::responses::{no_duplicates, wire};
use crate::enc;
use crate::eval;
use crate::gen::{self, Near, S};
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use chrono::{DateTime, Utc};
use openid4vci::jwt::{ProofJwt, ProofJwtAdditionalHeader};
use openid4vci::types::credential_request::CredentialRequestProof;
use openid4vci::validate::Validatable;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::str::FromStr;

// ------------------------------------------------------------------------------------------------ reference

/// What a proof says
#[derive(Debug, Clone, PartialEq)]
pub struct Said {
    typ: String,
    alg: String,
    key: Option<Key>,
    iss: Option<String>,
    aud: String,
    sub: Option<String>,
    iat: Moment,
    nonce: String,
    nbf: Option<Moment>,
    exp: Option<Moment>,
    signature: Option<String>,
}

#[derive(Debug, Clone, PartialEq)]
enum Key {
    Kid(String),
    Jwk(Value),
    X5c(Value),
}

/// A time with the precision it was written with
#[derive(Debug, Clone, Copy, PartialEq)]
struct Moment {
    ns: i128,
    tolerance: i128,
}

impl Moment {
    fn matches(self, t: DateTime<Utc>) -> bool {
        let ns = i128::from(t.timestamp()) * 1_000_000_000 + i128::from(t.timestamp_subsec_nanos());
        (ns - self.ns).abs() <= self.tolerance
    }
}

enum Judged {
    Says(Box<Said>),
    Malformed(String),
    /// left open
    Open(&'static str),
}

/// `Err(Some(why))`: malformed, `Err(None)`: open
type Part<T> = Result<T, Option<String>>;

fn bad<T>(why: impl Into<String>) -> Part<T> {
    Err(Some(why.into()))
}

fn digits(text: &str, n: usize) -> Option<(i64, &str)> {
    let (d, rest) = (text.get(..n)?, text.get(n..)?);
    d.bytes().all(|c| c.is_ascii_digit()).then(|| (d.parse().ok(), rest)).and_then(|(n, r)| Some((n?, r)))
}

/// Days from the epoch to a civil date
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = y - i64::from(m <= 2);
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

/// Strict RFC 3339 without leap seconds: nanoseconds since the epoch
fn parse_rfc3339(text: &str) -> Option<i128> {
    let (y, r) = digits(text, 4)?;
    let (mo, r) = digits(r.strip_prefix('-')?, 2)?;
    let (d, r) = digits(r.strip_prefix('-')?, 2)?;
    let (h, r) = digits(r.strip_prefix('T')?, 2)?;
    let (mi, r) = digits(r.strip_prefix(':')?, 2)?;
    let (s, mut r) = digits(r.strip_prefix(':')?, 2)?;
    let mut ns = 0i128;
    if let Some(f) = r.strip_prefix('.') {
        let n = f.bytes().take_while(u8::is_ascii_digit).count();
        if n == 0 || n > 9 {
            return None;
        }
        ns = format!("{:0<9}", &f[..n]).parse().ok()?;
        r = &f[n..];
    }
    let offset = match r {
        "Z" => 0,
        r => {
            let sign = match r.as_bytes().first()? {
                b'+' => 1,
                b'-' => -1,
                _ => return None,
            };
            let (oh, r) = digits(&r[1..], 2)?;
            let (om, r) = digits(r.strip_prefix(':')?, 2)?;
            if !r.is_empty() || oh > 23 || om > 59 {
                return None;
            }
            sign * (oh * 60 + om)
        }
    };
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let last = match mo {
        2 => 28 + i64::from(leap),
        4 | 6 | 9 | 11 => 30,
        1..=12 => 31,
        _ => return None,
    };
    if d < 1 || d > last || h > 23 || mi > 59 || s > 59 {
        return None;
    }
    let secs = days(y, mo, d) * 86_400 + h * 3600 + mi * 60 + s - offset * 60;
    Some(i128::from(secs) * 1_000_000_000 + ns)
}

fn moment(v: &Value) -> Part<Moment> {
    let within = |ns: i128, tolerance: i128| {
        if ns >= Inst::MIN.total_ns() && ns <= Inst::MAX.total_ns() {
            Ok(Moment { ns, tolerance })
        } else {
            bad("a time out of range")
        }
    };
    match v {
        Value::String(t) => match parse_rfc3339(t) {
            Some(ns) => within(ns, 0),
            // other notations of a date are left open
            None if t.bytes().filter(u8::is_ascii_digit).count() >= 6 && t.contains('-') && t.contains(':') => Err(None),
            None => bad(format!("the time {t:?}")),
        },
        Value::Number(n) => match (n.as_i64(), n.as_f64()) {
            (Some(s), _) => within(i128::from(s) * 1_000_000_000, 0),
            (None, Some(f)) if f.abs() < 8e12 => {
                let whole = f.floor();
                within(whole as i128 * 1_000_000_000 + ((f - whole) * 1e9) as i128, 1000)
            }
            (None, Some(f)) if f.abs() > 9e12 => bad("a time out of range"),
            _ => Err(None),
        },
        v => bad(format!("the time {v}")),
    }
}

fn object(segment: &str) -> Part<Map<String, Value>> {
    let Some(bytes) = enc::unb64url(segment) else {
        // bits that are left over are left open
        let canonical = segment.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_') && segment.len() % 4 != 1;
        return if canonical { Err(None) } else { bad(format!("{segment:?} is not base64url")) };
    };
    let v: Value = match serde_json::from_slice(&bytes) {
        Ok(v) => v,
        Err(e) => {
            let e = e.to_string();
            // of members that are ignored, the content may be unchecked
            let open = ["unicode", "surrogate", "number out of range", "recursion", "hex escape"];
            return if open.iter().any(|o| e.contains(o)) { Err(None) } else { bad(format!("no JSON: {e}")) };
        }
    };
    let text = String::from_utf8(bytes).map_err(|_| None)?;
    if no_duplicates(&text).is_err() {
        return Err(None);
    }
    match v {
        Value::Object(m) => Ok(m),
        v => bad(format!("{v} is no object")),
    }
}

fn optional<'a>(m: &'a Map<String, Value>, name: &str) -> Option<&'a Value> {
    m.get(name).filter(|v| !v.is_null())
}

fn text(m: &Map<String, Value>, name: &str) -> Part<Option<String>> {
    match optional(m, name) {
        None => Ok(None),
        Some(Value::String(s)) => Ok(Some(s.clone())),
        Some(v) => bad(format!("{name} is {v}")),
    }
}

fn mandatory<T>(name: &str, v: Option<T>) -> Part<T> {
    v.map_or_else(|| bad(format!("{name} is missing")), Ok)
}

fn said(compact: &str) -> Part<Said> {
    let parts: Vec<&str> = compact.split('.').collect();
    if !(2..=3).contains(&parts.len()) {
        return bad(format!("{} segments", parts.len()));
    }
    let (header, body) = match (object(parts[0]), object(parts[1])) {
        (Err(Some(e)), _) | (_, Err(Some(e))) => return bad(e),
        (h, b) => (h?, b?),
    };
    let time = |name: &str| optional(&body, name).map(moment).transpose();
    // whatever is malformed counts, even if something else is open
    let typ = text(&header, "typ").and_then(|t| mandatory("typ", t));
    let alg = text(&header, "alg").and_then(|t| mandatory("alg", t)).and_then(|a| {
        if ALGORITHMS.iter().any(|(n, _)| *n == a) {
            Ok(a)
        } else {
            bad(format!("the algorithm {a:?}"))
        }
    });
    let kid = text(&header, "kid");
    let iss = text(&body, "iss");
    let sub = text(&body, "sub");
    let aud = text(&body, "aud").and_then(|t| mandatory("aud", t));
    let nonce = text(&body, "nonce").and_then(|t| mandatory("nonce", t));
    let iat = time("iat").and_then(|t| mandatory("iat", t));
    let (nbf, exp) = (time("nbf"), time("exp"));
    fn malformed<T>(p: &Part<T>) -> Option<String> {
        p.as_ref().err().and_then(Clone::clone)
    }
    let all = [
        malformed(&typ),
        malformed(&alg),
        malformed(&kid),
        malformed(&iss),
        malformed(&sub),
        malformed(&aud),
        malformed(&nonce),
        malformed(&iat),
        malformed(&nbf),
        malformed(&exp),
    ];
    if let Some(why) = all.into_iter().flatten().next() {
        return bad(why);
    }
    let keys: Vec<Key> = [
        kid?.map(Key::Kid),
        optional(&header, "jwk").cloned().map(Key::Jwk),
        optional(&header, "x5c").cloned().map(Key::X5c),
    ]
    .into_iter()
    .flatten()
    .collect();
    if keys.len() > 1 {
        // C10 asks that evaluation refuses it; where is left open
        return Err(None);
    }
    Ok(Said {
        typ: typ?,
        alg: alg?,
        key: keys.into_iter().next(),
        iss: iss?,
        aud: aud?,
        sub: sub?,
        iat: iat?,
        nonce: nonce?,
        nbf: nbf?,
        exp: exp?,
        signature: parts.get(2).map(|s| (*s).to_owned()),
    })
}

fn judge(compact: &str) -> Judged {
    match said(compact) {
        Ok(s) => Judged::Says(Box::new(s)),
        Err(Some(why)) => Judged::Malformed(why),
        Err(None) => Judged::Open("open"),
    }
}

fn same_json(text: &str, v: &Value) -> bool {
    match v {
        Value::String(t) => t == text,
        v => serde_json::from_str::<Value>(text).is_ok_and(|t| t == *v),
    }
}

fn compare(got: &ProofJwt, s: &Said) -> Verdict {
    ensure!(got.header.typ == s.typ, "typ is {:?} instead of {:?}", got.header.typ, s.typ);
    let alg = wire(&got.header.alg)?;
    ensure!(alg == json!(s.alg), "alg is {alg} instead of {:?}", s.alg);
    let key = match (&got.header.additional_header, &s.key) {
        (None, None) => true,
        (Some(ProofJwtAdditionalHeader::KeyId(a)), Some(Key::Kid(b))) => a == b,
        (Some(ProofJwtAdditionalHeader::Jwk(a)), Some(Key::Jwk(b)))
        | (Some(ProofJwtAdditionalHeader::X5c(a)), Some(Key::X5c(b))) => same_json(a, b),
        _ => false,
    };
    ensure!(key, "the key is {:?} instead of {:?}", got.header.additional_header, s.key);
    ensure!(got.body.issuer == s.iss, "iss is {:?} instead of {:?}", got.body.issuer, s.iss);
    ensure!(got.body.audience == s.aud, "aud is {:?} instead of {:?}", got.body.audience, s.aud);
    ensure!(got.body.subject == s.sub, "sub is {:?} instead of {:?}", got.body.subject, s.sub);
    ensure!(got.body.nonce == s.nonce, "nonce is {:?} instead of {:?}", got.body.nonce, s.nonce);
    ensure!(s.iat.matches(got.body.issued_at), "iat is {:?} instead of {:?}", got.body.issued_at, s.iat);
    for (name, got, want) in [("nbf", got.body.not_before, s.nbf), ("exp", got.body.expires_at, s.exp)] {
        let same = match (got, want) {
            (None, None) => true,
            (Some(a), Some(b)) => b.matches(a),
            _ => false,
        };
        ensure!(same, "{name} is {got:?} instead of {want:?}");
    }
    // (an empty third segment is no signature)
    let signature = |s: &Option<String>| s.clone().filter(|s| !s.is_empty());
    ensure!(
        signature(&got.signature) == signature(&s.signature),
        "the signature is {:?} instead of {:?}",
        got.signature,
        s.signature
    );
    Ok(())
}

// ------------------------------------------------------------------------------------------------ cases

/// An edit of the proof
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    /// set a member of the header (false) or body (true)
    Set(bool, String, Value),
    Remove(bool, String),
    Rename(bool, String, Near),
    /// the whole content of a segment
    Content(bool, Value),
    /// the members of a segment as an array of their values
    AsArray(bool),
    /// of the bytes of a segment
    Bytes(bool, ByteEdit),
    /// of the text of a segment, once encoded
    Segment(u8, Near),
    Pad(u8, u8),
    StandardAlphabet(u8),
    Segments(Shape),
    Whole(Near),
    /// a byte that is not UTF-8 in the text of a mandatory member
    InvalidUtf8(u8),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum ByteEdit {
    Truncate(u16),
    Append(Vec<u8>),
    Prepend(Vec<u8>),
    Flip(u16, u8),
    Replace(Vec<u8>),
    Duplicate,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Shape {
    HeaderOnly,
    Empty,
    Swap,
    FourParts,
    FiveParts,
    TrailingDot,
    LeadingDot,
    DoubleDot,
    Comma,
    HeaderTwice,
    OneDot,
    TwoDots,
}

const HEADER: [&str; 5] = ["typ", "alg", "kid", "jwk", "x5c"];
const BODY: [&str; 7] = ["aud", "iat", "nonce", "iss", "sub", "nbf", "exp"];

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub proof: Proof,
    pub edits: Vec<Edit>,
}

impl Case {
    /// The compact form, and whether it certainly is malformed
    pub fn compact(&self) -> (String, bool) {
        let mut members = [self.proof.header_members(), self.proof.body_members()];
        let mut certainly = false;
        for e in &self.edits {
            match e {
                Edit::Set(b, name, v) => {
                    let m = &mut members[usize::from(*b)];
                    match m.iter_mut().find(|(n, _)| n == name) {
                        Some((_, old)) => *old = v.clone(),
                        None => m.push((name.clone(), v.clone())),
                    }
                }
                Edit::Remove(b, name) => members[usize::from(*b)].retain(|(n, _)| n != name),
                Edit::Rename(b, name, near) => {
                    for (n, _) in &mut members[usize::from(*b)] {
                        if n == name {
                            *n = near.apply(n);
                        }
                    }
                }
                _ => {}
            }
        }
        let mut bytes = members.clone().map(|m| enc::write_object(&m, self.proof.style).into_bytes());
        for e in &self.edits {
            match e {
                Edit::Content(b, v) => bytes[usize::from(*b)] = v.to_string().into_bytes(),
                Edit::AsArray(b) => {
                    let names: &[&str] = if *b { &["iss", "aud", "sub", "iat", "nonce", "nbf", "exp"] } else { &HEADER };
                    let value = |n: &&str| {
                        members[usize::from(*b)].iter().find(|(m, _)| m == n).map_or(Value::Null, |(_, v)| v.clone())
                    };
                    bytes[usize::from(*b)] = json!(names.iter().map(value).collect::<Vec<_>>()).to_string().into_bytes();
                }
                Edit::Bytes(b, e) => {
                    let s = &mut bytes[usize::from(*b)];
                    match e {
                        ByteEdit::Truncate(n) if !s.is_empty() => s.truncate(usize::from(*n) % s.len()),
                        ByteEdit::Truncate(_) => {}
                        ByteEdit::Append(more) => s.extend(more),
                        ByteEdit::Prepend(more) => {
                            s.splice(0..0, more.iter().copied());
                        }
                        ByteEdit::Flip(at, bits) if !s.is_empty() => {
                            let at = usize::from(*at) % s.len();
                            s[at] ^= bits;
                        }
                        ByteEdit::Flip(..) => {}
                        ByteEdit::Replace(with) => *s = with.clone(),
                        ByteEdit::Duplicate => s.extend(s.clone()),
                    }
                }
                Edit::InvalidUtf8(which) => {
                    let (b, name) = [(0, "typ"), (0, "alg"), (1, "aud"), (1, "nonce")][usize::from(*which) % 4];
                    let key = format!("\"{name}\"").into_bytes();
                    let s = &mut bytes[b];
                    let at = s.windows(key.len()).position(|w| w == key);
                    let quote = at.and_then(|at| {
                        let from = at + key.len();
                        s[from..].iter().position(|c| *c == b'"').map(|p| from + p + 1)
                    });
                    // (only if no other edit made it something else)
                    if let (Some(at), 1) = (quote, self.edits.len()) {
                        s.insert(at, 0xff);
                        certainly = !self.proof.extra_header.keys().chain(self.proof.extra_body.keys()).any(|k| k.contains(name))
                            && !serde_json::to_string(&members[b]).unwrap_or_default().replacen(&format!("\"{name}\""), "", 1).contains(&format!("\"{name}"));
                    }
                }
                _ => {}
            }
        }
        let mut segments: Vec<String> = bytes.iter().map(|b| enc::b64url(b)).collect();
        segments.extend(self.proof.signature.clone());
        for e in &self.edits {
            match e {
                Edit::Segment(i, near) => {
                    let n = segments.len();
                    let s = &mut segments[usize::from(*i) % n];
                    *s = near.apply(s);
                }
                Edit::Pad(i, n) => segments[usize::from(*i) % 2] += &"=".repeat(usize::from(*n % 3) + 1),
                Edit::StandardAlphabet(i) => {
                    let s = &mut segments[usize::from(*i) % 2];
                    *s = s.replace('-', "+").replace('_', "/");
                }
                _ => {}
            }
        }
        let mut whole = segments.join(".");
        for e in &self.edits {
            match e {
                Edit::Segments(shape) => {
                    let s = |i: usize| segments.get(i).cloned().unwrap_or_default();
                    whole = match shape {
                        Shape::HeaderOnly => s(0),
                        Shape::Empty => String::new(),
                        Shape::Swap => format!("{}.{}.{}", s(1), s(0), s(2)),
                        Shape::FourParts => format!("{}.{}.{}.{}", s(0), s(1), s(2), s(0)),
                        Shape::FiveParts => format!("{}.{}.{}.{}.{}", s(0), s(1), s(2), s(2), s(2)),
                        Shape::TrailingDot => format!("{}.{}.{}.", s(0), s(1), s(2)),
                        Shape::LeadingDot => format!(".{}.{}", s(0), s(1)),
                        Shape::DoubleDot => format!("{}..{}", s(0), s(1)),
                        Shape::Comma => segments.join(","),
                        Shape::HeaderTwice => format!("{}.{}.{}", s(0), s(0), s(1)),
                        Shape::OneDot => ".".into(),
                        Shape::TwoDots => "..".into(),
                    }
                }
                Edit::Whole(near) => whole = near.apply(&whole),
                _ => {}
            }
        }
        (whole, certainly)
    }
}

fn time() -> S<Time> {
    let at = prop_oneof![
        4 => gen::now(),
        2 => eval::instant(),
        1 => (-62_167_219_200i64..253_402_300_800, prop_oneof![Just(0u32), 0u32..1_000_000_000]).prop_map(|(s, n)| Inst(s, n)),
        1 => select(vec![Inst(951_782_399, 0), Inst(951_868_800, 0), Inst(-2_203_891_200, 0), Inst(0, 0), Inst(-1, 500_000_000),
            Inst::TEXT_MAX, Inst::TEXT_MIN]),
    ];
    (at, gen::time_form()).prop_map(|(a, f)| Time::new(a, f)).boxed()
}

fn key() -> S<KeyRef> {
    let kid = prop_oneof![(gen::did(), gen::did_url_tail()).prop_map(|(d, t)| d + &t), gen::text(), eval::non_did()];
    let none = KeyRef { kid: None, jwk: None, x5c: None };
    let (a, b, c) = (none.clone(), none.clone(), none.clone());
    prop_oneof![
        6 => kid.prop_map(move |k| KeyRef { kid: Some(k), ..a.clone() }),
        2 => eval::inline_jwk().prop_map(move |j| KeyRef { jwk: Some(j), ..b.clone() }),
        2 => eval::certificate().prop_map(move |x| KeyRef { x5c: Some(x), ..c.clone() }),
        2 => Just(none),
    ]
    .boxed()
}

pub fn proofs() -> S<Proof> {
    (
        (
            prop_oneof![3 => Just("jwt".to_owned()), 1 => gen::text()],
            prop_oneof![3 => Just(eval::PROOF_TYP.to_owned()), 2 => gen::text(), 1 => Just("JWT".to_owned())],
            select(ALGORITHMS.iter().map(|a| a.0.to_owned()).collect::<Vec<_>>()),
            key(),
            option::of(gen::text()),
            prop_oneof![gen::ident(), gen::text()],
            option::of(gen::text()),
        ),
        (time(), gen::token(), option::of(time()), option::of(time())),
        (eval::extras(), eval::extras(), vec(any::<u8>(), 0..14), gen::style()),
        option::weighted(
            0.8,
            prop_oneof![
                4 => gen::bytes(64).prop_map(|b| enc::b64url(&b)),
                2 => gen::token().prop_map(|t| t.replace('.', "_")),
                1 => gen::text().prop_map(|t| t.replace('.', "-")),
                1 => Just(String::new()),
            ],
        ),
    )
        .prop_map(
            |((proof_type, typ, alg, key, iss, aud, sub), (iat, nonce, nbf, exp), (extra_header, extra_body, order, style), signature)| {
                Proof {
                    proof_type,
                    typ,
                    alg,
                    key,
                    iss,
                    aud,
                    sub,
                    iat,
                    nonce,
                    nbf,
                    exp,
                    extra_header,
                    extra_body,
                    order,
                    style,
                    signature,
                }
            },
        )
        .boxed()
}

fn time_value() -> S<Value> {
    prop_oneof![
        3 => select(vec![
            json!(""), json!("now"), json!("0"), json!("1536959950"), json!("2018-13-01T00:00:00Z"), json!("2018-02-30T00:00:00Z"),
            json!("2018-09-14"), json!("21:19:10Z"), json!("2018-09-14T21:19:10"), json!("2018-09-14T24:00:00Z"),
            json!("2018-09-14T21:19:60Z"), json!("2018-09-14t21:19:10z"), json!("2018-09-14T21:19:10+24:00"),
            json!("2018-09-14T21:19:10.Z"), json!("2018-09-14T21:19:10.1234567891Z"), json!("+12018-09-14T21:19:10Z"),
            json!("0000-01-01T00:00:00Z"), json!("0000-01-01T00:00:00+00:01"), json!("9999-12-31T23:59:59.999999999Z"),
            json!("2000-02-29T00:00:00Z"), json!("1900-02-29T00:00:00Z"), json!("Fri, 14 Sep 2018 21:19:10 GMT"),
        ]),
        3 => select(vec![
            json!(true), json!(false), json!([]), json!({}), json!([1]), json!({"secs": 1}), json!([1_536_959_950]), json!(null),
            json!(i64::MAX), json!(i64::MIN), json!(u64::MAX), json!(1e19), json!(-1e19), json!(1e300), json!(-0.0), json!(0.5),
            json!(-0.25), json!(-1), json!(8_210_298_412_800i64), json!(8_210_298_412_799i64), json!(-8_334_632_851_201i64),
            json!(1_536_959_950.0), json!(1_536_959_950_000i64), json!(1e9), json!(1.5e9), json!(0.999_999_999_9), json!(-1.999_999_999_9),
        ]),
        1 => any::<i64>().prop_map(|n| json!(n)),
        1 => (-3e9f64..3e10).prop_map(|n| json!(n)),
        1 => time().prop_map(|t| t.json()),
    ]
    .boxed()
}

fn edits() -> S<Vec<Edit>> {
    let name = |body: bool| {
        let names: Vec<String> = if body { BODY.iter() } else { HEADER.iter() }.map(|s| (*s).to_owned()).collect();
        select(names)
    };
    let member = prop_oneof![
        name(false).prop_map(|n| (false, n)),
        name(true).prop_map(|n| (true, n)),
    ];
    let mandatory = select(vec![(false, "typ"), (false, "alg"), (true, "aud"), (true, "iat"), (true, "nonce")])
        .prop_map(|(b, n)| (b, n.to_owned()));
    let content = prop_oneof![
        4 => gen::json_value_null(),
        2 => select(vec![json!({}), json!([]), json!(null), json!("x"), json!(1), json!([{}]), json!([[]]), json!("{}")]),
    ];
    let byte_edit = prop_oneof![
        3 => any::<u16>().prop_map(ByteEdit::Truncate),
        3 => select(vec![" ", "\n", "}", "{", "{}", ",", "x", "\0", "\u{feff}", "]", "null", " \t\r\n", "//", "/**/", "\"", "\u{c}", "\u{a0}"])
            .prop_map(|s| ByteEdit::Append(s.as_bytes().to_vec())),
        2 => select(vec![" ", "\n", "\u{feff}", "{", "[", "x", "\0", ",", "\u{b}", "\u{c}", "\u{a0}", "  \t"])
            .prop_map(|s| ByteEdit::Prepend(s.as_bytes().to_vec())),
        3 => (any::<u16>(), 1u8..=255).prop_map(|(a, b)| ByteEdit::Flip(a, b)),
        3 => (any::<u16>(), 0u32..8).prop_map(|(a, b)| ByteEdit::Flip(a, 1 << b)),
        1 => vec(any::<u8>(), 0..12).prop_map(ByteEdit::Replace),
        1 => Just(ByteEdit::Duplicate),
    ];
    let shape = select(vec![
        Shape::HeaderOnly, Shape::Empty, Shape::Swap, Shape::FourParts, Shape::FiveParts, Shape::TrailingDot, Shape::LeadingDot,
        Shape::DoubleDot, Shape::Comma, Shape::HeaderTwice, Shape::OneDot, Shape::TwoDots,
    ]);
    let alg = prop_oneof![
        (select(ALGORITHMS.iter().map(|a| a.0).collect::<Vec<_>>()), gen::near()).prop_map(|(a, n)| n.apply(a)),
        select(vec!["None", "NONE", "", "ECDHES", "ES256k", "eddsa", "EdDsa", "Ed25519", "RS1", "0", "ES"]).prop_map(str::to_owned),
    ];
    let one = prop_oneof![
        4 => (member.clone(), gen::json_value_null()).prop_map(|((b, n), v)| Edit::Set(b, n, v)),
        4 => (select(vec!["iat", "nbf", "exp"]), time_value()).prop_map(|(n, v)| Edit::Set(true, n.to_owned(), v)),
        2 => alg.prop_map(|a| Edit::Set(false, "alg".into(), json!(a))),
        1 => select(vec!["kid", "jwk", "x5c"]).prop_map(|n| Edit::Set(false, n.to_owned(), Value::Null)),
        1 => select(vec!["iss", "sub", "nbf", "exp"]).prop_map(|n| Edit::Set(true, n.to_owned(), Value::Null)),
        3 => mandatory.clone().prop_map(|(b, n)| Edit::Remove(b, n)),
        1 => (mandatory.clone(), Just(Value::Null)).prop_map(|((b, n), v)| Edit::Set(b, n, v)),
        2 => (member, gen::near()).prop_map(|((b, n), near)| Edit::Rename(b, n, near)),
        1 => (any::<bool>(), content).prop_map(|(b, v)| Edit::Content(b, v)),
        1 => any::<bool>().prop_map(Edit::AsArray),
        5 => (any::<bool>(), byte_edit).prop_map(|(b, e)| Edit::Bytes(b, e)),
        3 => (any::<u8>(), gen::near()).prop_map(|(i, n)| Edit::Segment(i, n)),
        2 => any::<(u8, u8)>().prop_map(|(i, n)| Edit::Pad(i, n)),
        1 => any::<u8>().prop_map(Edit::StandardAlphabet),
        4 => shape.prop_map(Edit::Segments),
        3 => gen::near().prop_map(Edit::Whole),
        2 => any::<u8>().prop_map(Edit::InvalidUtf8),
    ]
    .boxed();
    prop_oneof![4 => Just(vec![]), 7 => vec(one.clone(), 1), 1 => vec(one, 2..4)].boxed()
}

pub fn cases() -> S<Case> {
    (proofs(), edits()).prop_map(|(proof, edits)| Case { proof, edits }).boxed()
}

/// What an unedited proof says, from the values it was made of
fn told(p: &Proof) -> Said {
    let moment = |t: &Time| Moment { ns: t.at.total_ns(), tolerance: 0 };
    let key = match (&p.key.kid, &p.key.jwk, &p.key.x5c) {
        (Some(k), ..) => Some(Key::Kid(k.clone())),
        (_, Some(j), _) => Some(Key::Jwk(j.clone())),
        (.., Some(x)) => Some(Key::X5c(x.clone())),
        _ => None,
    };
    Said {
        typ: p.typ.clone(),
        alg: p.alg.clone(),
        key,
        iss: p.iss.clone(),
        aud: p.aud.clone(),
        sub: p.sub.clone(),
        iat: moment(&p.iat),
        nonce: p.nonce.clone(),
        nbf: p.nbf.as_ref().map(moment),
        exp: p.exp.as_ref().map(moment),
        signature: p.signature.clone(),
    }
}

fn c20(c: &Case, cx: &mut Cx) -> Verdict {
    let (compact, certainly) = c.compact();
    let got = ProofJwt::from_str(&compact);
    let judged = if c.edits.is_empty() {
        Judged::Says(Box::new(told(&c.proof)))
    } else if certainly {
        Judged::Malformed("text that is not UTF-8".into())
    } else {
        judge(&compact)
    };
    match judged {
        Judged::Open(why) => {
            cx.label(why);
            return Ok(());
        }
        Judged::Malformed(why) => {
            cx.nontrivial();
            cx.label("malformed");
            ensure!(got.is_err(), "decoded as {got:?}, although malformed ({why}): {compact}");
            // nor may the wrapper let it through
            let wrapped = CredentialRequestProof { proof_type: "jwt".into(), jwt: compact };
            ensure!(wrapped.validate().is_err(), "a malformed proof ({why}) is valid");
        }
        Judged::Says(said) => {
            cx.nontrivial();
            cx.label(if c.edits.is_empty() { "as written" } else { "edited, still well-formed" });
            cx.label_if(matches!(c.proof.iat.form, TimeForm::Number), "numeric iat");
            let got = got.map_err(|e| format!("not decoded: {e}: {compact}"))?;
            compare(&got, &said)?;
            if c.edits.is_empty() {
                // a decoded proof survives its own serialisation
                let sent = wire(&got)?;
                let back: ProofJwt =
                    serde_json::from_value(sent.clone()).map_err(|e| format!("serialised as {sent}, which is refused: {e}"))?;
                compare(&back, &said).map_err(|e| format!("serialised as {sent}: {e}"))?;
            }
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C20",
        rule: "proofs with any member order, JSON style, texts, algorithms, keys, times in both forms and extra members; two thirds are edited (members, JSON, bytes, base64, segments) and judged by an independent decoder. Non-trivial: the decoder says what must come out, or that it is malformed",
        suites: vec![Suite { name: "decode", cases: 120_000, strategy: cases, check: c20 }.boxed()],
        assumptions: &[
            "left open: repeated members, base64url with surplus bits, several key references, other notations of dates, malformed text or numbers inside ignored members, the alphabet of the third segment",
            "an optional member that is null counts as absent",
        ],
        isolated: false,
    }]
}
