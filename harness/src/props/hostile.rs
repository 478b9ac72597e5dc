//! C21: nothing panics, aborts or hangs.
//!
//! A case is a set of texts (metadata, offer, request, DID document, options, token request) that were honest before
//! they were damaged, plus raw texts and times. Every public operation is run on whatever can be parsed of them, and on
//! values that are built natively from the raw texts and times.

use crate::clock;
use crate::enc;
use crate::eval;
use crate::gen::{self, Near, S};
use crate::props::decode;
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use chrono::{DateTime, Utc};
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::{
    AccessToken, AccessTokenRequest, AccessTokenSuccessResponse, EvaluateAccessTokenRequestOptions, GrantType,
};
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{
    AuthorizedCodeFlow, CNonce, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrId,
    CredentialOrIds, CredentialSuccessResponse, EvaluateCredentialRequestOptions, PreAuthorizedCodeFlow,
};
use openid4vci::jwt::{ProofJwt, ProofJwtAdditionalHeader, ProofJwtAlgorithm, ProofJwtBody, ProofJwtHeader};
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential::{CredentialFormatProfile, CredentialFormatProfileOrEncoded};
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::{CredentialRequest, CredentialRequestProof};
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::{Validatable, ValidationError};
use openid4vci::Document;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::fmt::{Debug, Display};
use std::hint::black_box;
use std::str::FromStr;

// ------------------------------------------------------------------------------------------------ cases

/// What is done to a JSON value
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Damage {
    Replace(Value),
    Text(Near),
    Remove,
    Rename(Near),
    Wrap(u8),
    Repeat(u16),
    /// nested this deep
    Deep(u16, bool),
    /// a text this long
    Long(u32, char),
    /// the value of another place
    Graft(u16),
}

/// What is done to the text
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Scar {
    Truncate(u32),
    Insert(u32, String),
    Cut(u32, u8),
    Again,
}

const TEXTS: usize = 7;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Case {
    base: eval::Case,
    token: TokenReq,
    expected_pin: Option<Option<u64>>,
    endpoint: Option<String>,
    /// replaces the proof of the request
    proof: Option<decode::Case>,
    /// (which text, place, what)
    damage: Vec<(u8, u16, Damage)>,
    scars: Vec<(u8, Scar)>,
    raw: Vec<String>,
    times: Vec<Inst>,
    numbers: Vec<u64>,
    details: Value,
}

fn extreme_time() -> S<Inst> {
    prop_oneof![
        3 => eval::instant(),
        2 => select(vec![Inst::MIN, Inst::MAX, Inst::TEXT_MIN, Inst::TEXT_MAX, Inst(0, 0), Inst(-1, 999_999_999), Inst(Inst::MAX.0, 0),
            Inst(Inst::MIN.0, 999_999_999), Inst(i64::from(i32::MAX), 0), Inst(i64::from(i32::MIN), 0), Inst(9_223_372_036, 854_775_807),
            Inst(-9_223_372_037, 145_224_192), Inst(9_223_372_036, 854_775_808)]),
        1 => (0i64..10_000_000_000).prop_map(|d| Inst(Inst::MAX.0 - d, 999_999_999)),
    ]
    .boxed()
}

fn number() -> S<u64> {
    prop_oneof![
        2 => select(vec![0u64, 1, 9, 10, 99_999_999, 100_000_000, u64::from(u32::MAX), u64::from(u32::MAX) + 1, i64::MAX as u64,
            i64::MAX as u64 + 1, u64::MAX, u64::MAX - 1, 4_294_967, 9_223_372_036]),
        1 => any::<u64>(),
        1 => 0u64..100_000,
    ]
    .boxed()
}

/// A value that is unlikely to be expected where it is put
fn odd_value() -> S<Value> {
    prop_oneof![
        4 => gen::json_value_null(),
        4 => select(vec![
            json!(null), json!(true), json!([]), json!({}), json!(""), json!("\0"), json!(0), json!(-1), json!(-0.0), json!(1e308), json!(-1e308),
            json!(5e-324), json!(i64::MIN), json!(i64::MAX), json!(u64::MAX), json!(1.5), json!([[]]), json!([null]), json!({"": null}),
            json!("did:"), json!("did:a:b"), json!("did:a:b#"), json!("#"), json!("."), json!(".."), json!("..."), json!("%"), json!("%zz"), json!("e30.e30."),
            json!("+262143-12-31T23:59:59.999999999Z"), json!("-262144-01-01T00:00:00Z"), json!("2016-12-31T23:59:60Z"), json!("9999-12-31T23:59:60.999999999+00:00"),
            json!("0000-01-01T00:00:00+23:59"), json!("\u{0}\u{d7ff}\u{e000}\u{10ffff}"), json!("İıſK"), json!("z"), json!("z0OIl"), json!("f0"), json!("fzz"), json!("0x"), json!("m="), json!("u-_"),
            json!({"kty": "OKP"}), json!({"kty": "OKP", "crv": "", "x": ""}), json!({"kty": "EC", "alg": "EdDSA"}), json!({"kty": "EC", "alg": "EdDSA", "crv": "P-256", "x": ""}),
            json!({"kty": "RSA", "n": "", "e": ""}), json!({"kty": "oct", "k": ""}), json!({"kty": "EC", "crv": "secp256k1", "x": "AA", "y": "AA"}),
            json!({"format": "ldp_vc"}), json!({"format": 2}), json!({"format": "mso_mdoc", "doctype": []}),
        ]),
        1 => number().prop_map(|n| json!(n)),
        1 => any::<i64>().prop_map(|n| json!(n)),
        1 => any::<f64>().prop_filter("finite", |n| n.is_finite()).prop_map(|n| json!(n)),
        2 => gen::text().prop_map(|t| json!(t)),
    ]
    .boxed()
}

fn damage() -> S<Damage> {
    prop_oneof![
        6 => odd_value().prop_map(Damage::Replace),
        4 => gen::near().prop_map(Damage::Text),
        2 => Just(Damage::Remove),
        1 => gen::near().prop_map(Damage::Rename),
        1 => (1u8..4).prop_map(Damage::Wrap),
        1 => select(vec![0u16, 2, 3, 40, 300]).prop_map(Damage::Repeat),
        1 => (select(vec![2u16, 60, 126, 127, 128, 129, 1000, 20_000]), any::<bool>()).prop_map(|(n, o)| Damage::Deep(n, o)),
        1 => (select(vec![255u32, 256, 4096, 65_536, 300_000]), gen::ch()).prop_map(|(n, c)| Damage::Long(n, c)),
        2 => any::<u16>().prop_map(Damage::Graft),
    ]
    .boxed()
}

fn token_request() -> S<TokenReq> {
    prop_oneof![
        1 => Just(TokenReq::AuthCode),
        8 => (gen::text(), option::of(number())).prop_map(|(code, pin)| TokenReq::Pre { code, pin }),
    ]
    .boxed()
}

fn scar() -> S<Scar> {
    prop_oneof![
        2 => any::<u32>().prop_map(Scar::Truncate),
        3 => (any::<u32>(), prop_oneof![gen::text(), select(vec!["{", "}", "[", "]", "\"", "\\", "\\u", "\\ud800", ",", ":", "1e999", "-", "00", "\u{feff}"]).prop_map(str::to_owned)])
            .prop_map(|(i, t)| Scar::Insert(i, t)),
        2 => (any::<u32>(), 1u8..8).prop_map(|(i, n)| Scar::Cut(i, n)),
        1 => Just(Scar::Again),
    ]
    .boxed()
}

/// Texts that look like parts of the protocol
fn raw() -> S<String> {
    prop_oneof![
        3 => gen::text(),
        2 => gen::token(),
        2 => eval::non_did(),
        2 => (gen::did(), gen::did_url_tail(), option::of(gen::near())).prop_map(|(d, t, n)| {
            let id = d + &t;
            n.map_or(id.clone(), |n| n.apply(&id))
        }),
        2 => odd_value().prop_map(|v| match v {
            Value::String(s) => s,
            v => v.to_string(),
        }),
        1 => eval::inline_jwk().prop_map(|v| v.to_string()),
        1 => (odd_value(), odd_value()).prop_map(|(a, b)| format!("{}.{}.x", enc::b64url(a.to_string().as_bytes()), enc::b64url(b.to_string().as_bytes()))),
        1 => vec(select(vec![".", "e30", "=", "-", "_", "did:", "#", "{}", "\"", "é", "\0"]), 0..9).prop_map(|v| v.concat()),
        1 => select(vec![1_000usize, 100_000]).prop_map(|n| ".".repeat(n)),
        1 => select(vec![("did:", 20_000usize), ("#", 20_000), ("?", 20_000), ("[", 5_000), ("{\"a\":", 5_000), ("é", 20_000)]).prop_map(|(t, n)| t.repeat(n)),
    ]
    .boxed()
}

fn cases() -> S<Case> {
    let pick = || prop_oneof![3 => Just(2u8), 3 => Just(3u8), 2 => 0u8..TEXTS as u8];
    (
        (eval::case(eval::Focus::All), token_request(), option::weighted(0.8, option::weighted(0.7, number())), option::of(gen::text())),
        option::weighted(0.4, decode::cases()),
        (
            prop_oneof![
                1 => Just(vec![]),
                5 => vec((pick(), any::<u16>(), damage()), 1),
                2 => vec((pick(), any::<u16>(), damage()), 2..5),
            ],
            prop_oneof![5 => Just(vec![]), 1 => vec((pick(), scar()), 1..3)],
        ),
        (vec(raw(), 3), vec(extreme_time(), 4), vec(number(), 3), odd_value()),
    )
        .prop_map(|((base, token, expected_pin, endpoint), proof, (damage, scars), (raw, times, numbers, details))| Case {
            base,
            token,
            expected_pin,
            endpoint,
            proof,
            damage,
            scars,
            raw,
            times,
            numbers,
            details,
        })
        .boxed()
}

// ------------------------------------------------------------------------------------------------ damage

fn pointers(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => {
            for (i, v) in a.iter().enumerate() {
                pointers(v, format!("{at}/{i}"), out);
            }
        }
        Value::Object(m) => {
            for (k, v) in m {
                pointers(v, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out);
            }
        }
        _ => {}
    }
    out.push(at);
}

fn parent_and_key(pointer: &str) -> Option<(String, String)> {
    let (parent, key) = pointer.rsplit_once('/')?;
    Some((parent.to_owned(), key.replace("~1", "/").replace("~0", "~")))
}

/// Where a deep value goes, it is written into the text (a deep `Value` cannot even be dropped safely)
const DEEP: &str = "\u{1}deep";

fn hurt(v: &mut Value, place: u16, damage: &Damage, deep: &mut Option<String>) {
    let mut all = vec![];
    pointers(v, String::new(), &mut all);
    let at = all[usize::from(place) % all.len()].clone();
    if let Damage::Remove | Damage::Rename(_) | Damage::Repeat(_) = damage {
        if let Some((parent, key)) = parent_and_key(&at) {
            match (v.pointer_mut(&parent), damage) {
                (Some(Value::Object(m)), Damage::Remove) => {
                    m.remove(&key);
                }
                (Some(Value::Object(m)), Damage::Rename(n)) => {
                    if let Some(value) = m.remove(&key) {
                        m.insert(n.apply(&key), value);
                    }
                }
                (Some(Value::Array(a)), damage) => {
                    if let Ok(i) = key.parse::<usize>() {
                        match damage {
                            Damage::Repeat(n) => {
                                let one = a[i].clone();
                                a.extend(std::iter::repeat(one).take(usize::from(*n)));
                            }
                            _ => {
                                a.remove(i);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        return;
    }
    let graft = match damage {
        Damage::Graft(i) => v.pointer(&all[usize::from(*i) % all.len()]).cloned(),
        _ => None,
    };
    let Some(target) = v.pointer_mut(&at) else { return };
    match damage {
        Damage::Replace(with) => *target = with.clone(),
        Damage::Text(near) => match target {
            Value::String(s) => *s = near.apply(s),
            other => *other = json!(near.apply(&other.to_string())),
        },
        Damage::Wrap(n) => {
            for _ in 0..*n {
                *target = json!([target.take()]);
            }
        }
        Damage::Deep(n, object) => {
            *target = json!(DEEP);
            let n = usize::from(*n);
            *deep = Some(if *object {
                format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n))
            } else {
                format!("{}{}", "[".repeat(n), "]".repeat(n))
            });
        }
        Damage::Long(n, c) => {
            // decoding base 58 takes time that grows with the square of the length
            let limit = if at.contains("Base58") || at.contains("Multibase") { 20_000 } else { u32::MAX };
            *target = json!(c.to_string().repeat((*n).min(limit) as usize));
        }
        Damage::Graft(_) => *target = graft.unwrap_or(Value::Null),
        _ => {}
    }
}

fn mark(text: &mut String, scar: &Scar) {
    let chars = text.chars().count();
    let byte = |text: &str, i: usize| text.char_indices().nth(i).map_or(text.len(), |(b, _)| b);
    match scar {
        Scar::Truncate(i) if chars > 0 => text.truncate(byte(text, *i as usize % chars)),
        Scar::Insert(i, t) => {
            let at = byte(text, *i as usize % (chars + 1));
            text.insert_str(at, t);
        }
        Scar::Cut(i, n) if chars > 0 => {
            let from = *i as usize % chars;
            let (a, b) = (byte(text, from), byte(text, from + usize::from(*n)));
            text.replace_range(a..b, "");
        }
        Scar::Again => {
            let t = text.clone();
            text.push_str(&t);
        }
        _ => {}
    }
}

impl Case {
    /// metadata, offer, request, document, options, token request, token options
    fn texts(&self) -> [String; TEXTS] {
        let b = &self.base;
        let mut request = b.request.json();
        if let Some(p) = &self.proof {
            request["proof"] = json!({"proof_type": "jwt", "jwt": p.compact().0});
        }
        let options = json!({
            "c_nonce": b.nonce().map(|n| json!({
                "c_nonce_expires_in": n.lifetime,
                "expected_c_nonce": n.expected,
                "c_nonce_created_at": n.created.chrono(),
            })),
            "client_id": b.client_id(),
        });
        let token = match &self.token {
            TokenReq::AuthCode => json!({"grant_type": {"grant_type": "authorization_code"}}),
            TokenReq::Pre { code, pin } => json!({"grant_type": {
                "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code",
                "pre_authorized_code": code,
                "user_pin": pin,
            }}),
        };
        let mut values = [
            b.meta.json(),
            b.offer.as_ref().map_or(Value::Null, Offer::json),
            request,
            b.doc.as_ref().map_or(Value::Null, Doc::json),
            options,
            token,
            json!({ "expected_user_pin": self.expected_pin.flatten() }),
        ];
        let mut deep: [Option<String>; TEXTS] = Default::default();
        for (which, place, damage) in &self.damage {
            let i = usize::from(*which) % TEXTS;
            hurt(&mut values[i], *place, damage, &mut deep[i]);
        }
        let mut out = values.map(|v| v.to_string());
        for (text, deep) in out.iter_mut().zip(deep) {
            if let Some(d) = deep {
                *text = text.replacen(&json!(DEEP).to_string(), &d, 1);
            }
        }
        for (which, scar) in &self.scars {
            mark(&mut out[usize::from(*which) % TEXTS], scar);
        }
        out
    }
}

// ------------------------------------------------------------------------------------------------ operations

/// How many operations gave a value, and how many an error
#[derive(Default)]
struct Tally {
    ok: u64,
    err: u64,
}

macro_rules! seen {
    ($tally:expr, $r:expr) => {
        match $r {
            Ok(v) => {
                $tally.ok += 1;
                black_box(format!("{v:?}"));
                Some(v)
            }
            Err(e) => {
                $tally.err += 1;
                report(&e);
                let information = e.information();
                black_box(format!("{information} {information:?}"));
                None
            }
        }
    };
}

fn report<E: Debug + Display + Serialize>(e: &E) {
    black_box(format!("{e} {e:?}"));
    black_box(serde_json::to_string(e).map_err(|e| e.to_string())).ok();
}

fn wire<V: Serialize>(v: &V) -> Option<String> {
    let text = serde_json::to_string(v).ok();
    black_box(serde_json::to_value(v).ok());
    text
}

/// Parse in every way, and again after serialising
fn parse<D: DeserializeOwned + Serialize + Debug>(tally: &mut Tally, text: &str) -> Option<D> {
    let parsed: Result<D, ValidationError> = serde_json::from_str(text).map_err(ValidationError::from);
    black_box(serde_json::from_slice::<D>(text.as_bytes()).is_ok());
    if let Ok(v) = serde_json::from_str::<Value>(text) {
        black_box(serde_json::from_value::<D>(v).is_ok());
    }
    let parsed = seen!(tally, parsed)?;
    if let Some(text) = wire(&parsed) {
        black_box(serde_json::from_str::<D>(&text).is_ok());
    }
    Some(parsed)
}

fn valid<V: Validatable>(tally: &mut Tally, v: &V) {
    seen!(tally, v.validate());
}

const ALGS: [ProofJwtAlgorithm; 16] = [
    ProofJwtAlgorithm::EdDSA,
    ProofJwtAlgorithm::ES256,
    ProofJwtAlgorithm::ES384,
    ProofJwtAlgorithm::ES512,
    ProofJwtAlgorithm::ES256K,
    ProofJwtAlgorithm::RS256,
    ProofJwtAlgorithm::RS384,
    ProofJwtAlgorithm::RS512,
    ProofJwtAlgorithm::PS256,
    ProofJwtAlgorithm::PS384,
    ProofJwtAlgorithm::PS512,
    ProofJwtAlgorithm::HS256,
    ProofJwtAlgorithm::HS384,
    ProofJwtAlgorithm::HS512,
    ProofJwtAlgorithm::ECDHES,
    ProofJwtAlgorithm::None,
];

/// All operations on a decoded proof
fn with_proof(tally: &mut Tally, jwt: &ProofJwt, doc: Option<&Document>, texts: &[String]) {
    valid(tally, jwt);
    valid(tally, &jwt.header);
    valid(tally, &jwt.body);
    if let Some(a) = &jwt.header.additional_header {
        valid(tally, a);
    }
    seen!(tally, jwt.verify());
    seen!(tally, jwt.extract_did());
    seen!(tally, jwt.extract_key_and_alg(None));
    seen!(tally, jwt.extract_key_and_alg(doc));
    seen!(tally, jwt.header.extract_key_and_alg(doc));
    seen!(tally, jwt.extract_signature());
    seen!(tally, jwt.to_signable_message());
    let text: Result<String, _> = jwt.try_into();
    seen!(tally, text);
    seen!(tally, jwt.check_nonce(None));
    seen!(tally, jwt.check_iss(None));
    for t in texts {
        seen!(tally, jwt.check_nonce(Some(t.clone())));
        seen!(tally, jwt.check_iss(Some(t.clone())));
        seen!(tally, jwt.check_aud(t));
    }
    if let Some(text) = wire(jwt) {
        black_box(serde_json::from_str::<ProofJwt>(&text).is_ok());
    }
}

fn at(i: Inst) -> DateTime<Utc> {
    i.chrono()
}

fn operate(c: &Case) -> Tally {
    let mut tally = Tally::default();
    let t = &mut tally;
    let [meta, offer, request, doc, options, token, token_options] = &c.texts();
    let some = |i: usize| c.raw[i % c.raw.len()].clone();
    let number = |i: usize| c.numbers[i % c.numbers.len()];
    let time = |i: usize| c.times[i % c.times.len()];

    let mut metas: Vec<CredentialIssuerMetadata> = parse(t, meta).into_iter().collect();
    metas.push(c.base.meta.native());
    let mut offers: Vec<CredentialOffer> = parse(t, offer).into_iter().collect();
    offers.extend(c.base.offer.as_ref().map(Offer::native));
    let mut requests: Vec<CredentialRequest> = parse(t, request).into_iter().collect();
    requests.push(c.base.request.native());
    let mut docs: Vec<Document> = parse(t, doc).into_iter().collect();
    docs.extend(c.base.doc.as_ref().map(Doc::native));
    let mut opts: Vec<EvaluateCredentialRequestOptions> = parse(t, options).into_iter().collect();
    opts.extend(c.base.opts.as_ref().map(eval::Opts::native));
    // with every kind of time
    for i in 0..2 {
        if let Some(mut o) = c.base.opts.as_ref().map(eval::Opts::native) {
            if let Some(n) = &mut o.c_nonce {
                n.c_nonce_created_at = at(time(i));
                n.c_nonce_expires_in = number(i) as u32;
            }
            opts.push(o);
        }
    }
    let server = AuthorizationServerMetadata {};
    valid(t, &server);

    // the issuer's side of the offer
    let lists: Vec<Vec<CredentialOrId>> = vec![
        vec![some(0).into(), some(1).as_str().into()],
        c.base.offer.iter().flat_map(|o| &o.creds).map(CredRef::native).collect(),
        metas.iter().flat_map(|m| m.credentials_supported.iter().filter_map(|s| s.id.clone())).map(CredentialOrId::from).collect(),
    ];
    let pre = Some(PreAuthorizedCodeFlow { code: some(2), user_pin_required: Some(number(0) % 2 == 0) });
    let auth = Some(AuthorizedCodeFlow { issuer_state: Some(some(1)) });
    for m in &metas {
        valid(t, m);
        for l in &lists {
            for one in l {
                seen!(t, one.resolve(m));
            }
            seen!(t, CredentialOrIds::new(l.clone()).resolve_all(m));
            for (auth, pre) in [(&None, &pre), (&auth, &pre), (&None, &None)] {
                if let Some((offer, _)) = seen!(t, CredentialIssuer::create_offer(m, l.clone(), &c.endpoint, auth, pre)) {
                    seen!(t, offer.url_encode());
                }
            }
        }
        for o in &offers {
            seen!(t, o.credentials.resolve_all(m));
        }
    }
    for o in &offers {
        valid(t, o);
        seen!(t, o.url_encode());
    }

    // the token
    let mut token_requests: Vec<AccessTokenRequest> = parse(t, token).into_iter().collect();
    token_requests.push(c.token.native());
    token_requests.push(TokenReq::Pre { code: some(2), pin: Some(number(1)) }.native());
    let token_options: Option<EvaluateAccessTokenRequestOptions> = parse(t, token_options);
    for r in &token_requests {
        valid(t, r);
        wire(r);
        for o in &offers {
            for opts in [None, token_options.clone(), crate::spec::token_options(Some(Some(number(1))))] {
                let copy = serde_json::to_value(o).ok().and_then(|v| serde_json::from_value(v).ok());
                seen!(t, AccessToken::evaluate_access_token_request(r, copy, opts));
            }
        }
        seen!(t, AccessToken::evaluate_access_token_request(r, None, token_options.clone()));
    }
    valid(t, &GrantType::PreAuthorizedCodeFlow { pre_authorized_code: some(0), user_pin: Some(number(2)) });
    for i in 0..2 {
        let u = |n: usize| Some(number(n) as u32);
        if let Some((r, _)) = seen!(
            t,
            AccessToken::create_access_token_success_response(
                some(i),
                AccessTokenType::Bearer,
                u(0),
                Some(some(1)),
                (i == 0).then(|| some(2)),
                u(1),
                Some(true),
                u(2),
            )
        ) {
            valid(t, &r);
            wire(&r);
        }
    }
    for text in c.raw.iter().chain([meta, offer, token]) {
        black_box(serde_json::from_str::<AccessTokenSuccessResponse>(text).is_ok());
        black_box(serde_json::from_str::<CredentialFormatProfile>(text).is_ok());
        black_box(serde_json::from_str::<CredentialFormatProfileOrEncoded>(text).is_ok());
        black_box(serde_json::from_str::<CredentialSuccessResponse>(text).is_ok());
        black_box(serde_json::from_str::<CredentialOrIds>(text).is_ok());
        black_box(serde_json::from_str::<ProofJwt>(text).is_ok());
        black_box(serde_json::from_str::<ProofJwtHeader>(text).is_ok());
        black_box(serde_json::from_str::<ProofJwtBody>(text).is_ok());
        black_box(AccessTokenType::try_from(text.clone()).is_ok());
    }

    // proofs
    let mut jwts = vec![];
    for text in c.raw.iter().cloned().chain(requests.iter().filter_map(|r| r.proof.as_ref().map(|p| p.jwt.clone()))) {
        jwts.extend(seen!(t, ProofJwt::from_str(&text)));
        valid(t, &CredentialRequestProof { proof_type: "JWT".into(), jwt: text });
    }
    valid(t, &CredentialRequestProof { proof_type: some(0), jwt: some(1) });
    for (i, key) in [
        Some(ProofJwtAdditionalHeader::KeyId(some(0))),
        Some(ProofJwtAdditionalHeader::Jwk(some(1))),
        Some(ProofJwtAdditionalHeader::X5c(some(2))),
        None,
    ]
    .into_iter()
    .enumerate()
    {
        jwts.push(ProofJwt {
            header: ProofJwtHeader { typ: some(i), alg: ALGS[number(i) as usize % ALGS.len()].clone(), additional_header: key },
            body: ProofJwtBody {
                issuer: Some(some(1)),
                audience: some(2),
                subject: Some(some(0)),
                issued_at: at(time(0)),
                nonce: some(1),
                not_before: (i % 2 == 0).then(|| at(time(1))),
                expires_at: (i < 3).then(|| at(time(2))),
            },
            signature: (i > 0).then(|| some(i)),
        });
    }
    for jwt in &jwts {
        with_proof(t, jwt, docs.first(), &c.raw[..2]);
    }

    // requests
    for r in &requests {
        valid(t, r);
        seen!(t, CredentialIssuer::pre_evaluate_credential_request(r));
        for m in &metas {
            for d in docs.iter().map(Some).chain([None]) {
                for o in opts.iter().map(|o| Some(o.clone())).chain([None]) {
                    let r = CredentialIssuer::evaluate_credential_request(m, r, offers.first(), None, d, o);
                    if let Some(r) = seen!(t, r) {
                        wire(&r);
                    }
                }
            }
        }
        seen!(t, CredentialIssuer::evaluate_credential_request(&metas[0], r, None, None, None, None));
        seen!(t, CredentialIssuer::evaluate_credential_request(&metas[0], r, offers.last(), Some(&server), docs.last(), opts.last().cloned()));
        for what in [
            None,
            Some(CredentialOrAcceptanceToken::AcceptanceToken(some(0))),
            Some(CredentialOrAcceptanceToken::Credential(r.format.clone())),
        ] {
            let nonce = CNonce { c_nonce: some(1), c_nonce_expires_in: Some(number(0) as u32) };
            if let Some((r, _)) = seen!(t, CredentialIssuer::create_credential_success_response(r, what, Some(nonce))) {
                wire(&r);
            }
        }
    }
    for details in [None, Some(c.details.clone()), Some(json!({ "x": c.details })), Some(json!({ some(0): c.details }))] {
        let (d, u) = (Some(some(0)), Some(some(1)));
        let code = CredentialIssuerErrorCode::InvalidOrMissingProof;
        if let Some(r) = seen!(t, CredentialIssuer::create_credential_error_response(&code, d.clone(), u.clone(), details.clone())) {
            wire(&r);
        }
        if let Some(r) = seen!(t, AccessToken::create_access_token_error_response(AccessTokenErrorCode::InvalidGrant, d, u, details)) {
            wire(&r);
        }
    }
    tally
}

fn c21(c: &Case, cx: &mut Cx) -> Verdict {
    let now = c.base.now;
    let tally = clock::at((now.0, now.1), || operate(c));
    cx.nontrivial();
    cx.label(if c.damage.is_empty() && c.scars.is_empty() { "undamaged texts" } else { "damaged texts" });
    cx.label_if(c.proof.is_some(), "damaged proof");
    for (which, _, d) in &c.damage {
        let name = ["metadata", "offer", "request", "document", "options", "token request", "token options"][usize::from(*which) % TEXTS];
        cx.label_owned(format!("{name} damaged"));
        cx.label_if(matches!(d, Damage::Deep(..)), "deep nesting");
        cx.label_if(matches!(d, Damage::Long(..) | Damage::Repeat(_)), "large");
    }
    cx.label_if(!c.scars.is_empty(), "broken JSON text");
    ensure!(tally.ok + tally.err > 20, "only {} operations ran", tally.ok + tally.err);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C21",
        rule: "honest sets of documents of which texts and values are replaced, removed, repeated, nested, enlarged or cut, with raw texts, extreme times and numbers passed natively; over 100 calls of public operations per case, in child processes. Non-trivial: every case",
        suites: vec![Suite { name: "hostile", cases: 12_000, strategy: cases, check: c21 }.boxed()],
        assumptions: &[
            "the clock is between 1970 and the end of chrono's range",
            "values the caller builds that cannot be dropped without overflowing the stack are not passed",
            "a case that takes over 40 s does not terminate",
        ],
        isolated: true,
    }]
}
