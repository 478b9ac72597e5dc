//! C15 and C16: success responses on the wire.

use crate::clock;
use crate::enc;
use crate::eval::{self, Focus, T};
use crate::gen::{self, S};
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use openid4vci::access_token::{AccessToken, AccessTokenSuccessResponse};
use openid4vci::credential_issuer::{CNonce, CredentialIssuer, CredentialOrAcceptanceToken, CredentialSuccessResponse};
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

/// The JSON a value is sent as; the text and the value form must agree
pub fn wire(value: &impl Serialize) -> Result<Value, String> {
    let text = serde_json::to_string(value).map_err(|e| format!("cannot be serialised: {e}"))?;
    let from_text: Value = serde_json::from_str(&text).map_err(|e| format!("the JSON {text} is malformed: {e}"))?;
    no_duplicates(&text)?;
    Ok(from_text)
}

/// Members of one object must have different names
pub fn no_duplicates(text: &str) -> Verdict {
    struct Strict;
    impl<'de> serde::de::DeserializeSeed<'de> for Strict {
        type Value = ();
        fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
            d.deserialize_any(self)
        }
    }
    impl<'de> serde::de::Visitor<'de> for Strict {
        type Value = ();
        fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("JSON")
        }
        fn visit_bool<E>(self, _: bool) -> Result<(), E> {
            Ok(())
        }
        fn visit_i64<E>(self, _: i64) -> Result<(), E> {
            Ok(())
        }
        fn visit_u64<E>(self, _: u64) -> Result<(), E> {
            Ok(())
        }
        fn visit_f64<E>(self, _: f64) -> Result<(), E> {
            Ok(())
        }
        fn visit_str<E>(self, _: &str) -> Result<(), E> {
            Ok(())
        }
        fn visit_unit<E>(self) -> Result<(), E> {
            Ok(())
        }
        fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            while a.next_element_seed(Strict)?.is_some() {}
            Ok(())
        }
        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            let mut seen = std::collections::HashSet::new();
            while let Some(k) = a.next_key::<String>()? {
                if !seen.insert(k.clone()) {
                    return Err(serde::de::Error::custom(format!("the member {k:?} occurs twice")));
                }
                a.next_value_seed(Strict)?;
            }
            Ok(())
        }
    }
    let mut d = serde_json::Deserializer::from_str(text);
    serde::de::DeserializeSeed::deserialize(Strict, &mut d).map_err(|e| format!("{e} in {text}"))
}

/// An object without its null members (a null member counts as absent)
pub fn present(value: &Value) -> Result<Map<String, Value>, String> {
    let m = value.as_object().ok_or_else(|| format!("not an object: {value}"))?;
    Ok(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), v.clone())).collect())
}

fn put(m: &mut Map<String, Value>, name: &str, v: Option<impl Into<Value>>) {
    if let Some(v) = v {
        m.insert(name.to_owned(), v.into());
    }
}

fn seconds() -> S<u32> {
    prop_oneof![
        3 => any::<u32>(),
        2 => 0u32..100_000,
        2 => select(vec![0u32, 1, 3600, 86_400, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX]),
        crate::dict::number_weight(1, 3) => crate::dict::number_upto(u64::from(u32::MAX) - 1).prop_map(|n| n as u32),
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------------------ C15

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Issue {
    Nothing,
    Token(String),
    Credential(Cred),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct CredentialCase {
    pub request: Request,
    pub issue: Issue,
    pub nonce: Option<(String, Option<u32>)>,
    pub now: Inst,
}

fn credential_cases() -> S<CredentialCase> {
    let request = prop_oneof![
        2 => gen::cred().prop_map(|cred| (Request { cred, proof: None }, Inst(1_700_000_000, 0))),
        3 => eval::case(Focus::Signature).prop_map(|c| (c.request, c.now)),
    ];
    (
        request,
        prop_oneof![1 => Just(None), 9 => gen::now().prop_map(Some)],
        prop_oneof![
            1 => Just(Issue::Nothing),
            3 => prop_oneof![gen::token(), gen::text()].prop_map(Issue::Token),
            6 => gen::cred().prop_map(Issue::Credential),
        ],
        prop::bool::weighted(0.8),
        option::weighted(0.7, (prop_oneof![gen::token(), gen::text()], option::weighted(0.8, seconds()))),
    )
        .prop_map(|((request, at), now, mut issue, same, nonce)| {
            if let (Issue::Credential(c), true) = (&mut issue, same) {
                c.kind = request.cred.kind;
            }
            // the proof's window is around `at`
            let now = if request.proof.is_some() { at } else { now.unwrap_or(at) };
            CredentialCase { request, issue, nonce, now }
        })
        .boxed()
}

/// Does the member `credential` carry this credential? `object`: as an object (else as text)
pub fn carries(credential: &Value, issued: &Value, object: Option<bool>) -> Verdict {
    match credential {
        Value::Object(_) if object != Some(false) => {
            ensure!(credential == issued, "the credential is {credential} instead of {issued}");
        }
        Value::String(text) if object != Some(true) => {
            let json: Option<Value> = enc::unb64url(text).and_then(|b| serde_json::from_slice(&b).ok());
            ensure!(json.as_ref() == Some(issued), "the credential {text:?} decodes to {json:?} instead of {issued}");
        }
        other => return Err(format!("the credential {issued} is sent as {other}")),
    }
    Ok(())
}

fn c15(c: &CredentialCase, cx: &mut Cx) -> Verdict {
    let request = c.request.native();
    let issued = match &c.issue {
        Issue::Nothing => None,
        Issue::Token(t) => Some(CredentialOrAcceptanceToken::AcceptanceToken(t.clone())),
        Issue::Credential(cred) => Some(CredentialOrAcceptanceToken::Credential(cred.native())),
    };
    let nonce = c.nonce.clone().map(|(c_nonce, c_nonce_expires_in)| CNonce { c_nonce, c_nonce_expires_in });
    let result = clock::at((c.now.0, c.now.1), || {
        CredentialIssuer::create_credential_success_response(&request, issued, nonce)
    });
    let legitimate = c.request.proof.as_ref().map_or(true, |p| {
        eval::well_typed(p) && eval::window(p, c.now) == T::Yes && p.signature.as_deref().is_some_and(|s| !s.is_empty())
    });
    cx.label(match (&c.issue, c.request.proof.is_some()) {
        (Issue::Nothing, _) => "nothing issued",
        (Issue::Token(_), _) => "acceptance token",
        (Issue::Credential(cred), _) => cred.kind.name(),
    });
    cx.label_if(c.request.proof.is_some(), "request with a proof");
    cx.label_if(c.nonce.is_some(), "with a nonce");
    let (response, at) = match result {
        Ok(r) => r,
        Err(e) => {
            cx.label("refused");
            ensure!(!legitimate, "no response to a legitimate request: {e:?}");
            return Ok(());
        }
    };
    cx.nontrivial();
    ensure!(c.now.same(at), "the timestamp is {at:?}, the time of the call {:?}", c.now);

    let sent = wire(&response)?;
    let mut got = present(&sent)?;
    let mut expected = Map::new();
    expected.insert("format".into(), json!(c.request.cred.kind.name()));
    if let Some((nonce, expires)) = &c.nonce {
        expected.insert("c_nonce".into(), json!(nonce));
        put(&mut expected, "c_nonce_expires_in", *expires);
    }
    match &c.issue {
        Issue::Nothing => {}
        Issue::Token(t) => {
            expected.insert("acceptance_token".into(), json!(t));
        }
        Issue::Credential(cred) => {
            let credential = got.remove("credential").ok_or_else(|| format!("the credential is missing from {sent}"))?;
            let same = cred.kind == c.request.cred.kind;
            let object = if same { Some(cred.kind == Kind::LdpVc) } else { None };
            carries(&credential, &cred.json(), object)?;
        }
    }
    ensure!(got == expected, "the response is {sent}, expected (beside the credential) {}", Value::Object(expected));

    let back: CredentialSuccessResponse =
        serde_json::from_value(sent.clone()).map_err(|e| format!("{sent} cannot be parsed: {e}"))?;
    ensure!(back == response, "parsed back {back:?} instead of {response:?}");
    let back: CredentialSuccessResponse =
        serde_json::from_str(&sent.to_string()).map_err(|e| format!("{sent} cannot be parsed: {e}"))?;
    ensure!(back == response, "parsed back {back:?} instead of {response:?}");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C16

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TokenCase {
    pub access_token: String,
    pub expires_in: Option<u32>,
    pub scope: Option<String>,
    pub c_nonce: Option<String>,
    pub c_nonce_expires_in: Option<u32>,
    pub authorization_pending: Option<bool>,
    pub interval: Option<u32>,
    pub now: Inst,
    /// which letters of the token type are upper case when a wallet's library reads it
    pub spelling: u8,
}

impl TokenCase {
    pub fn json(&self, token_type: &str) -> Value {
        let mut m = Map::new();
        m.insert("access_token".into(), json!(self.access_token));
        m.insert("token_type".into(), json!(token_type));
        put(&mut m, "expires_in", self.expires_in);
        put(&mut m, "scope", self.scope.clone());
        put(&mut m, "c_nonce", self.c_nonce.clone());
        put(&mut m, "c_nonce_expires_in", self.c_nonce_expires_in);
        put(&mut m, "authorization_pending", self.authorization_pending);
        put(&mut m, "interval", self.interval);
        Value::Object(m)
    }

    pub fn spelled(&self) -> String {
        "bearer"
            .chars()
            .enumerate()
            .map(|(i, c)| if self.spelling >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
            .collect()
    }
}

pub fn token_cases() -> S<TokenCase> {
    (
        (prop_oneof![gen::token(), gen::text()], option::of(seconds()), option::of(gen::text()), option::of(gen::token())),
        (option::of(seconds()), option::of(any::<bool>()), option::of(seconds()), gen::now(), any::<u8>()),
    )
        .prop_map(|((access_token, expires_in, scope, c_nonce), (c_nonce_expires_in, authorization_pending, interval, now, spelling))| {
            TokenCase { access_token, expires_in, scope, c_nonce, c_nonce_expires_in, authorization_pending, interval, now, spelling }
        })
        .boxed()
}

fn c16(c: &TokenCase, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let valid = c.c_nonce.is_some() || c.c_nonce_expires_in.is_none();
    cx.label(if valid { "valid" } else { "lifetime without nonce" });
    cx.label_if(c.c_nonce.is_some() && c.c_nonce_expires_in.is_none(), "nonce without lifetime");
    let result = clock::at((c.now.0, c.now.1), || {
        AccessToken::create_access_token_success_response(
            c.access_token.clone(),
            AccessTokenType::Bearer,
            c.expires_in,
            c.scope.clone(),
            c.c_nonce.clone(),
            c.c_nonce_expires_in,
            c.authorization_pending,
            c.interval,
        )
    });
    let (response, at) = match result {
        Ok(r) => r,
        Err(e) => {
            // whether an invalid response can be created is not decided
            ensure!(!valid, "no response: {e:?}");
            return Ok(());
        }
    };
    ensure!(c.now.same(at), "the timestamp is {at:?}, the time of the call {:?}", c.now);
    ensure!(response.validate().is_ok() == valid, "validation gives {:?}", response.validate());

    let sent = wire(&response)?;
    let expected = c.json("Bearer");
    ensure!(Value::Object(present(&sent)?) == expected, "the response is {sent} instead of {expected}");

    let back: AccessTokenSuccessResponse =
        serde_json::from_str(&sent.to_string()).map_err(|e| format!("{sent} cannot be parsed: {e}"))?;
    ensure!(back == response, "parsed back {back:?} instead of {response:?}");
    ensure!(back.validate().is_ok() == valid, "validation after parsing gives {:?}", back.validate());
    // as another implementation writes it
    let other = c.json(&c.spelled());
    let back: AccessTokenSuccessResponse =
        serde_json::from_value(other.clone()).map_err(|e| format!("{other} cannot be parsed: {e}"))?;
    ensure!(back == response, "{other} is parsed as {back:?} instead of {response:?}");

    // the type on its own
    let name = <&str>::from(response.token_type.clone());
    ensure!(name == "Bearer", "the token type is called {name:?}");
    let spelled = c.spelled();
    ensure!(AccessTokenType::try_from(spelled.clone()).is_ok(), "{spelled:?} is not a token type");
    for text in [format!("{spelled} "), format!("x{spelled}"), spelled[1..].to_owned(), c.access_token.clone()] {
        let is = text.eq_ignore_ascii_case("bearer");
        ensure!(AccessTokenType::try_from(text.clone()).is_ok() == is, "{text:?} as a token type");
        let mut with = other.clone();
        with["token_type"] = json!(text);
        let parsed = serde_json::from_value::<AccessTokenSuccessResponse>(with.clone());
        ensure!(parsed.is_ok() == is, "{with} is parsed as {parsed:?}");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            rule: "requests with and without proofs, every credential format, acceptance tokens, nonces and lifetimes. Non-trivial: a response was created",
            suites: vec![Suite { name: "credential", cases: 60_000, strategy: credential_cases, check: c15 }.boxed()],
            assumptions: &[
                "a member that is null counts as absent",
                "when the issued credential has another format than the requested one, either encoding is accepted",
            ],
            isolated: false,
        },
        Property {
            id: "C16",
            rule: "every combination of optional members with any text and 32-bit numbers. Every case is non-trivial",
            suites: vec![Suite { name: "token", cases: 120_000, strategy: token_cases, check: c16 }.boxed()],
            assumptions: &["a member that is null counts as absent"],
            isolated: false,
        },
    ]
}
