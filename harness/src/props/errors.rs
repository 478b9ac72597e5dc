//! C17 and C18: error responses and error reports.

use super::responses::wire;
use crate::gen::{self, S};
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use chrono::{DateTime, Utc};
use openid4vci::access_token::error::{AccessTokenError as AE, AccessTokenResult};
use openid4vci::access_token::error_response::AccessTokenErrorCode as AC;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::error::{CredentialIssuerError as CE, CredentialIssuerResult};
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode as CC;
use openid4vci::credential_issuer::CredentialIssuer;
use openid4vci::error::ErrorInformation;
use openid4vci::jwt::error::{JwtError as JE, JwtResult};
use openid4vci::return_object::{ReturnObject, ToReturnObject};
use openid4vci::validate::{ValidationError as VE, ValidationResult};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::fmt::Debug;

// ------------------------------------------------------------------------------------------------ C17

const TOKEN_CODES: [(&str, AC); 8] = [
    ("invalid_request", AC::InvalidRequest),
    ("invalid_grant", AC::InvalidGrant),
    ("invalid_client", AC::InvalidClient),
    ("access_denied", AC::AccessDenied),
    ("unsupported_response_type", AC::UnsupportedResponseType),
    ("invalid_scope", AC::InvalidScope),
    ("server_error", AC::ServerError),
    ("temporarily_unavailable", AC::TemporarilyUnavailable),
];

const ISSUER_CODES: [(&str, CC); 5] = [
    ("invalid_request", CC::InvalidRequest),
    ("invalid_token", CC::InvalidToken),
    ("unsupported_credential_type", CC::UnsupportedCredentialType),
    ("unsupported_credential_format", CC::UnsupportedCredentialFormat),
    ("invalid_or_missing_proof", CC::InvalidOrMissingProof),
];

const RESERVED: [&str; 3] = ["error", "error_description", "error_uri"];

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct ResponseCase {
    pub token: bool,
    pub code: u8,
    pub description: Option<String>,
    pub uri: Option<String>,
    pub details: Option<Value>,
}

fn detail_name() -> S<String> {
    prop_oneof![
        5 => gen::extra_name(),
        1 => select(RESERVED.to_vec()).prop_map(str::to_owned),
        1 => select(vec!["errors", "Error", "error_", "error_URI", "error_uri ", "error_additional_details", "description",
            "c_nonce", "c_nonce_expires_in", "error_description_"]).prop_map(str::to_owned),
    ]
    .boxed()
}

fn response_cases() -> S<ResponseCase> {
    let details = prop_oneof![
        2 => Just(None),
        1 => Just(Some(Value::Null)),
        8 => gen::map(detail_name(), gen::json_value_null(), 0..5).prop_map(|m| Some(json!(m))),
        2 => gen::json_value().prop_map(Some),
        1 => vec((detail_name(), gen::json_value()), 0..3).prop_map(|v| Some(json!(v))),
    ];
    (any::<bool>(), any::<u8>(), option::of(gen::text()), option::of(gen::ident()), details)
        .prop_map(|(token, code, description, uri, details)| ResponseCase { token, code, description, uri, details })
        .boxed()
}

fn c17_response(c: &ResponseCase, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    cx.label(if c.token { "token response" } else { "credential response" });
    let sendable = match &c.details {
        None | Some(Value::Null) => {
            cx.label("no details");
            true
        }
        Some(Value::Object(m)) => {
            let clash = RESERVED.iter().any(|r| m.contains_key(*r));
            cx.label(if clash { "details that overwrite" } else { "details" });
            !clash
        }
        Some(_) => {
            cx.label("details that are no object");
            false
        }
    };
    let (code, sent) = if c.token {
        let (name, code) = TOKEN_CODES[usize::from(c.code) % TOKEN_CODES.len()].clone();
        let r = AccessToken::create_access_token_error_response(
            code,
            c.description.clone(),
            c.uri.clone(),
            c.details.clone(),
        );
        (name, r.map(|r| wire(&r)).map_err(|e| format!("{e:?}")))
    } else {
        let (name, code) = ISSUER_CODES[usize::from(c.code) % ISSUER_CODES.len()].clone();
        let r = CredentialIssuer::create_credential_error_response(
            &code,
            c.description.clone(),
            c.uri.clone(),
            c.details.clone(),
        );
        (name, r.map(|r| wire(&r)).map_err(|e| format!("{e:?}")))
    };
    let sent = match sent {
        Ok(sent) => {
            ensure!(sendable, "a response is created, serialised it is {sent:?}");
            sent?
        }
        Err(e) => {
            ensure!(!sendable, "no response: {e}");
            return Ok(());
        }
    };
    let mut expected = Map::new();
    expected.insert("error".into(), json!(code));
    if let Some(d) = &c.description {
        expected.insert("error_description".into(), json!(d));
    }
    if let Some(u) = &c.uri {
        expected.insert("error_uri".into(), json!(u));
    }
    if let Some(Value::Object(m)) = &c.details {
        expected.extend(m.clone());
    }
    let mut got = sent.as_object().cloned().ok_or_else(|| format!("{sent} is no object"))?;
    // a member that was not given may be sent as null
    for name in ["error_description", "error_uri"] {
        if got.get(name) == Some(&Value::Null) {
            got.remove(name);
        }
    }
    ensure!(got == expected, "the response is {sent} instead of {}", Value::Object(expected));
    Ok(())
}

fn code_texts() -> S<String> {
    let registered: Vec<String> = TOKEN_CODES
        .iter()
        .map(|c| c.0)
        .chain(ISSUER_CODES.iter().map(|c| c.0))
        .chain(["unauthorized_client", "unsupported_grant_type", "invalid_proof", "invalid_nonce",
            "invalid_or_missing_token", "interaction_required"])
        .map(str::to_owned)
        .collect();
    let variants: Vec<String> = TOKEN_CODES
        .iter()
        .map(|c| format!("{:?}", c.1))
        .chain(ISSUER_CODES.iter().map(|c| format!("{:?}", c.1)))
        .collect();
    prop_oneof![
        4 => select(registered.clone()),
        6 => (select(registered.clone()), gen::near()).prop_map(|(t, n)| n.apply(&t)),
        1 => (select(registered.clone()), gen::near(), gen::near()).prop_map(|(t, n, m)| m.apply(&n.apply(&t))),
        1 => select(variants),
        1 => select(registered).prop_map(|t| t.replace('_', "-")),
        1 => gen::text(),
    ]
    .boxed()
}

fn code_round<C>(text: &str, table: &[(&str, C)]) -> Verdict
where
    C: Clone + PartialEq + Debug + Serialize + DeserializeOwned + TryFrom<String, Error = VE>,
    for<'a> &'a str: From<C>,
{
    let expected = table.iter().find(|(n, _)| *n == text).map(|(_, c)| c);
    let got = C::try_from(text.to_owned());
    ensure!(got.as_ref().ok() == expected, "{text:?} is converted to {got:?} instead of {expected:?}");
    let read = serde_json::from_value::<C>(json!(text)).ok();
    ensure!(read.as_ref() == expected, "{text:?} is read as {read:?} instead of {expected:?}");
    if let Some(c) = expected {
        let name: &str = c.clone().into();
        ensure!(name == text, "{c:?} is converted to {name:?} instead of {text:?}");
        ensure!(wire(c)? == json!(text), "{c:?} is sent as {}", wire(c)?);
    }
    Ok(())
}

fn c17_code(text: &String, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let registered = TOKEN_CODES.iter().any(|c| c.0 == text) || ISSUER_CODES.iter().any(|c| c.0 == text);
    cx.label(if registered { "registered code" } else { "another text" });
    code_round(text, &TOKEN_CODES)?;
    code_round(text, &ISSUER_CODES)
}

// ------------------------------------------------------------------------------------------------ C18

/// The pieces any error can be made of
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Pieces {
    pub variant: u8,
    pub a: String,
    pub b: String,
    pub oa: Option<String>,
    pub ob: Option<String>,
    pub list: Vec<String>,
    pub flags: (bool, bool),
    pub times: (Inst, Inst),
    pub coordinates: (Option<Vec<u8>>, Option<Vec<u8>>),
    pub creds: Vec<Cred>,
    pub nested: Vec<Pieces>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Family {
    Validation,
    Token,
    Issuer,
    Jwt,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct ErrorCase {
    pub family: Family,
    /// the value of a success
    pub ok: Option<Value>,
    pub pieces: Pieces,
    pub warnings: Vec<String>,
}

fn times() -> S<(Inst, Inst)> {
    let t = || {
        prop_oneof![
            6 => gen::now(),
            1 => (-62_167_219_200i64..253_402_300_800, 0u32..1_000_000_000).prop_map(|(s, n)| Inst(s, n)),
            1 => select(vec![Inst(0, 0), Inst::TEXT_MAX, Inst::TEXT_MIN, Inst(-1, 999_999_999)]),
        ]
    };
    (t(), t()).boxed()
}

fn pieces(depth: u32) -> S<Pieces> {
    let bytes = || option::of(vec(any::<u8>(), 0..6));
    let nested = if depth == 0 { Just(vec![]).boxed() } else { vec(pieces(depth - 1), 2).boxed() };
    (
        (any::<u8>(), gen::text(), gen::text(), option::of(gen::text()), option::of(gen::text())),
        (gen::list(gen::text(), 0..4), any::<(bool, bool)>(), times(), (bytes(), bytes())),
        (gen::list(gen::cred(), 1..4), nested),
    )
        .prop_map(|((variant, a, b, oa, ob), (list, flags, times, coordinates), (creds, nested))| Pieces {
            variant,
            a,
            b,
            oa,
            ob,
            list,
            flags,
            times,
            coordinates,
            creds,
            nested,
        })
        .boxed()
}

fn error_cases() -> S<ErrorCase> {
    (
        prop_oneof![
            1 => Just(Family::Validation),
            6 => Just(Family::Token),
            8 => Just(Family::Issuer),
            10 => Just(Family::Jwt),
        ],
        option::weighted(0.15, gen::json_value_null()),
        prop_oneof![3 => pieces(0), 1 => pieces(2)],
        warnings(),
    )
        .prop_map(|(family, ok, pieces, warnings)| ErrorCase { family, ok, pieces, warnings })
        .boxed()
}

/// Mostly a few, sometimes many, some of them equal
fn warnings() -> S<Vec<String>> {
    let number = crate::dict::number_upto(64).prop_flat_map(|n| vec(gen::text_short(), n as usize..n as usize + 1));
    let repeated = (vec(gen::text_short(), 1..5), vec(any::<prop::sample::Index>(), 0..24))
        .prop_map(|(texts, picks)| picks.iter().map(|p| p.get(&texts).clone()).collect());
    prop_oneof![
        12 => vec(gen::text(), 0..4),
        3 => repeated,
        2 => vec(gen::text_short(), 4..20),
        1 => vec(gen::text_short(), 20..40),
        crate::dict::number_weight(0, 4) => number,
    ]
    .boxed()
}

/// What a report must say
struct Expected {
    code: u32,
    name: &'static str,
    details: Details,
    /// texts the description contains
    says: Vec<String>,
    /// the description, where it is the validation message
    is: Option<String>,
}

/// The details of an error
enum Details {
    Nothing,
    Object(Vec<(&'static str, Detail)>),
}

enum Detail {
    Value(Value),
    Time(Inst),
    /// of another error; how an error without details is written here is left open
    Nested(Details),
}

impl Details {
    fn matches(&self, got: Option<&Value>) -> Verdict {
        match (self, got) {
            (Details::Nothing, None | Some(Value::Null)) => Ok(()),
            (Details::Nothing, Some(v)) => Err(format!("details {v} instead of none")),
            (Details::Object(members), Some(Value::Object(m))) => {
                let mut names: Vec<&str> = members.iter().map(|m| m.0).collect();
                let mut have: Vec<&str> = m.keys().map(String::as_str).collect();
                names.sort_unstable();
                have.sort_unstable();
                ensure!(names == have, "details {have:?} instead of {names:?}");
                for (name, detail) in members {
                    let v = &m[*name];
                    match detail {
                        Detail::Value(e) => ensure!(e == v, "the detail {name} is {v} instead of {e}"),
                        Detail::Time(t) => {
                            let at = v.as_str().and_then(|t| t.parse::<DateTime<Utc>>().ok());
                            ensure!(at.is_some_and(|at| t.same(at)), "the detail {name} is {v} instead of {t:?}");
                        }
                        Detail::Nested(Details::Nothing) => {}
                        Detail::Nested(d) => d.matches(Some(v)).map_err(|e| format!("in {name}: {e}"))?,
                    }
                }
                Ok(())
            }
            (Details::Object(_), got) => Err(format!("details {got:?} instead of an object")),
        }
    }
}

fn value(v: impl Serialize) -> Detail {
    Detail::Value(serde_json::to_value(v).expect("value"))
}

fn validation(p: &Pieces) -> (VE, Details) {
    (
        VE::Any { validation_message: p.a.clone() },
        Details::Object(vec![("validation_message", value(&p.a))]),
    )
}

fn token_error(p: &Pieces) -> (AE, Expected) {
    let mut is = None;
    let (error, code, name, details) = match p.variant % 9 {
        0 => {
            let (e, d) = validation(p);
            is = Some(p.a.clone());
            (AE::ValidationError(e), 400, "ValidationError", d)
        }
        1 => (
            AE::InvalidGrantType { requested_grant_type: p.a.clone(), accepted_grant_type: p.list.clone() },
            401,
            "InvalidGrantType",
            Details::Object(vec![("requested_grant_type", value(&p.a)), ("accepted_grant_type", value(&p.list))]),
        ),
        2 => (AE::AuthorizedFlowNotSupported, 402, "AuthorizedFlowNotSupported", Details::Nothing),
        3 => (AE::NoFlowSupportedInCredentialOffer, 403, "NoFlowSupportedInCredentialOffer", Details::Nothing),
        4 => (
            AE::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: p.flags.0, does_code_match: p.flags.1 },
            404,
            "InvalidPreAuthorizedCodeFlowValues",
            Details::Object(vec![("should_pin_be_supplied", value(p.flags.0)), ("does_code_match", value(p.flags.1))]),
        ),
        5 => {
            let one = |i: usize| match p.nested.get(i) {
                Some(n) => token_error(n),
                None => token_error(&Pieces { variant: i as u8 * 4, ..p.clone() }),
            };
            let ((a, ea), (b, eb)) = (one(0), one(1));
            (
                AE::InvalidAuthorizedAndPreAuthorizedCodeFlow {
                    authorized_error: Box::new(a),
                    pre_authorized_error: Box::new(b),
                },
                405,
                "InvalidAuthorizedAndPreAuthorizedCodeFlow",
                Details::Object(vec![
                    ("authorized_error", Detail::Nested(ea.details)),
                    ("pre_authorized_error", Detail::Nested(eb.details)),
                ]),
            )
        }
        6 => (
            AE::OptionsAreRequiredForEvaluation { reason: p.a.clone() },
            406,
            "OptionsAreRequiredForEvaluation",
            Details::Object(vec![("reason", value(&p.a))]),
        ),
        7 => (AE::UserPinMismatch, 407, "UserPinMismatch", Details::Nothing),
        _ => (AE::CredentialOfferMustBeSupplied, 409, "CredentialOfferMustBeSupplied", Details::Nothing),
    };
    (error, Expected { code, name, details, says: vec![], is })
}

fn issuer_error(p: &Pieces) -> (CE, Expected) {
    let (mut is, mut says) = (None, vec![]);
    let (t, u) = p.times;
    let (error, code, name, details) = match p.variant % 13 {
        0 => {
            let (e, d) = validation(p);
            is = Some(p.a.clone());
            (CE::ValidationError(e), 100, "ValidationError", d)
        }
        1 => {
            let inner = Pieces { variant: p.variant / 13, ..p.clone() };
            let (e, x) = jwt_error(p.nested.first().unwrap_or(&inner));
            is = Some(e.to_string());
            (CE::JwtError(e), 101, "JwtError", x.details)
        }
        2 => (CE::AuthorizedFlowNotSupported, 102, "AuthorizedFlowNotSupported", Details::Nothing),
        3 => {
            says.push(p.a.clone());
            (
                CE::CredentialIdNotInIssuerMetadata { id: p.a.clone() },
                103,
                "CredentialIdNotInIssuerMetadata",
                Details::Object(vec![("id", value(&p.a))]),
            )
        }
        4 => (
            CE::InvalidCredentialOfferEncoding { error_message: p.a.clone() },
            104,
            "InvalidCredentialOfferEncoding",
            Details::Object(vec![("error_message", value(&p.a))]),
        ),
        5 => (
            CE::InvalidRequestedCredential {
                requested_credential: Box::new(p.creds[0].native()),
                supported_formats: p.creds[1..].iter().map(Cred::native).collect(),
            },
            105,
            "InvalidRequestedCredential",
            Details::Object(vec![
                ("requested_credential", value(p.creds[0].json())),
                ("supported_formats", value(p.creds[1..].iter().map(Cred::json).collect::<Vec<_>>())),
            ]),
        ),
        6 => (
            CE::ExpiredCNonce { now: t.chrono(), expires_in: p.flags.0.then(|| u.chrono()) },
            106,
            "ExpiredCNonce",
            Details::Object(vec![
                ("now", Detail::Time(t)),
                ("expires_in", if p.flags.0 { Detail::Time(u) } else { Detail::Value(Value::Null) }),
            ]),
        ),
        7 => (
            CE::CredentialAndAcceptanceTokenSupplied,
            107,
            "CredentialAndAcceptanceTokenSupplied",
            Details::Nothing,
        ),
        8 => (
            CE::AuthorizationServerMetadataNotSupported,
            108,
            "AuthorizationServerMetadataNotSupported",
            Details::Nothing,
        ),
        9 => (CE::CredentialOfferMustBeSupplied, 109, "CredentialOfferMustBeSupplied", Details::Nothing),
        10 => (
            CE::EvaluteCredentialRequestOptionsNotSupplied { reason: p.a.clone() },
            110,
            "EvaluteCredentialRequestOptionsNotSupplied",
            Details::Object(vec![("reason", value(&p.a))]),
        ),
        11 => {
            says.extend([t.chrono().to_string(), u.chrono().to_string()]);
            (
                CE::CNonceIsExpired { now: t.chrono(), expiry_timestamp: u.chrono() },
                111,
                "CNonceIsExpired",
                Details::Object(vec![("now", Detail::Time(t)), ("expiry_timestamp", Detail::Time(u))]),
            )
        }
        _ => (CE::NoProofInCredentialRequest, 112, "NoProofInCredentialRequest", Details::Nothing),
    };
    (error, Expected { code, name, details, says, is })
}

fn jwt_error(p: &Pieces) -> (JE, Expected) {
    let mut says = vec![];
    let (t, u) = p.times;
    let (error, code, name, details) = match p.variant % 17 {
        0 => {
            let (e, d) = validation(p);
            (JE::ValidationError(e), 300, "ValidationError", d)
        }
        1 => {
            says.extend([t.chrono().to_string(), u.chrono().to_string()]);
            (
                JE::NotYetValid { valid_from: t.chrono(), now: u.chrono() },
                301,
                "NotYetValid",
                Details::Object(vec![("valid_from", Detail::Time(t)), ("now", Detail::Time(u))]),
            )
        }
        2 => {
            says.extend([t.chrono().to_string(), u.chrono().to_string()]);
            (
                JE::NotValidAnymore { valid_until: t.chrono(), now: u.chrono() },
                302,
                "NotValidAnymore",
                Details::Object(vec![("valid_until", Detail::Time(t)), ("now", Detail::Time(u))]),
            )
        }
        3 => (
            JE::IssuerMismatch { expected_iss_in_jwt: p.oa.clone(), actual_iss_in_jwt: p.ob.clone() },
            303,
            "IssuerMismatch",
            Details::Object(vec![("expected_iss_in_jwt", value(&p.oa)), ("actual_iss_in_jwt", value(&p.ob))]),
        ),
        4 => (JE::NoKeyFoundInProof, 304, "NoKeyFoundInProof", Details::Nothing),
        5 => (JE::NoDidDocumentProvidedForKidAsDid, 305, "NoDidDocumentProvidedForKidAsDid", Details::Nothing),
        6 => (
            JE::UnableToTransformIntoDid { kid: p.a.clone(), message: p.b.clone() },
            306,
            "UnableToTransformIntoDid",
            Details::Object(vec![("kid", value(&p.a)), ("message", value(&p.b))]),
        ),
        7 => (
            JE::UnableToResolveDidInDidDocument { did: p.a.clone(), message: p.b.clone() },
            307,
            "UnableToResolveDidInDidDocument",
            Details::Object(vec![("did", value(&p.a)), ("message", value(&p.b))]),
        ),
        8 => (
            JE::UnableToMapVerificationMethodToJwk { messsage: p.a.clone() },
            308,
            "UnableToMapVerificationMethodToJwk",
            Details::Object(vec![("messsage", value(&p.a))]),
        ),
        9 => {
            says.push(p.a.clone());
            (
                JE::UnableToTransformIntoJoseItem { original_string: p.a.clone(), serde_message: p.b.clone() },
                309,
                "UnableToTransformIntoJoseItem",
                Details::Object(vec![("original_string", value(&p.a)), ("serde_message", value(&p.b))]),
            )
        }
        10 => {
            says.push(p.a.clone());
            (
                JE::UnsupportedAlgorithm { algorithm: p.a.clone() },
                310,
                "UnsupportedAlgorithm",
                Details::Object(vec![("algorithm", value(&p.a))]),
            )
        }
        11 => (JE::EdDSAHasNoXCoordinate, 311, "EdDSAHasNoXCoordinate", Details::Nothing),
        12 => {
            says.push(p.a.clone());
            let (x, y) = p.coordinates.clone();
            (
                JE::ESXXXHasNoXOrYCoordinate { algorithm: p.a.clone(), x: x.clone(), y: y.clone() },
                312,
                "ESXXXHasNoXOrYCoordinate",
                Details::Object(vec![("algorithm", value(&p.a)), ("x", value(x)), ("y", value(y))]),
            )
        }
        13 => (
            JE::SignatureNotInJwt { jwt: p.a.clone() },
            313,
            "SignatureNotInJwt",
            Details::Object(vec![("jwt", value(&p.a))]),
        ),
        14 => {
            says.push(p.b.clone());
            (
                JE::UnsupportedKeyTypeInJwtHeader { key_name: p.a.clone(), key_type: p.b.clone() },
                314,
                "UnsupportedKeyTypeInJwtHeader",
                Details::Object(vec![("key_name", value(&p.a)), ("key_type", value(&p.b))]),
            )
        }
        15 => (
            JE::NonceMismatch { expected_nonce: p.oa.clone(), actual_nonce: p.a.clone() },
            315,
            "NonceMismatch",
            Details::Object(vec![("expected_nonce", value(&p.oa)), ("actual_nonce", value(&p.a))]),
        ),
        _ => (
            JE::AudienceMismatch { expected_aud_in_jwt: p.a.clone(), actual_aud_in_jwt: p.b.clone() },
            316,
            "AudienceMismatch",
            Details::Object(vec![("expected_aud_in_jwt", value(&p.a)), ("actual_aud_in_jwt", value(&p.b))]),
        ),
    };
    (error, Expected { code, name, details, says, is: None })
}

/// Is the report the one expected of this error, whose message is `message`?
fn report(r: &ErrorInformation, message: &str, e: &Expected) -> Verdict {
    ensure!(r.code == e.code, "the code is {} instead of {}", r.code, e.code);
    ensure!(r.name == e.name, "the name is {:?} instead of {:?}", r.name, e.name);
    ensure!(r.description == message, "the description is {:?} instead of {message:?}", r.description);
    if let Some(is) = &e.is {
        ensure!(&r.description == is, "the description is {:?} instead of {is:?}", r.description);
    } else {
        ensure!(!r.description.trim().is_empty(), "the description is empty");
    }
    for text in &e.says {
        ensure!(r.description.contains(text.as_str()), "the description {:?} does not say {text:?}", r.description);
    }
    e.details.matches(r.additional_information.as_ref())?;

    // as it leaves the library
    let expected = |details: &Value| {
        let mut m = json!({"code": e.code, "name": e.name, "description": message});
        if !details.is_null() {
            m["additional_information"] = details.clone();
        }
        m
    };
    let details = r.additional_information.clone().unwrap_or(Value::Null);
    for sent in [wire(r)?, serde_json::from_str(&r.to_string()).map_err(|e| format!("displayed as {r}: {e}"))?] {
        ensure!(r.additional_information.is_some() || sent.get("additional_information").is_none(), "the report is sent as {sent}");
        let got = super::responses::present(&sent)?;
        ensure!(Value::Object(got) == expected(&details), "the report is sent as {sent}");
    }
    Ok(())
}

type Object = ReturnObject<Value, ErrorInformation, String>;

fn same_report(a: &ErrorInformation, b: &ErrorInformation) -> bool {
    (a.code, &a.name, &a.description, &a.additional_information)
        == (b.code, &b.name, &b.description, &b.additional_information)
}

fn return_object(c: &ErrorCase, object: Object, error: Option<(&str, &ErrorInformation, &Expected)>) -> Verdict {
    let check = |o: &Object, warnings: usize| -> Verdict {
        match error {
            None => {
                ensure!(o.info == c.ok, "info is {:?} instead of {:?}", o.info, c.ok);
                ensure!(o.error.is_none(), "a success has the error {:?}", o.error);
            }
            Some((message, information, expected)) => {
                ensure!(o.info.is_none(), "a failure has the info {:?}", o.info);
                let e = o.error.as_ref().ok_or("a failure has no error")?;
                report(e, message, expected)?;
                ensure!(same_report(e, information), "the error {e:?} differs from the report {information:?}");
            }
        }
        let have = o.warnings.clone().unwrap_or_default();
        ensure!(have == c.warnings[..warnings], "the warnings are {have:?} instead of {:?}", &c.warnings[..warnings]);
        let whole = wire(o)?;
        for (member, set) in [
            ("info", error.is_none()),
            ("error", error.is_some()),
            ("warnings", o.warnings.is_some()),
        ] {
            // a member that is not set is left out, not null
            ensure!(set || whole.get(member).is_none(), "sent with the member {member:?}: {whole}");
        }
        let sent = super::responses::present(&whole)?;
        let mut expected = Map::new();
        match error {
            // a value that is null is indistinguishable from none
            None => {
                expected.extend(c.ok.clone().filter(|v| !v.is_null()).map(|v| ("info".to_owned(), v)));
            }
            Some((_, information, _)) => {
                expected.insert("error".into(), wire(information)?);
            }
        }
        if warnings > 0 {
            expected.insert("warnings".into(), json!(c.warnings[..warnings]));
        }
        let mut sent_without = sent.clone();
        if warnings == 0 && sent.get("warnings") == Some(&json!([])) {
            sent_without.remove("warnings");
        }
        ensure!(sent_without == expected, "sent as {} instead of {}", Value::Object(sent), Value::Object(expected));
        Ok(())
    };
    check(&object, 0)?;
    let mut object = object;
    for (i, w) in c.warnings.iter().enumerate() {
        object = object.add_warning(w.clone());
        // the rest of a long list is judged at its end
        if i < 3 || i + 1 == c.warnings.len() {
            check(&object, i + 1)?;
        }
    }
    Ok(())
}

fn c18(c: &ErrorCase, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    cx.label_if(!c.warnings.is_empty(), "warnings");
    if let Some(v) = &c.ok {
        cx.label("success");
        let v = v.clone();
        return match c.family {
            Family::Validation => {
                let r: ValidationResult<Value> = Ok(v);
                return_object(c, r.to_return_object(), None)
            }
            Family::Token => {
                let r: AccessTokenResult<Value> = Ok(v);
                return_object(c, r.to_return_object(), None)
            }
            Family::Issuer => {
                let r: CredentialIssuerResult<Value> = Ok(v);
                return_object(c, r.to_return_object(), None)
            }
            Family::Jwt => {
                let r: JwtResult<Value> = Ok(v);
                return_object(c, r.to_return_object(), None)
            }
        };
    }
    macro_rules! judge {
        ($error:expr, $expected:expr, $result:ident) => {{
            let (error, expected) = ($error, $expected);
            cx.label_owned(format!("{} {}", expected.code, expected.name));
            let (message, information) = (error.to_string(), error.information());
            report(&information, &message, &expected)?;
            let r: $result<Value> = Err(error);
            return_object(c, r.to_return_object(), Some((&message, &information, &expected)))
        }};
    }
    let p = &c.pieces;
    match c.family {
        Family::Validation => {
            let (e, details) = validation(p);
            let x = Expected { code: 1, name: "Any", details, says: vec![], is: Some(p.a.clone()) };
            judge!(e, x, ValidationResult)
        }
        Family::Token => {
            let (e, x) = token_error(p);
            judge!(e, x, AccessTokenResult)
        }
        Family::Issuer => {
            let (e, x) = issuer_error(p);
            judge!(e, x, CredentialIssuerResult)
        }
        Family::Jwt => {
            let (e, x) = jwt_error(p);
            judge!(e, x, JwtResult)
        }
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            rule: "every code of both kinds of response with any description, URI and details (none, objects, objects that overwrite, other JSON); registered codes, near misses of them and other texts. Every case is non-trivial",
            suites: vec![
                Suite { name: "response", cases: 100_000, strategy: response_cases, check: c17_response }.boxed(),
                Suite { name: "code", cases: 60_000, strategy: code_texts, check: c17_code }.boxed(),
            ],
            assumptions: &["a description or URI that is null counts as absent"],
            isolated: false,
        },
        Property {
            id: "C18",
            rule: "every variant of the four error types with any content, and successes with any JSON value; mostly up to three warnings, sometimes up to forty. Every case is non-trivial",
            suites: vec![Suite { name: "report", cases: 60_000, strategy: error_cases, check: c18 }.boxed()],
            assumptions: &[
                "how an error without details is shown inside the details of another error is left open",
                "additional information that is null counts as none",
            ],
            isolated: false,
        },
    ]
}
