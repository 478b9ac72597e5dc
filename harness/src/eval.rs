//! Credential request evaluation: cases, what is true of them, and how they are generated.

use crate::clock;
use crate::enc;
use crate::gen::{self, Near, Rel, S};
use crate::spec::*;
use openid4vci::credential_issuer::error::{CredentialIssuerError as CE, CredentialIssuerResult};
use openid4vci::credential_issuer::{
    CNonceOptions, CredentialIssuer, CredentialIssuerEvaluateRequestResponse, EvaluateCredentialRequestOptions,
    PreEvaluateCredentialRequestResponse,
};
use openid4vci::jwt::error::JwtError as JE;
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::validate::ValidationError;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const PROOF_TYP: &str = "openid4vci-proof+jwt";

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct NonceOpt {
    pub expected: String,
    pub lifetime: u32,
    pub created: Inst,
}

impl NonceOpt {
    pub fn expiry_ns(&self) -> i128 {
        self.created.total_ns() + i128::from(self.lifetime) * 1_000_000_000
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Opts {
    pub nonce: Option<NonceOpt>,
    pub client_id: Option<String>,
}

impl Opts {
    pub fn native(&self) -> EvaluateCredentialRequestOptions {
        EvaluateCredentialRequestOptions {
            c_nonce: self.nonce.as_ref().map(|n| CNonceOptions {
                c_nonce_expires_in: n.lifetime,
                expected_c_nonce: n.expected.clone(),
                c_nonce_created_at: n.created.chrono(),
            }),
            client_id: self.client_id.clone(),
        }
    }
}

/// One evaluation
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub meta: Meta,
    pub request: Request,
    pub offer: Option<Offer>,
    pub authorization_server: bool,
    pub doc: Option<Doc>,
    pub opts: Option<Opts>,
    pub now: Inst,
    /// what was changed (for classification only)
    pub changes: Vec<String>,
}

impl Case {
    pub fn evaluate(&self) -> CredentialIssuerResult<CredentialIssuerEvaluateRequestResponse> {
        let meta = self.meta.native();
        let request = self.request.native();
        let offer = self.offer.as_ref().map(Offer::native);
        let doc = self.doc.as_ref().map(Doc::native);
        let server = AuthorizationServerMetadata {};
        clock::at((self.now.0, self.now.1), || {
            CredentialIssuer::evaluate_credential_request(
                &meta,
                &request,
                offer.as_ref(),
                self.authorization_server.then_some(&server),
                doc.as_ref(),
                self.opts.as_ref().map(Opts::native),
            )
        })
    }

    pub fn pre_evaluate(&self) -> CredentialIssuerResult<PreEvaluateCredentialRequestResponse> {
        let request = self.request.native();
        clock::at((self.now.0, self.now.1), || CredentialIssuer::pre_evaluate_credential_request(&request))
    }

    pub fn proof(&self) -> Option<&Proof> {
        self.request.proof.as_ref()
    }

    /// Change the current time and keep the proof's validity window where it was relative to it
    pub fn move_to(&mut self, at: Inst) {
        let now = self.now;
        self.now = at;
        if let Some(p) = &mut self.request.proof {
            for (t, up) in [(&mut p.nbf, false), (&mut p.exp, true)] {
                if let Some(t) = t {
                    let ns = t.at.total_ns() - now.total_ns();
                    *t = time_near(at, ns.abs(), up, t.form);
                }
            }
        }
    }

    pub fn client_id(&self) -> Option<&String> {
        self.opts.as_ref().and_then(|o| o.client_id.as_ref())
    }

    pub fn nonce(&self) -> Option<&NonceOpt> {
        self.opts.as_ref().and_then(|o| o.nonce.as_ref())
    }
}

/// Three-valued truth: `Open` where the properties do not decide
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum T {
    Yes,
    No,
    Open,
}

impl From<bool> for T {
    fn from(b: bool) -> T {
        if b {
            T::Yes
        } else {
            T::No
        }
    }
}

// ---------------------------------------------------------------------------------------- truths about a proof

pub fn proof_type_ok(p: &Proof) -> bool {
    p.proof_type.eq_ignore_ascii_case("jwt")
}

pub fn typ_ok(p: &Proof) -> bool {
    p.typ.eq_ignore_ascii_case(PROOF_TYP)
}

/// Does the compact form decode to a proof at all? (unknown algorithms and two key references do not)
pub fn decodes(p: &Proof) -> bool {
    p.alg_is_known() && p.key.count() <= 1
}

/// Everything C10 asks of a proof
pub fn well_typed(p: &Proof) -> bool {
    proof_type_ok(p) && typ_ok(p) && p.alg_is_signature() && p.key.count() <= 1
}

pub fn window(p: &Proof, now: Inst) -> T {
    if p.nbf.is_some_and(|t| t.at > now) || p.exp.is_some_and(|t| t.at < now) {
        T::No
    } else if p.exp.is_some_and(|t| t.at == now) {
        T::Open
    } else {
        T::Yes
    }
}

pub fn kid_is_did(kid: &str) -> T {
    match did_of(kid) {
        None => T::No,
        Some(did) if is_strict_did(did) => T::Yes,
        Some(_) => T::Open,
    }
}

/// What key, if any, the evaluation must return
#[derive(Debug, Clone, PartialEq)]
pub struct KeyTruth {
    pub ok: T,
    pub keys: Vec<Vec<u8>>,
}

pub fn key_truth(case: &Case) -> KeyTruth {
    let no = KeyTruth { ok: T::No, keys: vec![] };
    let Some(p) = case.proof() else { return no };
    let (Some(kid), Some(doc)) = (&p.key.kid, &case.doc) else { return no };
    let facts = doc.lookup(kid);
    let mut keys = vec![];
    let mut usable = 0;
    for f in &facts {
        match f {
            KeyFact::Usable(k) => {
                usable += 1;
                keys.push(k.clone());
            }
            KeyFact::Either(k) => keys.push(k.clone()),
            KeyFact::Unusable => {}
        }
    }
    let ok = if keys.is_empty() {
        T::No
    } else if usable == facts.len() {
        T::Yes
    } else {
        T::Open
    };
    KeyTruth { ok, keys }
}

pub fn client_ok(case: &Case) -> bool {
    let (Some(p), Some(offer)) = (case.proof(), &case.offer) else { return true };
    match case.client_id() {
        Some(client) => p.iss.as_ref() == Some(client),
        None if offer.auth.is_none() && offer.pre.is_some() => true,
        None => p.iss.is_none(),
    }
}

pub fn nonce_expired(case: &Case) -> bool {
    case.nonce().is_some_and(|n| n.expiry_ns() < case.now.total_ns())
}

pub fn nonce_matches(case: &Case) -> bool {
    match (case.nonce(), case.proof()) {
        (Some(n), Some(p)) => n.expected == p.nonce,
        _ => false,
    }
}

/// The conditions for a successful evaluation, by name
pub fn conditions(case: &Case) -> Vec<(&'static str, T)> {
    let mut c = vec![
        ("metadata ids are unique", T::from(case.meta.ids_unique())),
        ("an offer is supplied", T::from(case.offer.is_some())),
        ("no authorization server metadata is supplied", T::from(!case.authorization_server)),
        ("the expected nonce has not expired", T::from(!nonce_expired(case))),
        ("an expected nonce is supplied", T::from(case.nonce().is_some())),
        ("the request contains a proof", T::from(case.proof().is_some())),
    ];
    if let Some(p) = case.proof() {
        c.push(("the proof type is jwt", T::from(proof_type_ok(p))));
        c.push(("the header type is openid4vci-proof+jwt", T::from(typ_ok(p))));
        c.push(("the algorithm is a digital signature algorithm", T::from(p.alg_is_signature())));
        c.push(("the proof names at most one key", T::from(p.key.count() <= 1)));
        c.push(("the proof names its key by id", T::from(p.key.kid.is_some())));
        c.push(("the key id is a DID URL", p.key.kid.as_deref().map_or(T::No, kid_is_did)));
        c.push(("the proof is in its validity window", window(p, case.now)));
        c.push(("the nonce is the expected one", T::from(nonce_matches(case))));
        c.push(("the issuer claim is acceptable", T::from(client_ok(case))));
        c.push(("the audience is the issuer identifier", T::from(p.aud == case.meta.issuer)));
        c.push(("the key id identifies a usable EdDSA key in the document", key_truth(case).ok));
        c.push((
            "the proof is signed",
            match p.signature.as_deref() {
                None => T::No,
                Some("") => T::Open,
                Some(_) => T::Yes,
            },
        ));
    }
    c
}

pub fn failed(case: &Case) -> Vec<&'static str> {
    conditions(case).into_iter().filter(|(_, t)| *t == T::No).map(|(n, _)| n).collect()
}

pub fn all_hold(case: &Case) -> bool {
    conditions(case).iter().all(|(_, t)| *t == T::Yes)
}

// ---------------------------------------------------------------------------------------- truth of refusal reasons

/// Is a validation error justified for this request (and metadata)?
pub fn validation_reason(e: &ValidationError, request: &Request, meta: Option<&Meta>) -> Result<(), String> {
    let ValidationError::Any { validation_message: m } = e;
    let dup = meta.is_some_and(|m| !m.ids_unique());
    let p = request.proof.as_ref();
    let bad_type = p.is_some_and(|p| !proof_type_ok(p));
    let bad_typ = p.is_some_and(|p| decodes(p) && !typ_ok(p));
    let bad_alg = p.is_some_and(|p| decodes(p) && !p.alg_is_signature());
    let undecodable = p.is_some_and(|p| !decodes(p));
    if !(dup || bad_type || bad_typ || bad_alg || undecodable) {
        return Err(format!("validation error `{m}`, but the request and the metadata are valid"));
    }
    let claims = [
        ("not unique", "duplicate metadata ids", dup),
        ("`proof_type`", "a wrong proof type", bad_type),
        ("`typ`", "a wrong header type", bad_typ),
        ("header `alg`", "an unsuitable algorithm", bad_alg),
    ];
    match claims.iter().find(|(marker, ..)| m.contains(marker)) {
        // a message may quote what it complains about
        Some((marker, what, false)) if !mentions(request, meta, marker) => {
            Err(format!("validation error `{m}` states {what}, which does not hold"))
        }
        _ => Ok(()),
    }
}

/// Does any text of the case contain this?
pub fn mentions(request: &Request, meta: Option<&Meta>, marker: &str) -> bool {
    let text = format!("{} {}", serde_json::to_string(request).unwrap_or_default(), json!(meta));
    text.contains(marker)
}

fn text_of(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    }
}

/// Does this text state this JSON value (as itself, or as the JSON text of it)?
pub fn states(text: &str, v: &Value) -> bool {
    text == text_of(v) || serde_json::from_str::<Value>(text).is_ok_and(|t| t == *v)
}

fn require(truth: bool, what: impl Into<String>) -> Result<(), String> {
    if truth {
        Ok(())
    } else {
        Err(what.into())
    }
}

/// Reasons about the proof alone
pub fn jwt_reason(e: &JE, case: &Case) -> Result<(), String> {
    let Some(p) = case.proof() else { return Err(format!("{e:?} without a proof")) };
    let name = format!("{e:?}");
    let key = &p.key;
    let facts = match (&key.kid, &case.doc) {
        (Some(kid), Some(doc)) => doc.lookup(kid),
        _ => vec![],
    };
    let materials: Vec<&Vec<KeyMaterial>> = match (&key.kid, &case.doc) {
        (Some(kid), Some(doc)) => doc
            .vms
            .iter()
            .filter_map(|(_, vm)| match vm {
                Vm::Embedded { id, keys, .. } if doc.identifies(kid, id) => Some(keys),
                _ => None,
            })
            .collect(),
        _ => vec![],
    };
    let jwks: Vec<Value> = materials
        .iter()
        .flat_map(|m| m.iter())
        .filter_map(|m| match m {
            KeyMaterial::Jwk(j) => Some(j.clone()),
            _ => None,
        })
        .chain(key.jwk.iter().map(|j| match j {
            Value::String(s) => serde_json::from_str(s).unwrap_or(Value::Null),
            j => j.clone(),
        }))
        .collect();
    match e {
        JE::ValidationError(v) => validation_reason(v, &case.request, Some(&case.meta)),
        JE::NotYetValid { valid_from, now } => require(
            p.nbf.is_some_and(|t| t.at > case.now && t.at.same(*valid_from)) && case.now.same(*now),
            format!("{name} is not true of the proof"),
        ),
        JE::NotValidAnymore { valid_until, now } => require(
            p.exp.is_some_and(|t| t.at <= case.now && t.at.same(*valid_until)) && case.now.same(*now),
            format!("{name} is not true of the proof"),
        ),
        JE::IssuerMismatch { expected_iss_in_jwt, actual_iss_in_jwt } => require(
            !client_ok(case) && expected_iss_in_jwt.as_ref() == case.client_id() && *actual_iss_in_jwt == p.iss,
            format!("{name} is not true of the proof"),
        ),
        JE::NoKeyFoundInProof => require(key.count() == 0, "NoKeyFoundInProof, but the proof names a key"),
        JE::NoDidDocumentProvidedForKidAsDid => {
            require(case.doc.is_none() && key.kid.is_some(), "NoDidDocumentProvidedForKidAsDid is not true")
        }
        JE::UnableToTransformIntoDid { kid, .. } => require(
            key.kid.as_ref().is_some_and(|k| k == kid && kid_is_did(k) != T::Yes),
            format!("{name}, but the key id is a DID URL"),
        ),
        JE::UnableToResolveDidInDidDocument { did, .. } => require(
            case.doc.is_some() && key.kid.as_ref() == Some(did) && facts.is_empty(),
            format!("{name}, but the document contains the verification method, or the key id is another"),
        ),
        JE::UnableToMapVerificationMethodToJwk { .. } => require(
            materials.iter().any(|m| !matches!(m[..], [KeyMaterial::Jwk(_)])) && facts.iter().any(|f| !matches!(f, KeyFact::Usable(_))),
            format!("{name}, but the key material is usable"),
        ),
        JE::UnableToTransformIntoJoseItem { original_string, .. } => require(
            key.jwk.as_ref().is_some_and(|j| states(original_string, j)) && jwks.iter().any(|j| !is_jwk(j)),
            format!("{name} is not true"),
        ),
        JE::UnsupportedAlgorithm { algorithm } => require(
            jwks.iter().any(|j| !matches!(jwk_fact(j), KeyFact::Usable(_)) && j.get("alg").map_or(true, |a| states(algorithm, a))),
            format!("{name} is not true of the key"),
        ),
        JE::EdDSAHasNoXCoordinate => require(
            jwks.iter().any(|j| j["kty"] == "EC" && j["alg"] == "EdDSA" && j.get("x").is_none()),
            "EdDSAHasNoXCoordinate is not true of the key",
        ),
        JE::SignatureNotInJwt { .. } => {
            require(p.signature.as_deref().map_or(true, str::is_empty), "SignatureNotInJwt, but the proof is signed")
        }
        JE::UnsupportedKeyTypeInJwtHeader { key_name, key_type } => require(
            match key_name.as_str() {
                "jwk" => key.jwk.as_ref().is_some_and(|v| states(key_type, v)),
                "x5c" => key.x5c.as_ref().is_some_and(|v| states(key_type, v)),
                _ => false,
            },
            format!("{name} is not true of the proof"),
        ),
        JE::NonceMismatch { expected_nonce, actual_nonce } => require(
            !nonce_matches(case)
                && expected_nonce.as_ref() == case.nonce().map(|n| &n.expected)
                && *actual_nonce == p.nonce,
            format!("{name} is not true"),
        ),
        JE::AudienceMismatch { expected_aud_in_jwt, actual_aud_in_jwt } => require(
            p.aud != case.meta.issuer && *expected_aud_in_jwt == case.meta.issuer && *actual_aud_in_jwt == p.aud,
            format!("{name} is not true"),
        ),
        JE::ESXXXHasNoXOrYCoordinate { .. } => Err(format!("{name} is not a reason for refusing any request")),
    }
}

/// Does this value have the form of a JSON Web Key?
fn is_jwk(v: &Value) -> bool {
    matches!(v.get("kty").and_then(Value::as_str), Some("OKP" | "EC" | "RSA" | "oct"))
}

/// Is the stated reason for refusing an evaluation true of the case?
pub fn reason_is_true(e: &CE, case: &Case) -> Result<(), String> {
    match e {
        CE::ValidationError(v) => validation_reason(v, &case.request, Some(&case.meta)),
        CE::JwtError(j) => jwt_reason(j, case),
        CE::CredentialOfferMustBeSupplied => {
            require(case.offer.is_none(), "CredentialOfferMustBeSupplied, but an offer was supplied")
        }
        CE::AuthorizationServerMetadataNotSupported => {
            require(case.authorization_server, "AuthorizationServerMetadataNotSupported, but none was supplied")
        }
        CE::CNonceIsExpired { now, expiry_timestamp } => require(
            nonce_expired(case)
                && case.now.same(*now)
                && case.nonce().is_some_and(|n| Inst::from_ns(n.expiry_ns()).same(*expiry_timestamp)),
            format!("{e:?}, which is not true of the nonce"),
        ),
        CE::NoProofInCredentialRequest => {
            require(case.proof().is_none(), "NoProofInCredentialRequest, but the request contains a proof")
        }
        other => Err(format!("{other:?} is not a reason for refusing an evaluation")),
    }
}

/// Is the stated reason for refusing a pre-evaluation true of the case?
pub fn pre_reason_is_true(e: &CE, case: &Case) -> Result<(), String> {
    match e {
        CE::ValidationError(v) => validation_reason(v, &case.request, None),
        CE::JwtError(
            j @ (JE::UnableToTransformIntoDid { .. }
            | JE::UnsupportedKeyTypeInJwtHeader { .. }
            | JE::NoKeyFoundInProof
            | JE::ValidationError(_)),
        ) => jwt_reason(j, case),
        CE::NoProofInCredentialRequest => {
            require(case.proof().is_none(), "NoProofInCredentialRequest, but the request contains a proof")
        }
        other => Err(format!("{other:?} is not a reason for refusing a pre-evaluation")),
    }
}

// ---------------------------------------------------------------------------------------- generation

/// A change to an honest evaluation that makes (or may make) it fail
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Change {
    ProofNonce(Rel),
    ExpectedNonce(Rel),
    ProofNonceIs(u8),
    NoNonceOption,
    NoOptions,
    /// now = expiry + distance (or - distance)
    NowAtExpiry(i128, bool),
    /// created and lifetime replaced, now kept
    Nonce(Inst, u32),
    Audience(Rel),
    AudienceIs(u8),
    IssuerId(Rel),
    Client { client: Option<String>, iss: Option<Rel>, auth: Option<Auth>, pre: bool },
    ProofType(String),
    Typ(String),
    Alg(String),
    SecondKey(u8, Value),
    NotBefore { distance: i128, after: bool, form: TimeForm },
    Expiry { distance: i128, after: bool, form: TimeForm },
    Kid(Rel),
    KidText(String),
    KeyInline(Value),
    KeyCertificate(Value),
    NoKey,
    NoDocument,
    DocumentId(Rel),
    TargetRemoved,
    TargetKey(String, Vec<KeyMaterial>),
    TargetId(Near),
    TargetIsReference,
    TargetDuplicate(String, Vec<KeyMaterial>, bool),
    NoOffer,
    AuthorizationServer,
    DuplicateId(u16, u16),
    NoProof,
    NoSignature,
    EmptySignature,
    Signature(String),
    AllVmsRemoved,
    /// one text of the case takes the place of another
    Coincidence { from: u8, to: u8, part: u8 },
    /// one time of the case takes the place of another
    CoincidingTime { from: u8, to: u8, form: TimeForm },
    /// capital letters in the name of the DID method, everywhere
    MethodCase(u32),
}

fn label_of(c: &Change) -> String {
    let s = format!("{c:?}");
    s.split(['(', ' ', '{']).next().unwrap_or("").to_owned()
}

impl Doc {
    fn target(&mut self, kid: &str) -> Option<usize> {
        let me = self.clone();
        self.vms.iter().position(|(_, vm)| matches!(vm, Vm::Embedded { id, .. } if me.identifies(kid, id)))
    }
}

/// Inline keys as found in a header
pub fn inline_jwk() -> S<Value> {
    prop_oneof![
        4 => gen::any_key().prop_filter_map("jwk", |(_, k)| k.into_iter().find_map(|k| match k {
            KeyMaterial::Jwk(j) => Some(j),
            _ => None,
        })),
        3 => gen::bytes(32).prop_map(|b| json!({"kty": "OKP", "crv": "Ed25519", "x": enc::b64url(&b)})),
        2 => gen::bytes(32).prop_map(|b| json!(json!({"kty": "OKP", "crv": "Ed25519", "x": enc::b64url(&b)}).to_string())),
        1 => gen::text().prop_map(|t| json!(t)),
    ]
    .boxed()
}

pub fn certificate() -> S<Value> {
    prop_oneof![
        3 => proptest::collection::vec(gen::bytes(12).prop_map(|b| enc::b64std(&b)), 1..3).prop_map(|v| json!(v)),
        2 => gen::text().prop_map(|t| json!(t)),
        1 => Just(json!([])),
    ]
    .boxed()
}

pub fn non_did() -> S<String> {
    prop_oneof![
        3 => select(vec!["", "key-1", "#key-1", "#", "did", "did:", "did::", "did:ex", "did:ex:", "did::1", "DID:ex:1", "Did:ex:1#a",
            "/path", "?q", "http://did:ex:1", "did:/ex:1", "did:ex/1:2", "did:ex#:1", "did:ex?a:b", " did:ex:1", "urn:uuid:1",
            "https://example.com/did.json#key", "did;ex;1", "ddid:ex:1", "example:1#k", "di:d:ex:1"]).prop_map(str::to_owned),
        1 => gen::token(),
        1 => gen::text(),
    ]
    .boxed()
}

/// Which kinds of changes to favour
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Focus {
    All,
    Nonce,
    Audience,
    Types,
    Window,
    Key,
    Did,
    Signature,
}

fn nonce_change() -> S<Change> {
    prop_oneof![
        5 => gen::near().prop_map(|n| Change::ProofNonce(Rel::Near(n))),
        4 => gen::near().prop_map(|n| Change::ExpectedNonce(Rel::Near(n))),
        2 => gen::differing().prop_map(Change::ProofNonce),
        2 => gen::differing().prop_map(Change::ExpectedNonce),
        1 => (0u8..5).prop_map(Change::ProofNonceIs),
        1 => Just(Change::NoNonceOption),
        1 => Just(Change::NoOptions),
        8 => (gen::distance(), any::<bool>()).prop_map(|(d, l)| Change::NowAtExpiry(d, l)),
        3 => (instant(), lifetime()).prop_map(|(i, l)| Change::Nonce(i, l)),
    ]
    .boxed()
}

pub fn instant() -> S<Inst> {
    prop_oneof![
        3 => gen::now(),
        1 => select(vec![Inst::MIN, Inst::MAX, Inst(0, 0), Inst(-1, 999_999_999), Inst(Inst::MAX.0, 0), Inst::TEXT_MAX]),
        1 => (0i64..5_000_000_000).prop_map(|d| Inst(Inst::MAX.0 - d, 5)),
        1 => (Inst::MIN.0..Inst::MAX.0, 0u32..1_000_000_000).prop_map(|(s, n)| Inst(s, n)),
    ]
    .boxed()
}

pub fn lifetime() -> S<u32> {
    prop_oneof![
        4 => 0u32..100_000,
        2 => select(vec![0u32, 1, 59, 60, 3600, 86_400, 65_535, 65_536, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX, u32::MAX - 1,
            4_294_968, 4_294_967, 2_147_483]),
        2 => any::<u32>(),
        crate::dict::number_weight(1, 3) => crate::dict::number_upto(u64::from(u32::MAX) - 1).prop_map(|n| n as u32),
    ]
    .boxed()
}

fn audience_change() -> S<Change> {
    let client = || {
        prop_oneof![
            6 => (gen::token(), option::weighted(0.85, gen::rel(3)), option::weighted(0.3, gen::auth()), prop::bool::weighted(0.8))
                .prop_map(|(c, iss, auth, pre)| Change::Client { client: Some(c), iss, auth, pre }),
            1 => (option::weighted(0.7, gen::rel(2)), option::weighted(0.3, gen::auth()), prop::bool::weighted(0.8))
                .prop_map(|(iss, auth, pre)| Change::Client { client: Some(String::new()), iss, auth, pre }),
            6 => (option::weighted(0.7, gen::token()), option::weighted(0.5, gen::auth()), prop::bool::weighted(0.5))
                .prop_map(|(iss, auth, pre)| Change::Client { client: None, iss: iss.map(Rel::Other), auth, pre }),
        ]
        .boxed()
    };
    prop_oneof![
        4 => gen::near().prop_map(|n| Change::Audience(Rel::Near(n))),
        1 => gen::differing().prop_map(Change::Audience),
        2 => (0u8..7).prop_map(Change::AudienceIs),
        4 => gen::near().prop_map(|n| Change::IssuerId(Rel::Near(n))),
        1 => gen::differing().prop_map(Change::IssuerId),
        8 => client(),
    ]
    .boxed()
}

fn types_change() -> S<Change> {
    let typ = prop_oneof![
        3 => gen::near().prop_map(|n| n.apply(PROOF_TYP)),
        3 => select(vec!["JWT", "jwt", "", "openid4vci-proof", "openid4vci-proof-jwt", "application/openid4vci-proof+jwt",
            "openid4vci-proof+jwt;v=1", "openid4vci-proof+JWT ", "openidvci-proof+jwt", "openid4vci_proof+jwt", "at+jwt",
            "openid4vci-proof+cwt", "openid4vci-proof+jwt\0", "openid4vci-proof jwt", "xopenid4vci-proof+jwt"])
            .prop_map(str::to_owned),
        1 => gen::text(),
    ];
    let proof_type = prop_oneof![
        3 => gen::near().prop_map(|n| n.apply("jwt")),
        3 => select(vec!["", "cwt", "ldp_vp", "jwt_vc", "JWTs", "jw", "wt", "j w t", "jwt ", " jwt", "ȷwt", "ｊｗｔ", "jwt\0", "openid4vci-proof+jwt",
            "none", "null", "proof"]).prop_map(str::to_owned),
        1 => gen::text(),
    ];
    let alg = prop_oneof![
        5 => select(ALGORITHMS.iter().filter(|a| !a.1).map(|a| a.0.to_owned()).collect::<Vec<_>>()),
        2 => select(vec!["None", "NONE", "nOnE", "", "hs256", "eddsa", "EDDSA", "EdDSA ", "ES256k", "ECDHES", "ECDH-ES+A128KW", "dir", "RS1",
            "Ed25519", "null", "A128KW", "HS1", "ES256 ", "es256"]).prop_map(str::to_owned),
        1 => gen::near().prop_map(|n| n.apply("EdDSA")),
    ];
    prop_oneof![
        4 => typ.prop_map(Change::Typ),
        4 => proof_type.prop_map(Change::ProofType),
        5 => alg.prop_map(Change::Alg),
        2 => (Just(0u8), inline_jwk()).prop_map(|(w, v)| Change::SecondKey(w, v)),
        2 => (Just(1u8), certificate()).prop_map(|(w, v)| Change::SecondKey(w, v)),
        1 => (Just(2u8), inline_jwk()).prop_map(|(w, v)| Change::SecondKey(w, v)),
        1 => Just(Change::NoProof),
    ]
    .boxed()
}

fn window_change() -> S<Change> {
    (any::<bool>(), gen::distance(), any::<bool>(), gen::time_form())
        .prop_map(|(nbf, distance, after, form)| {
            if nbf {
                Change::NotBefore { distance, after, form }
            } else {
                Change::Expiry { distance, after, form }
            }
        })
        .boxed()
}

fn key_change() -> S<Change> {
    prop_oneof![
        4 => gen::near().prop_map(|n| Change::Kid(Rel::Near(n))),
        1 => gen::differing().prop_map(Change::Kid),
        2 => non_did().prop_map(Change::KidText),
        2 => inline_jwk().prop_map(Change::KeyInline),
        1 => certificate().prop_map(Change::KeyCertificate),
        1 => Just(Change::NoKey),
        2 => Just(Change::NoDocument),
        2 => gen::rel(1).prop_map(Change::DocumentId),
        2 => Just(Change::TargetRemoved),
        5 => gen::unusable_key().prop_map(|(t, k)| Change::TargetKey(t, k)),
        2 => (gen::any_key(), gen::any_key()).prop_map(|((_, k), (t, _))| Change::TargetKey(t, k)),
        4 => gen::near().prop_map(Change::TargetId),
        2 => Just(Change::TargetIsReference),
        1 => (gen::any_key(), any::<bool>()).prop_map(|((t, k), f)| Change::TargetDuplicate(t, k, f)),
        1 => Just(Change::AllVmsRemoved),
    ]
    .boxed()
}

fn did_change() -> S<Change> {
    prop_oneof![
        4 => non_did().prop_map(Change::KidText),
        2 => gen::near().prop_map(|n| Change::Kid(Rel::Near(n))),
        3 => inline_jwk().prop_map(Change::KeyInline),
        3 => certificate().prop_map(Change::KeyCertificate),
        2 => Just(Change::NoKey),
        2 => Just(Change::NoProof),
        2 => types_change(),
    ]
    .boxed()
}

fn other_change() -> S<Change> {
    prop_oneof![
        2 => Just(Change::NoOffer),
        2 => Just(Change::AuthorizationServer),
        3 => any::<(u16, u16)>().prop_map(|(a, b)| Change::DuplicateId(a, b)),
        1 => Just(Change::NoProof),
        1 => Just(Change::NoSignature),
    ]
    .boxed()
}

fn signature_change() -> S<Change> {
    prop_oneof![
        3 => Just(Change::NoSignature),
        1 => Just(Change::EmptySignature),
        2 => gen::token().prop_map(Change::Signature),
        1 => gen::text().prop_map(Change::Signature),
    ]
    .boxed()
}

pub fn change(focus: Focus) -> S<Change> {
    let all = prop_oneof![
        3 => nonce_change(),
        3 => audience_change(),
        3 => types_change(),
        2 => window_change(),
        3 => key_change(),
        1 => did_change(),
        2 => other_change(),
        1 => signature_change(),
    ]
    .boxed();
    let main = match focus {
        Focus::All => return all,
        Focus::Nonce => nonce_change(),
        Focus::Audience => audience_change(),
        Focus::Types => types_change(),
        Focus::Window => window_change(),
        Focus::Key => key_change(),
        Focus::Did => did_change(),
        Focus::Signature => signature_change(),
    };
    prop_oneof![9 => main, 1 => all].boxed()
}

#[derive(Debug, Clone)]
struct Wallet {
    did: String,
    tail: String,
    key: (String, Vec<KeyMaterial>),
    relative: bool,
    decoys: Vec<Decoy>,
    place: u16,
    rel: u8,
}

#[derive(Debug, Clone)]
enum DecoyId {
    Near(Near),
    Other(String),
    OtherDid(String),
    TailOnly(Near),
    Fragment,
}

fn decoy_id() -> S<DecoyId> {
    prop_oneof![
        4 => gen::near().prop_map(DecoyId::Near),
        3 => gen::did_url_tail().prop_map(DecoyId::Other),
        1 => gen::did().prop_map(DecoyId::OtherDid),
        2 => gen::near().prop_map(DecoyId::TailOnly),
        1 => Just(DecoyId::Fragment),
    ]
    .boxed()
}

type Decoy = (u8, DecoyId, (String, Vec<KeyMaterial>), bool);

fn decoy() -> S<Decoy> {
    (0u8..7, decoy_id(), gen::any_key(), prop::bool::weighted(0.1)).boxed()
}

fn wallet() -> S<Wallet> {
    (
        gen::did(),
        gen::did_url_tail(),
        gen::usable_key(),
        any::<bool>(),
        prop_oneof![
            64 => proptest::collection::vec(decoy(), 0..4),
            8 => proptest::collection::vec(decoy(), 8..24),
            1 => many_decoys(17u64..90),
            crate::dict::number_weight(0, 4) => many_decoys(crate::dict::number_upto(130)),
        ],
        any::<u16>(),
        prop_oneof![2 => Just(0u8), 3 => 0u8..7],
    )
        .prop_map(|(did, tail, key, relative, decoys, place, rel)| Wallet { did, tail, key, relative, decoys, place, rel })
        .boxed()
}

/// Many, most of them in the same list
fn many_decoys(n: impl Strategy<Value = u64> + 'static) -> S<Vec<Decoy>> {
    (proptest::collection::vec(decoy(), 1..8), n, prop_oneof![2 => Just(0u8), 1 => 0u8..7])
        .prop_map(|(few, n, rel)| {
            let near = |i: usize, mut d: Decoy| {
                d.0 = rel;
                if i % 3 > 0 {
                    d.1 = DecoyId::Other(format!("#decoy-{i}"));
                }
                d
            };
            few.into_iter().cycle().take(n as usize).enumerate().map(|(i, d)| near(i, d)).collect()
        })
        .boxed()
}

impl Wallet {
    fn kid(&self) -> String {
        format!("{}{}", self.did, self.tail)
    }

    fn doc(&self) -> Doc {
        let kid = self.kid();
        let mut doc = Doc { id: self.did.clone(), controller: self.did.clone(), vms: vec![] };
        for (rel, id, (type_, keys), reference) in &self.decoys {
            let id = match id {
                DecoyId::Near(n) => n.apply(&kid),
                DecoyId::Other(t) => format!("{}{t}", self.did),
                DecoyId::OtherDid(d) => format!("{d}{}", self.tail),
                DecoyId::TailOnly(n) => n.apply(&self.tail),
                DecoyId::Fragment => self.tail.rsplit('#').next().unwrap_or_default().to_owned(),
            };
            // decoys never are the target
            let id = if doc.identifies(&kid, &id) { format!("{id}_") } else { id };
            let vm = if *reference {
                Vm::Reference(if id.is_empty() || id.starts_with("//") { "#r".into() } else { id })
            } else {
                Vm::Embedded { id, type_: type_.clone(), keys: keys.clone() }
            };
            doc.vms.push((*rel, vm));
        }
        let id = if self.relative && !self.tail.is_empty() { self.tail.clone() } else { kid };
        let at = usize::from(self.place) % (doc.vms.len() + 1);
        let (type_, keys) = self.key.clone();
        doc.vms.insert(at, (self.rel, Vm::Embedded { id, type_, keys }));
        doc
    }
}

/// Random case of ASCII letters
fn recase(text: &str, mask: u32) -> String {
    text.chars()
        .enumerate()
        .map(|(i, c)| if mask >> (i % 32) & 1 == 1 { c.to_ascii_uppercase() } else { c })
        .collect()
}

#[derive(Debug, Clone)]
struct ProofParts {
    recase: (u32, u32),
    alg: String,
    sub: Option<String>,
    iat: (Inst, TimeForm),
    nbf: Option<(i128, TimeForm)>,
    exp: Option<(i128, TimeForm)>,
    extra_header: BTreeMap<String, Value>,
    extra_body: BTreeMap<String, Value>,
    order: Vec<u8>,
    style: enc::Style,
    signature: String,
    nonce: String,
}

fn proof_parts() -> S<ProofParts> {
    let mask = || prop_oneof![3 => Just(0u32), 1 => Just(u32::MAX), 2 => any::<u32>()];
    (
        (mask(), mask()),
        prop_oneof![
            6 => Just("EdDSA".to_owned()),
            2 => select(ALGORITHMS.iter().filter(|a| a.1).map(|a| a.0.to_owned()).collect::<Vec<_>>()),
        ],
        option::weighted(0.2, gen::text()),
        (prop_oneof![gen::now(), instant()], gen::time_form()),
        (option::weighted(0.4, (gen::distance(), gen::time_form())), option::weighted(0.4, (gen::distance(), gen::time_form()))),
        extras(),
        extras(),
        proptest::collection::vec(any::<u8>(), 0..14),
        gen::style(),
        prop_oneof![
            5 => gen::bytes(64).prop_map(|b| enc::b64url(&b)),
            1 => gen::bytes(3).prop_map(|b| enc::b64url(&b)),
            1 => proptest::collection::vec(proptest::char::range('a', 'z'), 1..6).prop_map(|v| v.into_iter().collect::<String>()),
        ],
        gen::token(),
    )
        .prop_map(|(recase, alg, sub, iat, (nbf, exp), extra_header, extra_body, order, style, signature, nonce)| ProofParts {
            recase,
            alg,
            sub,
            iat,
            nbf,
            exp,
            extra_header,
            extra_body,
            order,
            style,
            signature,
            nonce,
        })
        .boxed()
}

pub fn extras() -> S<BTreeMap<String, Value>> {
    prop_oneof![
        3 => Just(BTreeMap::new()),
        1 => proptest::collection::btree_map(gen::extra_name(), gen::json_value_null(), 1..4),
    ]
    .boxed()
}

#[derive(Debug, Clone)]
struct Honest {
    meta: Meta,
    cred: Cred,
    wallet: Wallet,
    parts: ProofParts,
    now: Inst,
    lifetime: u32,
    age: u64,
    client: Option<(String, bool)>,
    auth: Option<Auth>,
    pre: Pre,
    offer_issuer: Rel,
    other_iss: Option<String>,
    offered: Option<Vec<CredRef>>,
}

fn honest() -> S<Honest> {
    (
        (gen::small_meta(), gen::small_cred(), wallet(), proof_parts()),
        (gen::now(), lifetime(), any::<u64>()),
        (
            option::weighted(0.4, (gen::token(), any::<bool>())),
            option::weighted(0.25, gen::auth()),
            gen::pre(),
            gen::rel(7),
            option::weighted(0.3, gen::token()),
            option::weighted(0.4, offered()),
        ),
    )
        .prop_map(|((meta, cred, wallet, parts), (now, lifetime, age), (client, auth, pre, offer_issuer, other_iss, offered))| Honest {
            meta,
            cred,
            wallet,
            parts,
            now,
            lifetime,
            age,
            client,
            auth,
            pre,
            offer_issuer,
            other_iss,
            offered,
        })
        .boxed()
}

/// What else an offer may list; of which the first is given the requested format
fn offered() -> S<Vec<CredRef>> {
    let inline = gen::small_cred().prop_map(CredRef::Inline).boxed();
    prop_oneof![2 => inline.clone().prop_map(|c| vec![c]), 1 => gen::list(prop_oneof![2 => inline, 1 => gen::token().prop_map(CredRef::Id)].boxed(), 0..4)]
        .boxed()
}

impl Honest {
    /// The offered credentials: the requested one or others, of which the first has the requested format
    fn offered(&self) -> Vec<CredRef> {
        let Some(mut creds) = self.offered.clone() else { return vec![CredRef::Inline(self.cred.clone())] };
        if let Some(CredRef::Inline(c)) = creds.first_mut() {
            c.kind = self.cred.kind;
        }
        creds
    }

    /// The evaluation of an honest request
    fn case(&self) -> Case {
        let now = self.now;
        // created at most `lifetime` before now
        let span = i128::from(self.lifetime) * 1_000_000_000;
        let age = match self.age % 4 {
            0 => 0,
            1 => span,
            2 => span / 2,
            _ => i128::from(self.age) % (span + 1),
        };
        let created = Inst::from_ns(now.total_ns() - age);
        let p = &self.parts;
        let auth = self.auth.clone();
        let client_id = self.client.as_ref().map(|c| c.0.clone());
        let iss = match (&client_id, &auth) {
            (Some(c), _) => Some(c.clone()),
            (None, Some(_)) => None,
            (None, None) => self.other_iss.clone(),
        };
        let proof = Proof {
            proof_type: recase("jwt", p.recase.0),
            typ: recase(PROOF_TYP, p.recase.1),
            alg: p.alg.clone(),
            key: KeyRef { kid: Some(self.wallet.kid()), jwk: None, x5c: None },
            iss,
            aud: self.meta.issuer.clone(),
            sub: p.sub.clone(),
            iat: Time::new(p.iat.0, p.iat.1),
            nonce: p.nonce.clone(),
            nbf: p.nbf.map(|(d, f)| time_near(now, d, false, f)),
            exp: p.exp.map(|(d, f)| time_near(now, d + 1, true, f)),
            extra_header: p.extra_header.clone(),
            extra_body: p.extra_body.clone(),
            order: p.order.clone(),
            style: p.style,
            signature: Some(p.signature.clone()),
        };
        Case {
            meta: self.meta.clone(),
            request: Request { cred: self.cred.clone(), proof: Some(proof) },
            offer: Some(Offer {
                issuer: self.offer_issuer.apply(&self.meta.issuer),
                creds: self.offered(),
                auth,
                pre: Some(self.pre.clone()),
            }),
            authorization_server: false,
            doc: Some(self.wallet.doc()),
            opts: Some(Opts {
                nonce: Some(NonceOpt { expected: p.nonce.clone(), lifetime: self.lifetime, created }),
                client_id,
            }),
            now,
            changes: vec![],
        }
    }
}

/// A time `distance` away from `now`, in a form that represents it; where the form is coarser than the distance the
/// time moves further in the same direction
fn time_near(now: Inst, distance: i128, after: bool, form: TimeForm) -> Time {
    let ns = now.total_ns() + if after { distance } else { -distance };
    let at = Inst::from_ns(ns);
    let t = Time::new(at, form);
    if t.at == at || !after {
        // rounding is downwards
        return t;
    }
    let up = Time::new(Inst::from_ns(t.at.total_ns() + 250_000_000), form);
    if up.at >= at {
        up
    } else {
        Time::new(Inst((at.0 + 1).min(Inst::MAX.0), 0), TimeForm::Number)
    }
}

impl Change {
    pub fn apply(&self, case: &mut Case) {
        self.make(case);
        // what a relative id means in a document whose own id is no DID is left open
        let kid = case.proof().and_then(|p| p.key.kid.clone()).unwrap_or_default();
        if let Some(d) = &mut case.doc {
            let relative = d.vms.iter().any(|(_, vm)| matches!(vm, Vm::Embedded { id, .. } if *id != kid && d.identifies(&kid, id)));
            if relative && d.id.contains(['/', '?', '#']) {
                d.id.push('_');
            }
        }
    }

    fn make(&self, case: &mut Case) {
        case.changes.push(label_of(self));
        let now = case.now;
        let kid = case.proof().and_then(|p| p.key.kid.clone()).unwrap_or_default();
        let offer = case.offer.clone();
        match self {
            Change::ProofNonce(r) => {
                if let Some(p) = &mut case.request.proof {
                    p.nonce = r.apply(&p.nonce);
                }
            }
            Change::ExpectedNonce(r) => {
                if let Some(n) = case.opts.as_mut().and_then(|o| o.nonce.as_mut()) {
                    n.expected = r.apply(&n.expected);
                }
            }
            Change::ProofNonceIs(which) => {
                let other = match which {
                    0 => case.proof().map(|p| p.aud.clone()),
                    1 => case.proof().and_then(|p| p.iss.clone()),
                    2 => offer.and_then(|o| o.pre).map(|p| p.code),
                    3 => Some(String::new()),
                    _ => Some(kid),
                };
                if let (Some(p), Some(o)) = (&mut case.request.proof, other) {
                    p.nonce = o;
                }
            }
            Change::NoNonceOption => {
                if let Some(o) = &mut case.opts {
                    o.nonce = None;
                }
            }
            Change::NoOptions => case.opts = None,
            Change::NowAtExpiry(d, later) => {
                if let Some(n) = case.nonce() {
                    let at = Inst::from_ns(n.expiry_ns() + if *later { *d } else { -*d });
                    if at >= Inst(0, 0) {
                        case.move_to(at);
                    }
                }
            }
            Change::Nonce(created, lifetime) => {
                if let Some(n) = case.opts.as_mut().and_then(|o| o.nonce.as_mut()) {
                    n.created = *created;
                    n.lifetime = *lifetime;
                }
            }
            Change::Audience(r) => {
                if let Some(p) = &mut case.request.proof {
                    p.aud = r.apply(&p.aud);
                }
            }
            Change::AudienceIs(which) => {
                let other = match which {
                    0 => Some(case.meta.endpoint.clone()),
                    1 => case.proof().and_then(|p| p.iss.clone()),
                    2 => offer.map(|o| o.issuer),
                    3 => Some(String::new()),
                    4 => Some(format!("{}/credential", case.meta.issuer)),
                    5 => Some(case.meta.issuer.split(['/', '?', ':']).next().unwrap_or_default().to_owned()),
                    _ => Some(did_of(&kid).unwrap_or_default().to_owned()),
                };
                if let (Some(p), Some(o)) = (&mut case.request.proof, other) {
                    p.aud = o;
                }
            }
            Change::IssuerId(r) => case.meta.issuer = r.apply(&case.meta.issuer),
            Change::Client { client, iss, auth, pre } => {
                if let Some(o) = &mut case.opts {
                    o.client_id = client.clone();
                }
                if let Some(p) = &mut case.request.proof {
                    p.iss = iss.as_ref().map(|r| r.apply(client.as_deref().unwrap_or("")));
                }
                if let Some(o) = &mut case.offer {
                    o.auth = auth.clone();
                    if !pre {
                        o.pre = None;
                    }
                }
            }
            Change::ProofType(t) => {
                if let Some(p) = &mut case.request.proof {
                    p.proof_type = t.clone();
                }
            }
            Change::Typ(t) => {
                if let Some(p) = &mut case.request.proof {
                    p.typ = t.clone();
                }
            }
            Change::Alg(t) => {
                if let Some(p) = &mut case.request.proof {
                    p.alg = t.clone();
                }
            }
            Change::SecondKey(which, v) => {
                if let Some(p) = &mut case.request.proof {
                    match which {
                        0 => p.key.jwk = Some(v.clone()),
                        1 => p.key.x5c = Some(v.clone()),
                        _ => p.key = KeyRef { kid: None, jwk: Some(v.clone()), x5c: Some(json!(["MA"])) },
                    }
                }
            }
            Change::NotBefore { distance, after, form } => {
                if let Some(p) = &mut case.request.proof {
                    p.nbf = Some(time_near(now, *distance, *after, *form));
                }
            }
            Change::Expiry { distance, after, form } => {
                if let Some(p) = &mut case.request.proof {
                    p.exp = Some(time_near(now, *distance, *after, *form));
                }
            }
            Change::Kid(r) => {
                if let Some(k) = case.request.proof.as_mut().and_then(|p| p.key.kid.as_mut()) {
                    *k = r.apply(k);
                }
            }
            Change::KidText(t) => {
                if let Some(p) = &mut case.request.proof {
                    p.key.kid = Some(t.clone());
                }
                // a document that would resolve it
                if let Some(d) = &mut case.doc {
                    if let Some(i) = d.target(&kid) {
                        if let Vm::Embedded { id, .. } = &mut d.vms[i].1 {
                            *id = t.clone();
                        }
                    }
                }
            }
            Change::KeyInline(v) => {
                if let Some(p) = &mut case.request.proof {
                    p.key = KeyRef { kid: None, jwk: Some(v.clone()), x5c: None };
                }
            }
            Change::KeyCertificate(v) => {
                if let Some(p) = &mut case.request.proof {
                    p.key = KeyRef { kid: None, jwk: None, x5c: Some(v.clone()) };
                }
            }
            Change::NoKey => {
                if let Some(p) = &mut case.request.proof {
                    p.key = KeyRef { kid: None, jwk: None, x5c: None };
                }
            }
            Change::NoDocument => case.doc = None,
            Change::DocumentId(r) => {
                if let Some(d) = &mut case.doc {
                    d.id = r.apply(&d.id);
                }
            }
            Change::TargetRemoved => {
                if let Some(d) = &mut case.doc {
                    if let Some(i) = d.target(&kid) {
                        d.vms.remove(i);
                    }
                }
            }
            Change::TargetKey(t, k) => {
                if let Some(d) = &mut case.doc {
                    if let Some(i) = d.target(&kid) {
                        if let Vm::Embedded { type_, keys, .. } = &mut d.vms[i].1 {
                            *type_ = t.clone();
                            *keys = k.clone();
                        }
                    }
                }
            }
            Change::TargetId(n) => {
                if let Some(d) = &mut case.doc {
                    if let Some(i) = d.target(&kid) {
                        if let Vm::Embedded { id, .. } = &mut d.vms[i].1 {
                            *id = n.apply(id);
                        }
                    }
                }
            }
            Change::TargetIsReference => {
                if let Some(d) = &mut case.doc {
                    if let Some(i) = d.target(&kid) {
                        d.vms[i].1 = Vm::Reference(kid);
                    }
                }
            }
            Change::TargetDuplicate(t, k, first) => {
                if let Some(d) = &mut case.doc {
                    let vm = Vm::Embedded { id: kid, type_: t.clone(), keys: k.clone() };
                    if *first {
                        d.vms.insert(0, (0, vm));
                    } else {
                        d.vms.push((1, vm));
                    }
                }
            }
            Change::NoOffer => case.offer = None,
            Change::AuthorizationServer => case.authorization_server = true,
            Change::DuplicateId(a, b) => duplicate_id(&mut case.meta, *a, *b),
            Change::NoProof => case.request.proof = None,
            Change::NoSignature => {
                if let Some(p) = &mut case.request.proof {
                    p.signature = None;
                }
            }
            Change::EmptySignature => {
                if let Some(p) = &mut case.request.proof {
                    p.signature = Some(String::new());
                }
            }
            Change::Signature(s) => {
                if let Some(p) = &mut case.request.proof {
                    // a dot would start a further segment
                    p.signature = Some(s.replace('.', "-"));
                }
            }
            Change::AllVmsRemoved => {
                if let Some(d) = &mut case.doc {
                    d.vms.clear();
                }
            }
            Change::Coincidence { from, to, part } => {
                let all: Vec<String> = texts(case).into_iter().flatten().collect();
                if let Some(text) = all.get(usize::from(*from) % all.len().max(1)) {
                    let text = match part {
                        0 => text.split(['/', '?', '#', ':']).next().unwrap_or_default().to_owned(),
                        1 => text.rsplit(['/', '?', '#', ':']).next().unwrap_or_default().to_owned(),
                        2 => did_of(text).unwrap_or(text).to_owned(),
                        _ => text.clone(),
                    };
                    put_text(case, *to, text);
                }
            }
            Change::CoincidingTime { from, to, form } => {
                let all: Vec<Inst> = times(case).into_iter().flatten().collect();
                let at = all[usize::from(*from) % all.len()];
                if let Some(p) = &mut case.request.proof {
                    match to % 8 {
                        0 => p.nbf = Some(Time::new(at, *form)),
                        1 => p.exp = Some(Time::new(at, *form)),
                        2 => {
                            if let Some(n) = case.opts.as_mut().and_then(|o| o.nonce.as_mut()) {
                                n.created = at;
                            }
                        }
                        _ => p.iat = Time::new(at, *form),
                    }
                }
            }
            Change::MethodCase(mask) => {
                let Some(method) = did_of(&kid).and_then(|d| d.split(':').nth(1)) else { return };
                let (old, new) = (format!("did:{method}:"), format!("did:{}:", recase(method, *mask)));
                if let Some(k) = case.request.proof.as_mut().and_then(|p| p.key.kid.as_mut()) {
                    *k = k.replacen(&old, &new, 1);
                }
                if let Some(d) = &mut case.doc {
                    for text in [&mut d.id, &mut d.controller] {
                        *text = text.replacen(&old, &new, 1);
                    }
                    for (_, vm) in &mut d.vms {
                        let (Vm::Embedded { id, .. } | Vm::Reference(id)) = vm;
                        *id = id.replacen(&old, &new, 1);
                    }
                }
            }
        }
    }
}

/// The texts of a case that may be taken for one another
fn texts(case: &Case) -> Vec<Option<String>> {
    let p = case.proof();
    let o = case.offer.as_ref();
    let kid = p.and_then(|p| p.key.kid.clone());
    vec![
        Some(case.meta.issuer.clone()),
        Some(case.meta.endpoint.clone()),
        case.meta.authorization_server.clone(),
        o.map(|o| o.issuer.clone()),
        o.and_then(|o| o.pre.as_ref()).map(|p| p.code.clone()),
        o.and_then(|o| o.auth.as_ref()).and_then(|a| a.issuer_state.clone()),
        case.opts.as_ref().and_then(|o| o.client_id.clone()),
        case.opts.as_ref().and_then(|o| o.nonce.as_ref()).map(|n| n.expected.clone()),
        p.map(|p| p.nonce.clone()),
        p.map(|p| p.aud.clone()),
        p.and_then(|p| p.iss.clone()),
        p.and_then(|p| p.sub.clone()),
        p.map(|p| p.typ.clone()),
        p.map(|p| p.alg.clone()),
        kid.as_deref().and_then(did_of).map(str::to_owned),
        kid,
        case.doc.as_ref().map(|d| d.id.clone()),
    ]
}

fn times(case: &Case) -> Vec<Option<Inst>> {
    let p = case.proof();
    vec![
        Some(case.now),
        p.map(|p| p.iat.at),
        p.and_then(|p| p.nbf.as_ref()).map(|t| t.at),
        p.and_then(|p| p.exp.as_ref()).map(|t| t.at),
        case.nonce().map(|n| n.created),
    ]
}

fn put_text(case: &mut Case, to: u8, text: String) {
    match to % 14 {
        // without influence
        0 => case.meta.authorization_server = Some(text),
        1 => case.meta.batch_endpoint = Some(text),
        2 => {
            if let Some(o) = &mut case.offer {
                o.issuer = text;
            }
        }
        3 => {
            if let Some(p) = case.offer.as_mut().and_then(|o| o.pre.as_mut()) {
                p.code = text;
            }
        }
        4 => {
            if let Some(a) = case.offer.as_mut().and_then(|o| o.auth.as_mut()) {
                a.issuer_state = Some(text);
            }
        }
        5 => {
            if let Some(o) = &mut case.offer {
                o.creds.push(CredRef::Id(text));
            }
        }
        6 => {
            if let Some(d) = &mut case.doc {
                d.controller = text;
            }
        }
        // decisive
        7 => {
            if let Some(o) = &mut case.opts {
                o.client_id = Some(text);
            }
        }
        8 => {
            if let Some(n) = case.opts.as_mut().and_then(|o| o.nonce.as_mut()) {
                n.expected = text;
            }
        }
        to => {
            if let Some(p) = &mut case.request.proof {
                match to {
                    9 => p.nonce = text,
                    10 => p.aud = text,
                    11 => p.iss = Some(text),
                    _ => p.sub = Some(text),
                }
            }
        }
    }
}

fn coincidence() -> S<Change> {
    prop_oneof![
        10 => (any::<u8>(), any::<u8>(), 0u8..12).prop_map(|(from, to, part)| Change::Coincidence { from, to, part }),
        // the subject claim says nothing
        3 => (any::<u8>(), 0u8..12).prop_map(|(from, part)| Change::Coincidence { from, to: 12, part }),
        2 => (any::<u8>(), any::<u8>(), gen::time_form()).prop_map(|(from, to, form)| Change::CoincidingTime { from, to, form }),
        1 => any::<u32>().prop_map(Change::MethodCase),
    ]
    .boxed()
}

/// Give two entries of the metadata the same id (adding entries if there are too few)
pub fn duplicate_id(meta: &mut Meta, a: u16, b: u16) {
    while meta.supported.len() < 2 {
        let extra = Supported {
            cred: Cred {
                kind: Kind::JwtVcJson,
                types: vec!["x".into()],
                context: vec![],
                doctype: String::new(),
                claims: None,
                order: None,
            },
            id: Some("one".into()),
            binding: None,
            suites: None,
            display: None,
        };
        meta.supported.push(extra);
    }
    let n = meta.supported.len();
    let (a, b) = (usize::from(a) % n, usize::from(b) % n);
    let b = if a == b { (a + 1) % n } else { b };
    let id = meta.supported[a].id.clone().unwrap_or_default();
    meta.supported[a].id = Some(id.clone());
    meta.supported[b].id = Some(id);
}

/// Evaluations of honest requests
pub fn honest_case() -> S<Case> {
    honest().prop_map(|h| h.case()).boxed()
}

/// Evaluations: honest ones, and ones with one to three changes
pub fn case(focus: Focus) -> S<Case> {
    (
        honest(),
        prop_oneof![
            2 => Just(vec![]),
            6 => proptest::collection::vec(change(focus), 1),
            1 => proptest::collection::vec(change(focus), 2..4),
            1 => (change(focus), change(Focus::All)).prop_map(|(a, b)| vec![a, b]),
        ],
        prop_oneof![
            3 => Just(vec![]),
            1 => proptest::collection::vec(coincidence(), 1..3),
        ],
    )
        .prop_map(|(h, changes, coincidences)| {
            let mut case = h.case();
            for c in changes.iter().chain(&coincidences) {
                c.apply(&mut case);
            }
            case
        })
        .boxed()
}

/// Classification shared by the evaluation checks
pub fn classify(case: &Case, cx: &mut crate::runner::Cx) {
    let failed = failed(case);
    if failed.is_empty() {
        cx.label(if all_hold(case) { "acceptable" } else { "undecided" });
    } else if failed.len() == 1 {
        cx.label_owned(format!("only: not {}", failed[0]));
    } else {
        cx.label("several conditions fail");
    }
    if case.changes.is_empty() {
        cx.label("unchanged");
    }
}
