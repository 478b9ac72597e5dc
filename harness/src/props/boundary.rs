//! C24: what callers keep or exchange as JSON comes back as it was, and results leave the library complete.

use crate::clock;
use crate::eval::{self, Focus};
use crate::gen::{self, S};
use crate::props::decode;
use crate::props::responses::{present, wire};
use crate::props::token::{self, TokenCase};
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use openid4vci::access_token::{AccessToken, AccessTokenRequest, EvaluateAccessTokenRequestOptions};
use openid4vci::credential_issuer::{
    CNonce, CNonceOptions, CredentialIssuer, CredentialOffer, EvaluateCredentialRequestOptions,
};
use openid4vci::jwt::ProofJwt;
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use proptest::option;
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::fmt::Debug;
use std::str::FromStr;

/// Store a value as JSON text and read it again
fn reread<V: Serialize + DeserializeOwned>(what: &str, value: &V) -> Result<(Value, V), String> {
    let stored = serde_json::to_string(value).map_err(|e| format!("{what} cannot be stored: {e}"))?;
    let json = wire(value).map_err(|e| format!("{what}: {e}"))?;
    let again = serde_json::from_str(&stored).map_err(|e| format!("{what} is stored as {stored}, which does not parse: {e}"))?;
    Ok((json, again))
}

fn equal<V: PartialEq + Debug>(what: &str, got: &V, expected: &V) -> Verdict {
    ensure!(got == expected, "{what} is {got:?} instead of {expected:?}");
    Ok(())
}

/// The members of an object, of which those that are null count as absent
fn members(what: &str, got: &Value, expected: Value) -> Verdict {
    let got = present(got).map_err(|e| format!("{what}: {e}"))?;
    let expected = present(&expected)?;
    ensure!(got == expected, "{what} is {} instead of {}", Value::Object(got), Value::Object(expected));
    Ok(())
}

// ------------------------------------------------------------------------------------------ evaluation

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Stored {
    case: eval::Case,
    /// the offset in which the issuer writes the time of the nonce
    offset: i16,
    /// leave out members that have no value instead of writing null
    omit: bool,
    nonce: (String, Option<u32>),
    /// further members, unknown to the library
    #[serde(default)]
    more: Vec<(String, Value)>,
}

/// Names no document of the library knows, with any value
fn more() -> S<Vec<(String, Value)>> {
    let name = prop_oneof![
        2 => gen::text().prop_map(|t| format!("x-{t}")),
        1 => proptest::sample::select(vec!["id", "version", "Client_id", "expected_c_nonce_", "tenant", "$schema", "created_at"])
            .prop_map(str::to_owned),
    ];
    prop_oneof![1 => Just(vec![]), 1 => gen::list((name, gen::json_value_null()).boxed(), 1..3)].boxed()
}

/// The members of an object, with unknown ones before and after them
fn with_more(v: &Value, more: &[(String, Value)]) -> String {
    let text = |k: &str, v: &Value| format!("{}:{v}", json!(k));
    let half = more.len() / 2;
    let mut parts: Vec<String> = more.iter().take(half).map(|(k, v)| text(k, v)).collect();
    parts.extend(v.as_object().into_iter().flatten().map(|(k, v)| text(k, v)));
    parts.extend(more.iter().skip(half).map(|(k, v)| text(k, v)));
    format!("{{{}}}", parts.join(","))
}

/// What is read from JSON with unknown members
fn tolerant<V: Serialize + DeserializeOwned + PartialEq + Debug>(what: &str, value: &V, more: &[(String, Value)]) -> Verdict {
    if more.is_empty() {
        return Ok(());
    }
    let text = with_more(&wire(value)?, more);
    let read: V = serde_json::from_str(&text).map_err(|e| format!("{what} with further members, {text}, does not parse: {e}"))?;
    equal(&format!("{what} read from {text}"), &read, value)
}

fn stored() -> S<Stored> {
    (
        prop_oneof![2 => eval::case(Focus::All), 1 => eval::case(Focus::Nonce), 1 => eval::case(Focus::Audience)],
        prop_oneof![2 => Just(0i16), 1 => -720i16..=840],
        any::<bool>(),
        (gen::text(), option::of(eval::lifetime())),
        more(),
    )
        .prop_map(|(case, offset, omit, nonce, more)| Stored { case, offset, omit, nonce, more })
        .boxed()
}

/// The options as an issuer writes them
fn written(c: &Stored) -> Option<Value> {
    let o = c.case.opts.as_ref()?;
    let nonce = match &o.nonce {
        None => Value::Null,
        Some(n) => {
            if n.created < Inst::TEXT_MIN || n.created > Inst::TEXT_MAX {
                return None;
            }
            let form = Time::new(n.created, TimeForm::Text { offset: c.offset });
            json!({
                "c_nonce_expires_in": n.lifetime,
                "expected_c_nonce": n.expected,
                "c_nonce_created_at": form.json(),
            })
        }
    };
    let mut m = Map::new();
    m.insert("c_nonce".into(), nonce);
    m.insert("client_id".into(), json!(o.client_id));
    if c.omit {
        m.retain(|_, v| !v.is_null());
    }
    Some(Value::Object(m))
}

fn time_of(v: &Value, what: &str) -> Result<Inst, String> {
    let text = v.as_str().ok_or_else(|| format!("{what} is {v}"))?;
    let t = chrono::DateTime::parse_from_rfc3339(text).map_err(|e| format!("{what} is {text:?}: {e}"))?;
    Ok(Inst(t.timestamp(), t.timestamp_subsec_nanos()))
}

fn c24_evaluation(c: &Stored, cx: &mut Cx) -> Verdict {
    let case = &c.case;
    let now = (case.now.0, case.now.1);

    // options
    let options = case.opts.as_ref().map(eval::Opts::native);
    let mut options_again: Option<EvaluateCredentialRequestOptions> = None;
    if let (Some(o), Some(spec)) = (&options, &case.opts) {
        let (json, again) = reread("the options", o)?;
        equal("the options, stored and read again,", &again, o)?;
        tolerant("the options", o, &c.more)?;
        let top = present(&json)?;
        let names: Vec<&String> = top.keys().collect();
        ensure!(top.keys().all(|k| k == "c_nonce" || k == "client_id"), "the options are stored with {names:?}");
        ensure!(
            top.get("client_id").and_then(Value::as_str) == spec.client_id.as_deref(),
            "the client id is stored as {:?}",
            top.get("client_id")
        );
        match (top.get("c_nonce"), &spec.nonce) {
            (None, None) => {}
            (Some(n), Some(s)) => {
                let mut n = present(n)?;
                let created = n.remove("c_nonce_created_at").ok_or("the time of the nonce is not stored")?;
                if s.created >= Inst::TEXT_MIN && s.created <= Inst::TEXT_MAX {
                    let t = time_of(&created, "the time of the nonce")?;
                    ensure!(t == s.created, "the time of the nonce is stored as {created} instead of {:?}", s.created);
                }
                members(
                    "the stored nonce",
                    &Value::Object(n),
                    json!({"c_nonce_expires_in": s.lifetime, "expected_c_nonce": s.expected}),
                )?;
            }
            (n, s) => return Err(format!("the nonce {s:?} is stored as {n:?}")),
        }
        if let Some(n) = &o.c_nonce {
            let (_, again): (_, CNonceOptions) = reread("the nonce options", n)?;
            equal("the nonce options, stored and read again,", &again, n)?;
            tolerant("the nonce options", n, &c.more)?;
        }
        if let Some(text) = written(c) {
            let read: EvaluateCredentialRequestOptions =
                serde_json::from_str(&text.to_string()).map_err(|e| format!("the options {text} do not parse: {e}"))?;
            equal(&format!("what is read from {text}"), &read, o)?;
        }
        options_again = Some(again);
    }
    let c_nonce = CNonce { c_nonce: c.nonce.0.clone(), c_nonce_expires_in: c.nonce.1 };
    let (json, again) = reread("a nonce", &c_nonce)?;
    equal("a nonce, stored and read again,", &again, &c_nonce)?;
    tolerant("a nonce", &c_nonce, &c.more)?;
    members("a stored nonce", &json, json!({"c_nonce": c.nonce.0, "c_nonce_expires_in": c.nonce.1}))?;

    // the same arguments, stored and read again
    let meta = case.meta.native();
    let request = case.request.native();
    let offer = case.offer.as_ref().map(Offer::native);
    let server = AuthorizationServerMetadata {};
    let doc = case.doc.as_ref().map(Doc::native);
    let (_, meta2): (_, CredentialIssuerMetadata) = reread("the metadata", &meta)?;
    let (_, request2): (_, CredentialRequest) = reread("the request", &request)?;
    let offer2: Option<CredentialOffer> = match &offer {
        Some(o) => Some(reread("the offer", o)?.1),
        None => None,
    };
    let (_, server2): (_, AuthorizationServerMetadata) = reread("the authorization server metadata", &server)?;
    let run = |m: &CredentialIssuerMetadata,
               r: &CredentialRequest,
               o: &Option<CredentialOffer>,
               s: &AuthorizationServerMetadata,
               options: Option<EvaluateCredentialRequestOptions>| {
        clock::at(now, || {
            CredentialIssuer::evaluate_credential_request(
                m,
                r,
                o.as_ref(),
                case.authorization_server.then_some(s),
                doc.as_ref(),
                options,
            )
        })
    };
    let first = run(&meta, &request, &offer, &server, options);
    let second = run(&meta2, &request2, &offer2, &server2, options_again);
    let pre = clock::at(now, || CredentialIssuer::pre_evaluate_credential_request(&request));
    let pre2 = clock::at(now, || CredentialIssuer::pre_evaluate_credential_request(&request2));
    equal("the pre-evaluation of a stored request", &pre2, &pre)?;
    cx.label(if first.is_ok() { "evaluated successfully" } else { "evaluation refused" });
    equal("the evaluation of stored arguments", &second, &first)?;
    cx.nontrivial();

    // results
    if let Ok(p) = &pre {
        let sent = wire(p)?;
        members("the pre-evaluation", &sent, json!({ "did": p.did }))?;
        ensure!(p.did.is_some() || sent == json!({}), "a pre-evaluation without a DID is written as {sent}");
    }
    match &first {
        Ok(r) => {
            let mut sent = present(&wire(r)?)?;
            let pop = r.proof_of_possession.as_ref().ok_or("evaluated successfully without a proof of possession")?;
            let p = case.proof().ok_or("evaluated successfully without a proof")?;
            members(
                "the proof of possession",
                &sent.remove("proof_of_possession").unwrap_or_default(),
                json!({"algorithm": p.alg, "public_key": pop.public_key, "message": pop.message, "signature": pop.signature}),
            )?;
            members(
                "the result",
                &Value::Object(sent),
                json!({"subject_id": r.subject_id, "credential": wire(&r.credential)?}),
            )?;
        }
        Err(e) => {
            let (shown, sent) = (e.information().to_string(), wire(&e.information())?);
            let read: Value = serde_json::from_str(&shown).map_err(|e| format!("a report is shown as {shown}: {e}"))?;
            ensure!(read == sent, "a report is shown as {shown} and written as {sent}");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ token requests

fn c24_token((c, more): &(TokenCase, Vec<(String, Value)>), cx: &mut Cx) -> Verdict {
    let request = c.req.native();
    let (json, again): (_, AccessTokenRequest) = reread("the token request", &request)?;
    equal("a token request, stored and read again,", &again, &request)?;
    tolerant("the token request", &request, more)?;
    let text = format!(r#"{{"grant_type":{}}}"#, with_more(&json["grant_type"], more));
    let read: AccessTokenRequest = serde_json::from_str(&text)
        .map_err(|e| format!("the token request with further members in the grant, {text}, does not parse: {e}"))?;
    equal(&format!("the token request read from {text}"), &read, &request)?;
    let inner = match &c.req {
        TokenReq::AuthCode => json!({"grant_type": "authorization_code"}),
        TokenReq::Pre { code, pin } => json!({
            "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code",
            "pre_authorized_code": code,
            "user_pin": pin,
        }),
    };
    members("the grant of a stored token request", json.get("grant_type").unwrap_or(&Value::Null), inner)?;

    let options = token_options(c.expected);
    let mut options_again: Option<EvaluateAccessTokenRequestOptions> = None;
    if let (Some(o), Some(expected)) = (&options, c.expected) {
        let (json, again) = reread("the PIN options", o)?;
        equal("the PIN options, stored and read again,", &again, o)?;
        tolerant("the PIN options", o, more)?;
        members("the stored PIN options", &json, json!({ "expected_user_pin": expected }))?;
        if expected.is_none() {
            let empty: Result<EvaluateAccessTokenRequestOptions, _> = serde_json::from_str("{}");
            ensure!(empty.as_ref().ok() == Some(o), "options without a PIN are read as {empty:?}");
        }
        options_again = Some(again);
    }
    let offer = || c.offer.as_ref().map(Offer::native);
    let offer_again: Option<CredentialOffer> = match offer() {
        Some(o) => Some(reread("the offer", &o)?.1),
        None => None,
    };
    equal("the stored offer", &offer_again, &offer())?;
    let first = AccessToken::evaluate_access_token_request(&request, offer(), options);
    let second = AccessToken::evaluate_access_token_request(&again, offer_again, options_again);
    equal("the evaluation of a stored token request", &second, &first)?;
    cx.label(if first.is_ok() { "token granted" } else { "token refused" });
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------------------------------ proofs

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Decoded {
    proof: Proof,
    doc: Option<Doc>,
    now: Inst,
    values: [Option<String>; 2],
}

fn decoded() -> S<Decoded> {
    let from_case = prop_oneof![eval::case(Focus::All), eval::case(Focus::Key)]
        .prop_filter_map("a proof", |c| {
            let proof = c.request.proof.clone()?;
            let values = [c.nonce().map(|n| n.expected.clone()), c.client_id().cloned()];
            Some(Decoded { proof, doc: c.doc, now: c.now, values })
        })
        .boxed();
    let any = (decode::proofs(), gen::now(), option::of(gen::text()), option::of(gen::text()))
        .prop_map(|(proof, now, a, b)| Decoded { proof, doc: None, now, values: [a, b] })
        .boxed();
    prop_oneof![from_case, any].boxed()
}

fn c24_proof(c: &Decoded, cx: &mut Cx) -> Verdict {
    let text = c.proof.compact();
    // whether it decodes is left to C20
    let Ok(jwt) = ProofJwt::from_str(&text) else { return Ok(()) };
    cx.nontrivial();
    let (json, again): (_, ProofJwt) = reread("a decoded proof", &jwt)?;
    ensure!(wire(&again)? == json, "a decoded proof, stored as {json} and read again, is {again:?}");
    ensure!(
        format!("{again:?}") == format!("{jwt:?}"),
        "a decoded proof, stored and read again, is {again:?} instead of {jwt:?}"
    );

    let outer = present(&json)?;
    ensure!(
        outer.keys().all(|k| matches!(k.as_str(), "header" | "body" | "signature")),
        "a decoded proof is stored as {json}"
    );
    ensure!(
        outer.get("signature").and_then(Value::as_str) == jwt.signature.as_deref(),
        "the signature {:?} is stored as {:?}",
        jwt.signature,
        outer.get("signature")
    );
    let key = |v: &Option<Value>| match v {
        Some(Value::String(s)) => json!(s),
        // the text of other JSON is not compared
        Some(_) => json!(true),
        None => Value::Null,
    };
    let mut header = present(&json["header"])?;
    for (name, given) in [("jwk", &c.proof.key.jwk), ("x5c", &c.proof.key.x5c)] {
        if given.as_ref().is_some_and(|v| !v.is_string()) {
            let stored = header.insert(name.into(), json!(true));
            let same = stored.as_ref().and_then(Value::as_str).and_then(|t| serde_json::from_str::<Value>(t).ok());
            ensure!(same == *given, "{name} is stored as {stored:?} instead of the text of {given:?}");
        }
    }
    members(
        "the stored header",
        &Value::Object(header),
        json!({"typ": c.proof.typ, "alg": c.proof.alg, "kid": c.proof.key.kid, "jwk": key(&c.proof.key.jwk), "x5c": key(&c.proof.key.x5c)}),
    )?;
    let mut body = present(&json["body"])?;
    for (name, given) in [("iat", Some(&c.proof.iat)), ("nbf", c.proof.nbf.as_ref()), ("exp", c.proof.exp.as_ref())] {
        let stored = body.remove(name);
        match (stored, given) {
            (None, None) => {}
            (Some(v), Some(t)) if t.at >= Inst::TEXT_MIN && t.at <= Inst::TEXT_MAX => {
                let at = time_of(&v, name)?;
                ensure!(at == t.at, "{name} is stored as {v} instead of {t:?}");
            }
            (Some(_), Some(_)) => {}
            (v, t) => return Err(format!("{name} is stored as {v:?} instead of {t:?}")),
        }
    }
    members(
        "the stored claims",
        &Value::Object(body),
        json!({"iss": c.proof.iss, "aud": c.proof.aud, "sub": c.proof.sub, "nonce": c.proof.nonce}),
    )?;

    // the stored proof is treated as the original one
    let doc = c.doc.as_ref().map(Doc::native);
    let now = (c.now.0, c.now.1);
    let outcomes = |j: &ProofJwt| {
        use openid4vci::validate::Validatable;
        format!(
            "{:?}",
            (
                j.validate(),
                clock::at(now, || j.verify()),
                j.extract_did(),
                j.extract_key_and_alg(doc.as_ref()),
                j.check_nonce(c.values[0].clone()),
                j.check_iss(c.values[1].clone()),
                c.values[0].as_ref().map(|v| j.check_aud(v)),
                j.extract_signature(),
                j.to_signable_message(),
            )
        )
    };
    equal("what the operations say of a stored proof", &outcomes(&again), &outcomes(&jwt))
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C24",
        rule: "evaluations (honest and changed), token requests and decoded proofs with any texts, PINs, times, lifetimes and keys; options written with every time offset, with members that are null or left out, or with members the library does not know before and after them. Every value is stored as JSON text and read again, both are used, and the JSON is compared with the documented members. Non-trivial: the proof decodes (suite proof), every case (the others)",
        suites: vec![
            Suite { name: "evaluation", cases: 40_000, strategy: stored, check: c24_evaluation }.boxed(),
            Suite { name: "token", cases: 40_000, strategy: || (token::any_case(), more()).boxed(), check: c24_token }.boxed(),
            Suite { name: "proof", cases: 40_000, strategy: decoded, check: c24_proof }.boxed(),
        ],
        assumptions: &[
            "a member that is null counts as absent",
            "times outside the years 0 to 9999 are only read back, their text is not compared",
            "the DID document is a type of another crate and is not stored",
        ],
        isolated: false,
    }]
}
