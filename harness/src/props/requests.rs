//! C07 to C14: credential requests and their proofs.

use crate::clock;
use crate::eval::{self, Case, Focus, T};
use crate::gen::{self, S};
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use openid4vci::credential_issuer::error::CredentialIssuerError as CE;
use openid4vci::credential_issuer::{CNonce, CredentialIssuer, CredentialOrAcceptanceToken};
use openid4vci::jwt::error::JwtError as JE;
use openid4vci::jwt::ProofJwt;
use openid4vci::validate::Validatable;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::str::FromStr;

fn alg_name(alg: &impl serde::Serialize) -> Value {
    serde_json::to_value(alg).unwrap_or(Value::Null)
}

/// The decoded proof, for proofs that must decode
fn decoded(p: &Proof) -> Result<Option<ProofJwt>, String> {
    match ProofJwt::from_str(&p.compact()) {
        Ok(jwt) => Ok(Some(jwt)),
        Err(e) if eval::decodes(p) => Err(format!("a well-formed proof is not decoded: {e:?}")),
        Err(_) => Ok(None),
    }
}

// ------------------------------------------------------------------------------------------------ C07

fn check_did(got: Result<Option<String>, String>, p: &Proof) -> Verdict {
    match (&p.key.kid, &p.key.jwk, &p.key.x5c) {
        (Some(kid), None, None) => match (eval::kid_is_did(kid), got) {
            (T::Yes, Ok(Some(did))) => {
                ensure!(Some(did.as_str()) == did_of(kid), "the DID of {kid:?} is given as {did:?}");
            }
            (T::Yes, other) => return Err(format!("the key id {kid:?} is a DID URL, but the outcome is {other:?}")),
            (T::No, Ok(Some(did))) => return Err(format!("the key id {kid:?} is not a DID URL, but gives {did:?}")),
            (T::Open, Ok(Some(did))) => {
                ensure!(kid.starts_with(&did), "the DID of {kid:?} is given as {did:?}");
            }
            _ => {}
        },
        (None, None, None) => {
            ensure!(!matches!(got, Ok(Some(_))), "the proof names no key, but the outcome is {got:?}");
        }
        _ => ensure!(got.is_err(), "the key is not named by id, but the outcome is {got:?}"),
    }
    Ok(())
}

fn check_unsupported(e: &JE, p: &Proof) -> Verdict {
    let expected = match (&p.key.kid, &p.key.jwk, &p.key.x5c) {
        (None, Some(jwk), None) => Some(("jwk", jwk)),
        (None, None, Some(x5c)) => Some(("x5c", x5c)),
        _ => None,
    };
    if let Some((name, value)) = expected {
        match e {
            JE::UnsupportedKeyTypeInJwtHeader { key_name, key_type } => {
                ensure!(key_name == name, "the {name} key is refused as {key_name:?}");
                ensure!(eval::states(key_type, value), "the value of the {name} key {value} is reported as {key_type:?}");
            }
            e => return Err(format!("the {name} key is refused with {e:?} instead of as unsupported")),
        }
    }
    Ok(())
}

fn c07(c: &Case, cx: &mut Cx) -> Verdict {
    eval::classify(c, cx);
    let pre = c.pre_evaluate();
    let Some(p) = c.proof() else {
        cx.label("no proof");
        cx.nontrivial();
        if let Ok(r) = &pre {
            ensure!(r.did.is_none(), "a request without a proof gives the DID {:?}", r.did);
        }
        return Ok(());
    };
    cx.label(match (&p.key.kid, &p.key.jwk, &p.key.x5c) {
        (None, None, None) => "names no key",
        (Some(k), None, None) => match eval::kid_is_did(k) {
            T::Yes => "key id is a DID URL",
            T::No => "key id is not a DID URL",
            T::Open => "key id is nearly a DID URL",
        },
        (None, Some(_), None) => "key inline",
        (None, None, Some(_)) => "certificate",
        _ => "several keys",
    });
    if !eval::well_typed(p) {
        cx.label("invalid proof");
        ensure!(pre.is_err(), "an invalid proof is pre-evaluated: {pre:?}");
    } else {
        // whether time and a missing signature matter here is not decided
        let decided = eval::window(p, c.now) == T::Yes && p.signature.as_deref().is_some_and(|s| !s.is_empty());
        if decided {
            cx.nontrivial();
            if let Err(e) = &pre {
                match e {
                    CE::JwtError(j) => check_unsupported(j, p)?,
                    e if p.key.jwk.is_some() || p.key.x5c.is_some() => {
                        return Err(format!("an inline key or certificate is refused with {e:?}"))
                    }
                    _ => {}
                }
            }
        }
        if decided || pre.is_ok() {
            check_did(pre.as_ref().map(|r| r.did.clone()).map_err(|e| format!("{e:?}")), p)?;
        }
    }
    if let Some(jwt) = decoded(p)? {
        let did = jwt.extract_did();
        if let Err(e) = &did {
            check_unsupported(e, p).map_err(|m| format!("extract_did: {m}"))?;
        }
        check_did(did.map_err(|e| format!("{e:?}")), p).map_err(|m| format!("extract_did: {m}"))?;
    }
    if let Ok(r) = c.evaluate() {
        cx.label("evaluated successfully");
        let pre_did = pre.as_ref().ok().and_then(|r| r.did.clone());
        ensure!(
            r.subject_id.is_some() && r.subject_id == pre_did,
            "evaluation reports the subject {:?}, pre-evaluation gave {pre:?}",
            r.subject_id
        );
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C08

fn c08(c: &Case, cx: &mut Cx) -> Verdict {
    eval::classify(c, cx);
    let failed = eval::failed(c);
    let of_nonce = ["the expected nonce has not expired", "an expected nonce is supplied", "the nonce is the expected one"];
    if failed.iter().all(|f| of_nonce.contains(f) || *f == "the request contains a proof") {
        cx.nontrivial();
    }
    let r = c.evaluate();
    let expired = eval::nonce_expired(c);
    match &r {
        Ok(_) => {
            ensure!(c.nonce().is_some(), "evaluated successfully without an expected nonce");
            ensure!(eval::nonce_matches(c), "evaluated successfully with another nonce than the expected one");
            ensure!(!expired, "evaluated successfully with an expired nonce");
        }
        Err(e) => {
            let says_expired = matches!(e, CE::CNonceIsExpired { .. } | CE::ExpiredCNonce { .. });
            ensure!(!says_expired || expired, "an unexpired nonce is reported as expired: {e:?}");
            if expired
                && failed.iter().all(|f| {
                    *f == "the expected nonce has not expired"
                        || *f == "the request contains a proof"
                })
            {
                ensure!(says_expired, "the expired nonce is not refused, but {e:?}");
            }
        }
    }
    if let Some(p) = c.proof() {
        if let Some(jwt) = decoded(p)? {
            let expected = c.nonce().map(|n| n.expected.clone());
            let got = jwt.check_nonce(expected.clone());
            let ok = expected.as_ref() == Some(&p.nonce);
            ensure!(got.is_ok() == ok, "check_nonce({expected:?}) on a proof with {:?} gives {got:?}", p.nonce);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C09

fn c09(c: &Case, cx: &mut Cx) -> Verdict {
    eval::classify(c, cx);
    let failed = eval::failed(c);
    let binding = ["the issuer claim is acceptable", "the audience is the issuer identifier"];
    if failed.iter().all(|f| binding.contains(f)) {
        cx.nontrivial();
    }
    if c.evaluate().is_ok() {
        let p = c.proof().ok_or("evaluated successfully without a proof")?;
        ensure!(
            p.aud == c.meta.issuer,
            "evaluated successfully with the audience {:?} for the issuer {:?}",
            p.aud,
            c.meta.issuer
        );
        ensure!(
            eval::client_ok(c),
            "evaluated successfully with the issuer claim {:?} for the client {:?}, authorization-code grant: {}, pre-authorized grant: {}",
            p.iss,
            c.client_id(),
            c.offer.as_ref().is_some_and(|o| o.auth.is_some()),
            c.offer.as_ref().is_some_and(|o| o.pre.is_some())
        );
    }
    if let Some(p) = c.proof() {
        if let Some(jwt) = decoded(p)? {
            let got = jwt.check_aud(&c.meta.issuer);
            ensure!(
                got.is_ok() == (p.aud == c.meta.issuer),
                "check_aud({:?}) on a proof for {:?} gives {got:?}",
                c.meta.issuer,
                p.aud
            );
            let client = c.client_id().cloned();
            let got = jwt.check_iss(client.clone());
            ensure!(
                got.is_ok() == (p.iss == client),
                "check_iss({client:?}) on a proof of {:?} gives {got:?}",
                p.iss
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C10

fn c10(c: &Case, cx: &mut Cx) -> Verdict {
    eval::classify(c, cx);
    let Some(p) = c.proof() else {
        cx.nontrivial();
        let r = c.evaluate();
        ensure!(r.is_err(), "a request without a proof is evaluated");
        return Ok(());
    };
    let wrong = !eval::well_typed(p);
    cx.label(if wrong { "must be refused" } else { "well typed" });
    if !wrong {
        return Ok(());
    }
    cx.nontrivial();
    let request = c.request.native();
    let what = format!(
        "proof type {:?}, header type {:?}, algorithm {:?}, {} key(s)",
        p.proof_type,
        p.typ,
        p.alg,
        p.key.count()
    );
    let r = c.pre_evaluate();
    ensure!(r.is_err(), "pre-evaluated successfully: {what}");
    let r = c.evaluate();
    ensure!(r.is_err(), "evaluated successfully: {what}");
    for issue in 0..3 {
        for with_nonce in [false, true] {
            let issued = match issue {
                0 => None,
                1 => Some(CredentialOrAcceptanceToken::AcceptanceToken("token".to_owned())),
                _ => Some(CredentialOrAcceptanceToken::Credential(c.request.cred.native())),
            };
            let nonce = with_nonce.then(|| CNonce {
                c_nonce: p.nonce.clone(),
                c_nonce_expires_in: (issue != 1).then_some(86_400),
            });
            let r = clock::at((c.now.0, c.now.1), || {
                CredentialIssuer::create_credential_success_response(&request, issued, nonce).map(|_| ())
            });
            ensure!(r.is_err(), "answered successfully (issuing {issue}, nonce {with_nonce}): {what}");
        }
    }
    let r = request.validate();
    ensure!(r.is_err(), "validated successfully: {what}");
    if let Some(proof) = &request.proof {
        let r = proof.validate();
        ensure!(r.is_err(), "the proof is validated successfully: {what}");
    }
    if eval::proof_type_ok(p) {
        if let Some(jwt) = decoded(p)? {
            let r = jwt.validate();
            ensure!(r.is_err(), "the decoded proof is validated successfully: {what}");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C11

fn c11(c: &Case, cx: &mut Cx) -> Verdict {
    eval::classify(c, cx);
    let Some(p) = c.proof() else { return Ok(()) };
    let window = eval::window(p, c.now);
    cx.label(match window {
        T::Yes => "inside the window",
        T::No => "outside the window",
        T::Open => "expires now",
    });
    if p.nbf.is_some() || p.exp.is_some() {
        cx.nontrivial();
    }
    let times = format!("not before {:?}, expiry {:?}, now {:?}", p.nbf.map(|t| t.at), p.exp.map(|t| t.at), c.now);
    let r = c.evaluate();
    match window {
        T::No => ensure!(r.is_err(), "evaluated successfully: {times}"),
        T::Yes => ensure!(
            !matches!(r, Err(CE::JwtError(JE::NotYetValid { .. } | JE::NotValidAnymore { .. }))),
            "refused because of time: {times}: {r:?}"
        ),
        T::Open => {}
    }
    let Some(jwt) = decoded(p)? else { return Ok(()) };
    let r = clock::at((c.now.0, c.now.1), || jwt.verify());
    match (window, &r) {
        (T::No, Ok(())) => return Err(format!("verified successfully: {times}")),
        (T::Yes, Err(e)) => return Err(format!("verification fails with {e:?}: {times}")),
        (_, Err(e)) => eval::jwt_reason(e, c).map_err(|m| format!("verification: {m}: {times}"))?,
        _ => {}
    }
    ensure!(
        !matches!(&r, Err(e) if !matches!(e, JE::NotYetValid { .. } | JE::NotValidAnymore { .. })),
        "verification fails with {r:?}: {times}"
    );
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C12

fn c12(c: &Case, cx: &mut Cx) -> Verdict {
    eval::classify(c, cx);
    let truth = eval::key_truth(c);
    cx.label(match truth.ok {
        T::Yes => "the key id identifies a usable key",
        T::No => "the key id identifies no usable key",
        T::Open => "the key is contradictory",
    });
    let failed = eval::failed(c);
    let of_key =
        ["the key id identifies a usable EdDSA key in the document", "the key id is a DID URL", "the proof names its key by id"];
    if failed.iter().all(|f| of_key.contains(f)) {
        cx.nontrivial();
    }
    if let Ok(r) = c.evaluate() {
        cx.label("evaluated successfully");
        let p = c.proof().ok_or("evaluated successfully without a proof")?;
        ensure!(truth.ok != T::No, "evaluated successfully without a usable key: {:?}", r.proof_of_possession);
        let pop = r.proof_of_possession.ok_or("evaluated successfully without a proof of possession")?;
        ensure!(
            truth.keys.contains(&pop.public_key),
            "the public key is {:?}, but the key id identifies {:?}",
            pop.public_key,
            truth.keys
        );
        ensure!(alg_name(&pop.algorithm) == json!(p.alg), "the algorithm is {:?} instead of {:?}", pop.algorithm, p.alg);
        let kid = p.key.kid.as_deref().unwrap_or_default();
        match (eval::kid_is_did(kid), &r.subject_id) {
            (T::Open, Some(did)) => ensure!(kid.starts_with(did.as_str()), "the subject of {kid:?} is {did:?}"),
            (_, did) => ensure!(did.as_deref() == did_of(kid), "the subject of {kid:?} is {did:?}"),
        }
        ensure!(
            r.credential == c.request.cred.native(),
            "the credential is {:?} instead of the requested {:?}",
            r.credential,
            c.request.cred
        );
    }
    direct_key(c, &truth)
}

/// The key extraction alone
fn direct_key(c: &Case, truth: &eval::KeyTruth) -> Verdict {
    let Some(p) = c.proof() else { return Ok(()) };
    let Some(jwt) = decoded(p)? else { return Ok(()) };
    if p.key.kid.is_none() {
        return Ok(());
    }
    let doc = c.doc.as_ref().map(Doc::native);
    match jwt.extract_key_and_alg(doc.as_ref()) {
        Ok((key, alg)) => {
            ensure!(truth.ok != T::No, "a key is extracted, but there is no usable one: {key:?}");
            ensure!(truth.keys.contains(&key), "the extracted key is {key:?} instead of {:?}", truth.keys);
            ensure!(alg_name(&alg) == json!(p.alg), "the extracted algorithm is {alg:?} instead of {:?}", p.alg);
        }
        Err(e) => {
            let did = p.key.kid.as_deref().map_or(T::No, eval::kid_is_did);
            ensure!(truth.ok != T::Yes || did != T::Yes, "the key cannot be extracted: {e:?}");
            ensure!(!matches!(e, JE::NoKeyFoundInProof), "{e:?}, but the proof names a key");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C13

/// What the library hands out: the header and the body written again as JSON (see known_findings.txt)
fn legacy_text(p: &Proof) -> String {
    let q = |t: &str| serde_json::to_string(t).unwrap_or_default();
    let time = |t: &Time| serde_json::to_string(&t.at.chrono()).unwrap_or_default();
    let text = |v: &Value| match v {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    };
    let mut header = format!("{{\"typ\":{},\"alg\":{}", q(&p.typ), q(&p.alg));
    if let Some(v) = &p.key.kid {
        header += &format!(",\"kid\":{}", q(v));
    }
    if let Some(v) = &p.key.jwk {
        header += &format!(",\"jwk\":{}", q(&text(v)));
    }
    if let Some(v) = &p.key.x5c {
        header += &format!(",\"x5c\":{}", q(&text(v)));
    }
    header += "}";
    let mut body = String::from("{");
    if let Some(v) = &p.iss {
        body += &format!("\"iss\":{},", q(v));
    }
    body += &format!(
        "\"aud\":{},\"sub\":{},\"iat\":{},\"nonce\":{}",
        q(&p.aud),
        p.sub.as_ref().map_or("null".to_owned(), |s| q(s)),
        time(&p.iat),
        q(&p.nonce)
    );
    if let Some(t) = &p.nbf {
        body += &format!(",\"nbf\":{}", time(t));
    }
    if let Some(t) = &p.exp {
        body += &format!(",\"exp\":{}", time(t));
    }
    body += "}";
    match &p.signature {
        Some(s) => format!("{header}.{body}.{s}"),
        None => format!("{header}.{body}"),
    }
}

fn legacy_message(p: &Proof) -> String {
    let text = legacy_text(p);
    let parts: Vec<&str> = text.split('.').collect();
    if parts.len() == 3 {
        format!("{}.{}", parts[0], parts[1])
    } else {
        text
    }
}

fn legacy_signature(p: &Proof) -> Option<String> {
    legacy_text(p).splitn(3, '.').nth(2).map(str::to_owned)
}

fn show(bytes: &[u8]) -> String {
    String::from_utf8_lossy(bytes).into_owned()
}

fn check_message(got: &[u8], p: &Proof, cx: &mut Cx) -> Verdict {
    if got == p.signing_input().as_bytes() {
        cx.label("message: the signing input");
        return Ok(());
    }
    let what = format!("the message is {:?} instead of the signing input {:?}", show(got), p.signing_input());
    if got == legacy_message(p).as_bytes() {
        cx.label("message: written again (known)");
        cx.known("K1", what)
    } else {
        Err(what)
    }
}

fn check_signature(got: &[u8], p: &Proof, cx: &mut Cx) -> Verdict {
    let correct = p.signature.as_deref().filter(|s| !s.is_empty());
    if let Some(s) = correct {
        if got == s.as_bytes() || crate::enc::unb64url(s).is_some_and(|b| b == got) {
            cx.label("signature: the third segment");
            return Ok(());
        }
    }
    // an empty third segment: nothing is decided
    if p.signature.as_deref() == Some("") && got.is_empty() {
        return Ok(());
    }
    let what = match correct {
        Some(s) => format!("the signature is {:?} instead of {s:?}", show(got)),
        None => format!("the proof is unsigned, but gives the signature {:?}", show(got)),
    };
    if correct.is_none() && legacy_signature(p).is_some_and(|s| s.as_bytes() == got) {
        cx.label("signature: cut out of the claims (known)");
        cx.known("K1b", what)
    } else {
        Err(what)
    }
}

fn c13(c: &Case, cx: &mut Cx) -> Verdict {
    eval::classify(c, cx);
    let Some(p) = c.proof() else { return Ok(()) };
    cx.label_if(p.signature.is_none(), "unsigned");
    if let Ok(r) = c.evaluate() {
        cx.nontrivial();
        let pop = r.proof_of_possession.ok_or("evaluated successfully without a proof of possession")?;
        check_message(&pop.message, p, cx)?;
        check_signature(&pop.signature, p, cx)?;
    } else if p.signature.is_none() {
        cx.nontrivial();
    }
    let Some(jwt) = decoded(p)? else { return Ok(()) };
    let message = jwt.to_signable_message().map_err(|e| format!("to_signable_message: {e:?}"))?;
    check_message(&message, p, cx).map_err(|m| format!("to_signable_message: {m}"))?;
    match jwt.extract_signature() {
        Ok(s) => check_signature(&s, p, cx).map_err(|m| format!("extract_signature: {m}"))?,
        Err(e) => ensure!(
            p.signature.as_deref().map_or(true, str::is_empty),
            "extract_signature of a signed proof: {e:?}"
        ),
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C14

fn c14(c: &Case, cx: &mut Cx) -> Verdict {
    eval::classify(c, cx);
    cx.nontrivial();
    match c.evaluate() {
        Ok(_) => cx.label("accepted"),
        Err(e) => {
            ensure!(!eval::all_hold(c), "a legitimate request is refused: {e:?}");
            cx.label_owned(match &e {
                CE::JwtError(j) => format!("refused: {}", j.as_ref()),
                e => format!("refused: {}", e.as_ref()),
            });
            eval::reason_is_true(&e, c)?;
        }
    }
    if let Err(e) = c.pre_evaluate() {
        eval::pre_reason_is_true(&e, c).map_err(|m| format!("pre-evaluation: {m}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ direct checks

/// A proof and a value to compare one of its claims with
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Compare {
    pub claim: Option<String>,
    pub value: Option<String>,
    pub other: String,
}

fn compares() -> S<Compare> {
    (option::weighted(0.9, prop_oneof![2 => gen::token(), 1 => gen::text()]), gen::rel(4), prop::bool::weighted(0.9), gen::token())
        .prop_map(|(claim, rel, some, other)| Compare {
            value: some.then(|| rel.apply(claim.as_deref().unwrap_or(""))),
            claim,
            other,
        })
        .boxed()
}

fn proof_with(iss: Option<&str>, aud: &str, nonce: &str) -> Result<ProofJwt, String> {
    let header = json!({"typ": eval::PROOF_TYP, "alg": "EdDSA", "kid": "did:ex:1#a"});
    let mut body = json!({"aud": aud, "nonce": nonce, "iat": 0});
    if let Some(iss) = iss {
        body["iss"] = json!(iss);
    }
    let enc = |v: &Value| crate::enc::b64url(v.to_string().as_bytes());
    ProofJwt::from_str(&format!("{}.{}.c2ln", enc(&header), enc(&body))).map_err(|e| format!("{e:?}"))
}

/// The three comparisons, on their own
fn compare_nonce(c: &Compare, cx: &mut Cx) -> Verdict {
    let Some(nonce) = &c.claim else { return Ok(()) };
    cx.nontrivial();
    let jwt = proof_with(None, &c.other, nonce)?;
    let got = jwt.check_nonce(c.value.clone());
    let ok = c.value.as_ref() == Some(nonce);
    cx.label(if ok { "equal" } else { "different" });
    ensure!(got.is_ok() == ok, "check_nonce({:?}) on a proof with {nonce:?} gives {got:?}", c.value);
    if let Err(e) = got {
        let expected = JE::NonceMismatch { expected_nonce: c.value.clone(), actual_nonce: nonce.clone() };
        ensure!(e == expected, "check_nonce gives {e:?} instead of {expected:?}");
    }
    Ok(())
}

fn compare_binding(c: &Compare, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    let jwt = proof_with(c.claim.as_deref(), c.claim.as_deref().unwrap_or(&c.other), &c.other)?;
    let got = jwt.check_iss(c.value.clone());
    let ok = c.value == c.claim;
    cx.label(if ok { "equal" } else { "different" });
    ensure!(got.is_ok() == ok, "check_iss({:?}) on a proof of {:?} gives {got:?}", c.value, c.claim);
    if let Err(e) = got {
        let expected = JE::IssuerMismatch { expected_iss_in_jwt: c.value.clone(), actual_iss_in_jwt: c.claim.clone() };
        ensure!(e == expected, "check_iss gives {e:?} instead of {expected:?}");
    }
    if let (Some(aud), Some(value)) = (&c.claim, &c.value) {
        let got = jwt.check_aud(value);
        ensure!(got.is_ok() == (aud == value), "check_aud({value:?}) on a proof for {aud:?} gives {got:?}");
        if let Err(e) = got {
            let expected = JE::AudienceMismatch { expected_aud_in_jwt: value.clone(), actual_aud_in_jwt: aud.clone() };
            ensure!(e == expected, "check_aud gives {e:?} instead of {expected:?}");
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    const ASSUMES: &[&str] = &[
        "the wall clock is the one clock_gettime gives, which the harness replaces",
        "a proof that expires in this very nanosecond may be accepted or refused",
        "a header type or proof type is compared without regard to the case of ASCII letters only",
    ];
    let mut all = vec![];
    let mut add = |id, rule, suites| all.push(Property { id, rule, suites, assumptions: ASSUMES, isolated: false });
    add(
        "C07",
        "honest credential requests with changed key references (ids that are not DID URLs, inline keys, certificates, none) and proof types. Non-trivial: no proof, or a valid proof whose key reference decides the outcome",
        vec![
            Suite { name: "did", cases: 60_000, strategy: || eval::case(Focus::Did), check: c07 }.boxed(),
            Suite { name: "key", cases: 30_000, strategy: || eval::case(Focus::Key), check: c07 }.boxed(),
        ],
    );
    add(
        "C08",
        "honest credential requests with changed nonces (near misses), missing options and times around the expiry. Non-trivial: everything else is right, so that the nonce decides",
        vec![
            Suite { name: "nonce", cases: 90_000, strategy: || eval::case(Focus::Nonce), check: c08 }.boxed(),
            Suite { name: "compare", cases: 150_000, strategy: compares, check: compare_nonce }.boxed(),
        ],
    );
    add(
        "C09",
        "honest credential requests with changed audiences, issuer identifiers, issuer claims, client ids and grants. Non-trivial: everything else is right, so that the binding decides",
        vec![
            Suite { name: "binding", cases: 90_000, strategy: || eval::case(Focus::Audience), check: c09 }.boxed(),
            Suite { name: "compare", cases: 100_000, strategy: compares, check: compare_binding }.boxed(),
        ],
    );
    add(
        "C10",
        "honest credential requests with changed proof types, header types, algorithms and additional key references. Non-trivial: the proof must be refused, or there is none",
        vec![Suite { name: "types", cases: 80_000, strategy: || eval::case(Focus::Types), check: c10 }.boxed()],
    );
    add(
        "C11",
        "honest credential requests with changed validity windows, down to one nanosecond around the current time. Non-trivial: the proof has a not-before or an expiry time",
        vec![Suite { name: "window", cases: 90_000, strategy: || eval::case(Focus::Window), check: c11 }.boxed()],
    );
    add(
        "C12",
        "honest credential requests with changed key ids, DID documents (up to 24 further verification methods, also near misses) and key material. Non-trivial: everything else is right, so that the key decides",
        vec![Suite { name: "key", cases: 90_000, strategy: || eval::case(Focus::Key), check: c12 }.boxed()],
    );
    add(
        "C13",
        "honest credential requests with changed signatures, any member order, spacing, escapes and further members in the proof. Non-trivial: evaluated successfully, or unsigned",
        vec![Suite { name: "signature", cases: 60_000, strategy: || eval::case(Focus::Signature), check: c13 }.boxed()],
    );
    add(
        "C14",
        "honest credential requests with changes of every kind. Every case is non-trivial: it is either legitimate and must be accepted, or refused and the reason is compared with the facts",
        vec![
            Suite { name: "any", cases: 70_000, strategy: || eval::case(Focus::All), check: c14 }.boxed(),
            Suite { name: "key", cases: 25_000, strategy: || eval::case(Focus::Key), check: c14 }.boxed(),
            Suite { name: "binding", cases: 15_000, strategy: || eval::case(Focus::Audience), check: c14 }.boxed(),
            Suite { name: "nonce", cases: 15_000, strategy: || eval::case(Focus::Nonce), check: c14 }.boxed(),
            Suite { name: "window", cases: 15_000, strategy: || eval::case(Focus::Window), check: c14 }.boxed(),
        ],
    );
    all
}
