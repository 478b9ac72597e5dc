//! C25: validation accepts exactly the values that keep the documented rules, and the endpoints refuse for the same
//! reason.

use crate::clock;
use crate::eval::{self, Case, Focus};
use crate::gen::S;
use crate::props::offers::{self, OfferCase};
use crate::props::token::{self, TokenCase};
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use openid4vci::access_token::error::AccessTokenError;
use openid4vci::access_token::GrantType;
use openid4vci::credential_issuer::error::CredentialIssuerError;
use openid4vci::credential_issuer::{CredentialIssuer, CredentialOffer};
use openid4vci::jwt::{ProofJwt, ProofJwtAdditionalHeader};
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::validate::{Validatable, ValidationError};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;
use std::str::FromStr;

type Verdicts = Result<(), ValidationError>;

/// The verdict on a value, which a copy of it, read from JSON, shares
fn judged<V: Validatable + Serialize + DeserializeOwned>(what: &str, value: &V) -> Result<Verdicts, String> {
    let first = value.validate();
    let second = value.validate();
    ensure!(first == second, "validated twice, {what} is {first:?} and {second:?}");
    let text = serde_json::to_string(value).map_err(|e| format!("{what}: {e}"))?;
    let again: V = serde_json::from_str(&text).map_err(|e| format!("{what} {text}: {e}"))?;
    let third = again.validate();
    ensure!(first == third, "{what} is {first:?}, and {third:?} after it was stored as {text}");
    if let Err(ValidationError::Any { validation_message: m }) = &first {
        ensure!(!m.trim().is_empty(), "{what} is refused without a message");
    }
    Ok(first)
}

fn rule<V: Debug>(what: &str, verdict: &Result<(), V>, valid: bool, why: &str) -> Verdict {
    ensure!(
        verdict.is_ok() == valid,
        "validation of {what} gives {verdict:?}, although it {} the rules ({why})",
        if valid { "keeps" } else { "breaks" }
    );
    Ok(())
}

fn metadata(meta: &Meta) -> Result<(CredentialIssuerMetadata, Verdicts), String> {
    let native = meta.native();
    let verdict = judged("metadata", &native)?;
    rule("metadata", &verdict, meta.ids_unique(), "ids of supported credentials are unique")?;
    for entry in &native.credentials_supported {
        rule("a supported credential", &judged("a supported credential", entry)?, true, "it has none")?;
        rule("a credential description", &judged("a credential description", &entry.format)?, true, "it has none")?;
        for display in entry.display.iter().flatten() {
            rule("a display", &judged("a display", display)?, true, "it has none")?;
            if let Some(logo) = &display.logo {
                rule("a logo", &judged("a logo", logo)?, true, "it has none")?;
            }
        }
    }
    Ok((native, verdict))
}

fn offered(offer: &CredentialOffer) -> Verdict {
    rule("an offer", &judged("an offer", offer)?, true, "it has none")?;
    rule("grants", &judged("grants", &offer.grants)?, true, "it has none")?;
    rule("credentials of an offer", &judged("credentials of an offer", &offer.credentials)?, true, "it has none")
}

/// What a request must keep to be valid
fn request_rules(p: &Proof) -> Vec<(&'static str, bool)> {
    vec![
        ("the proof type is jwt", eval::proof_type_ok(p)),
        ("the proof can be decoded", eval::decodes(p)),
        ("the header type is openid4vci-proof+jwt", eval::typ_ok(p)),
        ("the algorithm is a digital signature algorithm", p.alg_is_signature()),
    ]
}

fn c25_evaluation(c: &Case, cx: &mut Cx) -> Verdict {
    let (meta, meta_verdict) = metadata(&c.meta)?;
    let request: CredentialRequest = c.request.native();
    let verdict = judged("a request", &request)?;
    let broken: Vec<&str> =
        c.proof().map(request_rules).unwrap_or_default().into_iter().filter(|(_, ok)| !ok).map(|(n, _)| n).collect();
    rule("a request", &verdict, broken.is_empty(), &format!("{broken:?}"))?;
    if let Some(offer) = &c.offer {
        offered(&offer.native())?;
    }
    rule("server metadata", &judged("server metadata", &AuthorizationServerMetadata {})?, true, "it has none")?;

    if let (Some(spec), Some(proof)) = (c.proof(), &request.proof) {
        let verdict = judged("a proof", proof)?;
        rule("a proof", &verdict, broken.is_empty(), &format!("{broken:?}"))?;
        if eval::decodes(spec) {
            let jwt = ProofJwt::from_str(&proof.jwt).map_err(|e| format!("the proof {} is not decoded: {e:?}", proof.jwt))?;
            let valid = eval::typ_ok(spec) && spec.alg_is_signature();
            rule("a decoded proof", &judged("a decoded proof", &jwt)?, valid, "header type and algorithm")?;
            let header = jwt.header.validate();
            rule("the header of a proof", &header, valid, "header type and algorithm")?;
            let body = jwt.body.validate();
            rule("the claims of a proof", &body, true, "they have none")?;
            if let Some(key) = &jwt.header.additional_header {
                let by_id = matches!(key, ProofJwtAdditionalHeader::KeyId(_));
                ensure!(by_id == spec.key.kid.is_some(), "the key reference {key:?} was sent as {:?}", spec.key);
                rule("a key reference", &key.validate(), by_id, "keys are referred to by id")?;
            }
        }
    }

    // the calls refuse for the same reason
    let now = (c.now.0, c.now.1);
    let same = |what: &str, got: Option<&CredentialIssuerError>, expected: &ValidationError| -> Verdict {
        ensure!(
            matches!(got, Some(CredentialIssuerError::ValidationError(e)) if e == expected),
            "{what} gives {got:?} instead of the validation error {expected:?}"
        );
        Ok(())
    };
    cx.label(match (&meta_verdict, &verdict) {
        (Ok(()), Ok(())) => "both valid",
        (Err(_), Ok(())) => "metadata invalid",
        (Ok(()), Err(_)) => "request invalid",
        (Err(_), Err(_)) => "both invalid",
    });
    if let Err(e) = &verdict {
        cx.nontrivial();
        same("pre-evaluation", c.pre_evaluate().err().as_ref(), e)?;
        let r = clock::at(now, || CredentialIssuer::create_credential_success_response(&request, None, None));
        same("a response", r.err().as_ref(), e)?;
    } else {
        let r = clock::at(now, || CredentialIssuer::create_credential_success_response(&request, None, None));
        ensure!(r.is_ok(), "a valid request cannot be answered: {r:?}");
    }
    if let Err(e) = &meta_verdict {
        cx.nontrivial();
        let r = CredentialIssuer::create_offer(
            &meta,
            openid4vci::credential_issuer::CredentialOrIds::new(vec![]),
            &None,
            &None,
            &c.offer.as_ref().and_then(|o| o.pre.as_ref()).map(Pre::native),
        );
        same("offer creation", r.err().as_ref(), e)?;
    }
    let request_conditions = [
        "the proof type is jwt",
        "the header type is openid4vci-proof+jwt",
        "the algorithm is a digital signature algorithm",
        "the proof names at most one key",
    ];
    let other = |name: &str| {
        let of_request = request_conditions.contains(&name);
        let of_meta = name == "metadata ids are unique";
        !(of_request && verdict.is_err() || of_meta && meta_verdict.is_err())
    };
    let only = eval::conditions(c).iter().all(|(n, t)| *t == eval::T::Yes || !other(n));
    match (&meta_verdict, &verdict) {
        (Err(e), Ok(())) | (Ok(()), Err(e)) if only => {
            cx.label("nothing else is wrong");
            same("evaluation", c.evaluate().err().as_ref(), e)
        }
        (Ok(()), Ok(())) => {
            if let Err(CredentialIssuerError::ValidationError(e)) = c.evaluate() {
                return Err(format!("all arguments are valid, but evaluation gives {e:?}"));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn c25_offer(c: &OfferCase, cx: &mut Cx) -> Verdict {
    let (_, verdict) = metadata(&c.meta)?;
    match (c.create(), verdict) {
        (Ok((offer, _)), Ok(())) => offered(&offer),
        (Ok(_), Err(e)) => Err(format!("an offer was created, although the metadata is invalid: {e:?}")),
        (Err(CredentialIssuerError::ValidationError(e)), Ok(())) => {
            Err(format!("the metadata is valid, but offer creation gives {e:?}"))
        }
        (Err(got), Err(e)) => {
            cx.nontrivial();
            let others = c.auth.is_some() || c.first_unresolvable().is_some();
            ensure!(
                others || matches!(&got, CredentialIssuerError::ValidationError(g) if *g == e),
                "offer creation gives {got:?} instead of the validation error {e:?}"
            );
            Ok(())
        }
        _ => Ok(()),
    }
}

fn c25_token(c: &TokenCase, cx: &mut Cx) -> Verdict {
    let request = c.req.native();
    let verdict = judged("a token request", &request)?;
    rule("a token request", &verdict, !c.too_long(), "PINs have at most eight digits")?;
    let grant = match &c.req {
        TokenReq::Pre { code, pin } => {
            GrantType::PreAuthorizedCodeFlow { pre_authorized_code: code.clone(), user_pin: *pin }
        }
        TokenReq::AuthCode => GrantType::AuthorizedCodeFlow,
    };
    let of_grant = judged("a grant", &grant)?;
    ensure!(of_grant == verdict, "a request is {verdict:?}, its grant {of_grant:?}");
    if let Some(o) = &c.offer {
        offered(&o.native())?;
    }
    match (c.run(), verdict) {
        (Err(AccessTokenError::ValidationError(e)), Ok(())) => Err(format!("a valid request is refused: {e:?}")),
        (Ok(()), Err(e)) => Err(format!("an invalid request is granted: {e:?}")),
        (Err(got), Err(e)) => {
            cx.nontrivial();
            // a long PIN that is right in every other respect
            let only = c.code_ok() && c.required() && c.pin().is_some() && c.expected == Some(c.pin());
            ensure!(
                !only || matches!(&got, AccessTokenError::ValidationError(g) if *g == e),
                "the request is refused with {got:?} instead of the validation error {e:?}"
            );
            Ok(())
        }
        _ => Ok(()),
    }
}

fn evaluations() -> S<Case> {
    prop_oneof![
        5 => eval::case(Focus::Types),
        2 => eval::case(Focus::Did),
        2 => (eval::case(Focus::All), any::<(u16, u16)>()).prop_map(|(mut c, (a, b))| {
            eval::duplicate_id(&mut c.meta, a, b);
            c
        }),
        2 => (eval::honest_case(), any::<(u16, u16)>()).prop_map(|(mut c, (a, b))| {
            eval::duplicate_id(&mut c.meta, a, b);
            c
        }),
        3 => eval::case(Focus::All),
    ]
    .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C25",
        rule: "metadata, offers, requests, proofs, key references, token requests and grants, valid ones and ones that break rules, validated as they are and after being stored as JSON; and the calls that take them. Non-trivial: something is invalid",
        suites: vec![
            Suite { name: "evaluation", cases: 40_000, strategy: evaluations, check: c25_evaluation }.boxed(),
            Suite { name: "offer", cases: 20_000, strategy: offers::any_case, check: c25_offer }.boxed(),
            Suite { name: "token", cases: 60_000, strategy: token::any_case, check: c25_token }.boxed(),
        ],
        assumptions: &["which of two invalid arguments a call complains about is left open"],
        isolated: false,
    }]
}
