//! C01, C02, C03: access token requests.

use crate::gen::{self, Rel, S};
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use openid4vci::access_token::error::AccessTokenError as E;
use openid4vci::access_token::{AccessToken, GrantType};
use openid4vci::validate::{Validatable, ValidationError};
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TokenCase {
    pub req: TokenReq,
    pub offer: Option<Offer>,
    /// no options, options without a PIN, options with a PIN
    pub expected: Option<Option<u64>>,
}

impl TokenCase {
    pub fn run(&self) -> Result<(), E> {
        AccessToken::evaluate_access_token_request(
            &self.req.native(),
            self.offer.as_ref().map(Offer::native),
            token_options(self.expected),
        )
    }

    fn pre(&self) -> Option<&Pre> {
        self.offer.as_ref().and_then(|o| o.pre.as_ref())
    }

    fn auth_offered(&self) -> bool {
        self.offer.as_ref().is_some_and(|o| o.auth.is_some())
    }

    /// C01
    pub fn code_ok(&self) -> bool {
        match (&self.req, self.pre()) {
            (TokenReq::Pre { code, .. }, Some(p)) => *code == p.code,
            _ => false,
        }
    }

    pub fn pin(&self) -> Option<u64> {
        match &self.req {
            TokenReq::Pre { pin, .. } => *pin,
            TokenReq::AuthCode => None,
        }
    }

    pub fn required(&self) -> bool {
        self.pre().and_then(|p| p.pin_required).unwrap_or(false)
    }

    pub fn too_long(&self) -> bool {
        self.pin().is_some_and(|p| p > 99_999_999)
    }

    fn pin_presence_ok(&self) -> bool {
        self.pin().is_some() == self.required()
    }

    fn pin_equal(&self) -> bool {
        self.pin().map_or(true, |p| self.expected == Some(Some(p)))
    }

    /// C02
    pub fn pin_ok(&self) -> bool {
        self.pin_presence_ok() && self.pin_equal() && !self.too_long()
    }

    pub fn grantable(&self) -> bool {
        self.code_ok() && self.pin_ok()
    }
}

/// How the PIN the issuer expects relates to the PIN in the request
#[derive(Debug, Clone)]
enum PinRel {
    Same,
    /// no options
    NoOptions,
    /// options without a PIN
    Unset,
    Plus(u64),
    Minus(u64),
    TimesTen,
    ByTen,
    Low32,
    Low16,
    Bit(u8),
    Reversed,
    Other(u64),
}

impl PinRel {
    fn apply(&self, pin: u64) -> Option<Option<u64>> {
        let n = match self {
            PinRel::Same => pin,
            PinRel::NoOptions => return None,
            PinRel::Unset => return Some(None),
            PinRel::Plus(n) => pin.wrapping_add(*n),
            PinRel::Minus(n) => pin.wrapping_sub(*n),
            PinRel::TimesTen => pin.wrapping_mul(10),
            PinRel::ByTen => pin / 10,
            PinRel::Low32 => pin ^ (1 << 32),
            PinRel::Low16 => pin ^ (1 << 16),
            PinRel::Bit(b) => pin ^ (1 << (b % 64)),
            PinRel::Reversed => pin.to_string().chars().rev().collect::<String>().parse().unwrap_or(0),
            PinRel::Other(n) => *n,
        };
        Some(Some(n))
    }
}

fn pin_rel(same: u32) -> S<PinRel> {
    prop_oneof![
        same => Just(PinRel::Same),
        2 => Just(PinRel::NoOptions),
        2 => Just(PinRel::Unset),
        1 => proptest::sample::select(vec![1u64, 10, 1000, 100_000_000, 1 << 32]).prop_map(PinRel::Plus),
        1 => proptest::sample::select(vec![1u64, 10, 1000, 100_000_000]).prop_map(PinRel::Minus),
        1 => Just(PinRel::TimesTen),
        1 => Just(PinRel::ByTen),
        1 => Just(PinRel::Low32),
        1 => Just(PinRel::Low16),
        1 => (0u8..64).prop_map(PinRel::Bit),
        1 => Just(PinRel::Reversed),
        2 => gen::pin().prop_map(PinRel::Other),
    ]
    .boxed()
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Focus {
    Code,
    Pin,
    Any,
}

fn cases(focus: Focus) -> S<TokenCase> {
    let (same_code, same_pin, no_offer, no_pre, auth_req) = match focus {
        Focus::Code => (3, 30, 0.05, 0.1, 0.08),
        Focus::Pin => (9, 12, 0.02, 0.03, 0.02),
        Focus::Any => (7, 20, 0.05, 0.1, 0.08),
    };
    (
        (gen::pre(), gen::rel(same_code), gen::ident(), proptest::collection::vec(gen::cred_ref(gen::small_cred()), 0..3)),
        (
            // PIN as required, or not
            prop_oneof![4 => Just(None), 1 => any::<bool>().prop_map(Some)],
            gen::pin(),
            pin_rel(same_pin),
        ),
        (
            prop::bool::weighted(no_offer),
            prop::bool::weighted(no_pre),
            prop::bool::weighted(auth_req),
            option::weighted(0.35, gen::auth()),
            // what an issuer state or the issuer says has no meaning; let them equal the code sometimes
            any::<u8>(),
        ),
    )
        .prop_map(|((pre, rel, issuer, creds), (present, pin, pin_rel), (no_offer, no_pre, auth_req, auth, confuse))| {
            let required = pre.pin_required.unwrap_or(false);
            let pin = present.unwrap_or(required).then_some(pin);
            let expected = pin_rel.apply(pin.unwrap_or(1234));
            let req_code = rel.apply(&pre.code);
            let mut auth = auth;
            let (mut issuer, mut creds) = (issuer, creds);
            match confuse {
                0..=15 => auth = auth.map(|_| Auth { issuer_state: Some(req_code.clone()) }),
                16..=25 => issuer = req_code.clone(),
                26..=31 => issuer = pre.code.clone(),
                32..=37 => creds.push(CredRef::Id(req_code.clone())),
                38..=43 => creds = vec![CredRef::Id(pre.code.clone())],
                44..=47 => auth = auth.map(|_| Auth { issuer_state: Some(pre.code.clone()) }),
                48..=51 => auth = auth.map(|_| Auth { issuer_state: Some(issuer.clone()) }),
                _ => {}
            }
            let offer = Offer { issuer, creds, auth, pre: (!no_pre).then_some(pre) };
            TokenCase {
                req: if auth_req { TokenReq::AuthCode } else { TokenReq::Pre { code: req_code, pin } },
                offer: (!no_offer).then_some(offer),
                expected,
            }
        })
        .boxed()
}

/// Token requests of every kind
pub fn any_case() -> S<TokenCase> {
    cases(Focus::Any)
}

fn classify(c: &TokenCase, cx: &mut Cx) {
    cx.label(if c.grantable() {
        "grantable"
    } else if c.code_ok() {
        "only the PIN is wrong"
    } else if c.pre().is_some() && matches!(c.req, TokenReq::Pre { .. }) && c.pin_ok() {
        "only the code is wrong"
    } else {
        "other"
    });
    cx.label_if(c.offer.is_none(), "no offer");
    cx.label_if(c.req == TokenReq::AuthCode, "authorization-code request");
    cx.label_if(c.auth_offered(), "authorization-code grant offered");
    cx.label_if(c.offer.is_some() && c.pre().is_none(), "no pre-authorized grant offered");
    cx.label_if(c.pin().is_some(), "has PIN");
    cx.label_if(c.too_long(), "PIN too long");
}

fn c01(c: &TokenCase, cx: &mut Cx) -> Verdict {
    classify(c, cx);
    if c.pin_ok() {
        cx.nontrivial();
    }
    let r = c.run();
    if !c.code_ok() {
        ensure!(r.is_err(), "granted, although the code is not that of an offered pre-authorized grant");
    }
    Ok(())
}

fn c02(c: &TokenCase, cx: &mut Cx) -> Verdict {
    classify(c, cx);
    if c.code_ok() && (c.pin().is_some() || c.required()) {
        cx.nontrivial();
    }
    let r = c.run();
    if c.too_long() {
        ensure!(r.is_err(), "granted with a PIN of more than eight digits");
    }
    if c.pin().is_some() && !matches!(c.expected, Some(Some(_))) {
        ensure!(r.is_err(), "a PIN was accepted, although no PIN is expected");
    }
    if c.code_ok() && !c.pin_ok() {
        ensure!(r.is_err(), "granted, although the PIN rules are broken");
    }
    // the validation of requests and grants decides the length alone
    let valid = c.req.native().validate();
    ensure!(valid.is_err() == c.too_long(), "validation of the request gives {valid:?}");
    if let TokenReq::Pre { code, pin } = &c.req {
        let grant = GrantType::PreAuthorizedCodeFlow { pre_authorized_code: code.clone(), user_pin: *pin };
        let valid = grant.validate();
        ensure!(valid.is_err() == c.too_long(), "validation of the grant type gives {valid:?}");
    }
    Ok(())
}

/// Which grant a name in an error stands for
fn grant_named(name: &str) -> &'static str {
    if name.contains("pre") {
        "pre"
    } else {
        "auth"
    }
}

/// Reasons that the pre-authorized grant can give
fn pre_reason(e: &E, c: &TokenCase) -> Verdict {
    match e {
        E::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied, does_code_match } => {
            ensure!(c.pre().is_some(), "{e:?} without a pre-authorized grant");
            ensure!(*should_pin_be_supplied == c.required(), "{e:?}: whether a PIN should be supplied is not true");
            ensure!(*does_code_match == c.code_ok(), "{e:?}: whether the code matches is not true");
            ensure!(!c.code_ok() || !c.pin_presence_ok(), "{e:?}, but the code matches and the PIN is present as required");
            Ok(())
        }
        E::OptionsAreRequiredForEvaluation { .. } => {
            ensure!(
                c.pin().is_some() && !matches!(c.expected, Some(Some(_))),
                "{e:?}, but no options are needed or they were supplied"
            );
            Ok(())
        }
        E::UserPinMismatch => {
            ensure!(
                c.pin().is_some() && matches!(c.expected, Some(Some(_))) && !c.pin_equal(),
                "UserPinMismatch, but the PIN is the expected one, or there is nothing to compare"
            );
            Ok(())
        }
        e => Err(format!("{e:?} is not a reason for the pre-authorized grant")),
    }
}

/// The request is for a grant that this flow is not
fn grant_type_reason(e: &E, c: &TokenCase, accepted: &[&str]) -> Verdict {
    let E::InvalidGrantType { requested_grant_type, accepted_grant_type } = e else {
        return Err(format!("{e:?} is not a reason for the grant type"));
    };
    let requested = if c.req == TokenReq::AuthCode { "auth" } else { "pre" };
    ensure!(grant_named(requested_grant_type) == requested, "{e:?}: that is not the requested grant type");
    let mut named: Vec<&str> = accepted_grant_type.iter().map(|n| grant_named(n)).collect();
    named.sort_unstable();
    ensure!(named == accepted, "{e:?}: those are not the accepted grant types ({accepted:?})");
    ensure!(!accepted.contains(&requested), "{e:?}, but the requested grant type is accepted");
    Ok(())
}

pub fn reason(e: &E, c: &TokenCase, cx: &mut Cx) -> Verdict {
    let offered = (c.auth_offered(), c.pre().is_some());
    match e {
        E::ValidationError(ValidationError::Any { validation_message: m }) => {
            ensure!(c.too_long(), "{e:?}, but the request is valid");
            // the numbers in it are the limit, the length, or the PIN
            let digits = c.pin().unwrap_or_default().to_string();
            let numbers: Vec<&str> = m.split(|c: char| !c.is_ascii_digit()).filter(|n| !n.is_empty()).collect();
            let length = digits.len().to_string();
            let allowed = [length.as_str(), digits.as_str()];
            let limits = numbers.iter().filter(|n| **n == "8").count();
            if limits < 2 && numbers.iter().all(|n| *n == "8" || allowed.contains(n)) {
                return Ok(());
            }
            let what = format!("`{m}` about a PIN of {length} digits");
            let short = (digits.len() - 1).to_string();
            if numbers == ["8", &short] {
                return cx.known("K5", what);
            }
            Err(what)
        }
        E::AuthorizedFlowNotSupported => {
            ensure!(c.req == TokenReq::AuthCode, "{e:?}, but the request is for the pre-authorized grant");
            Ok(())
        }
        E::CredentialOfferMustBeSupplied => {
            ensure!(c.offer.is_none(), "{e:?}, but an offer was supplied");
            Ok(())
        }
        E::NoFlowSupportedInCredentialOffer => {
            ensure!(c.offer.is_some() && offered == (false, false), "{e:?}, but the offer lists a grant");
            Ok(())
        }
        E::InvalidGrantType { .. } => {
            ensure!(c.offer.is_some(), "{e:?} without an offer");
            let mut accepted = vec![];
            if offered.0 {
                accepted.push("auth");
            }
            if offered.1 {
                accepted.push("pre");
            }
            grant_type_reason(e, c, &accepted)
        }
        E::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error, pre_authorized_error } => {
            ensure!(offered == (true, true), "{e:?}, but the offer does not list both grants");
            grant_type_reason(authorized_error, c, &["auth"]).map_err(|m| format!("authorized_error: {m}"))?;
            pre_reason(pre_authorized_error, c).map_err(|m| format!("pre_authorized_error: {m}"))
        }
        e => pre_reason(e, c),
    }
}

fn c03(c: &TokenCase, cx: &mut Cx) -> Verdict {
    classify(c, cx);
    cx.nontrivial();
    match c.run() {
        Ok(()) => {
            cx.label("granted");
            Ok(())
        }
        Err(e) => {
            ensure!(!c.grantable(), "a legitimate request is refused: {e:?}");
            cx.label_owned(format!("refused: {}", e.as_ref()));
            reason(&e, c, cx)
        }
    }
}

/// Every (requirement, presence, expectation, grants, code) combination with fixed values
fn grid() -> S<TokenCase> {
    (
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
        proptest::sample::select(vec![None, Some(false), Some(true)]),
        proptest::sample::select(vec![None, Some(0u64), Some(1), Some(12_345_678), Some(99_999_999), Some(100_000_000), Some(123_456_789)]),
        proptest::sample::select(vec![
            None,
            Some(None),
            Some(Some(0u64)),
            Some(Some(1)),
            Some(Some(12_345_678)),
            Some(Some(99_999_999)),
            Some(Some(100_000_000)),
            Some(Some(123_456_789)),
        ]),
        gen::rel(6),
    )
        .prop_map(|((offer, auth, pre, auth_req), pin_required, pin, expected, rel)| {
            let code = "SplxlOBeZQQYbYS6WxSbIA".to_owned();
            let rel: Rel = rel;
            TokenCase {
                req: if auth_req && auth { TokenReq::AuthCode } else { TokenReq::Pre { code: rel.apply(&code), pin } },
                offer: (offer || pre).then(|| Offer {
                    issuer: "https://i.example".into(),
                    creds: vec![],
                    auth: auth.then_some(Auth { issuer_state: None }),
                    pre: pre.then_some(Pre { code, pin_required }),
                }),
                expected,
            }
        })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "token requests against offers with any grants; the code in the request is the offered one, a near miss of it or another text. Non-trivial: the PIN rules hold, so that the code and the grants decide",
            suites: vec![
                Suite { name: "codes", cases: 500_000, strategy: || cases(Focus::Code), check: c01 }.boxed(),
                Suite { name: "grid", cases: 80_000, strategy: grid, check: c01 }.boxed(),
            ],
            assumptions: &[],
            isolated: false,
        },
        Property {
            id: "C02",
            rule: "token requests with PINs around every digit boundary, any requirement flag and an expected PIN that is the same, close, unset or absent. Non-trivial: the code is right and a PIN is present or required",
            suites: vec![
                Suite { name: "pins", cases: 500_000, strategy: || cases(Focus::Pin), check: c02 }.boxed(),
                Suite { name: "grid", cases: 80_000, strategy: grid, check: c02 }.boxed(),
            ],
            assumptions: &["a PIN has as many digits as its decimal value has, as the PIN is a number in the API"],
            isolated: false,
        },
        Property {
            id: "C03",
            rule: "token requests as for C01 and C02. Every case is non-trivial: it is either legitimate and must be granted, or refused and the reason is compared with the facts",
            suites: vec![
                Suite { name: "any", cases: 400_000, strategy: || cases(Focus::Any), check: c03 }.boxed(),
                Suite { name: "pins", cases: 150_000, strategy: || cases(Focus::Pin), check: c03 }.boxed(),
                Suite { name: "grid", cases: 100_000, strategy: grid, check: c03 }.boxed(),
            ],
            assumptions: &["errors name grants by texts that contain `pre` exactly for the pre-authorized grant"],
            isolated: false,
        },
    ]
}
