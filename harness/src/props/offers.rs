//! C04, C05, C06: credential offers.

use crate::enc;
use crate::eval;
use crate::gen::{self, Near, S};
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use openid4vci::credential_issuer::error::{CredentialIssuerError as E, CredentialIssuerResult};
use openid4vci::credential_issuer::{CredentialIssuer, CredentialOffer, CredentialOrId, CredentialOrIds};
use openid4vci::types::credential::CredentialFormatProfile;
use openid4vci::validate::{Validatable, ValidationError};
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct OfferCase {
    pub meta: Meta,
    pub refs: Vec<CredRef>,
    pub auth: Option<Auth>,
    pub pre: Option<Pre>,
    pub endpoint: Option<String>,
    /// the way in which the credentials are passed
    pub via: u8,
}

impl OfferCase {
    pub fn create(&self) -> CredentialIssuerResult<(CredentialOffer, String)> {
        let meta = self.meta.native();
        let auth = self.auth.as_ref().map(Auth::native);
        let pre = self.pre.as_ref().map(Pre::native);
        let list: Vec<CredentialOrId> = self.refs.iter().map(CredRef::native).collect();
        let ids: Option<Vec<String>> = self
            .refs
            .iter()
            .map(|r| match r {
                CredRef::Id(s) => Some(s.clone()),
                CredRef::Inline(_) => None,
            })
            .collect();
        let inline: Option<Vec<CredentialFormatProfile>> = self
            .refs
            .iter()
            .map(|r| match r {
                CredRef::Inline(c) => Some(c.native()),
                CredRef::Id(_) => None,
            })
            .collect();
        match (self.via % 5, ids, inline) {
            (0, Some(ids), _) => CredentialIssuer::create_offer(&meta, ids, &self.endpoint, &auth, &pre),
            (1, Some(ids), _) => {
                let ids: Vec<&str> = ids.iter().map(String::as_str).collect();
                CredentialIssuer::create_offer(&meta, ids, &self.endpoint, &auth, &pre)
            }
            (0, _, Some(inline)) => CredentialIssuer::create_offer(&meta, inline, &self.endpoint, &auth, &pre),
            (2, ..) => {
                let refs: Vec<&CredentialOrId> = list.iter().collect();
                CredentialIssuer::create_offer(&meta, &refs[..], &self.endpoint, &auth, &pre)
            }
            (3, ..) => CredentialIssuer::create_offer(&meta, CredentialOrIds::new(list), &self.endpoint, &auth, &pre),
            _ => CredentialIssuer::create_offer(&meta, list, &self.endpoint, &auth, &pre),
        }
    }

    /// Give one text of the arguments the value of another
    fn coincide(&mut self, from: u8, to: u8) {
        let unique = self.meta.ids_unique();
        let mut texts: Vec<&mut String> = vec![&mut self.meta.issuer, &mut self.meta.endpoint];
        texts.extend(self.meta.authorization_server.as_mut());
        texts.extend(self.pre.as_mut().map(|p| &mut p.code));
        texts.extend(self.auth.as_mut().and_then(|a| a.issuer_state.as_mut()));
        for s in &mut self.meta.supported {
            texts.extend(s.id.as_mut());
            texts.extend(s.cred.types.first_mut());
            texts.push(&mut s.cred.doctype);
        }
        for r in &mut self.refs {
            match r {
                CredRef::Id(id) => texts.push(id),
                CredRef::Inline(c) => {
                    texts.extend(c.types.first_mut());
                    texts.push(&mut c.doctype);
                }
            }
        }
        let n = texts.len();
        let value = texts[usize::from(from) % n].clone();
        *texts[usize::from(to) % n] = value;
        if unique {
            gen::make_distinct(&mut self.meta.supported);
        }
    }

    pub fn first_unresolvable(&self) -> Option<&String> {
        self.refs.iter().find_map(|r| match r {
            CredRef::Id(id) if !self.meta.ids().any(|i| i == id) => Some(id),
            _ => None,
        })
    }

    pub fn creatable(&self) -> bool {
        self.meta.ids_unique() && self.auth.is_none() && self.first_unresolvable().is_none()
    }

    /// The offer that must result
    pub fn expected(&self) -> Offer {
        Offer { issuer: self.meta.issuer.clone(), creds: self.refs.clone(), auth: None, pre: self.pre.clone() }
    }
}

#[derive(Debug, Clone)]
enum RefGen {
    Existing(u16),
    Near(u16, Near),
    Other(String),
    Inline(Cred),
    InlineOf(u16),
    /// the text of some other part of the entry
    PartOf(u16, u8),
}

fn ref_gen(bad: u32) -> S<RefGen> {
    prop_oneof![
        12 => any::<u16>().prop_map(RefGen::Existing),
        bad => (any::<u16>(), gen::near()).prop_map(|(i, n)| RefGen::Near(i, n)),
        bad.div_ceil(3) => gen::token().prop_map(RefGen::Other),
        3 => gen::small_cred().prop_map(RefGen::Inline),
        1 => any::<u16>().prop_map(RefGen::InlineOf),
        bad.div_ceil(3) => any::<(u16, u8)>().prop_map(|(i, p)| RefGen::PartOf(i, p)),
    ]
    .boxed()
}

impl RefGen {
    fn resolve(self, meta: &Meta) -> CredRef {
        let pick = |i: u16| (!meta.supported.is_empty()).then(|| &meta.supported[usize::from(i) % meta.supported.len()]);
        let with_id: Vec<&String> = meta.ids().collect();
        let pick_id = |i: u16| (!with_id.is_empty()).then(|| with_id[usize::from(i) % with_id.len()].clone());
        let none = || CredRef::Inline(Cred {
            kind: Kind::JwtVcJson,
            types: vec!["Fallback".into()],
            context: vec![],
            doctype: String::new(),
            claims: None,
            order: None,
        });
        match self {
            RefGen::Existing(i) => pick_id(i).map_or_else(none, CredRef::Id),
            RefGen::Near(i, n) => CredRef::Id(n.apply(&pick_id(i).unwrap_or_else(|| "id".into()))),
            RefGen::Other(t) => CredRef::Id(t),
            RefGen::Inline(c) => CredRef::Inline(c),
            RefGen::InlineOf(i) => pick(i).map_or_else(none, |s| CredRef::Inline(s.cred.clone())),
            RefGen::PartOf(i, p) => CredRef::Id(match (pick(i), p % 5) {
                (Some(s), 0) => s.cred.kind.name().to_owned(),
                (Some(s), 1) => s.cred.types.first().cloned().unwrap_or_default(),
                (Some(s), 2) => s.cred.doctype.clone(),
                (_, 3) => i.to_string(),
                _ => String::new(),
            }),
        }
    }
}

/// Text of a query, with characters percent-encoded that would end it or a member
fn query_text(text: &str) -> String {
    let mut out = String::new();
    for b in text.bytes() {
        match b {
            b'&' | b'#' | b'%' | b'"' | b'<' | b'>' | b'\\' | b'^' | b'`' | b'{' | b'|' | b'}' => out.push_str(&format!("%{b:02X}")),
            0x21..=0x7e => out.push(char::from(b)),
            _ => out.push_str(&format!("%{b:02x}")),
        }
    }
    out
}

/// Names of the members of a query, other than that of the offer
fn query_name() -> S<String> {
    let alike = ["old_credential_offer", "credential_offers", "Credential_Offer", "credential_offer_uri", "credential-offer",
        "credential_offer%5B%5D", "credential", "offer", "issuer", "pre-authorized_code", "a", ""];
    prop_oneof![
        1 => proptest::sample::select(alike.to_vec()).prop_map(str::to_owned),
        1 => gen::text().prop_map(|t| query_text(&t).replace('=', "%3D")),
    ]
    .prop_map(|name| if name == "credential_offer" { "x".to_owned() } else { name })
    .boxed()
}

/// Endpoints: any URL without a fragment
pub fn endpoint() -> S<String> {
    let query = prop_oneof![
        4 => Just(String::new()),
        1 => Just("?".to_owned()),
        2 => Just("?client=wallet-1".to_owned()),
        1 => Just("?a=b&c=d%20e+f&".to_owned()),
        1 => Just("?redirect=https://x.example/?y=z".to_owned()),
        1 => Just("?flag".to_owned()),
        1 => Just("?x=%3F%26%3D%23".to_owned()),
        1 => Just("?q=credential_offerx&credential_offer_uri=1".to_owned()),
        4 => gen::list((query_name(), option::weighted(0.8, gen::text())).boxed(), 1..4).prop_map(|members| {
            let members: Vec<String> = members
                .into_iter()
                .map(|(name, value)| match value {
                    Some(v) => format!("{name}={}", query_text(&v)),
                    None => name,
                })
                .collect();
            format!("?{}", members.join("&"))
        }),
    ];
    let base = prop_oneof![
        4 => gen::url().prop_map(|u| u.split('?').next().unwrap_or_default().to_owned()),
        1 => Just("openid-credential-offer://".to_owned()),
        1 => Just("openid-initiate-issuance://".to_owned()),
        1 => Just("https://user:pw@wallet.example:8443/a%3Fb/c;d=e/".to_owned()),
        1 => Just("haip://".to_owned()),
        1 => Just("HTTPS://Wallet.EXAMPLE/Path/UPPER%2f".to_owned()),
        1 => Just("https://[::1]:8080/x".to_owned()),
        1 => Just("com.example.app:/offer".to_owned()),
        1 => Just("https://wallet.example/credential_offer=/".to_owned()),
    ];
    (base, query).prop_map(|(b, q)| format!("{b}{q}")).boxed()
}

/// `Some` with this probability, which may be nought
pub fn maybe<T: std::fmt::Debug + Clone + 'static>(p: f64, s: S<T>) -> S<Option<T>> {
    (0.0..1.0f64, s).prop_map(move |(r, v)| (r < p).then_some(v)).boxed()
}

fn cases(meta: S<Meta>, bad: u32, duplicates: f64, auth: f64) -> S<OfferCase> {
    (
        (meta, gen::list(ref_gen(bad).boxed(), 0..6)),
        (maybe(duplicates, any::<(u16, u16)>().boxed()), any::<u8>(), option::weighted(0.15, any::<(u8, u8)>())),
        (maybe(auth, gen::auth()), option::weighted(0.8, gen::pre()), option::weighted(0.5, endpoint()), any::<u8>()),
    )
        .prop_map(|((mut meta, refs), (duplicate, same, coincidence), (auth, pre, endpoint, via))| {
            // mostly distinct descriptions, so that a wrong entry is noticed
            let first = meta.supported.first().cloned();
            for (i, s) in meta.supported.iter_mut().enumerate() {
                match (&first, same % 16) {
                    (Some(f), 0) => *s = Supported { id: s.id.clone(), ..f.clone() },
                    (Some(f), 1) if i % 2 == 0 => s.cred = f.cred.clone(),
                    _ => {
                        s.cred.types.push(format!("Entry{i}"));
                        s.cred.doctype.push_str(&format!(".{i}"));
                    }
                }
            }
            let refs = refs.into_iter().map(|r| r.resolve(&meta)).collect();
            if let Some((a, b)) = duplicate {
                eval::duplicate_id(&mut meta, a, b);
            }
            let mut case = OfferCase { meta, refs, auth, pre, endpoint, via };
            if let Some((from, to)) = coincidence {
                case.coincide(from, to);
            }
            case
        })
        .boxed()
}

fn full_meta() -> S<Meta> {
    gen::meta_with(gen::cred())
        .prop_map(|mut m| {
            gen::make_distinct(&mut m.supported);
            m
        })
        .boxed()
}

fn metas() -> S<Meta> {
    prop_oneof![5 => gen::small_meta(), 1 => full_meta()].boxed()
}

fn classify(c: &OfferCase, cx: &mut Cx) {
    cx.label(if c.creatable() { "creatable" } else { "not creatable" });
    cx.label_if(!c.meta.ids_unique(), "duplicate ids");
    cx.label_if(c.auth.is_some(), "authorization-code grant asked for");
    cx.label_if(c.first_unresolvable().is_some(), "unresolvable id");
    cx.label_if(c.refs.iter().any(|r| matches!(r, CredRef::Id(_))), "has ids");
    cx.label_if(c.refs.iter().any(|r| matches!(r, CredRef::Inline(_))), "has inline credentials");
    cx.label_if(c.meta.supported.len() > 9, "long list of supported credentials");
    cx.label_if(c.pre.is_some(), "pre-authorized grant");
    cx.label_if(c.endpoint.is_some(), "endpoint");
}

fn same_offer(offer: &CredentialOffer, expected: &Offer) -> Verdict {
    let native = expected.native();
    ensure!(
        offer.credential_issuer == native.credential_issuer,
        "the offer names the issuer {:?} instead of {:?}",
        offer.credential_issuer,
        native.credential_issuer
    );
    ensure!(
        offer.credentials == native.credentials,
        "the offer lists {:?} instead of {:?}",
        offer.credentials,
        native.credentials
    );
    ensure!(
        offer.grants.pre_authorized_code_flow == native.grants.pre_authorized_code_flow,
        "the offer carries the pre-authorized grant {:?} instead of {:?}",
        offer.grants.pre_authorized_code_flow,
        native.grants.pre_authorized_code_flow
    );
    ensure!(
        offer.grants.authorized_code_flow == native.grants.authorized_code_flow,
        "the offer carries the authorization-code grant {:?} instead of {:?}",
        offer.grants.authorized_code_flow,
        native.grants.authorized_code_flow
    );
    Ok(())
}

fn c04(c: &OfferCase, cx: &mut Cx) -> Verdict {
    classify(c, cx);
    if c.creatable() || c.auth.is_some() {
        cx.nontrivial();
    }
    let r = c.create();
    match r {
        Ok((offer, _)) => {
            ensure!(c.auth.is_none(), "an offer with an authorization-code grant was created");
            same_offer(&offer, &c.expected())?;
        }
        Err(e) => ensure!(!c.creatable(), "the offer is refused: {e:?}"),
    }
    // the constructor takes both grants as they are
    let all = Offer { auth: c.auth.clone(), ..c.expected() };
    let offer = CredentialOffer::new(
        &c.meta.issuer,
        CredentialOrIds::new(c.refs.iter().map(CredRef::native).collect()),
        &c.auth.as_ref().map(Auth::native),
        &c.pre.as_ref().map(Pre::native),
    );
    same_offer(&offer, &all).map_err(|m| format!("CredentialOffer::new: {m}"))
}

fn c05(c: &OfferCase, cx: &mut Cx) -> Verdict {
    classify(c, cx);
    let meta = c.meta.native();
    let matches = |id: &String| -> Vec<CredentialFormatProfile> {
        c.meta.supported.iter().filter(|s| s.id.as_ref() == Some(id)).map(|s| s.cred.native()).collect()
    };
    if !c.refs.is_empty() || !c.meta.ids_unique() {
        cx.nontrivial();
    }
    // every element alone
    for r in &c.refs {
        let got = r.native().resolve(&meta);
        match r {
            CredRef::Inline(cred) => {
                ensure!(got == Ok(cred.native()), "an inline credential resolves to {got:?}")
            }
            CredRef::Id(id) => {
                let expected = matches(id);
                match &got {
                    Ok(cred) => ensure!(
                        expected.contains(cred),
                        "the id {id:?} resolves to {cred:?}, which is not the entry with this id"
                    ),
                    Err(E::CredentialIdNotInIssuerMetadata { id: named }) => ensure!(
                        expected.is_empty() && named == id,
                        "the id {id:?} is refused, naming {named:?}; entries with this id: {}",
                        expected.len()
                    ),
                    Err(e) => return Err(format!("the id {id:?} is refused with {e:?}")),
                }
            }
        }
    }
    // the list
    let list = CredentialOrIds::new(c.refs.iter().map(CredRef::native).collect());
    match list.resolve_all(&meta) {
        Ok(all) => {
            ensure!(c.first_unresolvable().is_none(), "a list with an unknown id is resolved");
            ensure!(all.len() == c.refs.len(), "{} descriptions for {} references", all.len(), c.refs.len());
            for (got, r) in all.iter().zip(&c.refs) {
                let ok = match r {
                    CredRef::Inline(cred) => *got == cred.native(),
                    CredRef::Id(id) => matches(id).contains(got),
                };
                ensure!(ok, "the list gives {got:?} for {r:?}");
            }
        }
        Err(E::CredentialIdNotInIssuerMetadata { id }) => ensure!(
            c.first_unresolvable() == Some(&id),
            "the list is refused naming {id:?}, but the first unknown id is {:?}",
            c.first_unresolvable()
        ),
        Err(e) => return Err(format!("the list is refused with {e:?}")),
    }
    // offer creation
    match c.create() {
        Ok(_) => {
            ensure!(c.meta.ids_unique(), "an offer is created although two entries of the metadata share an id");
            ensure!(c.first_unresolvable().is_none(), "an offer is created although an id is unknown");
        }
        Err(E::CredentialIdNotInIssuerMetadata { id }) => ensure!(
            c.first_unresolvable() == Some(&id),
            "offer creation names {id:?}, but the first unknown id is {:?}",
            c.first_unresolvable()
        ),
        Err(e) => {
            if c.meta.ids_unique() && c.auth.is_none() {
                let expected = c.first_unresolvable();
                return Err(match expected {
                    Some(id) => format!("offer creation fails with {e:?} instead of naming the unknown id {id:?}"),
                    None => format!("offer creation fails with {e:?}, but all ids resolve and are unique"),
                });
            }
        }
    }
    unique_ids(&c.meta)
}

fn unique_ids(meta: &Meta) -> Verdict {
    let valid = meta.native().validate();
    ensure!(
        valid.is_ok() == meta.ids_unique(),
        "validation of the metadata gives {valid:?}, but its ids are {}unique",
        if meta.ids_unique() { "" } else { "not " }
    );
    Ok(())
}

/// Duplicate ids and the evaluation of requests
fn c05_evaluation(c: &eval::Case, cx: &mut Cx) -> Verdict {
    unique_ids(&c.meta)?;
    let r = c.evaluate();
    if c.meta.ids_unique() {
        cx.label("unique ids");
        if let Err(E::ValidationError(ValidationError::Any { validation_message: m })) = &r {
            let quoted = eval::mentions(&c.request, Some(&c.meta), "not unique");
            ensure!(quoted || !m.contains("not unique"), "evaluation claims that ids are not unique: {m}");
        }
    } else {
        cx.label("duplicate ids");
        cx.nontrivial();
        ensure!(r.is_err(), "a request is evaluated although two entries of the metadata share an id");
    }
    Ok(())
}

fn duplicate_cases() -> S<eval::Case> {
    (
        eval::case(eval::Focus::All),
        gen::meta_with(gen::cred()),
        option::weighted(0.7, any::<(u16, u16)>()),
        any::<bool>(),
        // duplicates of other things
        prop_oneof![1 => Just(0u8), 1 => 1u8..4],
    )
        .prop_map(|(mut case, mut meta, duplicate, large, other)| {
            meta.issuer = case.meta.issuer.clone();
            gen::make_distinct(&mut meta.supported);
            if large {
                case.meta.supported.extend(meta.supported);
                gen::make_distinct(&mut case.meta.supported);
            } else {
                case.meta = meta;
            }
            if let Some(first) = case.meta.supported.first().cloned() {
                for _ in 0..other {
                    // the same entry again, without an id
                    case.meta.supported.push(Supported { id: None, ..first.clone() });
                }
            }
            if let Some((a, b)) = duplicate {
                eval::duplicate_id(&mut case.meta, a, b);
            }
            case
        })
        .boxed()
}

/// The value of the parameter that carries the offer
fn offer_parameter<'a>(url: &'a str, endpoint: Option<&str>, cx: &mut Cx) -> Result<&'a str, String> {
    let rest = match endpoint {
        Some(endpoint) => {
            let rest = url
                .strip_prefix(endpoint)
                .ok_or_else(|| format!("the URL {url:?} does not start with the endpoint {endpoint:?}"))?;
            let query = match endpoint.split_once('?') {
                None => rest.strip_prefix('?').ok_or_else(|| format!("no query follows the endpoint in {url:?}"))?,
                Some((_, "")) => rest.strip_prefix('&').unwrap_or(rest),
                Some((_, q)) if q.ends_with('&') => rest.strip_prefix('&').unwrap_or(rest),
                Some(_) => rest
                    .strip_prefix('&')
                    .ok_or_else(|| format!("the offer is not a parameter of its own in {url:?}"))?,
            };
            query
        }
        None => {
            let rest = url
                .strip_prefix("openid-credential-offer://")
                .ok_or_else(|| format!("{url:?} is not a deep link"))?;
            match rest.strip_prefix('?') {
                Some(query) => query,
                None => {
                    let shape = rest.starts_with("credential_offer=");
                    let message = format!("the deep link {url:?} has no query");
                    ensure!(shape, "{message}");
                    cx.known("K2", message)?;
                    rest
                }
            }
        }
    };
    rest.strip_prefix("credential_offer=").ok_or_else(|| format!("no credential_offer parameter in {url:?}"))
}

/// The text delivered by a percent-encoded parameter value
fn decode_value(value: &str) -> Result<String, String> {
    let plain = value.chars().all(|c| c == '%' || enc::is_plain_query_char(c));
    ensure!(plain, "the value {value:?} contains a character that ends or changes a query parameter");
    enc::percent_decode(value).ok_or_else(|| format!("the value {value:?} is not percent-encoded UTF-8"))
}

pub fn offer_text(url: &str, endpoint: Option<&str>, cx: &mut Cx) -> Result<String, String> {
    decode_value(offer_parameter(url, endpoint, cx)?)
}

fn delivered(text: &str, offer: &CredentialOffer, expected: &Offer) -> Verdict {
    let parsed: CredentialOffer =
        serde_json::from_str(text).map_err(|e| format!("the delivered text {text:?} does not parse as an offer: {e}"))?;
    ensure!(parsed == *offer, "the delivered offer is {parsed:?} instead of {offer:?}");
    let value: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let expected = expected.json();
    ensure!(
        enc::without_nulls(&value) == expected,
        "the delivered JSON is {value} instead of {expected}"
    );
    Ok(())
}

fn c06(c: &OfferCase, cx: &mut Cx) -> Verdict {
    classify(c, cx);
    let all = Offer { auth: c.auth.clone(), ..c.expected() };
    // any offer, with or without grants
    let offer = all.native();
    let encoded = offer.url_encode().map_err(|e| format!("url_encode: {e:?}"))?;
    let text = decode_value(&encoded).map_err(|m| format!("url_encode: {m}"))?;
    delivered(&text, &offer, &all).map_err(|m| format!("url_encode: {m}"))?;
    if let Ok((offer, url)) = c.create() {
        cx.nontrivial();
        let text = offer_text(&url, c.endpoint.as_deref(), cx)?;
        delivered(&text, &offer, &c.expected())?;
    }
    Ok(())
}

/// Offers with and without unresolvable and duplicate ids
pub fn any_case() -> S<OfferCase> {
    cases(metas(), 5, 0.2, 0.04)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C04",
            rule: "metadata with up to sixty supported credentials, lists of up to five ids and inline credentials (ids also near misses), any grants, any endpoint, passed in every form the API takes. Non-trivial: the offer must be created, or an authorization-code grant is asked for",
            suites: vec![
                Suite { name: "offers", cases: 60_000, strategy: || cases(metas(), 1, 0.04, 0.15), check: c04 }.boxed(),
            ],
            assumptions: &["JSON objects whose only difference is a member that is null count as equal"],
            isolated: false,
        },
        Property {
            id: "C05",
            rule: "as C04, with near misses of existing ids, other texts of the metadata as ids, and duplicate ids at any two places. Non-trivial: there is something to resolve or a duplicate id (suite evaluation: a duplicate id)",
            suites: vec![
                Suite { name: "resolution", cases: 50_000, strategy: || cases(metas(), 5, 0.2, 0.04), check: c05 }.boxed(),
                Suite { name: "evaluation", cases: 20_000, strategy: duplicate_cases, check: c05_evaluation }.boxed(),
            ],
            assumptions: &["for metadata in which two entries share an id, resolution itself may pick either of them"],
            isolated: false,
        },
        Property {
            id: "C06",
            rule: "offers as for C04 with any Unicode text in every field, and endpoints with and without a query. Non-trivial: an offer URL was created",
            suites: vec![
                Suite { name: "urls", cases: 50_000, strategy: || cases(metas(), 0, 0.0, 0.1), check: c06 }.boxed(),
            ],
            assumptions: &["endpoints that already carry a credential_offer parameter are outside the property"],
            isolated: false,
        },
    ]
}
