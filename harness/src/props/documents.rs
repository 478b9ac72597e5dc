//! C19: protocol documents survive parsing and serialising.

use super::responses::{token_cases, wire, TokenCase};
use crate::enc::{self, Style};
use crate::eval::{self, Focus};
use crate::gen::{self, S};
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use openid4vci::access_token::AccessTokenSuccessResponse;
use openid4vci::credential_issuer::CredentialOffer;
use openid4vci::types::credential::CredentialFormatProfile;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::hash::{Hash, Hasher};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Document {
    Meta(Meta),
    /// `without_grants`: leave the member out when there are none
    Offer { offer: Offer, without_grants: bool },
    Cred(Cred),
    Request(Request),
    Token(TokenCase),
}

/// An object of a document and what may be done to it
struct Object {
    pointer: String,
    optional: Vec<&'static str>,
    mandatory: Vec<&'static str>,
    /// an unknown member is ignored here
    open: bool,
}

fn escape(name: &str) -> String {
    name.replace('~', "~0").replace('/', "~1")
}

fn object(pointer: String, mandatory: &[&'static str], optional: &[&'static str], open: bool) -> Object {
    Object { pointer, mandatory: mandatory.to_vec(), optional: optional.to_vec(), open }
}

fn cred_objects(at: &str, cred: &Cred, more: &[&'static str], out: &mut Vec<Object>) {
    let (mandatory, subject): (&[&str], _) = match cred.kind {
        Kind::MsoMdoc => (&["format", "doctype"], "claims"),
        Kind::LdpVc => (&["format", "types", "@context"], "credentialSubject"),
        _ => (&["format", "types"], "credentialSubject"),
    };
    let mut optional = vec![subject, "order"];
    optional.extend(more);
    out.push(object(at.to_owned(), mandatory, &optional, true));
    for (name, claim) in cred.claims.iter().flatten() {
        let at = format!("{at}/{subject}/{}", escape(name));
        for (i, _) in claim.display.iter().flatten().enumerate() {
            out.push(object(format!("{at}/display/{i}"), &[], &["name", "locale"], true));
        }
        out.push(object(at, &[], &["mandatory", "value_type", "display"], false));
    }
}

impl Document {
    pub fn json(&self) -> Value {
        match self {
            Document::Meta(m) => m.json(),
            Document::Offer { offer, without_grants } => {
                let mut v = offer.json();
                if *without_grants && v["grants"] == json!({}) {
                    v.as_object_mut().expect("object").remove("grants");
                }
                v
            }
            Document::Cred(c) => c.json(),
            Document::Request(r) => r.json(),
            Document::Token(t) => t.json(&t.spelled()),
        }
    }

    fn name(&self) -> &'static str {
        match self {
            Document::Meta(_) => "metadata",
            Document::Offer { .. } => "offer",
            Document::Cred(_) => "credential",
            Document::Request(_) => "request",
            Document::Token(_) => "token response",
        }
    }

    fn has_nested(&self) -> bool {
        match self {
            Document::Meta(m) => m.supported.iter().any(|s| s.cred.has_nested()),
            Document::Offer { offer, .. } => {
                offer.creds.iter().any(|c| matches!(c, CredRef::Inline(c) if c.has_nested()))
            }
            Document::Cred(c) => c.has_nested(),
            Document::Request(r) => r.cred.has_nested(),
            Document::Token(_) => false,
        }
    }

    fn objects(&self) -> Vec<Object> {
        let mut out = vec![];
        match self {
            Document::Meta(m) => {
                out.push(object(
                    String::new(),
                    &["credential_issuer", "credential_endpoint", "credentials_supported"],
                    &["authorization_server", "batch_credential_endpoint"],
                    false,
                ));
                for (i, s) in m.supported.iter().enumerate() {
                    let at = format!("/credentials_supported/{i}");
                    let more = [
                        "id",
                        "display",
                        "cryptographic_binding_methods_supported",
                        "cryptographic_suites_supported",
                    ];
                    cred_objects(&at, &s.cred, &more, &mut out);
                    for (j, d) in s.display.iter().flatten().enumerate() {
                        let at = format!("{at}/display/{j}");
                        if d.logo.is_some() {
                            out.push(object(format!("{at}/logo"), &[], &["url", "alt_text"], true));
                        }
                        let optional = ["locale", "logo", "description", "background_color", "text_color"];
                        out.push(object(at, &["name"], &optional, true));
                    }
                }
            }
            Document::Offer { offer, without_grants } => {
                out.push(object(String::new(), &["credential_issuer", "credentials"], &[], true));
                for (i, c) in offer.creds.iter().enumerate() {
                    if let CredRef::Inline(c) = c {
                        cred_objects(&format!("/credentials/{i}"), c, &[], &mut out);
                    }
                }
                if offer.auth.is_some() {
                    out.push(object("/grants/authorization_code".into(), &[], &["issuer_state"], true));
                }
                if offer.pre.is_some() {
                    let at = "/grants/urn:ietf:params:oauth:grant-type:pre-authorized_code";
                    out.push(object(at.into(), &["pre-authorized_code"], &["user_pin_required"], true));
                }
                if offer.auth.is_some() || offer.pre.is_some() || !without_grants {
                    let optional = ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"];
                    out.push(object("/grants".into(), &[], &optional, true));
                }
            }
            Document::Cred(c) => cred_objects("", c, &[], &mut out),
            Document::Request(r) => {
                cred_objects("", &r.cred, &["proof"], &mut out);
                if r.proof.is_some() {
                    // `proof_type` has a default in this library, so its absence is not tried
                    out.push(object("/proof".into(), &["jwt"], &[], true));
                }
            }
            Document::Token(_) => out.push(object(
                String::new(),
                &["access_token", "token_type"],
                &["expires_in", "scope", "c_nonce", "c_nonce_expires_in", "authorization_pending", "interval"],
                true,
            )),
        }
        out
    }

    /// Parse the text and serialise again; the fields the native type has must be those of this document
    fn through(&self, text: &str) -> Result<Value, String> {
        match self {
            Document::Meta(m) => {
                let d: CredentialIssuerMetadata = both(text)?;
                let n = m.native();
                ensure!(d.credential_issuer == n.credential_issuer, "credential_issuer is {:?}", d.credential_issuer);
                ensure!(
                    d.authorization_server == n.authorization_server,
                    "authorization_server is {:?}",
                    d.authorization_server
                );
                ensure!(d.credential_endpoint == n.credential_endpoint, "the endpoint is {:?}", d.credential_endpoint);
                ensure!(
                    d.batch_credential_endpoint == n.batch_credential_endpoint,
                    "the batch endpoint is {:?}",
                    d.batch_credential_endpoint
                );
                ensure!(
                    d.credentials_supported == n.credentials_supported,
                    "the credentials are {:?} instead of {:?}",
                    d.credentials_supported,
                    n.credentials_supported
                );
                ensure!(
                    d.additional_fields.clone().unwrap_or_default() == n.additional_fields.unwrap_or_default(),
                    "the additional fields are {:?}",
                    d.additional_fields
                );
                wire(&d)
            }
            Document::Offer { offer, .. } => {
                let d: CredentialOffer = both(text)?;
                let n = offer.native();
                ensure!(d == n, "parsed as {d:?} instead of {n:?}");
                wire(&d)
            }
            Document::Cred(c) => {
                let d: CredentialFormatProfile = both(text)?;
                let n = c.native();
                ensure!(d == n, "parsed as {d:?} instead of {n:?}");
                wire(&d)
            }
            Document::Request(r) => {
                let d: CredentialRequest = both(text)?;
                let n = r.native();
                ensure!(d.format == n.format, "the credential is {:?} instead of {:?}", d.format, n.format);
                let proof = |r: &CredentialRequest| r.proof.as_ref().map(|p| (p.proof_type.clone(), p.jwt.clone()));
                ensure!(proof(&d) == proof(&n), "the proof is {:?} instead of {:?}", d.proof, n.proof);
                wire(&d)
            }
            Document::Token(t) => {
                let d: AccessTokenSuccessResponse = both(text)?;
                ensure!(
                    (&d.access_token, d.expires_in, &d.scope, &d.c_nonce, d.c_nonce_expires_in, d.interval)
                        == (&t.access_token, t.expires_in, &t.scope, &t.c_nonce, t.c_nonce_expires_in, t.interval)
                        && d.authorization_pending == t.authorization_pending,
                    "parsed as {d:?}"
                );
                wire(&d)
            }
        }
    }

    fn parses(&self, text: &str) -> bool {
        match self {
            Document::Meta(_) => either::<CredentialIssuerMetadata>(text),
            Document::Offer { .. } => either::<CredentialOffer>(text),
            Document::Cred(_) => either::<CredentialFormatProfile>(text),
            Document::Request(_) => either::<CredentialRequest>(text),
            Document::Token(_) => either::<AccessTokenSuccessResponse>(text),
        }
    }

    /// Serialise the native form
    fn native_wire(&self) -> Result<Option<Value>, String> {
        match self {
            Document::Meta(m) => wire(&m.native()),
            Document::Offer { offer, .. } => wire(&offer.native()),
            Document::Cred(c) => wire(&c.native()),
            Document::Request(r) => wire(&r.native()),
            Document::Token(_) => return Ok(None),
        }
        .map(Some)
    }

    /// What a serialised document says, in one form: optional members that are null are absent, and so are the
    /// members listed in `ignored` of the objects at these pointers
    fn normal(&self, v: &Value, ignored: &[(String, String)]) -> Value {
        let mut v = v.clone();
        for (pointer, name) in ignored {
            if let Some(m) = v.pointer_mut(pointer).and_then(Value::as_object_mut) {
                m.remove(name);
            }
        }
        let kept: Map<String, Value> = match self {
            Document::Meta(m) => {
                let top = v.as_object_mut();
                m.extra.keys().filter_map(|k| Some((k.clone(), top.as_ref()?.get(k)?.clone()))).collect()
            }
            _ => Map::new(),
        };
        let mut v = enc::without_nulls(&v);
        if let Some(m) = v.as_object_mut() {
            m.extend(kept);
            match self {
                Document::Offer { .. } => {
                    m.entry("grants").or_insert_with(|| json!({}));
                }
                Document::Token(_) => {
                    if let Some(Value::String(t)) = m.get_mut("token_type") {
                        t.make_ascii_lowercase();
                    }
                }
                _ => {}
            }
        }
        v
    }

    /// The document without nested claims
    fn flat(&self) -> Document {
        let mut flat = self.clone();
        let creds: Vec<&mut Cred> = match &mut flat {
            Document::Meta(m) => m.supported.iter_mut().map(|s| &mut s.cred).collect(),
            Document::Offer { offer, .. } => offer
                .creds
                .iter_mut()
                .filter_map(|c| match c {
                    CredRef::Inline(c) => Some(c),
                    CredRef::Id(_) => None,
                })
                .collect(),
            Document::Cred(c) => vec![c],
            Document::Request(r) => vec![&mut r.cred],
            Document::Token(_) => vec![],
        };
        for cred in creds {
            for claim in cred.claims.iter_mut().flat_map(|c| c.values_mut()) {
                claim.nested.clear();
            }
        }
        flat
    }
}

/// Parse text and, separately, its JSON value
fn both<T: DeserializeOwned + Serialize>(text: &str) -> Result<T, String> {
    let d: T = serde_json::from_str(text).map_err(|e| format!("{text} cannot be parsed: {e}"))?;
    let value: Value = serde_json::from_str(text).map_err(|e| format!("harness: {text}: {e}"))?;
    let e: T = serde_json::from_value(value).map_err(|e| format!("{text} as a value cannot be parsed: {e}"))?;
    let f: T = serde_json::from_slice(text.as_bytes()).map_err(|e| format!("{text} as bytes cannot be parsed: {e}"))?;
    let (a, b, c) = (wire(&d)?, wire(&e)?, wire(&f)?);
    ensure!(a == b && b == c, "parsed from text as {a}, from a value as {b}, from bytes as {c}");
    Ok(d)
}

fn either<T: DeserializeOwned>(text: &str) -> bool {
    serde_json::from_str::<T>(text).is_ok()
        || serde_json::from_str::<Value>(text).is_ok_and(|v| serde_json::from_value::<T>(v).is_ok())
}

/// Write with the members of every object in an order given by the seed
fn write(v: &Value, style: Style, seed: u64, out: &mut String) {
    match v {
        Value::Object(m) => {
            let key = |name: &String| {
                #[allow(deprecated)]
                let mut h = std::hash::SipHasher::new();
                (seed, name).hash(&mut h);
                (if seed == 0 { 0 } else { h.finish() }, name.clone())
            };
            let mut members: Vec<(&String, &Value)> = m.iter().collect();
            members.sort_by_key(|(n, _)| key(n));
            out.push('{');
            for (i, (n, v)) in members.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                enc::write_value(out, &json!(n), style);
                out.push(':');
                write(v, style, seed, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(v, style, seed, out);
            }
            out.push(']');
        }
        v => enc::write_value(out, v, style),
    }
}

// ------------------------------------------------------------------------------------------------ round trips

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct RoundCase {
    pub doc: Document,
    pub style: Style,
    pub order: u64,
    /// unknown members: which object, name, value
    pub unknown: Vec<(u16, String, Value)>,
    /// absent optional members written as null: which object, which member
    pub nulls: Vec<(u16, u16)>,
}

fn documents() -> S<Document> {
    prop_oneof![
        3 => gen::meta_with(gen::deep_cred()).prop_map(Document::Meta),
        3 => (gen::offer_with(gen::deep_cred()), any::<bool>())
            .prop_map(|(offer, without_grants)| Document::Offer { offer, without_grants }),
        3 => gen::deep_cred().prop_map(Document::Cred),
        2 => (gen::deep_cred(), prop::option::weighted(0.7, eval::case(Focus::Signature)))
            .prop_map(|(cred, case)| Document::Request(Request { cred, proof: case.and_then(|c| c.request.proof) })),
        2 => token_cases().prop_map(Document::Token),
    ]
    .boxed()
}

fn unknown_name() -> S<String> {
    prop_oneof![
        2 => gen::text().prop_map(|s| format!("x-{s}")),
        1 => select(vec!["issuer", "vct", "credential_definition", "credentialSubjects", "TYPES", "Id", "ids", "Proof",
            "refresh_token", "c_nonce_expires", "error", "scopes", "credential_configuration_ids", "tx_code",
            "context", "cwt", "ldp_vp", "uri", "secondary_image"]).prop_map(str::to_owned),
    ]
    .boxed()
}

fn round_cases() -> S<RoundCase> {
    (
        documents(),
        gen::style(),
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
        prop_oneof![2 => Just(vec![]), 1 => vec((any::<u16>(), unknown_name(), gen::json_value_null()), 1..4)],
        prop_oneof![2 => Just(vec![]), 1 => vec(any::<(u16, u16)>(), 1..4)],
    )
        .prop_map(|(doc, style, order, unknown, nulls)| RoundCase { doc, style, order, unknown, nulls })
        .boxed()
}

fn c19_round(c: &RoundCase, cx: &mut Cx) -> Verdict {
    cx.nontrivial();
    cx.label(c.doc.name());
    let plain = c.doc.json();
    let mut given = plain.clone();
    let objects = c.doc.objects();
    let mut ignored = vec![];
    let open: Vec<&Object> = objects.iter().filter(|o| o.open).collect();
    for (i, name, value) in &c.unknown {
        let Some(o) = open.get(usize::from(*i) % open.len().max(1)) else { continue };
        let Some(m) = given.pointer_mut(&o.pointer).and_then(Value::as_object_mut) else { continue };
        if !m.contains_key(name) && !o.optional.contains(&name.as_str()) {
            m.insert(name.clone(), value.clone());
            ignored.push((o.pointer.clone(), name.clone()));
        }
    }
    let mut nulls = 0;
    for (i, j) in &c.nulls {
        let o = &objects[usize::from(*i) % objects.len()];
        if o.optional.is_empty() {
            continue;
        }
        let name = o.optional[usize::from(*j) % o.optional.len()];
        let Some(m) = given.pointer_mut(&o.pointer).and_then(Value::as_object_mut) else { continue };
        if !m.contains_key(name) {
            m.insert(name.to_owned(), Value::Null);
            nulls += 1;
        }
    }
    cx.label_if(!ignored.is_empty(), "with unknown members");
    cx.label_if(nulls > 0, "with null members");
    cx.label_if(c.doc.has_nested(), "with nested claims");
    cx.label_if(matches!(&c.doc, Document::Meta(m) if !m.extra.is_empty()), "with additional metadata");

    let mut text = String::new();
    write(&given, c.style, c.order, &mut text);
    let sent = c.doc.through(&text).map_err(|e| format!("{e}\nfrom {text}"))?;
    let again = c.doc.through(&sent.to_string()).map_err(|e| format!("the second time: {e}\nfrom {sent}"))?;
    ensure!(again == sent, "serialised as {sent}, after parsing that as {again}");

    let mut native = vec![("from JSON", sent)];
    if let Some(n) = c.doc.native_wire()? {
        native.push(("from the native form", n));
    }
    let expected = c.doc.normal(&plain, &[]);
    for (how, sent) in native {
        let got = c.doc.normal(&sent, &ignored);
        if got == expected {
            continue;
        }
        let message = format!("{how} serialised as {sent} instead of {expected}");
        let flat = c.doc.flat();
        if c.doc.has_nested() && got == flat.normal(&flat.json(), &[]) {
            cx.known("K3", message)?;
        } else {
            return Err(message);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ rejections

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Break {
    /// mandatory member removed (or null)
    Remove { object: u16, member: u16, null: bool },
    /// a format that is not one of the four
    Format { object: u16, format: gen::Rel },
    /// a value of another JSON type
    Type { at: u16, with: u8 },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct BreakCase {
    pub doc: Document,
    pub how: Break,
    pub order: u64,
}

fn break_cases() -> S<BreakCase> {
    let format = prop_oneof![
        3 => gen::differing(),
        2 => select(vec!["jwt_vc", "vc+sd-jwt", "JWT_VC_JSON", "jwt_vc_json_ld", "jwt-vc-json", "ldp_vp", "ldp_vc ", "mdoc",
            "MsoMdoc", "JwtVcJson", "mso-mdoc", "jwt_vp_json", "ac_vc"]).prop_map(|s| gen::Rel::Other(s.to_owned())),
    ];
    let how = prop_oneof![
        2 => (any::<u16>(), any::<u16>(), prop::bool::weighted(0.3))
            .prop_map(|(object, member, null)| Break::Remove { object, member, null }),
        1 => (any::<u16>(), format).prop_map(|(object, format)| Break::Format { object, format }),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(at, with)| Break::Type { at, with }),
    ];
    (documents(), how, any::<u64>()).prop_map(|(doc, how, order)| BreakCase { doc, how, order }).boxed()
}

/// Values that the member cannot have
fn wrong(v: &Value, may_be_object: bool) -> Vec<Value> {
    match v {
        Value::String(_) => {
            let mut w = vec![json!(1), json!(7), json!(true), json!([]), json!(["x"]), json!(0.5)];
            if !may_be_object {
                w.extend([json!({}), json!({"a": "b"})]);
            }
            w
        }
        Value::Bool(_) => vec![json!("true"), json!(1), json!(0), json!([]), json!({}), json!("")],
        Value::Number(_) => {
            vec![json!("1"), json!(-1), json!(4_294_967_296u64), json!(1.5), json!([]), json!({}), json!(true)]
        }
        Value::Array(_) => vec![json!("x"), json!(1), json!({}), json!(false)],
        // (a struct may be read from an array)
        Value::Object(_) => vec![json!(1), json!(true), json!(0.5)],
        Value::Null => vec![],
    }
}

/// Places with a value of a fixed type: pointer, and whether an object is also allowed there
fn typed(objects: &[Object], v: &Value) -> Vec<(String, bool)> {
    fn walk(at: String, v: &Value, refs: bool, out: &mut Vec<(String, bool)>) {
        match v {
            Value::Array(a) => {
                for (i, v) in a.iter().enumerate() {
                    if !v.is_object() {
                        walk(format!("{at}/{i}"), v, refs, out);
                    } else {
                        out.push((format!("{at}/{i}"), refs));
                    }
                }
                out.push((at, false));
            }
            _ => out.push((at, refs)),
        }
    }
    let mut out = vec![];
    for o in objects {
        let Some(m) = v.pointer(&o.pointer).and_then(Value::as_object) else { continue };
        for name in o.mandatory.iter().chain(&o.optional) {
            if let Some(v) = m.get(*name) {
                let refs = matches!(*name, "credentials" | "@context");
                walk(format!("{}/{}", o.pointer, escape(name)), v, refs, &mut out);
            }
        }
    }
    out
}

fn c19_break(c: &BreakCase, cx: &mut Cx) -> Verdict {
    let doc = c.doc.flat();
    let mut v = doc.json();
    let objects = doc.objects();
    let mut numbered_format = false;
    let what = match &c.how {
        Break::Remove { object, member, null } => {
            let with: Vec<&Object> = objects.iter().filter(|o| !o.mandatory.is_empty()).collect();
            let o = with[usize::from(*object) % with.len()];
            let name = o.mandatory[usize::from(*member) % o.mandatory.len()];
            let m = v.pointer_mut(&o.pointer).and_then(Value::as_object_mut).ok_or("harness: pointer")?;
            if *null {
                m.insert(name.to_owned(), Value::Null);
            } else {
                m.remove(name);
            }
            cx.label("mandatory member missing");
            format!("without the member {name} of {:?}", o.pointer)
        }
        Break::Format { object, format } => {
            let with: Vec<&Object> = objects.iter().filter(|o| o.mandatory.contains(&"format")).collect();
            if with.is_empty() {
                return Ok(());
            }
            let o = with[usize::from(*object) % with.len()];
            let m = v.pointer_mut(&o.pointer).and_then(Value::as_object_mut).ok_or("harness: pointer")?;
            let name = format.apply(m["format"].as_str().unwrap_or_default());
            if ["jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"].contains(&name.as_str()) {
                return Ok(());
            }
            m.insert("format".into(), json!(name));
            cx.label("unknown format");
            format!("with the format {name:?}")
        }
        Break::Type { at, with } => {
            let places = typed(&objects, &v);
            if places.is_empty() {
                return Ok(());
            }
            let (pointer, may_be_object) = &places[usize::from(*at) % places.len()];
            let place = v.pointer_mut(pointer).ok_or("harness: pointer")?;
            let wrong = wrong(place, *may_be_object);
            if wrong.is_empty() {
                return Ok(());
            }
            *place = wrong[usize::from(*with) % wrong.len()].clone();
            cx.label("value of the wrong type");
            numbered_format = pointer.ends_with("/format")
                && objects.iter().any(|o| o.mandatory.contains(&"format") && format!("{}/format", o.pointer) == *pointer)
                && place.as_u64().is_some_and(|n| n < 4);
            format!("with {place} as {pointer}")
        }
    };
    cx.nontrivial();
    cx.label(doc.name());
    let mut text = String::new();
    write(&v, Style::PLAIN, c.order, &mut text);
    if doc.parses(&text) {
        let message = format!("a {} {what} is parsed: {text}", doc.name());
        return if numbered_format { cx.known("K4", message) } else { Err(message) };
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C19",
        rule: "metadata, offers, credential descriptions, requests and token responses with any subset of optional members, any texts, formats and member order, nested claims, unknown and null members; and the same documents with one mandatory member missing, one unknown format or one value of another type. Non-trivial: all but the broken cases in which nothing could be broken",
        suites: vec![
            Suite { name: "round", cases: 50_000, strategy: round_cases, check: c19_round }.boxed(),
            Suite { name: "break", cases: 50_000, strategy: break_cases, check: c19_break }.boxed(),
        ],
        assumptions: &[
            "an optional member that is null counts as absent",
            "a token type is case insensitive, and grants that are absent count as empty",
            "whether a JSON array is accepted where an object is expected is left open",
        ],
        isolated: false,
    }]
}
