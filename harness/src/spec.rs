//! Abstract cases: what the issuer configured and what the wallet sent, independent of the library's types, with a
//! rendering to JSON (written here) and to the library's native types.

use crate::enc::{self, Style};
use chrono::{DateTime, NaiveDateTime, Utc};
use openid4vci::access_token::{AccessTokenRequest, EvaluateAccessTokenRequestOptions};
use openid4vci::credential_issuer as ci;
use openid4vci::types::credential as cred;
use openid4vci::types::credential_issuer_metadata as meta;
use openid4vci::types::credential_request as creq;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

/// A point in time, seconds and nanoseconds since the epoch
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Inst(pub i64, pub u32);

impl Inst {
    pub fn chrono(self) -> DateTime<Utc> {
        let naive = NaiveDateTime::from_timestamp_opt(self.0, self.1).expect("instant out of range");
        DateTime::<Utc>::from_utc(naive, Utc)
    }

    pub fn total_ns(self) -> i128 {
        i128::from(self.0) * 1_000_000_000 + i128::from(self.1)
    }

    pub fn from_ns(ns: i128) -> Inst {
        let (lo, hi) = (Inst::MIN.total_ns(), Inst::MAX.total_ns());
        let ns = ns.clamp(lo, hi);
        Inst(ns.div_euclid(1_000_000_000) as i64, ns.rem_euclid(1_000_000_000) as u32)
    }

    /// The range of chrono's `DateTime<Utc>`
    pub const MAX: Inst = Inst(8_210_298_412_799, 999_999_999);
    pub const MIN: Inst = Inst(-8_334_632_851_200, 0);
    /// The range of RFC 3339 text (years 0000 to 9999)
    pub const TEXT_MAX: Inst = Inst(253_402_300_799, 999_999_999);
    pub const TEXT_MIN: Inst = Inst(-62_167_219_200, 0);

    pub fn same(self, other: DateTime<Utc>) -> bool {
        (self.0, self.1) == (other.timestamp(), other.timestamp_subsec_nanos())
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Disp {
    pub name: Option<String>,
    pub locale: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
pub struct Claim {
    pub mandatory: Option<bool>,
    pub value_type: Option<String>,
    pub display: Option<Vec<Disp>>,
    /// nested claims; not representable in the library's native types
    #[serde(default)]
    pub nested: BTreeMap<String, Claim>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Ctx {
    Text(String),
    Map(BTreeMap<String, Value>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    JwtVcJson,
    JwtVcJsonLd,
    LdpVc,
    MsoMdoc,
}

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::JwtVcJson => "jwt_vc_json",
            Kind::JwtVcJsonLd => "jwt_vc_json-ld",
            Kind::LdpVc => "ldp_vc",
            Kind::MsoMdoc => "mso_mdoc",
        }
    }
}

/// A credential description
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Cred {
    pub kind: Kind,
    pub types: Vec<String>,
    pub context: Vec<Ctx>,
    pub doctype: String,
    pub claims: Option<BTreeMap<String, Claim>>,
    pub order: Option<Vec<String>>,
}

fn put(m: &mut Map<String, Value>, name: &str, value: Option<impl Into<Value>>) {
    if let Some(v) = value {
        m.insert(name.to_owned(), v.into());
    }
}

impl Disp {
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        put(&mut m, "name", self.name.clone());
        put(&mut m, "locale", self.locale.clone());
        Value::Object(m)
    }
}

impl Claim {
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        for (k, c) in &self.nested {
            m.insert(k.clone(), c.json());
        }
        put(&mut m, "mandatory", self.mandatory);
        put(&mut m, "value_type", self.value_type.clone());
        put(&mut m, "display", self.display.as_ref().map(|d| d.iter().map(Disp::json).collect::<Vec<_>>()));
        Value::Object(m)
    }

    pub fn native(&self) -> cred::CredentialSubject {
        cred::CredentialSubject {
            mandatory: self.mandatory,
            value_type: self.value_type.clone(),
            display: self.display.as_ref().map(|d| {
                d.iter()
                    .map(|d| cred::CredentialSubjectDisplay { name: d.name.clone(), locale: d.locale.clone() })
                    .collect()
            }),
        }
    }

    pub fn has_nested(&self) -> bool {
        !self.nested.is_empty()
    }
}

impl Ctx {
    pub fn json(&self) -> Value {
        match self {
            Ctx::Text(t) => json!(t),
            Ctx::Map(m) => json!(m),
        }
    }
}

impl Cred {
    /// The members the specification defines for this credential description
    pub fn members(&self) -> Map<String, Value> {
        let mut m = Map::new();
        m.insert("format".into(), json!(self.kind.name()));
        let claims = self
            .claims
            .as_ref()
            .map(|c| Value::Object(c.iter().map(|(k, v)| (k.clone(), v.json())).collect()));
        match self.kind {
            Kind::MsoMdoc => {
                m.insert("doctype".into(), json!(self.doctype));
                put(&mut m, "claims", claims);
            }
            _ => {
                if self.kind == Kind::LdpVc {
                    m.insert("@context".into(), self.context.iter().map(Ctx::json).collect());
                }
                m.insert("types".into(), json!(self.types));
                put(&mut m, "credentialSubject", claims);
            }
        }
        put(&mut m, "order", self.order.clone());
        m
    }

    pub fn json(&self) -> Value {
        Value::Object(self.members())
    }

    pub fn native(&self) -> cred::CredentialFormatProfile {
        use cred::CredentialFormatProfile as P;
        let claims = self.claims.as_ref().map(|c| c.iter().map(|(k, v)| (k.clone(), v.native())).collect());
        let (types, order) = (self.types.clone(), self.order.clone());
        match self.kind {
            Kind::JwtVcJson => P::JwtVcJson { types, credential_subject: claims, order },
            Kind::JwtVcJsonLd => P::JwtVcJsonLd { types, credential_subject: claims, order },
            Kind::LdpVc => P::LdpVc {
                context: self
                    .context
                    .iter()
                    .map(|c| match c {
                        Ctx::Text(t) => cred::LinkedDataContext::String(t.clone()),
                        Ctx::Map(m) => {
                            cred::LinkedDataContext::Map(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
                        }
                    })
                    .collect(),
                types,
                credential_subject: claims,
                order,
            },
            Kind::MsoMdoc => P::MsoMdoc { doctype: self.doctype.clone(), claims, order },
        }
    }

    pub fn has_nested(&self) -> bool {
        self.claims.iter().flatten().any(|(_, c)| c.has_nested())
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Logo {
    pub url: Option<String>,
    pub alt_text: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Display {
    pub name: String,
    pub locale: Option<String>,
    pub logo: Option<Logo>,
    pub description: Option<String>,
    pub background_color: Option<String>,
    pub text_color: Option<String>,
}

/// An entry of the supported credentials
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Supported {
    pub cred: Cred,
    pub id: Option<String>,
    pub binding: Option<Vec<String>>,
    pub suites: Option<Vec<String>>,
    pub display: Option<Vec<Display>>,
}

/// Issuer metadata
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Meta {
    pub issuer: String,
    pub authorization_server: Option<String>,
    pub endpoint: String,
    pub batch_endpoint: Option<String>,
    pub supported: Vec<Supported>,
    pub extra: BTreeMap<String, Value>,
}

impl Display {
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("name".into(), json!(self.name));
        put(&mut m, "locale", self.locale.clone());
        put(
            &mut m,
            "logo",
            self.logo.as_ref().map(|l| {
                let mut m = Map::new();
                put(&mut m, "url", l.url.clone());
                put(&mut m, "alt_text", l.alt_text.clone());
                Value::Object(m)
            }),
        );
        put(&mut m, "description", self.description.clone());
        put(&mut m, "background_color", self.background_color.clone());
        put(&mut m, "text_color", self.text_color.clone());
        Value::Object(m)
    }

    pub fn native(&self) -> meta::DisplayProperties {
        meta::DisplayProperties {
            name: self.name.clone(),
            locale: self.locale.clone(),
            logo: self
                .logo
                .as_ref()
                .map(|l| meta::DisplayLogo { url: l.url.clone(), alt_text: l.alt_text.clone() }),
            description: self.description.clone(),
            background_color: self.background_color.clone(),
            text_color: self.text_color.clone(),
        }
    }
}

impl Supported {
    pub fn json(&self) -> Value {
        let mut m = self.cred.members();
        put(&mut m, "id", self.id.clone());
        put(&mut m, "cryptographic_binding_methods_supported", self.binding.clone());
        put(&mut m, "cryptographic_suites_supported", self.suites.clone());
        put(&mut m, "display", self.display.as_ref().map(|d| d.iter().map(Display::json).collect::<Vec<_>>()));
        Value::Object(m)
    }

    pub fn native(&self) -> meta::CredentialSupported {
        meta::CredentialSupported {
            format: self.cred.native(),
            id: self.id.clone(),
            cryptographic_binding_mehtods_supported: self.binding.clone(),
            cryptographic_suites_supported: self.suites.clone(),
            display: self.display.as_ref().map(|d| d.iter().map(Display::native).collect()),
        }
    }
}

impl Meta {
    pub fn json(&self) -> Value {
        let mut m: Map<String, Value> = self.extra.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        m.insert("credential_issuer".into(), json!(self.issuer));
        put(&mut m, "authorization_server", self.authorization_server.clone());
        m.insert("credential_endpoint".into(), json!(self.endpoint));
        put(&mut m, "batch_credential_endpoint", self.batch_endpoint.clone());
        m.insert("credentials_supported".into(), self.supported.iter().map(Supported::json).collect());
        Value::Object(m)
    }

    pub fn native(&self) -> meta::CredentialIssuerMetadata {
        meta::CredentialIssuerMetadata {
            credential_issuer: self.issuer.clone(),
            authorization_server: self.authorization_server.clone(),
            credential_endpoint: self.endpoint.clone(),
            batch_credential_endpoint: self.batch_endpoint.clone(),
            credentials_supported: self.supported.iter().map(Supported::native).collect(),
            additional_fields: if self.extra.is_empty() {
                None
            } else {
                Some(self.extra.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
            },
        }
    }

    pub fn ids(&self) -> impl Iterator<Item = &String> {
        self.supported.iter().filter_map(|s| s.id.as_ref())
    }

    /// No two entries share an id
    pub fn ids_unique(&self) -> bool {
        let ids: Vec<&String> = self.ids().collect();
        let mut sorted = ids.clone();
        sorted.sort();
        sorted.dedup();
        sorted.len() == ids.len()
    }
}

/// A credential or a reference to one
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum CredRef {
    Id(String),
    Inline(Cred),
}

impl CredRef {
    pub fn json(&self) -> Value {
        match self {
            CredRef::Id(s) => json!(s),
            CredRef::Inline(c) => c.json(),
        }
    }

    pub fn native(&self) -> ci::CredentialOrId {
        match self {
            CredRef::Id(s) => ci::CredentialOrId::CredentialId(s.clone()),
            CredRef::Inline(c) => ci::CredentialOrId::Credential(c.native()),
        }
    }
}

/// Pre-authorized grant
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Pre {
    pub code: String,
    pub pin_required: Option<bool>,
}

impl Pre {
    pub fn native(&self) -> ci::PreAuthorizedCodeFlow {
        ci::PreAuthorizedCodeFlow { code: self.code.clone(), user_pin_required: self.pin_required }
    }

    pub fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("pre-authorized_code".into(), json!(self.code));
        put(&mut m, "user_pin_required", self.pin_required);
        Value::Object(m)
    }
}

/// Authorization-code grant
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Auth {
    pub issuer_state: Option<String>,
}

impl Auth {
    pub fn native(&self) -> ci::AuthorizedCodeFlow {
        ci::AuthorizedCodeFlow { issuer_state: self.issuer_state.clone() }
    }

    pub fn json(&self) -> Value {
        let mut m = Map::new();
        put(&mut m, "issuer_state", self.issuer_state.clone());
        Value::Object(m)
    }
}

/// A credential offer
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Offer {
    pub issuer: String,
    pub creds: Vec<CredRef>,
    pub auth: Option<Auth>,
    pub pre: Option<Pre>,
}

impl Offer {
    pub fn json(&self) -> Value {
        let mut grants = Map::new();
        put(&mut grants, "authorization_code", self.auth.as_ref().map(Auth::json));
        put(
            &mut grants,
            "urn:ietf:params:oauth:grant-type:pre-authorized_code",
            self.pre.as_ref().map(Pre::json),
        );
        json!({
            "credential_issuer": self.issuer,
            "credentials": self.creds.iter().map(CredRef::json).collect::<Vec<_>>(),
            "grants": grants,
        })
    }

    pub fn native(&self) -> ci::CredentialOffer {
        ci::CredentialOffer {
            credential_issuer: self.issuer.clone(),
            credentials: ci::CredentialOrIds::new(self.creds.iter().map(CredRef::native).collect()),
            grants: ci::CredentialOfferGrants {
                authorized_code_flow: self.auth.as_ref().map(Auth::native),
                pre_authorized_code_flow: self.pre.as_ref().map(Pre::native),
            },
        }
    }
}

/// A token request
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TokenReq {
    AuthCode,
    Pre { code: String, pin: Option<u64> },
}

impl TokenReq {
    pub fn native(&self) -> AccessTokenRequest {
        let grant = match self {
            TokenReq::AuthCode => json!({"grant_type": "authorization_code"}),
            TokenReq::Pre { code, pin } => json!({
                "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code",
                "pre_authorized_code": code,
                "user_pin": pin,
            }),
        };
        serde_json::from_value(json!({ "grant_type": grant })).expect("token request")
    }
}

/// `None`: no options; `Some(None)`: options without a PIN
pub fn token_options(expected: Option<Option<u64>>) -> Option<EvaluateAccessTokenRequestOptions> {
    expected.map(|pin| serde_json::from_value(json!({ "expected_user_pin": pin })).expect("token options"))
}

/// How a time is written
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum TimeForm {
    /// RFC 3339 text with the given offset in minutes (0 as `Z`)
    Text { offset: i16 },
    /// NumericDate (an integer when there are no nanoseconds, else with a fraction)
    Number,
}

/// A time as the wallet writes it
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct Time {
    pub at: Inst,
    pub form: TimeForm,
}

impl Time {
    /// Force the combination of instant and form to one that can be written exactly
    pub fn new(mut at: Inst, mut form: TimeForm) -> Time {
        if at < Inst::TEXT_MIN || at > Inst::TEXT_MAX {
            form = TimeForm::Number;
        }
        match form {
            TimeForm::Number => {
                // keep quarters of a second, which are exact as floating point
                at.1 = if at.0.unsigned_abs() < (1 << 50) { at.1 / 250_000_000 * 250_000_000 } else { 0 };
            }
            TimeForm::Text { offset } => {
                let local = at.0 + i64::from(offset) * 60;
                if local < Inst::TEXT_MIN.0 || local > Inst::TEXT_MAX.0 {
                    form = TimeForm::Text { offset: 0 };
                }
            }
        }
        Time { at, form }
    }

    pub fn json(&self) -> Value {
        match self.form {
            TimeForm::Number if self.at.1 == 0 => json!(self.at.0),
            TimeForm::Number => json!(self.at.0 as f64 + f64::from(self.at.1) / 1e9),
            TimeForm::Text { offset } => json!(rfc3339(self.at, offset)),
        }
    }
}

/// RFC 3339 text, from the civil-from-days algorithm (independent of chrono)
pub fn rfc3339(at: Inst, offset_minutes: i16) -> String {
    let local = at.0 + i64::from(offset_minutes) * 60;
    let (days, secs) = (local.div_euclid(86_400), local.rem_euclid(86_400));
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1;
    let month = if mp < 10 { mp + 3 } else { mp - 9 };
    let year = yoe + era * 400 + i64::from(month <= 2);
    let fraction = if at.1 == 0 {
        String::new()
    } else {
        let digits = format!("{:09}", at.1);
        format!(".{}", digits.trim_end_matches('0'))
    };
    let zone = if offset_minutes == 0 {
        "Z".to_owned()
    } else {
        let sign = if offset_minutes < 0 { '-' } else { '+' };
        let o = offset_minutes.unsigned_abs();
        format!("{sign}{:02}:{:02}", o / 60, o % 60)
    };
    format!(
        "{year:04}-{month:02}-{day:02}T{:02}:{:02}:{:02}{fraction}{zone}",
        secs / 3600,
        secs / 60 % 60,
        secs % 60
    )
}

/// How the proof names its key
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct KeyRef {
    pub kid: Option<String>,
    pub jwk: Option<Value>,
    pub x5c: Option<Value>,
}

impl KeyRef {
    pub fn count(&self) -> usize {
        usize::from(self.kid.is_some()) + usize::from(self.jwk.is_some()) + usize::from(self.x5c.is_some())
    }
}

/// A proof as the wallet builds it
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Proof {
    pub proof_type: String,
    pub typ: String,
    pub alg: String,
    pub key: KeyRef,
    pub iss: Option<String>,
    pub aud: String,
    pub sub: Option<String>,
    pub iat: Time,
    pub nonce: String,
    pub nbf: Option<Time>,
    pub exp: Option<Time>,
    /// members without a meaning to the library
    pub extra_header: BTreeMap<String, Value>,
    pub extra_body: BTreeMap<String, Value>,
    /// sort keys that determine the order of the members
    pub order: Vec<u8>,
    pub style: Style,
    /// third segment
    pub signature: Option<String>,
}

/// Every algorithm name the library knows, and whether it is a digital signature
pub const ALGORITHMS: [(&str, bool); 16] = [
    ("EdDSA", true),
    ("ES256", true),
    ("ES384", true),
    ("ES512", true),
    ("ES256K", true),
    ("RS256", true),
    ("RS384", true),
    ("RS512", true),
    ("PS256", true),
    ("PS384", true),
    ("PS512", true),
    ("HS256", false),
    ("HS384", false),
    ("HS512", false),
    ("ECDH-ES", false),
    ("none", false),
];

fn arrange(mut members: Vec<(String, Value)>, order: &[u8]) -> Vec<(String, Value)> {
    let mut keyed: Vec<(u8, usize, (String, Value))> = members
        .drain(..)
        .enumerate()
        .map(|(i, m)| (order.get(i).copied().unwrap_or(0), i, m))
        .collect();
    keyed.sort_by_key(|(k, i, _)| (*k, *i));
    keyed.into_iter().map(|(_, _, m)| m).collect()
}

impl Proof {
    pub fn header_members(&self) -> Vec<(String, Value)> {
        let mut m = vec![("typ".to_owned(), json!(self.typ)), ("alg".to_owned(), json!(self.alg))];
        if let Some(kid) = &self.key.kid {
            m.push(("kid".into(), json!(kid)));
        }
        if let Some(jwk) = &self.key.jwk {
            m.push(("jwk".into(), jwk.clone()));
        }
        if let Some(x5c) = &self.key.x5c {
            m.push(("x5c".into(), x5c.clone()));
        }
        m.extend(self.extra_header.clone());
        arrange(m, &self.order)
    }

    pub fn body_members(&self) -> Vec<(String, Value)> {
        let mut m = vec![
            ("aud".to_owned(), json!(self.aud)),
            ("iat".to_owned(), self.iat.json()),
            ("nonce".to_owned(), json!(self.nonce)),
        ];
        if let Some(v) = &self.iss {
            m.push(("iss".into(), json!(v)));
        }
        if let Some(v) = &self.sub {
            m.push(("sub".into(), json!(v)));
        }
        if let Some(v) = &self.nbf {
            m.push(("nbf".into(), v.json()));
        }
        if let Some(v) = &self.exp {
            m.push(("exp".into(), v.json()));
        }
        m.extend(self.extra_body.clone());
        let order = self.order.get(3..).unwrap_or(&[]);
        arrange(m, order)
    }

    /// The JWS signing input: the first two segments
    pub fn signing_input(&self) -> String {
        let header = enc::write_object(&self.header_members(), self.style);
        let body = enc::write_object(&self.body_members(), self.style);
        format!("{}.{}", enc::b64url(header.as_bytes()), enc::b64url(body.as_bytes()))
    }

    /// Compact form
    pub fn compact(&self) -> String {
        match &self.signature {
            Some(s) => format!("{}.{s}", self.signing_input()),
            None => self.signing_input(),
        }
    }

    pub fn alg_is_known(&self) -> bool {
        ALGORITHMS.iter().any(|(n, _)| *n == self.alg)
    }

    pub fn alg_is_signature(&self) -> bool {
        ALGORITHMS.iter().any(|(n, s)| *n == self.alg && *s)
    }

    pub fn native(&self) -> creq::CredentialRequestProof {
        creq::CredentialRequestProof { proof_type: self.proof_type.clone(), jwt: self.compact() }
    }

    pub fn json(&self) -> Value {
        json!({"proof_type": self.proof_type, "jwt": self.compact()})
    }
}

/// Key material in a verification method
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum KeyMaterial {
    /// `publicKeyJwk`, written as is
    Jwk(Value),
    /// `publicKeyBase58` of these bytes
    Base58(Vec<u8>),
    /// `publicKeyHex` of these bytes, with `0x` if set
    Hex(Vec<u8>, bool),
    /// `publicKeyMultibase` of these bytes in the base with this prefix (z, f, u or m)
    Multibase(Vec<u8>, char),
    /// a text member that cannot be decoded
    Garbage(String, String),
}

/// An entry of a verification relationship
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Vm {
    Embedded { id: String, type_: String, keys: Vec<KeyMaterial> },
    Reference(String),
}

pub const RELATIONSHIPS: [&str; 7] = [
    "verificationMethod",
    "authentication",
    "assertionMethod",
    "keyAgreement",
    "capabilityInvocation",
    "capabilityDelegation",
    "publicKey",
];

/// A DID document
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Doc {
    pub id: String,
    pub controller: String,
    /// (relationship index, entry), in document order
    pub vms: Vec<(u8, Vm)>,
}

impl KeyMaterial {
    fn put(&self, m: &mut Map<String, Value>) {
        match self {
            KeyMaterial::Jwk(v) => m.insert("publicKeyJwk".into(), v.clone()),
            KeyMaterial::Base58(b) => m.insert("publicKeyBase58".into(), json!(enc::b58(b))),
            KeyMaterial::Hex(b, prefix) => {
                m.insert("publicKeyHex".into(), json!(format!("{}{}", if *prefix { "0x" } else { "" }, enc::hex(b))))
            }
            KeyMaterial::Multibase(b, base) => {
                let text = match base {
                    'z' => enc::b58(b),
                    'f' => enc::hex(b),
                    'u' => enc::b64url(b),
                    _ => enc::b64std(b),
                };
                m.insert("publicKeyMultibase".into(), json!(format!("{base}{text}")))
            }
            KeyMaterial::Garbage(name, text) => m.insert(name.clone(), json!(text)),
        };
    }

    fn member(&self) -> &str {
        match self {
            KeyMaterial::Jwk(_) => "publicKeyJwk",
            KeyMaterial::Base58(_) => "publicKeyBase58",
            KeyMaterial::Hex(..) => "publicKeyHex",
            KeyMaterial::Multibase(..) => "publicKeyMultibase",
            KeyMaterial::Garbage(name, _) => name,
        }
    }
}

/// What the specification of the key says about a verification method
#[derive(Debug, Clone, PartialEq)]
pub enum KeyFact {
    /// A usable EdDSA public key
    Usable(Vec<u8>),
    /// Not usable: evaluation must fail
    Unusable,
    /// Contradictory key descriptions: either outcome, but if a key is returned it must be this one
    Either(Vec<u8>),
}

/// Is this JSON Web Key an EdDSA public key?
pub fn jwk_fact(jwk: &Value) -> KeyFact {
    let text = |name: &str| jwk.get(name).and_then(Value::as_str);
    let x = text("x").and_then(enc::unb64url);
    match (text("kty"), text("crv"), text("alg"), x) {
        (Some("OKP"), Some("Ed25519" | "Ed448"), None | Some("EdDSA"), Some(x)) => KeyFact::Usable(x),
        // declares EdDSA, but is of another type or curve
        (Some("OKP" | "EC"), _, Some("EdDSA"), Some(x)) => KeyFact::Either(x),
        _ => KeyFact::Unusable,
    }
}

impl Doc {
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("@context".into(), json!("https://www.w3.org/ns/did/v1"));
        m.insert("id".into(), json!(self.id));
        for (rel, vm) in &self.vms {
            let name = RELATIONSHIPS[usize::from(*rel) % RELATIONSHIPS.len()];
            let entry = match vm {
                Vm::Reference(r) => json!(r),
                Vm::Embedded { id, type_, keys } => {
                    let mut e = Map::new();
                    e.insert("id".into(), json!(id));
                    e.insert("type".into(), json!(type_));
                    e.insert("controller".into(), json!(self.controller));
                    for k in keys {
                        k.put(&mut e);
                    }
                    Value::Object(e)
                }
            };
            m.entry(name).or_insert_with(|| json!([])).as_array_mut().expect("array").push(entry);
        }
        Value::Object(m)
    }

    pub fn native(&self) -> openid4vci::Document {
        serde_json::from_value(self.json()).expect("DID document")
    }

    /// The facts about every embedded verification method that the key id identifies
    pub fn lookup(&self, kid: &str) -> Vec<KeyFact> {
        self.vms
            .iter()
            .filter_map(|(_, vm)| match vm {
                Vm::Embedded { id, type_, keys } if self.identifies(kid, id) => Some(vm_fact(type_, keys)),
                _ => None,
            })
            .collect()
    }

    /// Is `kid` the absolute id `id`, or is `id` a relative reference that gives `kid` for this document?
    pub fn identifies(&self, kid: &str, id: &str) -> bool {
        if kid == id {
            return true;
        }
        match kid.strip_prefix(self.id.as_str()) {
            // the empty reference is the document's id itself
            Some(rest) => (rest.is_empty() || rest.starts_with(['/', '?', '#'])) && rest == id,
            None => false,
        }
    }
}

pub fn vm_fact(type_: &str, keys: &[KeyMaterial]) -> KeyFact {
    let mut members: Vec<&str> = keys.iter().map(KeyMaterial::member).collect();
    members.sort_unstable();
    members.dedup();
    if members.len() != 1 {
        return KeyFact::Unusable;
    }
    // a later one of the same name overwrites an earlier one
    match keys.last().expect("one key") {
        KeyMaterial::Jwk(jwk) => jwk_fact(jwk),
        KeyMaterial::Garbage(..) => KeyFact::Unusable,
        KeyMaterial::Base58(b) | KeyMaterial::Hex(b, _) | KeyMaterial::Multibase(b, _) => match type_ {
            "Ed25519VerificationKey2018" if b.len() == 32 => KeyFact::Usable(b.clone()),
            "Ed25519VerificationKey2018" => KeyFact::Either(b.clone()),
            "Ed25519VerificationKey2020" if b.len() == 34 && b[..2] == [0xed, 0x01] => {
                KeyFact::Usable(b[2..].to_vec())
            }
            _ => KeyFact::Unusable,
        },
    }
}

/// A text of the form `did:<method>:<id>` followed by an optional path, query and fragment: the DID in it
pub fn did_of(kid: &str) -> Option<&str> {
    let did = &kid[..kid.find(['/', '?', '#']).unwrap_or(kid.len())];
    let rest = did.strip_prefix("did:")?;
    let (method, id) = rest.split_once(':')?;
    (!method.is_empty() && !id.is_empty()).then_some(did)
}

/// Strictly well-formed according to DID core's ABNF
pub fn is_strict_did(did: &str) -> bool {
    let Some(rest) = did.strip_prefix("did:") else { return false };
    let Some((method, id)) = rest.split_once(':') else { return false };
    let idchars = |s: &str| {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            if c == b'%' {
                if !(b.len() > i + 2 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit()) {
                    return false;
                }
                i += 3;
                continue;
            }
            if !(c.is_ascii_alphanumeric() || b".-_:".contains(&c)) {
                return false;
            }
            i += 1;
        }
        true
    };
    !method.is_empty()
        && method.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
        && !id.is_empty()
        && !id.ends_with(':')
        && idchars(id)
}

/// A credential request
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Request {
    pub cred: Cred,
    pub proof: Option<Proof>,
}

impl Request {
    pub fn native(&self) -> creq::CredentialRequest {
        creq::CredentialRequest { format: self.cred.native(), proof: self.proof.as_ref().map(Proof::native) }
    }

    pub fn json(&self) -> Value {
        let mut m = self.cred.members();
        put(&mut m, "proof", self.proof.as_ref().map(Proof::json));
        Value::Object(m)
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn times() {
        for s in [0i64, 1, -1, 951_782_400, 1_709_164_800, -62_167_219_200, 253_402_300_799, 4_107_542_399] {
            for o in [0i16, 60, -330] {
                if s + i64::from(o) * 60 < Inst::TEXT_MIN.0 || s + i64::from(o) * 60 > Inst::TEXT_MAX.0 {
                    continue;
                }
                let text = rfc3339(Inst(s, 120_000_000), o);
                let t: DateTime<Utc> = text.parse().unwrap_or_else(|e| panic!("{text}: {e}"));
                assert!(Inst(s, 120_000_000).same(t), "{text}");
            }
        }
        assert!(Inst::MAX.same(DateTime::<Utc>::MAX_UTC), "{:?}", DateTime::<Utc>::MAX_UTC.timestamp());
        assert!(Inst::MIN.same(DateTime::<Utc>::MIN_UTC), "{:?}", DateTime::<Utc>::MIN_UTC.timestamp());
    }

    #[test]
    fn dids() {
        assert_eq!(did_of("did:ex:1/p?q#f"), Some("did:ex:1"));
        assert_eq!(did_of("did:ex:"), None);
        assert!(is_strict_did("did:ex:a%20:b"));
        assert!(!is_strict_did("did:ex:a%2"));
    }
}
