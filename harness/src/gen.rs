//! Generators.

use crate::dict;
use crate::enc::Style;
use crate::spec::*;
use proptest::collection::{btree_map, vec};
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type S<T> = BoxedStrategy<T>;

// ------------------------------------------------------------------------------------------------- text

const SPECIAL: &[char] = &[
    '"', '\\', '/', '%', '&', '+', '#', '?', '=', '.', ' ', '\n', '\t', '\r', '\0', '\u{7f}', '\u{1f}', '<', '>', '{',
    '}', '[', ']', ':', ',', '\'', '`', '|', '^', '~', '@', '!', '$', '*', '(', ')', ';', '-', '_',
];

const UNICODE: &[char] = &[
    'é', 'ß', 'ı', 'İ', 'ſ', '\u{212a}', 'я', 'а', '中', '🙂', '\u{301}', '\u{200b}', '\u{feff}', '\u{2028}', '\u{a0}',
    '\u{85}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', 'Ａ', 'ﬀ', '\u{202e}',
];

pub fn ch() -> S<char> {
    prop_oneof![
        8 => proptest::char::range('a', 'z'),
        2 => proptest::char::range('0', '9'),
        2 => proptest::char::range('A', 'Z'),
        3 => select(SPECIAL),
        2 => select(UNICODE),
        1 => any::<char>(),
    ]
    .boxed()
}

fn string(chars: S<char>, n: std::ops::Range<usize>) -> S<String> {
    vec(chars, n).prop_map(|v| v.into_iter().collect()).boxed()
}

/// As many as given, seldom more, and as many as a new number in the source
pub fn list<T: std::fmt::Debug + Clone + 'static>(item: S<T>, n: std::ops::Range<usize>) -> S<Vec<T>> {
    let like = item.clone();
    prop_oneof![
        160 => vec(item.clone(), n.clone()),
        4 => vec(item.clone(), n.end..12),
        2 => vec(item, 12..36),
        dict::number_weight(0, 3) => dict::number_upto(130).prop_flat_map(move |n| vec(like.clone(), n as usize)),
    ]
    .boxed()
}

/// A map of the entries given, where names that occur twice are made different
fn entries<T>(list: Vec<(String, T)>) -> BTreeMap<String, T> {
    let mut map = BTreeMap::new();
    for (i, (mut name, item)) in list.into_iter().enumerate() {
        if map.contains_key(&name) {
            name = format!("{name}{i}");
        }
        map.insert(name, item);
    }
    map
}

pub fn map<T: std::fmt::Debug + Clone + 'static>(name: S<String>, item: S<T>, n: std::ops::Range<usize>) -> S<BTreeMap<String, T>> {
    list((name, item).boxed(), n).prop_map(entries).boxed()
}

/// Like `map`, but never of many entries, for maps in maps
pub fn small_map<T: std::fmt::Debug + Clone + 'static>(name: S<String>, item: S<T>, n: std::ops::Range<usize>) -> S<BTreeMap<String, T>> {
    vec((name, item), n).prop_map(entries).boxed()
}

/// Text around a literal of the source, or as long as a number in it
fn dictionary_text(chars: fn() -> S<char>) -> S<String> {
    // a short text repeated, as many characters of their own take long to make
    let length = (string(chars(), 1..9), dict::number_upto(3000))
        .prop_map(|(t, n)| t.chars().cycle().take(n as usize).collect::<String>());
    prop_oneof![
        3 => dict::word(),
        2 => (dict::word(), string(chars(), 0..9)).prop_map(|(w, t)| w + &t),
        2 => (string(chars(), 0..9), dict::word()).prop_map(|(t, w)| t + &w),
        1 => (string(chars(), 0..9), dict::word(), string(chars(), 0..9)).prop_map(|(t, w, u)| t + &w + &u),
        dict::number_weight(1, 5) => length,
    ]
    .boxed()
}

/// A short text repeated up to some size between 256 and 65536 characters
fn huge_text() -> S<String> {
    (string(ch(), 1..9), 8u32..17, 0.5..1.0f64)
        .prop_map(|(t, bits, part)| {
            let n = (f64::from(1u32 << bits) * part) as usize;
            t.chars().cycle().take(n).collect::<String>()
        })
        .boxed()
}

/// Words of the protocol, which mean something elsewhere
pub const PROTOCOL: &[&str] = &[
    "error", "error_description", "error_uri", "info", "warnings", "code", "name", "description", "additional_information",
    "format", "types", "doctype", "credentialSubject", "claims", "order", "display", "locale", "logo", "id", "@context",
    "jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc", "VerifiableCredential", "jwt", "proof", "proof_type",
    "openid4vci-proof+jwt", "typ", "alg", "kid", "jwk", "x5c", "none", "None", "EdDSA", "HS256", "ES256", "ECDH-ES", "iss", "aud",
    "sub", "iat", "nonce", "nbf", "exp", "c_nonce", "client_id", "Bearer", "bearer", "authorization_code", "issuer_state",
    "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code", "pre_authorized_code", "user_pin",
    "user_pin_required", "credential_offer", "credential_offer_uri", "credential_issuer", "credential", "credentials",
    "acceptance_token", "access_token", "openid-credential-offer://", "did", "did:", "invalid_request", "invalid_grant",
    "invalid_proof", "mandatory", "value_type", "https://", "http://", "openid", "true", "false", "1",
];

/// Any text: mostly short, sometimes long, sometimes special
pub fn text() -> S<String> {
    prop_oneof![
        400 => string(ch(), 0..9),
        150 => string(ch(), 9..40),
        50 => string(ch(), 60..260),
        100 => select(vec![
            "", " ", "a", "null", "true", "0", "did:example:1", "%20", "%", "+", "a.b.c", "\"", "\\", "{}", "none",
            "..", "a&credential_offer=b", "https://issuer.example.com", "é", "e\u{301}",
        ]).prop_map(str::to_owned),
        100 => shaped_text(),
        60 => select(PROTOCOL.to_vec()).prop_map(str::to_owned),
        50 * dict::weight(1, 3).max(dict::number_weight(0, 2)) => dictionary_text(ch),
        1 => huge_text(),
    ]
    .boxed()
}

/// Text of a shape that code might treat in a special way: words that repeat, spaces around, numbers,
/// dates, documents in other notations
fn shaped_text() -> S<String> {
    let word = || prop_oneof![2 => string(proptest::char::range('a', 'z').boxed(), 1..5), 1 => string(ch(), 0..4)];
    let phrase = (vec(word(), 1..4), vec(0usize..4, 2..7), select(vec![" ", " ", ",", ", ", ".", "/", "&", ";", "\n", "\t", "-", "_", ":", "  ", "="]))
        .prop_map(|(words, picks, sep)| {
            let picked: Vec<&str> = picks.iter().map(|i| words[i % words.len()].as_str()).collect();
            picked.join(sep)
        });
    let spaced = (select(vec!["", " ", "\t", "\n", "\u{a0}", "\u{feff}", "\0"]), word(), select(vec!["", " ", "\t", "\r\n", "\n", "\u{3000}", "\0"]))
        .prop_map(|(a, w, b)| format!("{a}{w}{b}"));
    let number = (select(vec!["", "0", "00", "-", "+", "0x", " "]), any::<u32>(), select(vec!["", "", ".0", "e3", ".", "L", "%", "_000"]))
        .prop_map(|(a, n, b)| format!("{a}{n}{b}"));
    prop_oneof![
        6 => phrase,
        2 => spaced,
        1 => number,
        1 => (word(), 2usize..5).prop_map(|(w, n)| w.repeat(n)),
        1 => (ch(), 2usize..40).prop_map(|(c, n)| c.to_string().repeat(n)),
        1 => vec(any::<u8>(), 0..24).prop_map(|b| crate::enc::b64url(&b)),
        1 => vec(any::<u8>(), 0..24).prop_map(|b| crate::enc::b64std(&b)),
        1 => vec((word(), word()), 0..3).prop_map(|v| {
            Value::Object(v.into_iter().map(|(k, v)| (k, Value::String(v))).collect()).to_string()
        }),
        1 => url(),
        1 => select(vec![
            "2023-11-14T22:13:20Z", "1700000000", "a@b.example", "mailto:a@b.example", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6",
            "data:,a", "javascript:a", "<a>b</a>", "<!--", "${a}", "{0}", "{{a}}", "%s", "' OR 1=1 --", "../../a", "C:\\a", "\u{1b}[31m",
            "en-US", "NaN", "undefined", "None", "nil", "[]", "a=b&a=c", "Bearer a", "did:key:z6Mk#z6Mk", "a,a", "openid openid",
        ]).prop_map(str::to_owned),
    ]
    .boxed()
}

pub fn text_short() -> S<String> {
    prop_oneof![4 => string(ch(), 0..6), 1 => token()].boxed()
}

/// Text as found in identifiers, codes and nonces: printable ASCII more often than `text`
pub fn token() -> S<String> {
    fn plain() -> S<char> {
        prop_oneof![
            proptest::char::range('a', 'z'),
            proptest::char::range('A', 'Z'),
            proptest::char::range('0', '9'),
            select(vec!['-', '_', '.', '~', '/', '+', '=', ':']),
        ]
        .boxed()
    }
    prop_oneof![
        30 => string(plain(), 1..24),
        5 => string(plain(), 30..70),
        5 => string(plain(), 120..300),
        1 => string(plain(), 300..1500),
        15 => text(),
        dict::weight(2, 10).max(dict::number_weight(0, 8)) => dictionary_text(plain),
    ]
    .boxed()
}

/// A URL-like text
pub fn url() -> S<String> {
    let host = string(proptest::char::range('a', 'z').boxed(), 1..10);
    (
        select(vec!["https://", "http://", "https://"]),
        host,
        select(vec!["", ".com", ".example.com", ".example.org:8443", ".example.com"]),
        option::weighted(0.5, string(prop_oneof![
            6 => proptest::char::range('a', 'z'),
            1 => select(vec!['/', '-', '.', '~', '%', '_', 'A', '2']),
        ].boxed(), 0..16)),
        select(vec!["", "", "", "/", "?a=b", "?a=b&c=d%20e", "?"]),
    )
        .prop_map(|(scheme, host, tld, path, tail)| {
            format!("{scheme}{host}{tld}{}{tail}", path.map(|p| format!("/{p}")).unwrap_or_default())
        })
        .boxed()
}

/// Issuer identifier or similar
pub fn ident() -> S<String> {
    prop_oneof![5 => url(), 2 => token(), 1 => text()].boxed()
}

// ------------------------------------------------------------------------------------------------- near misses

/// A small change to a text
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Near {
    FlipCase(u16),
    Upper,
    Lower,
    Append(char),
    Prepend(char),
    Insert(u16, char),
    Remove(u16),
    Replace(u16, char),
    Swap(u16),
    Truncate(u16),
    Double,
    PercentEncode(u16),
    PercentDecode,
    Lookalike(u16),
    Trim,
    ToggleSlash,
    ToggleScheme,
    AppendText(String),
    PrependText(String),
    InsertText(u16, String),
    Keep(u16),
    Reverse,
}

const AFFIX: &[char] = &[
    ' ', '\n', '\t', '\0', '/', '.', 'a', '=', '#', '?', '0', '1', '&', '%', '\u{200b}', '\u{feff}', '\u{301}', '\u{a0}',
    'A', '-', '_', ':', '"', '\r', ',',
];

pub fn near() -> S<Near> {
    prop_oneof![
        3 => any::<u16>().prop_map(Near::FlipCase),
        1 => Just(Near::Upper),
        1 => Just(Near::Lower),
        4 => select(AFFIX).prop_map(Near::Append),
        2 => select(AFFIX).prop_map(Near::Prepend),
        2 => (any::<u16>(), select(AFFIX)).prop_map(|(i, c)| Near::Insert(i, c)),
        2 => any::<u16>().prop_map(Near::Remove),
        1 => Just(Near::Remove(u16::MAX)),
        1 => Just(Near::Remove(0)),
        3 => (any::<u16>(), ch()).prop_map(|(i, c)| Near::Replace(i, c)),
        1 => ch().prop_map(|c| Near::Replace(u16::MAX, c)),
        1 => any::<u16>().prop_map(Near::Swap),
        2 => any::<u16>().prop_map(Near::Truncate),
        1 => Just(Near::Double),
        1 => any::<u16>().prop_map(Near::PercentEncode),
        1 => Just(Near::PercentDecode),
        1 => any::<u16>().prop_map(Near::Lookalike),
        1 => Just(Near::Trim),
        1 => Just(Near::ToggleSlash),
        1 => Just(Near::ToggleScheme),
        1 => token().prop_map(Near::AppendText),
        dict::weight(1, 4) => dict::word().prop_map(Near::AppendText),
        dict::weight(1, 4) => dict::word().prop_map(Near::PrependText),
        dict::weight(1, 3) => (any::<u16>(), dict::word()).prop_map(|(i, w)| Near::InsertText(i, w)),
        1 => any::<u16>().prop_map(Near::Keep),
        1 => Just(Near::Reverse),
    ]
    .boxed()
}

impl Near {
    pub fn apply(&self, text: &str) -> String {
        let mut c: Vec<char> = text.chars().collect();
        let n = c.len();
        // u16::MAX addresses the last character
        let at = |i: u16| if i == u16::MAX { n - 1 } else { usize::from(i) % n };
        match self {
            Near::FlipCase(i) if n > 0 => {
                let letters: Vec<usize> = (0..n).filter(|i| c[*i].is_ascii_alphabetic()).collect();
                if let Some(p) = letters.get(usize::from(*i) % letters.len().max(1)) {
                    c[*p] = char::from(c[*p] as u8 ^ 0x20);
                }
            }
            Near::Upper => return text.to_uppercase(),
            Near::Lower => return text.to_lowercase(),
            Near::Append(x) => c.push(*x),
            Near::Prepend(x) => c.insert(0, *x),
            Near::Insert(i, x) => c.insert(usize::from(*i) % (n + 1), *x),
            Near::Remove(i) if n > 0 => {
                c.remove(at(*i));
            }
            Near::Replace(i, x) if n > 0 => c[at(*i)] = *x,
            Near::Swap(i) if n > 1 => {
                let p = usize::from(*i) % (n - 1);
                c.swap(p, p + 1);
            }
            Near::Truncate(i) if n > 0 => c.truncate(usize::from(*i) % n),
            Near::Keep(i) if n > 0 => {
                c.drain(..usize::from(*i) % n);
            }
            Near::Double => return format!("{text}{text}"),
            Near::PercentEncode(i) if n > 0 => {
                let p = at(*i);
                let encoded: String = c[p].to_string().bytes().map(|b| format!("%{b:02X}")).collect();
                return c[..p].iter().collect::<String>() + &encoded + &c[p + 1..].iter().collect::<String>();
            }
            Near::PercentDecode => {
                if let Some(t) = crate::enc::percent_decode(text) {
                    return t;
                }
            }
            Near::Lookalike(i) if n > 0 => {
                let p = at(*i);
                c[p] = match c[p] {
                    'a' => 'а',
                    'e' => 'е',
                    'o' | '0' => 'о',
                    'l' | 'I' | '1' => '|',
                    'k' => '\u{212a}',
                    's' => 'ſ',
                    'i' => 'ı',
                    c if c.is_ascii_alphanumeric() => char::from_u32(c as u32 - 0x20 + 0xff00).unwrap_or('?'),
                    _ => '\u{fffd}',
                };
            }
            Near::Trim => return text.trim().to_owned(),
            Near::ToggleSlash => match text.strip_suffix('/') {
                Some(t) => return t.to_owned(),
                None => c.push('/'),
            },
            Near::ToggleScheme => {
                return match (text.strip_prefix("https://"), text.strip_prefix("http://")) {
                    (Some(t), _) => format!("http://{t}"),
                    (_, Some(t)) => format!("https://{t}"),
                    _ => format!("https://{text}"),
                }
            }
            Near::AppendText(t) => return format!("{text}{t}"),
            Near::PrependText(t) => return format!("{t}{text}"),
            Near::InsertText(i, t) => {
                let p = usize::from(*i) % (n + 1);
                return c[..p].iter().collect::<String>() + t + &c[p..].iter().collect::<String>();
            }
            Near::Reverse => c.reverse(),
            _ => c.push('x'),
        }
        c.into_iter().collect()
    }
}

/// A text in relation to another
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Rel {
    Same,
    Near(Near),
    Other(String),
}

impl Rel {
    pub fn apply(&self, text: &str) -> String {
        match self {
            Rel::Same => text.to_owned(),
            Rel::Near(n) => n.apply(text),
            Rel::Other(o) => o.clone(),
        }
    }
}

/// `same` in ten are the same
pub fn rel(same: u32) -> S<Rel> {
    prop_oneof![
        same => Just(Rel::Same),
        (10 - same) * 2 => near().prop_map(Rel::Near),
        (10 - same) => token().prop_map(Rel::Other),
    ]
    .boxed()
}

/// A text that differs (nearly always)
pub fn differing() -> S<Rel> {
    prop_oneof![3 => near().prop_map(Rel::Near), 1 => token().prop_map(Rel::Other), 1 => Just(Rel::Other(String::new()))]
        .boxed()
}

// ------------------------------------------------------------------------------------------------- JSON

pub fn json_leaf() -> S<Value> {
    prop_oneof![
        1 => any::<bool>().prop_map(|b| json!(b)),
        2 => (-1000i64..1000).prop_map(|n| json!(n)),
        1 => any::<u64>().prop_map(|n| json!(n)),
        1 => any::<i64>().prop_map(|n| json!(n)),
        dict::number_weight(1, 2) => dict::number().prop_map(|n| json!(n)),
        1 => (-4096i32..4096).prop_map(|n| json!(f64::from(n) / 8.0 + 0.0625)),
        4 => text().prop_map(|s| json!(s)),
    ]
    .boxed()
}

/// Any JSON without nulls
pub fn json_value() -> S<Value> {
    json_leaf()
        .prop_recursive(3, 12, 4, |inner| {
            prop_oneof![
                vec(inner.clone(), 0..4).prop_map(Value::Array),
                btree_map(text(), inner, 0..4).prop_map(|m| Value::Object(m.into_iter().collect())),
            ]
        })
        .boxed()
}

/// Any JSON, nulls included
pub fn json_value_null() -> S<Value> {
    prop_oneof![
        1 => Just(Value::Null),
        8 => json_value(),
        1 => json_value().prop_map(|v| json!([v, null])),
        1 => (text(), json_value()).prop_map(|(k, v)| json!({k: null, "x": v})),
    ]
    .boxed()
}

pub fn style() -> S<Style> {
    prop_oneof![
        2 => Just(Style::PLAIN),
        2 => (0u8..3, 0u8..3).prop_map(|(space, escape)| Style { space, escape }),
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------------------- documents

fn disp() -> S<Disp> {
    (option::of(text()), option::of(text())).prop_map(|(name, locale)| Disp { name, locale }).boxed()
}

fn flat_claim() -> S<Claim> {
    (option::of(any::<bool>()), option::weighted(0.3, text()), option::weighted(0.4, list(disp(), 0..3)))
        .prop_map(|(mandatory, value_type, display)| Claim { mandatory, value_type, display, nested: BTreeMap::new() })
        .boxed()
}

/// Names of nested claims that do not clash with the members of a claim
fn claim_name() -> S<String> {
    prop_oneof![
        3 => select(vec!["given_name", "degree", "address", "a", "org.iso.18013.5.1"]).prop_map(str::to_owned),
        2 => text(),
    ]
    .prop_map(|s| {
        if ["mandatory", "value_type", "valueType", "display"].contains(&s.as_str()) {
            "claim".to_owned()
        } else {
            s
        }
    })
    .boxed()
}

fn nested_claim() -> S<Claim> {
    flat_claim()
        .prop_recursive(2, 6, 2, |inner| {
            (flat_claim(), small_map(claim_name(), inner.boxed(), 0..3))
                .prop_map(|(mut c, nested)| {
                    c.nested = nested;
                    c
                })
                .boxed()
        })
        .boxed()
}

fn ctx() -> S<Ctx> {
    prop_oneof![
        4 => url().prop_map(Ctx::Text),
        1 => text().prop_map(Ctx::Text),
        1 => btree_map(text(), json_value(), 0..3).prop_map(Ctx::Map),
    ]
    .boxed()
}

pub fn kind() -> S<Kind> {
    select(vec![Kind::JwtVcJson, Kind::JwtVcJsonLd, Kind::LdpVc, Kind::MsoMdoc]).boxed()
}

fn cred_with(claim: S<Claim>) -> S<Cred> {
    (
        kind(),
        list(prop_oneof![token(), text()].boxed(), 0..4),
        list(ctx(), 0..3),
        token(),
        option::weighted(0.5, map(claim_name(), claim, 0..4)),
        option::weighted(0.3, list(text(), 0..4)),
    )
        .prop_map(|(kind, types, context, doctype, claims, order)| Cred { kind, types, context, doctype, claims, order })
        .boxed()
}

/// A credential description whose claims are flat
pub fn cred() -> S<Cred> {
    cred_with(flat_claim())
}

/// A small credential description, for cases where it hardly matters
pub fn small_cred() -> S<Cred> {
    prop_oneof![
        3 => (kind(), vec(token(), 1..3), token()).prop_map(|(kind, types, doctype)| Cred {
            kind,
            types,
            context: vec![Ctx::Text("https://www.w3.org/2018/credentials/v1".into())],
            doctype,
            claims: None,
            order: None,
        }),
        1 => cred(),
    ]
    .boxed()
}

/// A credential description that may have nested claims
pub fn deep_cred() -> S<Cred> {
    cred_with(prop_oneof![3 => flat_claim(), 1 => nested_claim()].boxed())
}

fn display() -> S<Display> {
    (
        text(),
        option::of(text()),
        option::of((option::of(url()), option::of(text())).prop_map(|(url, alt_text)| Logo { url, alt_text })),
        option::of(text()),
        option::of(text()),
        option::of(text()),
    )
        .prop_map(|(name, locale, logo, description, background_color, text_color)| Display {
            name,
            locale,
            logo,
            description,
            background_color,
            text_color,
        })
        .boxed()
}

fn supported_with(cred: S<Cred>, id: S<Option<String>>) -> S<Supported> {
    (
        cred,
        id,
        option::weighted(0.3, list(token(), 0..3)),
        option::weighted(0.3, list(token(), 0..3)),
        option::weighted(0.2, list(display(), 0..3)),
    )
        .prop_map(|(cred, id, binding, suites, display)| Supported { cred, id, binding, suites, display })
        .boxed()
}

/// Full-size metadata; `cred` makes the descriptions. Ids may clash.
pub fn meta_with(cred: S<Cred>) -> S<Meta> {
    (
        ident(),
        option::of(ident()),
        ident(),
        option::of(ident()),
        list(supported_with(cred, option::of(token()).boxed()), 0..4),
        prop_oneof![
            2 => Just(BTreeMap::new()),
            1 => map(extra_name(), json_value_null(), 0..4),
        ],
    )
        .prop_map(|(issuer, authorization_server, endpoint, batch_endpoint, supported, extra)| Meta {
            issuer,
            authorization_server,
            endpoint,
            batch_endpoint,
            supported,
            extra,
        })
        .boxed()
}

/// Names of additional members
pub fn extra_name() -> S<String> {
    let known = [
        "credential_issuer", "authorization_server", "credential_endpoint", "batch_credential_endpoint",
        "credentials_supported", "typ", "alg", "kid", "jwk", "x5c", "iss", "aud", "sub", "iat", "nonce", "nbf", "exp",
        "error", "error_description", "error_uri", "additional_fields",
    ];
    prop_oneof![
        3 => text(),
        2 => select(vec!["display", "crit", "jku", "x5u", "cty", "jti", "vp", "ISS", "Nonce", "Kid", "policy_uri", "id",
            "credential_configurations", "format", "proof", "alg2", "client_id"]).prop_map(str::to_owned),
    ]
    .prop_map(move |s| if known.contains(&s.as_str()) { format!("x-{s}") } else { s })
    .boxed()
}

/// Metadata with a few entries, small descriptions and distinct ids
pub fn small_meta() -> S<Meta> {
    (
        ident(),
        url(),
        list((small_cred(), option::weighted(0.7, token())).boxed(), 0..4),
        prop_oneof![9 => Just(0usize), 1 => 10usize..60],
    )
        .prop_map(|(issuer, endpoint, entries, more)| {
            let mut supported: Vec<Supported> = entries
                .into_iter()
                .map(|(cred, id)| Supported { cred, id, binding: None, suites: None, display: None })
                .collect();
            if let Some(first) = supported.first().cloned() {
                for i in 0..more {
                    let mut s = first.clone();
                    s.id = if i % 5 == 4 { None } else { Some(format!("id-{i}")) };
                    supported.push(s);
                }
            }
            make_distinct(&mut supported);
            Meta {
                issuer,
                authorization_server: None,
                endpoint,
                batch_endpoint: None,
                supported,
                extra: BTreeMap::new(),
            }
        })
        .boxed()
}

/// Rename later entries whose id occurred before
pub fn make_distinct(supported: &mut [Supported]) {
    let mut seen = std::collections::BTreeSet::new();
    for s in supported {
        if let Some(id) = &mut s.id {
            while !seen.insert(id.clone()) {
                id.push('\'');
            }
        }
    }
}

pub fn pre() -> S<Pre> {
    (token(), option::of(any::<bool>())).prop_map(|(code, pin_required)| Pre { code, pin_required }).boxed()
}

pub fn auth() -> S<Auth> {
    option::of(text()).prop_map(|issuer_state| Auth { issuer_state }).boxed()
}

pub fn cred_ref(cred: S<Cred>) -> S<CredRef> {
    prop_oneof![token().prop_map(CredRef::Id), cred.prop_map(CredRef::Inline)].boxed()
}

pub fn offer_with(cred: S<Cred>) -> S<Offer> {
    (ident(), list(cred_ref(cred), 0..4), option::weighted(0.3, auth()), option::weighted(0.8, pre()))
        .prop_map(|(issuer, creds, auth, pre)| Offer { issuer, creds, auth, pre })
        .boxed()
}

// ------------------------------------------------------------------------------------------------- time

/// The current time (never before the epoch)
pub fn now() -> S<Inst> {
    let ns = prop_oneof![2 => Just(0u32), 1 => Just(999_999_999u32), 1 => Just(1u32), 4 => 0u32..1_000_000_000];
    let s = prop_oneof![
        8 => 1_500_000_000i64..2_000_000_000,
        1 => 0i64..5_000_000_000,
        1 => select(vec![0i64, 1, i64::from(i32::MAX), i64::from(i32::MAX) + 1, i64::from(u32::MAX), i64::from(u32::MAX) + 1,
            951_782_399, 951_782_400, 4_107_542_400, 253_402_300_799]),
        1 => 0i64..253_402_300_800,
    ];
    (s, ns).prop_map(|(s, n)| Inst(s, n)).boxed()
}

/// A distance in time in nanoseconds, small or around round numbers, never negative
pub fn distance() -> S<i128> {
    const SEC: i128 = 1_000_000_000;
    prop_oneof![
        2 => Just(0i128),
        3 => Just(1i128),
        1 => 2i128..SEC,
        2 => select(vec![SEC - 1, SEC, SEC + 1, 2 * SEC, 59 * SEC, 60 * SEC, 61 * SEC, 300 * SEC, 301 * SEC, 3600 * SEC,
            86_400 * SEC, 31_536_000 * SEC]),
        2 => (1i128..100_000).prop_map(|s| s * SEC),
        1 => (1i128..4_000_000_000).prop_map(|s| s * SEC + 5),
        1 => (1i128..400_000_000_000).prop_map(|s| s * SEC),
        dict::number_weight(1, 4) => (dict::number_upto(1 << 40), select(vec![1, 1000, 1_000_000, SEC, 60 * SEC, 3600 * SEC, 86_400 * SEC]), -1i128..=1)
            .prop_map(|(n, unit, d)| (i128::from(n) * unit).clamp(1, 400_000_000_000 * SEC) + d),
    ]
    .boxed()
}

pub fn time_form() -> S<TimeForm> {
    prop_oneof![
        3 => Just(TimeForm::Text { offset: 0 }),
        1 => select(vec![60i16, -60, 330, -720, 840, 1439, -1439, 1]).prop_map(|offset| TimeForm::Text { offset }),
        3 => Just(TimeForm::Number),
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------------------- keys and DIDs

/// Literals of the source of such characters, and how often to use them
fn words(allowed: fn(char) -> bool) -> (u32, S<String>) {
    let fitting: Vec<String> =
        dict::loaded().words.iter().filter(|w| w.chars().all(allowed) && w.chars().count() < 30).cloned().collect();
    if fitting.is_empty() {
        (0, Just(String::new()).boxed())
    } else {
        (dict::weight(1, 3), select(fitting).boxed())
    }
}

fn did_method() -> S<String> {
    let (weight, word) = words(|c| c.is_ascii_lowercase() || c.is_ascii_digit());
    prop_oneof![
        12 => select(vec!["example", "web", "key", "peer", "ex", "ebsi", "a", "1", "did", "jwk", "ion", "indy"])
            .prop_map(str::to_owned),
        weight => word,
    ]
    .boxed()
}

pub fn did() -> S<String> {
    let idch = prop_oneof![
        8 => proptest::char::range('a', 'z').prop_map(|c| c.to_string()),
        3 => proptest::char::range('A', 'Z').prop_map(|c| c.to_string()),
        3 => proptest::char::range('0', '9').prop_map(|c| c.to_string()),
        2 => select(vec![".", "-", "_", ":x", "%41", "%3A", "%2F", "%23"]).prop_map(str::to_owned),
        words(|c| c.is_ascii_alphanumeric() || ".-_".contains(c)).0 => words(|c| c.is_ascii_alphanumeric() || ".-_".contains(c)).1,
    ];
    (
        did_method(),
        prop_oneof![6 => vec(idch.clone(), 1..20), 1 => vec(idch, 50..90)],
    )
        .prop_map(|(method, id)| format!("did:{method}:{}", id.concat()))
        .boxed()
}

/// What follows the DID in a DID URL
pub fn did_url_tail() -> S<String> {
    let c = || {
        prop_oneof![
            8 => proptest::char::range('a', 'z'),
            2 => proptest::char::range('0', '9'),
            1 => select(vec!['-', '.', '_', '~', '!', '$', '&', '\'', '(', ')', '*', '+', ',', ';', '=', ':', '@', 'A', 'Z']),
        ]
        .boxed()
    };
    let piece = |common: Vec<&'static str>, at_least: usize| {
        let url_safe = |c: char| c.is_ascii_alphanumeric() || "-._~!$&'()*+,;=:@/".contains(c);
        let (weight, word) = words(url_safe);
        prop_oneof![
            4 => string(c(), at_least..8),
            2 => select(common).prop_map(str::to_owned),
            weight => word.clone(),
            weight => (word, string(c(), 1..8)).prop_map(|(w, t)| w + &t),
        ]
        .boxed()
    };
    (
        option::weighted(0.18, piece(vec!["keys/1", "path", "user/alice", "a;b=c", "v1"], 1)),
        option::weighted(0.18, piece(vec!["versionId=1", "versionTime=2021-05-10T17:00:00Z", "service=files", "relativeRef=/a?b",
            "hl=zQm", "initial-state=abc", "service=agent&relativeRef=/x", "a=b", "transformKeys=jwk", "version-id=2"], 0)),
        option::weighted(0.93, prop_oneof![
            3 => string(c(), 1..14),
            1 => select(vec!["0", "key-1", "keys-1", "#", "/", "?", "a/b?c", "did:ex:1", ""]).prop_map(str::to_owned),
            dict::weight(1, 2) => piece(vec!["1", "owner", "controller", "signing"], 1),
        ]),
    )
        .prop_map(|(path, query, fragment)| {
            let mut s = String::new();
            if let Some(p) = path {
                s += &format!("/{p}");
            }
            if let Some(q) = query {
                s += &format!("?{q}");
            }
            if let Some(f) = fragment {
                s += &format!("#{f}");
            }
            s
        })
        .boxed()
}

pub fn bytes(n: usize) -> S<Vec<u8>> {
    prop_oneof![
        8 => vec(any::<u8>(), n),
        1 => vec(select(vec![0u8, 1, 0xed, 0xff]), n),
        1 => (vec(any::<u8>(), n.saturating_sub(3)), 0usize..4).prop_map(move |(mut b, lead)| {
            // leading zeros
            for _ in 0..lead.min(n) {
                b.insert(0, 0);
            }
            b.resize(n, 7);
            b
        }),
    ]
    .boxed()
}

fn jwk_extras() -> S<Vec<(String, Value)>> {
    vec(
        prop_oneof![
            Just(("use".to_owned(), json!("sig"))),
            Just(("key_ops".to_owned(), json!(["verify"]))),
            token().prop_map(|t| ("kid".to_owned(), json!(t))),
        ],
        0..2,
    )
    .boxed()
}

/// Type and material of a usable EdDSA key
pub fn usable_key() -> S<(String, Vec<KeyMaterial>)> {
    let types = || {
        select(vec!["JsonWebKey2020", "Ed25519VerificationKey2018", "Ed25519VerificationKey2020", "Unknown", "JsonWebKey2020"])
            .prop_map(str::to_owned)
    };
    prop_oneof![
        4 => (types(), bytes(32), any::<bool>(), jwk_extras()).prop_map(|(t, b, alg, extras)| {
            let mut jwk = json!({"kty": "OKP", "crv": "Ed25519", "x": crate::enc::b64url(&b)});
            if alg {
                jwk["alg"] = json!("EdDSA");
            }
            for (k, v) in extras {
                jwk[k] = v;
            }
            (t, vec![KeyMaterial::Jwk(jwk)])
        }),
        1 => (types(), bytes(57), any::<bool>()).prop_map(|(t, b, alg)| {
            let mut jwk = json!({"kty": "OKP", "crv": "Ed448", "x": crate::enc::b64url(&b)});
            if alg {
                jwk["alg"] = json!("EdDSA");
            }
            (t, vec![KeyMaterial::Jwk(jwk)])
        }),
        2 => bytes(32).prop_map(|b| ("Ed25519VerificationKey2018".to_owned(), vec![KeyMaterial::Base58(b)])),
        1 => (bytes(32), any::<bool>()).prop_map(|(b, p)| ("Ed25519VerificationKey2018".to_owned(), vec![KeyMaterial::Hex(b, p)])),
        1 => (bytes(32), select(vec!['z', 'f', 'u', 'm']))
            .prop_map(|(b, c)| ("Ed25519VerificationKey2018".to_owned(), vec![KeyMaterial::Multibase(b, c)])),
        3 => (bytes(32), select(vec!['z', 'f', 'u', 'm'])).prop_map(|(b, c)| {
            let mut m = vec![0xed, 0x01];
            m.extend(b);
            ("Ed25519VerificationKey2020".to_owned(), vec![KeyMaterial::Multibase(m, c)])
        }),
    ]
    .boxed()
}

/// Type and material of a key that cannot be used
pub fn unusable_key() -> S<(String, Vec<KeyMaterial>)> {
    let b64 = |n: usize| bytes(n).prop_map(|b| crate::enc::b64url(&b)).boxed();
    let jwk = |v: Value| ("JsonWebKey2020".to_owned(), vec![KeyMaterial::Jwk(v)]);
    prop_oneof![
        2 => (b64(32), option::of(select(vec!["ES256", "RS256", "ES256K", "HS256", "none"])))
            .prop_map(move |(x, alg)| {
                let mut v = json!({"kty": "OKP", "crv": "X25519", "x": x});
                if let Some(a) = alg {
                    v["alg"] = json!(a);
                }
                jwk(v)
            }),
        1 => b64(56).prop_map(move |x| jwk(json!({"kty": "OKP", "crv": "X448", "x": x}))),
        1 => (b64(32), select(vec!["ES256", "RS256", "HS256", "PS512"]))
            .prop_map(move |(x, a)| jwk(json!({"kty": "OKP", "crv": "Ed25519", "x": x, "alg": a}))),
        2 => (b64(32), b64(32), select(vec!["P-256", "secp256k1", "P-384", "P-521", "Ed25519"]), option::of(select(vec!["ES256", "ES256K", "ES384"])))
            .prop_map(move |(x, y, crv, alg)| {
                let mut v = json!({"kty": "EC", "crv": crv, "x": x, "y": y});
                if let Some(a) = alg {
                    v["alg"] = json!(a);
                }
                jwk(v)
            }),
        1 => Just(jwk(json!({"kty": "EC", "crv": "P-256", "alg": "EdDSA"}))),
        // declared to be of EdDSA, but of another type or curve
        1 => (b64(32), b64(32), select(vec!["P-256", "secp256k1", "Ed25519"]))
            .prop_map(move |(x, y, crv)| jwk(json!({"kty": "EC", "crv": crv, "x": x, "y": y, "alg": "EdDSA"}))),
        1 => (b64(32), select(vec!["X25519", "X448", "ed25519", "P-256"]))
            .prop_map(move |(x, crv)| jwk(json!({"kty": "OKP", "crv": crv, "x": x, "alg": "EdDSA"}))),
        1 => b64(64).prop_map(move |n| jwk(json!({"kty": "RSA", "n": n, "e": "AQAB"}))),
        1 => b64(64).prop_map(move |n| jwk(json!({"kty": "RSA", "n": n, "e": "AQAB", "alg": "EdDSA"}))),
        1 => b64(32).prop_map(move |k| jwk(json!({"kty": "oct", "k": k}))),
        1 => b64(32).prop_map(move |k| jwk(json!({"kty": "oct", "k": k, "alg": "EdDSA"}))),
        2 => Just(("Ed25519VerificationKey2018".to_owned(), vec![])),
        2 => (bytes(32), bytes(32)).prop_map(|(a, b)| ("Ed25519VerificationKey2018".to_owned(), vec![KeyMaterial::Base58(a), KeyMaterial::Hex(b, false)])),
        1 => (bytes(32), b64(32)).prop_map(|(a, x)| ("Ed25519VerificationKey2018".to_owned(), vec![KeyMaterial::Base58(a), KeyMaterial::Jwk(json!({"kty": "OKP", "crv": "Ed25519", "x": x}))])),
        1 => (b64(32), bytes(32)).prop_map(|(x, b)| ("Ed25519VerificationKey2020".to_owned(), vec![KeyMaterial::Jwk(json!({"kty": "OKP", "crv": "Ed25519", "x": x})), KeyMaterial::Multibase(b, 'z')])),
        1 => (bytes(32), select(vec!["JsonWebKey2020", "X25519KeyAgreementKey2019", "ed25519verificationkey2018", "Ed25519VerificationKey", ""]))
            .prop_map(|(b, t)| (t.to_owned(), vec![KeyMaterial::Base58(b)])),
        1 => bytes(32).prop_map(|b| ("Ed25519VerificationKey2020".to_owned(), vec![KeyMaterial::Multibase(b, 'z')])),
        1 => bytes(32).prop_map(|b| {
            let mut m = vec![0xec, 0x01];
            m.extend(b);
            ("Ed25519VerificationKey2020".to_owned(), vec![KeyMaterial::Multibase(m, 'z')])
        }),
        1 => bytes(33).prop_map(|b| {
            let mut m = vec![0xed, 0x01];
            m.extend(b);
            ("Ed25519VerificationKey2020".to_owned(), vec![KeyMaterial::Multibase(m, 'z')])
        }),
        2 => select(vec![("publicKeyBase58", "0OIl"), ("publicKeyHex", "0xzz"), ("publicKeyHex", "abc"), ("publicKeyMultibase", "z0OIl"),
            ("publicKeyMultibase", ""), ("publicKeyMultibase", "?abc"), ("publicKeyBase58", "é")])
            .prop_map(|(n, t)| ("Ed25519VerificationKey2018".to_owned(), vec![KeyMaterial::Garbage(n.to_owned(), t.to_owned())])),
    ]
    .boxed()
}

pub fn any_key() -> S<(String, Vec<KeyMaterial>)> {
    prop_oneof![3 => usable_key(), 1 => unusable_key()].boxed()
}

/// A PIN of at most eight digits
pub fn pin_short() -> S<u64> {
    prop_oneof![
        6 => 0u64..100_000_000,
        1 => 0u64..10_000,
        1 => select(vec![0u64, 1, 99_999_999, 10_000_000, 1234]),
        dict::number_weight(1, 3) => dict::number_upto(99_999_999),
    ]
    .boxed()
}

pub fn pin() -> S<u64> {
    prop_oneof![
        4 => 0u64..100_000_000,
        2 => 0u64..10_000,
        2 => (0u32..20).prop_map(|d| 10u64.saturating_pow(d)),
        2 => (0u32..20).prop_map(|d| 10u64.saturating_pow(d) - 1),
        1 => 99_999_990u64..100_000_010,
        dict::number_weight(1, 3) => dict::number(),
        1 => 100_000_000u64..10_000_000_000,
        1 => any::<u64>(),
        1 => select(vec![0u64, 1, 9, 10, u64::from(u32::MAX), u64::from(u32::MAX) + 1, u64::MAX, 1 << 53, (1 << 53) + 1]),
    ]
    .boxed()
}
