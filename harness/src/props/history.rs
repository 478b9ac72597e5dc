//! C22: results depend only on the arguments and the clock.
//!
//! A history is a sequence of operations of several sessions that share (or nearly share) keys, nonces, ids and codes.
//! It runs in a fresh process forward and then once more, in another fresh process (with another environment) in
//! reverse and then on four threads at once, and in the checking process, which has run many histories before. Every
//! operation must give the same result in all of them.

use crate::clock;
use crate::enc;
use crate::eval::{self, Focus};
use crate::gen::{self, S};
use crate::runner::{self, catch, Cx, Property, Suite, Verdict};
use crate::spec::*;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::{CNonce, CredentialIssuer, CredentialOrAcceptanceToken, CredentialOrId};
use openid4vci::jwt::ProofJwt;
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::Validatable;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Session {
    case: eval::Case,
    pin: Option<u64>,
    endpoint: Option<String>,
    token: String,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    CreateOffer,
    Resolve,
    Token,
    TokenResponse,
    PreEvaluate,
    Evaluate,
    Decode,
    CredentialResponse,
    ErrorResponse,
}

/// An operation; the indices name the sessions from which the arguments come
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Step {
    kind: Kind,
    meta: u8,
    request: u8,
    offer: u8,
    doc: u8,
    opts: u8,
    now: u8,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct History {
    sessions: Vec<Session>,
    steps: Vec<Step>,
}

// ------------------------------------------------------------------------------------------------ results

fn sorted(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut members: Vec<(&String, &Value)> = m.iter().collect();
            members.sort_by_key(|(k, _)| k.as_str());
            Value::Array(members.into_iter().map(|(k, v)| json!([k, sorted(v)])).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(sorted).collect()),
        v => v.clone(),
    }
}

/// Text whose order may be that of a hash map
fn unordered(text: &str) -> Value {
    match serde_json::from_str::<Value>(text) {
        Ok(v) => sorted(&v),
        Err(_) => {
            let mut bytes = text.as_bytes().to_vec();
            bytes.sort_unstable();
            json!(String::from_utf8_lossy(&bytes))
        }
    }
}

fn url(url: &str) -> Value {
    match url.rfind("credential_offer=") {
        Some(i) => {
            let value = &url[i + "credential_offer=".len()..];
            json!([url[..i], unordered(&enc::percent_decode(value).unwrap_or_else(|| value.to_owned()))])
        }
        None => unordered(url),
    }
}

fn value(v: &impl Serialize) -> Value {
    match serde_json::to_value(v) {
        Ok(v) => sorted(&v),
        Err(e) => json!(format!("not serialisable: {e}")),
    }
}

macro_rules! outcome {
    ($r:expr, $ok:expr) => {
        match $r {
            Ok(v) => json!({ "ok": $ok(v) }),
            Err(e) => json!({ "err": value(&e.information()), "variant": value(&e) }),
        }
    };
}

fn credential_response(v: &impl Serialize) -> Value {
    let Ok(Value::Object(mut m)) = serde_json::to_value(v) else { return json!("not an object") };
    if let Some(Value::String(text)) = m.get("credential") {
        let decoded = enc::unb64url(text).and_then(|b| String::from_utf8(b).ok());
        let v = unordered(&decoded.unwrap_or_else(|| text.clone()));
        m.insert("credential".into(), json!({ "encoded": v }));
    }
    sorted(&Value::Object(m))
}

impl History {
    fn session(&self, i: u8) -> &Session {
        &self.sessions[usize::from(i) % self.sessions.len()]
    }

    /// The result of one operation
    fn run(&self, step: &Step) -> Value {
        let s = |i: u8| &self.session(i).case;
        let now = s(step.now).now;
        clock::at((now.0, now.1), || match catch(|| self.operate(step)) {
            Ok(v) => v,
            Err(panic) => json!({ "panic": panic }),
        })
    }

    fn operate(&self, step: &Step) -> Value {
        let s = |i: u8| &self.session(i).case;
        match step.kind {
            Kind::CreateOffer => {
                let meta = s(step.meta).meta.native();
                let offer = s(step.offer).offer.clone();
                let mut list: Vec<CredentialOrId> = s(step.meta).meta.ids().map(|i| i.as_str().into()).collect();
                list.extend(offer.iter().flat_map(|o| &o.creds).map(CredRef::native));
                if step.request % 4 == 3 {
                    list.extend(s(step.request).meta.ids().map(|i| i.as_str().into()));
                }
                let pre = offer.as_ref().and_then(|o| o.pre.as_ref()).map(Pre::native);
                let auth = offer.as_ref().and_then(|o| o.auth.as_ref()).filter(|_| step.now % 4 == 3).map(Auth::native);
                let endpoint = self.session(step.opts).endpoint.clone();
                let before = format!("{pre:?}{auth:?}{endpoint:?}");
                let before_meta = value(&meta);
                let r = CredentialIssuer::create_offer(&meta, list, &endpoint, &auth, &pre);
                if before != format!("{pre:?}{auth:?}{endpoint:?}") || before_meta != value(&meta) {
                    return json!("an argument was changed");
                }
                outcome!(r, |(o, u): (_, String)| json!([value(&o), url(&u)]))
            }
            Kind::Resolve => {
                let meta = s(step.meta).meta.native();
                let ids: Vec<&String> = s(step.request).meta.ids().collect();
                let mut out = vec![];
                for id in ids {
                    let r = CredentialOrId::CredentialId(id.clone()).resolve(&meta);
                    out.push(outcome!(r, |v| value(&v)));
                }
                json!(out)
            }
            Kind::Token => {
                let code = s(step.request).offer.as_ref().and_then(|o| o.pre.as_ref()).map(|p| p.code.clone());
                let request = TokenReq::Pre { code: code.unwrap_or_default(), pin: self.session(step.request).pin }.native();
                let options = token_options(Some(self.session(step.opts).pin));
                let before = format!("{request:?}");
                let r = AccessToken::evaluate_access_token_request(
                    &request,
                    s(step.offer).offer.as_ref().map(Offer::native),
                    options,
                );
                if before != format!("{request:?}") {
                    return json!("an argument was changed");
                }
                outcome!(r, |()| json!(null))
            }
            Kind::TokenResponse => {
                let nonce = s(step.opts).nonce();
                let r = AccessToken::create_access_token_success_response(
                    self.session(step.request).token.clone(),
                    AccessTokenType::Bearer,
                    Some(u32::from(step.meta)),
                    None,
                    nonce.map(|n| n.expected.clone()),
                    nonce.map(|n| n.lifetime),
                    None,
                    None,
                );
                outcome!(r, |(r, t)| json!([value(&r), value(&t)]))
            }
            Kind::PreEvaluate => {
                let request = s(step.request).request.native();
                let before = value(&request);
                let r = CredentialIssuer::pre_evaluate_credential_request(&request);
                if before != value(&request) {
                    return json!("an argument was changed");
                }
                outcome!(r, |v| value(&v))
            }
            Kind::Evaluate => {
                let meta = s(step.meta).meta.native();
                let request = s(step.request).request.native();
                let offer = s(step.offer).offer.as_ref().map(Offer::native);
                let doc = s(step.doc).doc.as_ref().map(Doc::native);
                let server = AuthorizationServerMetadata {};
                let before = [value(&meta), value(&request), value(&offer), value(&doc)];
                let r = CredentialIssuer::evaluate_credential_request(
                    &meta,
                    &request,
                    offer.as_ref(),
                    s(step.request).authorization_server.then_some(&server),
                    doc.as_ref(),
                    s(step.opts).opts.as_ref().map(eval::Opts::native),
                );
                if before != [value(&meta), value(&request), value(&offer), value(&doc)] {
                    return json!("an argument was changed");
                }
                outcome!(r, |v| value(&v))
            }
            Kind::Decode => {
                let Some(p) = s(step.request).proof() else { return Value::Null };
                let doc = s(step.doc).doc.as_ref().map(Doc::native);
                match ProofJwt::from_str(&p.compact()) {
                    Err(e) => json!({ "err": value(&e) }),
                    Ok(jwt) => json!([
                        value(&jwt),
                        outcome!(jwt.validate(), |()| json!(null)),
                        outcome!(jwt.verify(), |()| json!(null)),
                        outcome!(jwt.extract_did(), |v| value(&v)),
                        outcome!(jwt.extract_key_and_alg(doc.as_ref()), |v| value(&v)),
                        outcome!(jwt.extract_signature(), |v| value(&v)),
                        outcome!(jwt.to_signable_message(), |v| value(&v)),
                        outcome!(jwt.check_nonce(s(step.opts).nonce().map(|n| n.expected.clone())), |()| json!(null)),
                        outcome!(jwt.check_aud(&s(step.meta).meta.issuer), |()| json!(null)),
                        outcome!(jwt.check_iss(s(step.opts).client_id().cloned()), |()| json!(null)),
                    ]),
                }
            }
            Kind::CredentialResponse => {
                let request = s(step.request).request.native();
                let issue = match step.offer % 4 {
                    0 => Some(CredentialOrAcceptanceToken::AcceptanceToken(self.session(step.doc).token.clone())),
                    _ => Some(CredentialOrAcceptanceToken::Credential(s(step.doc).request.cred.native())),
                };
                let nonce = s(step.opts)
                    .nonce()
                    .map(|n| CNonce { c_nonce: n.expected.clone(), c_nonce_expires_in: Some(n.lifetime) });
                let r = CredentialIssuer::create_credential_success_response(&request, issue, nonce);
                outcome!(r, |(r, t)| json!([credential_response(&r), value(&t)]))
            }
            Kind::ErrorResponse => {
                let text = Some(self.session(step.request).token.clone());
                let mut details = Map::new();
                details.insert(self.session(step.doc).token.clone(), json!(step.meta));
                let details = Some(Value::Object(details));
                let a = CredentialIssuer::create_credential_error_response(
                    &CredentialIssuerErrorCode::InvalidOrMissingProof,
                    text.clone(),
                    None,
                    details.clone(),
                );
                let b = AccessToken::create_access_token_error_response(
                    AccessTokenErrorCode::InvalidGrant,
                    None,
                    text,
                    details,
                );
                json!([outcome!(a, |v| value(&v)), outcome!(b, |v| value(&v))])
            }
        }
    }

    fn in_order(&self, order: impl Iterator<Item = usize>) -> Vec<Value> {
        let mut out = vec![Value::Null; self.steps.len()];
        for i in order {
            out[i] = self.run(&self.steps[i]);
        }
        out
    }

    fn threads(&self) -> Vec<Vec<Value>> {
        let n = self.steps.len();
        let barrier = std::sync::Barrier::new(4);
        std::thread::scope(|scope| {
            let handles: Vec<_> = (0..4)
                .map(|t| {
                    let barrier = &barrier;
                    scope.spawn(move || {
                        barrier.wait();
                        self.in_order((0..n).map(|i| (i + t * n / 4) % n))
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        })
    }
}

// ------------------------------------------------------------------------------------------------ processes

/// The child side: prints the results of its runs as a JSON array of arrays
pub fn child(file: &Path) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| runner::fatal(&format!("{}: {e}", file.display())));
    let h: History = serde_json::from_str(&text).unwrap_or_else(|e| runner::fatal(&format!("history: {e}")));
    let n = h.steps.len();
    let mut runs = vec![];
    if std::env::var_os("HISTORY_REVERSED").is_some() {
        runs.push(h.in_order((0..n).rev()));
        runs.extend(h.threads());
    } else {
        runs.push(h.in_order(0..n));
        runs.push(h.in_order(0..n));
    }
    println!("{}", json!(runs));
    0
}

const NAMES: [&str; 7] = [
    "forward",
    "forward, again",
    "in reverse",
    "on thread 1 of 4",
    "on thread 2 of 4",
    "on thread 3 of 4",
    "on thread 4 of 4",
];

fn scratch() -> PathBuf {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let dir = runner::root().join("harness/target/scratch");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("history-{}-{}.json", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)))
}

fn c22(h: &History, cx: &mut Cx) -> Verdict {
    let n = h.steps.len();
    let file = scratch();
    let text = serde_json::to_string(h).unwrap_or_default();
    if let Err(e) = std::fs::write(&file, text) {
        runner::fatal(&format!("{}: {e}", file.display()));
    }
    let exe = std::env::current_exe().unwrap_or_else(|e| runner::fatal(&format!("own path: {e}")));
    let spawn = |reversed: bool| {
        let mut c = Command::new(&exe);
        c.arg("history").arg(&file).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
        if reversed {
            c.env_clear().env("HISTORY_REVERSED", "1").env("TZ", "Asia/Kolkata").env("LANG", "tr_TR.UTF-8").current_dir("/");
        }
        c.spawn().unwrap_or_else(|e| runner::fatal(&format!("child: {e}")))
    };
    let children = [spawn(false), spawn(true)];
    let here = h.in_order(0..n);
    let mut runs: Vec<Vec<Value>> = vec![];
    let mut ends = vec![];
    for c in children {
        let out = c.wait_with_output().unwrap_or_else(|e| runner::fatal(&format!("child: {e}")));
        ends.push(out.status);
        if let Ok(r) = serde_json::from_slice::<Vec<Vec<Value>>>(&out.stdout) {
            runs.extend(r);
        }
    }
    let _ = std::fs::remove_file(&file);
    if runs.len() != NAMES.len() || runs.iter().any(|r| r.len() != n) {
        runner::fatal(&format!("a history process gave no results ({ends:?})"));
    }

    let granted = here.iter().filter(|v| v.get("ok").is_some()).count();
    cx.label_if(granted > 0, "some operation succeeds");
    let refused = here.iter().filter(|v| v.get("err").is_some()).count();
    cx.label_if(refused > 0, "some operation fails");
    cx.label_owned(format!("{} sessions", h.sessions.len()));
    // the same operation on shared and on other arguments
    let differ = (0..n).any(|i| (0..i).any(|j| h.steps[i].kind == h.steps[j].kind && here[i] != here[j]));
    cx.label_if(differ, "the same operation with different results");
    if differ && granted > 0 {
        cx.nontrivial();
    }
    for (i, step) in h.steps.iter().enumerate() {
        ensure!(here[i] != json!("an argument was changed"), "operation {i}, {step:?}: an argument was changed");
        for (name, run) in NAMES.iter().zip(&runs) {
            ensure!(
                run[i] == here[i],
                "operation {i}, {step:?}, gives {} when the history runs {name} in a fresh process, but {} in this process",
                run[i],
                here[i]
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ generation

fn focus() -> S<Focus> {
    prop_oneof![
        3 => Just(Focus::Key),
        3 => Just(Focus::Nonce),
        2 => Just(Focus::Window),
        2 => Just(Focus::Audience),
        1 => Just(Focus::Types),
        1 => Just(Focus::Did),
        1 => Just(Focus::Signature),
        1 => Just(Focus::All),
    ]
    .boxed()
}

/// Another session: the first one with changes, or one of its own
#[derive(Debug, Clone)]
enum Other {
    Changed(Vec<eval::Change>),
    Fresh(Box<eval::Case>, u8),
    Same,
}

fn other() -> S<Other> {
    prop_oneof![
        6 => vec(focus().prop_flat_map(eval::change), 1..3).prop_map(Other::Changed),
        3 => (eval::case(Focus::Window), any::<u8>()).prop_map(|(c, keep)| Other::Fresh(Box::new(c), keep)),
        1 => Just(Other::Same),
    ]
    .boxed()
}

impl Other {
    fn case(self, first: &eval::Case) -> eval::Case {
        match self {
            Other::Same => first.clone(),
            Other::Changed(changes) => {
                let mut c = first.clone();
                for x in changes {
                    x.apply(&mut c);
                }
                c
            }
            Other::Fresh(mut c, keep) => {
                // shares some of the first one's identifiers
                if keep & 1 == 1 {
                    c.meta.issuer = first.meta.issuer.clone();
                }
                if keep & 2 == 2 {
                    c.opts = first.opts.clone();
                }
                if keep & 4 == 4 {
                    c.offer = first.offer.clone();
                }
                if keep & 8 == 8 {
                    c.doc = first.doc.clone();
                }
                if keep & 16 == 16 {
                    for (a, b) in c.meta.supported.iter_mut().zip(&first.meta.supported) {
                        a.id = b.id.clone();
                    }
                }
                if let (Some(p), Some(q)) = (&mut c.request.proof, first.proof()) {
                    if keep & 32 == 32 {
                        p.key = q.key.clone();
                    }
                    if keep & 64 == 64 {
                        p.nonce = q.nonce.clone();
                    }
                    if keep & 128 == 128 {
                        p.aud = q.aud.clone();
                    }
                }
                *c
            }
        }
    }
}

fn step() -> S<Step> {
    let kind = prop_oneof![
        2 => Just(Kind::CreateOffer),
        1 => Just(Kind::Resolve),
        3 => Just(Kind::Token),
        1 => Just(Kind::TokenResponse),
        2 => Just(Kind::PreEvaluate),
        6 => Just(Kind::Evaluate),
        2 => Just(Kind::Decode),
        2 => Just(Kind::CredentialResponse),
        1 => Just(Kind::ErrorResponse),
    ];
    let at = (0u8..4, option::weighted(0.4, (0u8..6, 0u8..4)), option::weighted(0.15, (0u8..6, 0u8..4)));
    (kind, at)
        .prop_map(|(kind, (session, a, b))| {
            let mut s =
                Step { kind, meta: session, request: session, offer: session, doc: session, opts: session, now: session };
            for (field, from) in [a, b].into_iter().flatten() {
                match field {
                    0 => s.meta = from,
                    1 => s.request = from,
                    2 => s.offer = from,
                    3 => s.doc = from,
                    4 => s.opts = from,
                    _ => s.now = from,
                }
            }
            s
        })
        .boxed()
}

fn histories() -> S<History> {
    let own = || (option::weighted(0.7, gen::pin()), option::of(crate::props::offers::endpoint()), gen::token());
    (
        prop_oneof![3 => eval::case(Focus::Window), 1 => eval::case(Focus::All)],
        vec(other(), 1..3),
        vec(own(), 3),
        prop_oneof![4 => vec(step(), 2..10), 1 => vec(step(), 10..30)],
    )
        .prop_map(|(first, others, own, steps)| {
            let mut cases = vec![first.clone()];
            cases.extend(others.into_iter().map(|o| o.case(&first)));
            let mut sessions: Vec<Session> = vec![];
            for (case, (pin, endpoint, token)) in cases.into_iter().zip(own) {
                sessions.push(Session { case, pin, endpoint, token });
            }
            // PINs that are asked for are there, so that some requests are granted
            for s in &mut sessions {
                let required = s.case.offer.as_ref().and_then(|o| o.pre.as_ref()).and_then(|p| p.pin_required) == Some(true);
                if !required && s.pin.is_some_and(|p| p % 4 != 0) {
                    s.pin = None;
                }
            }
            History { sessions, steps }
        })
        .boxed()
}

// ------------------------------------------------------------------------------------------------ long runs

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Long {
    history: History,
    times: u16,
}

/// Thousands of repetitions in one process
fn long(l: &Long, cx: &mut Cx) -> Verdict {
    let n = l.history.steps.len();
    let first = l.history.in_order(0..n);
    cx.nontrivial();
    cx.label("repeated");
    for round in 1..l.times {
        // a different interleaving every time
        let again = l.history.in_order((0..n).map(|i| (i + usize::from(round)) % n));
        for (i, (a, b)) in first.iter().zip(&again).enumerate() {
            ensure!(a == b, "operation {i}, {:?}, gives {b} at repetition {round}, but {a} before", l.history.steps[i]);
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C22",
        rule: "histories of 2 to 29 operations over two or three sessions, of which the later ones are the first with one or two changes, or others that share some of its identifiers; arguments are mixed between sessions. Every history runs 8 times: in fresh processes forward, forward again, in reverse, on four threads, and in a process with a long past. Non-trivial: some operation succeeds and one kind of operation has different results within the history (repeated: every case)",
        suites: vec![
            Suite { name: "history", cases: 2_400, strategy: histories, check: c22 }.boxed(),
            Suite {
                name: "repeated",
                cases: 80,
                strategy: || {
                    (histories(), 300u16..600).prop_map(|(history, times)| Long { history, times }).boxed()
                },
                check: long,
            }
            .boxed(),
        ],
        assumptions: &[
            "results are compared as data: the order of members that come from a hash map does not count",
            "schedules of concurrent calls are those that occur, not all",
        ],
        isolated: false,
    }]
}
