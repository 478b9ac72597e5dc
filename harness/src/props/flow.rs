//! C23: the whole pre-authorized flow, for several sessions at once.
//!
//! The issuer of the harness keeps its sessions as JSON texts; the wallet of the harness knows only what was sent to
//! it. Every step takes its arguments from what earlier steps returned, possibly from those of another session, or
//! replaced by another value, and the outcome of every step is compared with the rules of the flow.

use crate::clock;
use crate::eval::{self, Change, Focus, NonceOpt, T};
use crate::gen::{self, Near, Rel, S};
use crate::props::offers::{self, OfferCase};
use crate::props::responses::{carries, present, wire};
use crate::props::token;
use crate::runner::{Cx, Property, Suite, Verdict};
use crate::spec::*;
use openid4vci::access_token::AccessToken;
use openid4vci::credential_issuer::{
    CNonce, CNonceOptions, CredentialIssuer, CredentialOffer, CredentialOrAcceptanceToken, CredentialOrId,
    EvaluateCredentialRequestOptions,
};
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential_issuer_metadata::CredentialIssuerMetadata;
use openid4vci::types::credential_request::CredentialRequest;
use openid4vci::types::token_type::AccessTokenType;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// An issuer and a wallet, and what they agreed on
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Party {
    /// metadata, wallet, proof, DID document, client id and lifetime come from this honest evaluation
    base: eval::Case,
    refs: Vec<CredRef>,
    pre: Pre,
    pin: u64,
    endpoint: Option<String>,
    token: String,
    nonces: Vec<String>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum OfferSpoil {
    DuplicateId(u16, u16),
    UnknownId(u16, Near),
    Auth(Auth),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum TokenSpoil {
    Code(Rel),
    /// what the wallet sends
    Pin(Option<u64>),
    /// what the issuer expects
    Expected(Option<Option<u64>>),
    AuthCode,
    /// the issuer forgot the offer
    NoOffer,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Act {
    Offer(Option<OfferSpoil>),
    /// with the code of this session and the PIN of that one
    Token { code: u8, pin: u8, spoil: Option<TokenSpoil> },
    /// with the nonce, the audience, the key and the document of these sessions
    Credential { pick: u16, nonce: u8, stale: bool, aud: u8, key: u8, doc: u8, changes: Vec<Change> },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Step {
    session: u8,
    act: Act,
    wait: u64,
    /// the time since the last step: `wait` nanoseconds, until the nonce expires and `wait` longer, or a part of the
    /// time the nonce still lives
    mode: u8,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Flow {
    parties: Vec<Party>,
    start: Inst,
    steps: Vec<Step>,
}

// ------------------------------------------------------------------------------------------------ generation

fn party() -> S<Party> {
    (
        eval::honest_case(),
        (vec((any::<u16>(), option::weighted(0.3, gen::small_cred())), 1..4), gen::pre(), gen::pin_short()),
        (option::weighted(0.6, offers::endpoint()), gen::token(), vec(gen::token(), 3)),
    )
        .prop_map(|(mut base, (refs, pre, pin), (endpoint, token, nonces))| {
            if let Some(n) = base.opts.as_mut().and_then(|o| o.nonce.as_mut()) {
                // seldom too short for the other sessions
                if n.lifetime % 8 != 0 {
                    n.lifetime = n.lifetime.saturating_add(86_400);
                }
            }
            for (i, s) in base.meta.supported.iter_mut().enumerate() {
                s.cred.types.push(format!("Entry{i}"));
                s.cred.doctype.push_str(&format!(".{i}"));
            }
            let ids: Vec<String> = base.meta.ids().cloned().collect();
            let refs = refs
                .into_iter()
                .map(|(i, inline)| match inline {
                    None if !ids.is_empty() => CredRef::Id(ids[usize::from(i) % ids.len()].clone()),
                    None => CredRef::Inline(base.request.cred.clone()),
                    Some(c) => CredRef::Inline(c),
                })
                .collect();
            Party { base, refs, pre, pin, endpoint, token, nonces }
        })
        .boxed()
}

fn offer_spoil() -> S<OfferSpoil> {
    prop_oneof![
        any::<(u16, u16)>().prop_map(|(a, b)| OfferSpoil::DuplicateId(a, b)),
        (any::<u16>(), gen::near()).prop_map(|(i, n)| OfferSpoil::UnknownId(i, n)),
        gen::auth().prop_map(OfferSpoil::Auth),
    ]
    .boxed()
}

fn token_spoil() -> S<TokenSpoil> {
    prop_oneof![
        4 => gen::differing().prop_map(TokenSpoil::Code),
        4 => option::of(gen::pin()).prop_map(TokenSpoil::Pin),
        2 => option::of(option::of(gen::pin())).prop_map(TokenSpoil::Expected),
        1 => Just(TokenSpoil::AuthCode),
        1 => Just(TokenSpoil::NoOffer),
    ]
    .boxed()
}

/// Mostly 0 ("the same session")
fn other(p: f64) -> S<u8> {
    (0.0..1.0f64).prop_flat_map(move |r| if r < p { (1u8..4).boxed() } else { Just(0u8).boxed() }).boxed()
}

/// `spoil`: how often a step is not honest; `deviate`: how often a value comes from another session
fn steps(spoil: f64, deviate: f64) -> S<Vec<(u8, Vec<Step>)>> {
    let wait = || {
        prop_oneof![
            9 => any::<u64>().prop_map(|w| (w, 2)),
            2 => Just((0u64, 0)),
            1 => (0u64..120_000_000_000).prop_map(|w| (w, 0)),
            1 => (0u64..90_000_000_000_000).prop_map(|w| (w, 0)),
            1 => Just((0u64, 1)),
            1 => prop_oneof![Just(1u64), Just(999_999_999), Just(1_000_000_000), 0u64..5_000_000_000].prop_map(|w| (w, 1)),
        ]
        .boxed()
    };
    let offer = offers::maybe(spoil / 2.0, offer_spoil()).prop_map(Act::Offer);
    let token = (other(deviate), other(deviate), offers::maybe(spoil, token_spoil()))
        .prop_map(|(code, pin, spoil)| Act::Token { code, pin, spoil });
    let credential = (
        any::<u16>(),
        other(deviate),
        (0.0..1.0f64).prop_map(move |r| r < spoil / 2.0),
        (other(deviate), other(deviate), other(deviate)),
        prop_oneof![
            4 => Just(vec![]),
            2 => vec(eval::change(Focus::All), if spoil > 0.0 { 1 } else { 0 }),
        ],
    )
        .prop_map(|(pick, nonce, stale, (aud, key, doc), changes)| {
            // the key and the document of another wallet belong together, now and then
            let doc = if pick % 3 == 0 { key } else { doc };
            Act::Credential { pick, nonce, stale, aud, key, doc, changes }
        });
    let step = |act: S<Act>| {
        (act, wait()).prop_map(|(act, (wait, mode))| Step { session: 0, act, wait, mode }).boxed()
    };
    let offer = step(offer.boxed());
    let token = step(token.boxed());
    let credential = step(credential.boxed());
    let one = (
        (offer.clone(), offers::maybe(spoil / 2.0, offer.clone())),
        (token.clone(), offers::maybe(spoil, token.clone())),
        vec(credential.clone(), 1..4),
        offers::maybe(spoil / 3.0, prop_oneof![offer, token, credential].boxed()),
    )
        .prop_map(|((o, o2), (t, t2), c, early)| {
            early.into_iter().chain([o]).chain(o2).chain([t]).chain(t2).chain(c).collect::<Vec<Step>>()
        });
    vec((any::<u8>(), one), 4).boxed()
}

fn flows(n: std::ops::Range<usize>, spoil: f64, deviate: f64) -> S<Flow> {
    (vec(party(), n), gen::now(), steps(spoil, deviate), vec(any::<u8>(), 0..30), any::<u8>())
        .prop_map(|(mut parties, start, steps, order, share)| {
            // sessions of the same issuer, of the same wallet, or with the same code
            for i in 1..parties.len() {
                let first = parties[0].clone();
                let p = &mut parties[i];
                if share & 1 == 1 {
                    let old = p.base.meta.issuer.clone();
                    p.base.meta = first.base.meta.clone();
                    p.refs = first.refs.clone();
                    if let Some(proof) = &mut p.base.request.proof {
                        if proof.aud == old {
                            proof.aud = p.base.meta.issuer.clone();
                        }
                    }
                }
                if share & 2 == 2 {
                    p.base.doc = first.base.doc.clone();
                    let key = first.base.proof().map(|f| f.key.clone());
                    if let (Some(proof), Some(key)) = (&mut p.base.request.proof, key) {
                        proof.key = key;
                    }
                }
                if share & 12 == 12 {
                    p.pre.code = first.pre.code;
                }
            }
            // interleave
            let mut queues: Vec<std::collections::VecDeque<Step>> = steps
                .into_iter()
                .take(parties.len())
                .enumerate()
                .map(|(i, (_, q))| q.into_iter().map(|s| Step { session: i as u8, ..s }).collect())
                .collect();
            let mut steps = vec![];
            let mut order = order.into_iter();
            while queues.iter().any(|q| !q.is_empty()) {
                let nonempty: Vec<usize> = (0..queues.len()).filter(|i| !queues[*i].is_empty()).collect();
                let i = nonempty[usize::from(order.next().unwrap_or(0)) % nonempty.len()];
                steps.extend(queues[i].pop_front());
            }
            Flow { parties, start, steps }
        })
        .boxed()
}

// ------------------------------------------------------------------------------------------------ the run

/// What issuer and wallet know about a session
#[derive(Default)]
struct Session {
    /// the issuer's record of the offer, as JSON text
    stored: Option<String>,
    /// the offer as it reached the wallet
    delivered: Option<Value>,
    /// what was offered
    refs: Vec<CredRef>,
    nonce: Option<NonceState>,
    stale: Option<String>,
    issued: usize,
    spent: usize,
}

#[derive(Clone)]
struct NonceState {
    nonce: String,
    lifetime: u32,
    created: Inst,
}

fn inst(t: chrono::DateTime<chrono::Utc>) -> Inst {
    Inst(t.timestamp(), t.timestamp_subsec_nanos())
}

fn text(v: &Value, name: &str) -> Option<String> {
    v.get(name).and_then(Value::as_str).map(str::to_owned)
}

struct Run<'a> {
    flow: &'a Flow,
    sessions: Vec<Session>,
    now: Inst,
}

impl Run<'_> {
    /// The session that is `by` further than `at`
    fn from(&self, at: usize, by: u8) -> usize {
        (at + usize::from(by)) % self.flow.parties.len()
    }

    fn next_nonce(&mut self, i: usize) -> String {
        let s = &mut self.sessions[i];
        let nonces = &self.flow.parties[i].nonces;
        let n = s.spent;
        s.spent += 1;
        format!("{}{}", nonces[n % nonces.len()], "'".repeat(n / nonces.len()))
    }

    fn step(&mut self, step: &Step, cx: &mut Cx) -> Verdict {
        let i = usize::from(step.session) % self.flow.parties.len();
        let mut ns = self.now.total_ns();
        let wait = i128::from(step.wait);
        let expiry =
            self.sessions[i].nonce.as_ref().map(|n| n.created.total_ns() + i128::from(n.lifetime) * 1_000_000_000);
        match (expiry, step.mode) {
            (Some(e), 1) => ns = ns.max(e) + wait,
            (Some(e), 2) => ns += wait % ((e - ns).clamp(0, 14_400_000_000_000) / 4 + 1),
            (_, 0) => ns += wait,
            _ => {}
        }
        self.now = Inst::from_ns(ns);
        match &step.act {
            Act::Offer(spoil) => self.offer(i, spoil.as_ref(), cx),
            Act::Token { code, pin, spoil } => self.token(i, *code, *pin, spoil.as_ref(), cx),
            Act::Credential { .. } => self.credential(i, &step.act, cx),
        }
    }

    fn offer(&mut self, i: usize, spoil: Option<&OfferSpoil>, cx: &mut Cx) -> Verdict {
        let p = &self.flow.parties[i];
        let mut meta = p.base.meta.clone();
        let mut refs = p.refs.clone();
        let mut auth = None;
        match spoil {
            None => {}
            Some(OfferSpoil::DuplicateId(a, b)) => eval::duplicate_id(&mut meta, *a, *b),
            Some(OfferSpoil::UnknownId(at, near)) => {
                let at = usize::from(*at) % (refs.len() + 1);
                let id = meta.ids().next().cloned().unwrap_or_else(|| "id".into());
                refs.insert(at, CredRef::Id(near.apply(&id)));
            }
            Some(OfferSpoil::Auth(a)) => auth = Some(a.native()),
        }
        let model =
            OfferCase { meta, refs, auth: None, pre: Some(p.pre.clone()), endpoint: p.endpoint.clone(), via: 3 };
        let ok = model.creatable() && auth.is_none();
        // the issuer reads its metadata from a file
        let meta: CredentialIssuerMetadata = serde_json::from_str(&model.meta.json().to_string())
            .map_err(|e| format!("the metadata does not parse: {e}"))?;
        let list: Vec<CredentialOrId> = model.refs.iter().map(CredRef::native).collect();
        let pre = model.pre.as_ref().map(Pre::native);
        let result = CredentialIssuer::create_offer(&meta, list, &model.endpoint, &auth, &pre);
        let (offer, url) = match (result, ok) {
            (Ok(r), true) => r,
            (Ok(_), false) => return Err("an offer is created although it must be refused".into()),
            (Err(e), true) => return Err(format!("a legitimate offer is refused: {e:?}")),
            (Err(_), false) => {
                cx.label("offer refused");
                return Ok(());
            }
        };
        let stored = serde_json::to_string(&offer).map_err(|e| format!("the offer cannot be stored: {e}"))?;
        let received = offers::offer_text(&url, model.endpoint.as_deref(), cx)?;
        let received: Value = serde_json::from_str(&received)
            .map_err(|e| format!("the wallet cannot read the offer {received:?}: {e}"))?;
        let s = &mut self.sessions[i];
        let refs = model.refs;
        *s = Session { stored: Some(stored), refs, delivered: Some(received), spent: s.spent, issued: s.issued, ..Session::default() };
        Ok(())
    }

    fn stored(&self, i: usize) -> Result<Option<CredentialOffer>, String> {
        self.sessions[i]
            .stored
            .as_ref()
            .map(|t| serde_json::from_str(t).map_err(|e| format!("the stored offer {t} does not parse: {e}")))
            .transpose()
    }

    fn pre_grant(&self, i: usize) -> Option<&Value> {
        self.sessions[i].delivered.as_ref()?.get("grants")?.get("urn:ietf:params:oauth:grant-type:pre-authorized_code")
    }

    fn token(&mut self, i: usize, code: u8, pin: u8, spoil: Option<&TokenSpoil>, cx: &mut Cx) -> Verdict {
        let parties = &self.flow.parties;
        let (from_code, from_pin) = (self.from(i, code), self.from(i, pin));
        // the wallet
        let mut code = self.pre_grant(from_code).and_then(|g| text(g, "pre-authorized_code")).unwrap_or_default();
        let required = |i: usize| self.pre_grant(i).and_then(|g| g.get("user_pin_required")).and_then(Value::as_bool);
        let mut pin = required(from_code).unwrap_or(false).then_some(parties[from_pin].pin);
        // the issuer
        let mut expected = parties[i].pre.pin_required.unwrap_or(false).then_some(Some(parties[i].pin));
        let mut offer = self.stored(i)?;
        let mut auth_request = false;
        match spoil {
            None => {}
            Some(TokenSpoil::Code(r)) => code = r.apply(&code),
            Some(TokenSpoil::Pin(p)) => pin = *p,
            Some(TokenSpoil::Expected(p)) => expected = *p,
            Some(TokenSpoil::AuthCode) => auth_request = true,
            Some(TokenSpoil::NoOffer) => offer = None,
        }
        let model = token::TokenCase {
            req: if auth_request { TokenReq::AuthCode } else { TokenReq::Pre { code, pin } },
            offer: offer.as_ref().map(|_| Offer {
                issuer: parties[i].base.meta.issuer.clone(),
                creds: parties[i].refs.clone(),
                auth: None,
                pre: Some(parties[i].pre.clone()),
            }),
            expected,
        };
        let honest = spoil.is_none() && from_code == i && from_pin == i && self.sessions[i].delivered.is_some();
        ensure!(
            !honest || model.grantable(),
            "a wallet that follows the offer it received ({:?}) must ask with {:?}, which is not granted: the offer is {:?}",
            self.sessions[i].delivered,
            model.req,
            model.offer
        );
        let result =
            AccessToken::evaluate_access_token_request(&model.req.native(), offer, token_options(model.expected));
        match (result, model.grantable()) {
            (Ok(()), true) => {}
            (Ok(()), false) => return Err(format!("a token is granted for {:?}, {:?}", model.req, model.expected)),
            (Err(e), true) => return Err(format!("a legitimate token request is refused: {e:?}")),
            (Err(_), false) => {
                cx.label("token refused");
                cx.nontrivial();
                return Ok(());
            }
        }
        // the response
        let party = &self.flow.parties[i];
        let lifetime = party.base.nonce().map_or(0, |n| n.lifetime);
        let token = party.token.clone();
        let nonce = self.next_nonce(i);
        let (response, at) = clock::at((self.now.0, self.now.1), || {
            AccessToken::create_access_token_success_response(
                token.clone(),
                AccessTokenType::Bearer,
                Some(86_400),
                None,
                Some(nonce.clone()),
                Some(lifetime),
                Some(false),
                None,
            )
        })
        .map_err(|e| format!("no token response: {e:?}"))?;
        let sent = wire(&response)?;
        ensure!(text(&sent, "access_token") == Some(token), "the wallet receives {sent}");
        let received = text(&sent, "c_nonce").ok_or_else(|| format!("the wallet receives no nonce in {sent}"))?;
        ensure!(received == nonce, "the wallet receives the nonce {received:?} instead of {nonce:?}");
        let s = &mut self.sessions[i];
        s.stale = s.nonce.take().map(|n| n.nonce);
        s.nonce = Some(NonceState { nonce, lifetime, created: inst(at) });
        Ok(())
    }

    /// What the wallet asks for: an element of the offer, ids being looked up in the published metadata
    fn pick(&self, i: usize, pick: u16) -> Result<(Cred, Value), String> {
        let party = &self.flow.parties[i];
        let refs = if self.sessions[i].delivered.is_some() { &self.sessions[i].refs } else { &party.refs };
        let at = usize::from(pick) % refs.len();
        let cred = match &refs[at] {
            CredRef::Inline(c) => c.clone(),
            CredRef::Id(id) => {
                let entry = party.base.meta.supported.iter().find(|s| s.id.as_ref() == Some(id));
                entry.map(|s| s.cred.clone()).ok_or("no entry")?
            }
        };
        let Some(offer) = &self.sessions[i].delivered else { return Ok((cred.clone(), cred.json())) };
        let element = &offer["credentials"][at];
        let asked = match element {
            Value::String(id) => {
                let meta: CredentialIssuerMetadata = serde_json::from_str(&party.base.meta.json().to_string())
                    .map_err(|e| format!("the metadata does not parse: {e}"))?;
                let published = wire(&meta)?;
                let entries = published["credentials_supported"].as_array().cloned().unwrap_or_default();
                let mut entry = entries
                    .into_iter()
                    .find(|e| text(e, "id").as_ref() == Some(id))
                    .ok_or_else(|| format!("the published metadata {published} has no entry {id:?}"))?;
                if let Some(m) = entry.as_object_mut() {
                    let other = ["id", "cryptographic_binding_methods_supported", "cryptographic_suites_supported", "display"];
                    m.retain(|k, v| !other.contains(&k.as_str()) && !v.is_null());
                }
                entry
            }
            element => element.clone(),
        };
        Ok((cred, asked))
    }

    fn credential(&mut self, i: usize, act: &Act, cx: &mut Cx) -> Verdict {
        let Act::Credential { pick, nonce, stale, aud, key, doc, changes } = act else { return Ok(()) };
        let flow = self.flow;
        let (nonce, aud, key, doc) = (self.from(i, *nonce), self.from(i, *aud), self.from(i, *key), self.from(i, *doc));
        let (cred, asked) = self.pick(i, *pick)?;

        // the evaluation as the rules see it
        let mut case = flow.parties[i].base.clone();
        case.changes.clear();
        case.move_to(self.now);
        case.request.cred = cred;
        case.doc = flow.parties[doc].base.doc.clone();
        case.offer = self.sessions[i].stored.as_ref().map(|_| Offer {
            issuer: flow.parties[i].base.meta.issuer.clone(),
            creds: self.sessions[i].refs.clone(),
            auth: None,
            pre: Some(flow.parties[i].pre.clone()),
        });
        let offered = case.offer.clone();
        let wallets = &self.sessions[nonce];
        let wallets = if *stale { wallets.stale.clone() } else { wallets.nonce.as_ref().map(|n| n.nonce.clone()) };
        if let Some(o) = &mut case.opts {
            o.nonce = self.sessions[i]
                .nonce
                .as_ref()
                .map(|n| NonceOpt { expected: n.nonce.clone(), lifetime: n.lifetime, created: n.created });
        }
        let issuer = self.sessions[aud].delivered.as_ref().and_then(|o| text(o, "credential_issuer"));
        let proof = case.request.proof.as_mut().ok_or("no proof")?;
        proof.nonce = wallets.unwrap_or_else(|| flow.parties[nonce].nonces[0].clone());
        proof.aud = issuer.unwrap_or_else(|| flow.parties[aud].base.meta.issuer.clone());
        proof.key = flow.parties[key].base.proof().ok_or("no proof")?.key.clone();
        for c in changes {
            // signatures are not part of this property
            if !matches!(c, Change::NoSignature | Change::EmptySignature | Change::Signature(_)) {
                c.apply(&mut case);
            }
        }

        // the evaluation as it happens
        let meta: CredentialIssuerMetadata = serde_json::from_str(&case.meta.json().to_string())
            .map_err(|e| format!("the metadata does not parse: {e}"))?;
        let mut request = asked;
        if let (Some(m), Some(p)) = (request.as_object_mut(), case.proof()) {
            m.insert("proof".into(), p.json());
        }
        let sent = request.to_string();
        let request: CredentialRequest =
            serde_json::from_str(&sent).map_err(|e| format!("the request {sent} does not parse: {e}"))?;
        // the issuer's own record, unless the change is one of the offer
        let offer = match &case.offer {
            Some(o) if Some(o) == offered.as_ref() => self.stored(i)?,
            o => o.as_ref().map(Offer::native),
        };
        let document = case.doc.as_ref().map(Doc::native);
        let server = AuthorizationServerMetadata {};
        let options = case.opts.as_ref().map(|o| EvaluateCredentialRequestOptions {
            c_nonce: o.nonce.as_ref().map(|n| CNonceOptions {
                c_nonce_expires_in: n.lifetime,
                expected_c_nonce: n.expected.clone(),
                c_nonce_created_at: n.created.chrono(),
            }),
            client_id: o.client_id.clone(),
        });
        let now = (case.now.0, case.now.1);
        let pre = clock::at(now, || CredentialIssuer::pre_evaluate_credential_request(&request));
        let result = clock::at(now, || {
            CredentialIssuer::evaluate_credential_request(
                &meta,
                &request,
                offer.as_ref(),
                case.authorization_server.then_some(&server),
                document.as_ref(),
                options,
            )
        });

        let failed = eval::failed(&case);
        let kid = case.proof().and_then(|p| p.key.kid.clone()).unwrap_or_default();
        if let Some(p) = case.proof() {
            if !eval::well_typed(p) {
                ensure!(pre.is_err(), "an invalid proof is pre-evaluated: {pre:?}");
            }
        }
        let pre_did = pre.as_ref().ok().and_then(|r| r.did.clone());
        if eval::all_hold(&case) {
            ensure!(
                pre_did.as_deref() == did_of(&kid),
                "the DID to resolve for {kid:?} is given as {pre_did:?} ({pre:?})"
            );
        }
        let evaluated = match result {
            Ok(r) => {
                ensure!(failed.is_empty(), "a request is evaluated successfully, although not: {failed:?}");
                r
            }
            Err(e) => {
                ensure!(!eval::all_hold(&case), "a legitimate request is refused: {e:?}");
                cx.label("credential refused");
                if self.sessions[i].nonce.is_some() {
                    cx.nontrivial();
                    if failed.len() == 1 {
                        cx.label_owned(format!("only: not {}", failed[0]));
                    }
                }
                return Ok(());
            }
        };
        cx.nontrivial();
        let truth = eval::key_truth(&case);
        let pop = evaluated.proof_of_possession.ok_or("evaluated successfully without a proof of possession")?;
        ensure!(truth.keys.contains(&pop.public_key), "the key is {:?} instead of {:?}", pop.public_key, truth.keys);
        if eval::kid_is_did(&kid) == T::Yes {
            ensure!(
                evaluated.subject_id.as_deref() == did_of(&kid),
                "the subject of {kid:?} is {:?}",
                evaluated.subject_id
            );
        }
        ensure!(
            evaluated.credential == case.request.cred.native(),
            "the credential is {:?} instead of the requested {:?}",
            evaluated.credential,
            case.request.cred
        );

        // the response, with a new nonce
        let lifetime = flow.parties[i].base.nonce().map_or(0, |n| n.lifetime);
        let nonce = self.next_nonce(i);
        let c_nonce = Some(CNonce { c_nonce: nonce.clone(), c_nonce_expires_in: Some(lifetime) });
        let issued = CredentialOrAcceptanceToken::Credential(evaluated.credential);
        let (response, at) =
            clock::at(now, || CredentialIssuer::create_credential_success_response(&request, Some(issued), c_nonce))
                .map_err(|e| format!("no response to a request that was evaluated successfully: {e:?}"))?;
        let sent = wire(&response)?;
        let members = present(&sent)?;
        let cred = &case.request.cred;
        ensure!(text(&sent, "format").as_deref() == Some(cred.kind.name()), "the wallet receives {sent}");
        ensure!(text(&sent, "c_nonce").as_ref() == Some(&nonce), "the wallet receives {sent}");
        ensure!(sent["c_nonce_expires_in"] == json!(lifetime), "the wallet receives {sent}");
        let credential = members.get("credential").ok_or_else(|| format!("the credential is missing from {sent}"))?;
        carries(credential, &cred.json(), Some(cred.kind == Kind::LdpVc))?;
        self.now = self.now.max(case.now);
        let s = &mut self.sessions[i];
        s.issued += 1;
        cx.label(if s.issued == 1 { "credential issued" } else { "further credential issued" });
        s.stale = s.nonce.take().map(|n| n.nonce);
        s.nonce = Some(NonceState { nonce, lifetime, created: inst(at) });
        Ok(())
    }
}

fn c23(flow: &Flow, cx: &mut Cx) -> Verdict {
    if flow.parties.is_empty() || flow.parties.iter().any(|p| p.refs.is_empty() || p.nonces.is_empty()) {
        return Ok(());
    }
    let sessions = flow.parties.iter().map(|_| Session::default()).collect();
    let mut run = Run { flow, sessions, now: flow.start };
    for (n, step) in flow.steps.iter().enumerate() {
        run.step(step, cx).map_err(|m| format!("step {n}: {m}"))?;
    }
    let all = run.sessions.iter().all(|s| s.issued > 0);
    cx.label_if(all, "every session ends with a credential");
    cx.label_if(flow.parties.len() > 1, "several sessions");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C23",
        rule: "one to four sessions of generated issuers and wallets, interleaved, every step fed with what earlier steps returned as JSON; in the suite crossed, single values are replaced or come from another session. Non-trivial: a credential was issued, or a token or credential request was refused after the session had started",
        suites: vec![
            Suite { name: "honest", cases: 8_000, strategy: || flows(1..4, 0.0, 0.0), check: c23 }.boxed(),
            Suite { name: "crossed", cases: 20_000, strategy: || flows(1..5, 0.25, 0.12), check: c23 }.boxed(),
        ],
        assumptions: &[
            "the issuer application stores offers as JSON and expects the nonce it sent last; the wallet reads the JSON it receives with another parser",
            "unsigned proofs are left to C13",
        ],
        isolated: false,
    }]
}
