import json
S="crates/openid4vci/src/"
AT=S+"access_token/mod.rs"; CI=S+"credential_issuer/mod.rs"; J=S+"jwt/mod.rs"; TC=S+"types/credential.rs"; TR=S+"types/credential_request.rs"; TM=S+"types/credential_issuer_metadata.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})
p("C01","A token request is granted only against its own pre-authorized code",
 "Evaluating an access token request succeeds only if the request uses the pre-authorized grant type, a credential offer was supplied, that offer contains a pre-authorized grant, and the code in the request is identical, character for character, to the code in that grant. Everything else, including authorization-code requests and offers that list only other grants or none, is refused with an error.",
 ["inputs","configurations"],"every token request (both grant types, any code text), every offer (absent, or with any combination of grants), every supplied option",
 "The tests try one matching and one differing code and a handful of grant combinations; they never try near-miss codes (case, whitespace, prefixes, long codes) or the full combination of grants and options.",
 [AT],[("grant, flow and code comparison","AccessToken::evaluate_access_token_request")],["result of AccessToken::evaluate_access_token_request"])
p("C02","The user PIN rules hold for every granted token request",
 "A granted token request carries a user PIN exactly when the offer's pre-authorized grant requires one (a requirement that is not stated counts as not required), the PIN equals the PIN the issuer said it expects, and the PIN has at most eight digits. A PIN of more than eight digits is refused whatever the rest of the request says, and a PIN is never accepted when the issuer supplied no PIN to compare it with.",
 ["inputs","configurations"],"every PIN in the 64-bit range or none, every requirement flag (absent, false, true), every expected PIN or none",
 "Tests use five PINs (none of nine digits, none at a digit boundary) and three of the requirement/presence/expectation combinations.",
 [AT],[("PIN length validation","Validatable for GrantType"),("PIN presence and equality","AccessToken::evaluate_access_token_request")],["result of AccessToken::evaluate_access_token_request","Validatable::validate on grant types and requests"])
p("C03","Legitimate token requests are granted and refusals state a true reason",
 "A pre-authorized token request whose code matches the offer and whose PIN is present exactly when required, is at most eight digits and equals the expected one is always granted, whatever other grants the offer also lists. When a request is refused, the error names a condition that really holds for that request, and every detail inside the error (requested and accepted grant types, whether a PIN should be supplied, whether the code matches, which flow failed why, how long the PIN is) is true of it.",
 ["inputs","configurations"],"every combination of request, offer and options",
 "The tests check a dozen hand-written requests; whether a rare legitimate combination is refused, or an error detail is wrong for some combination, needs the whole input space.",
 [AT,S+"access_token/error.rs"],[("decision table","AccessToken::evaluate_access_token_request"),("error payloads","AccessTokenError")],["result of AccessToken::evaluate_access_token_request"])
p("C04","An offer contains exactly what the issuer asked for",
 "A successfully created credential offer names the issuer exactly as the issuer metadata does, lists the given credentials and credential ids unchanged and in the given order, carries the given pre-authorized grant unchanged (or none if none was given) and carries no authorization-code grant. Asking for an authorization-code grant is always refused; any other request with resolvable ids and valid metadata yields an offer.",
 ["inputs","configurations"],"every issuer metadata, list of credentials and ids, grant options and endpoint",
 "Two tests create an offer, each with a single credential and an otherwise default configuration.",
 [CI],[("offer construction","CredentialIssuer::create_offer"),("offer constructor","CredentialOffer::new")],["result of CredentialIssuer::create_offer"])
p("C05","Credential ids resolve only to the issuer's own entry with that id",
 "Resolving a credential id yields exactly the credential description of the issuer metadata entry whose id is identical to it, resolving a list yields one description per element in the same order, and inline credentials resolve to themselves. If any id has no such entry, resolution and offer creation fail and the error names the first id that could not be resolved. Issuer metadata in which two entries share an id is refused by offer creation and by credential request evaluation, while entries without an id never conflict.",
 ["inputs","configurations"],"every list of supported credentials (with and without ids, duplicate ids anywhere in the list) and every list of references",
 "Tests resolve one id against one entry and one id against an empty list; duplicate ids and multi-entry resolution are never tried.",
 [CI,TM],[("id lookup","CredentialOrId::resolve, CredentialOrIds::resolve_all"),("unique ids","Validatable for CredentialIssuerMetadata")],["CredentialOrId::resolve","CredentialOrIds::resolve_all","CredentialIssuer::create_offer","CredentialIssuer::evaluate_credential_request"])
p("C06","The offer URL delivers the offer intact to the wallet",
 "Parsing the offer URL as a URL and percent-decoding its `credential_offer` query parameter gives JSON text that parses back to exactly the created offer, for any text inside the offer. With an endpoint the URL keeps that endpoint, including query parameters it already has, unchanged; without one it is an `openid-credential-offer://` deep link whose query carries the offer.",
 ["inputs","configurations"],"every offer content (any Unicode text in any field) and every endpoint URL without a fragment, or none",
 "One test compares one ASCII offer's deep link with a fixed string (and pins a link that has no `?`); no test decodes a URL, uses an endpoint, or non-ASCII text.",
 [CI],[("percent-encoding","CredentialOffer::url_encode"),("URL prefix","CredentialIssuer::create_offer")],["URL returned by CredentialIssuer::create_offer","CredentialOffer::url_encode"])
p("C07","Pre-evaluation returns exactly the DID to resolve, or refuses",
 "Pre-evaluating a credential request whose proof names its key by a DID URL returns the DID of that URL, without path, query or fragment; a request without a proof, or whose proof names no key or a key id that is not a DID URL, never yields a DID. Proofs that carry their key inline or as a certificate are refused as unsupported, naming the kind of key and its value, and invalid proofs are refused. The DID is the same one a successful evaluation of that request reports as the subject.",
 ["inputs"],"every credential request, with every key id text and every kind of key reference",
 "Two tests, one DID URL and one inline key.",
 [CI,J],[("DID extraction","ProofJwt::extract_did"),("validation","CredentialIssuer::pre_evaluate_credential_request")],["result of CredentialIssuer::pre_evaluate_credential_request","ProofJwt::extract_did"])
p("C08","A credential request is accepted only with the expected, unexpired nonce",
 "Evaluating a credential request succeeds only if the issuer supplied an expected nonce, the nonce in the proof is identical to it, and the current time is not later than the nonce's creation time plus its lifetime in seconds. A nonce that is already expired is refused whether or not the request contains a proof, and an unexpired one is never reported as expired.",
 ["inputs","configurations"],"every nonce text, creation time, lifetime (0 to 2^32-1 seconds) and current time",
 "Tests use one nonce, one mismatching nonce and one that expired 100 hours ago, on the real clock; near-miss nonces, expiry around the boundary and extreme times are not reached.",
 [CI,J],[("expiry","CredentialIssuer::evaluate_credential_request"),("nonce comparison","ProofJwt::check_nonce")],["result of CredentialIssuer::evaluate_credential_request","ProofJwt::check_nonce"])
p("C09","An accepted proof is bound to this issuer and to the expected client",
 "Evaluating a credential request succeeds only if the audience in the proof is identical to the issuer identifier in the issuer metadata. If a client id is supplied, the proof's issuer claim must be identical to it; if none is supplied, the proof's issuer claim is ignored when the offer's only grant is the pre-authorized one and must otherwise be absent.",
 ["inputs","configurations"],"every audience and issuer claim, issuer identifier, client id (or none) and combination of grants in the offer",
 "Tests use one audience mismatch and two client-id situations, always with a pre-authorized-only offer.",
 [CI,J],[("audience check","ProofJwt::check_aud"),("client check","ProofJwt::check_iss and the decision table in CredentialIssuer::evaluate_credential_request")],["result of CredentialIssuer::evaluate_credential_request","ProofJwt::check_aud","ProofJwt::check_iss"])
p("C10","Only well-typed proofs with a real signature algorithm are accepted",
 "A credential request that contains a proof is pre-evaluated, evaluated or answered successfully only if that proof has proof type `jwt` and header type `openid4vci-proof+jwt` (both in any letter case), declares a digital signature algorithm (never none, a MAC, or key agreement), and carries at most one of a key id, an inline key and a certificate. Evaluation of a request without a proof is always refused.",
 ["inputs"],"every proof type text, header type text, declared algorithm and set of key references",
 "Every test proof has the right types and an asymmetric algorithm (or bypasses validation); no test submits a wrong type, `none`, a MAC algorithm or two key references.",
 [TR,J,CI],[("proof type and header validation","Validatable for CredentialRequestProof, ProofJwtHeader"),("callers","CredentialIssuer::pre_evaluate_credential_request, evaluate_credential_request, create_credential_success_response")],["results of those three calls","Validatable::validate on requests and proofs"])
p("C11","Proofs are honoured only inside their validity window",
 "A credential request whose proof has a not-before time in the future or an expiry time in the past is never evaluated successfully, and verifying such a proof fails naming the time that was violated and the current time. A proof whose not-before time is not later than now and whose expiry time is later than now, or which omits them, is never refused because of time.",
 ["inputs"],"every not-before and expiry time (each optional, any order, sub-second differences) against every current time",
 "Tests verify dates 32 months off on the real clock and never through evaluation; nothing near the boundary, no combination of both bounds.",
 [J,CI],[("time window","ProofJwt::verify"),("caller","CredentialIssuer::evaluate_credential_request")],["result of CredentialIssuer::evaluate_credential_request","ProofJwt::verify"])
p("C12","Evaluation reports the holder's own key, subject, algorithm and credential",
 "A successful evaluation returns the public key of the verification method in the supplied DID document that the proof's key id identifies (by its absolute id or its id relative to the document), the algorithm the proof declares, the DID of the key id as subject, and exactly the credential description that was requested. If there is no DID document, no such verification method, no single usable key in it, or the key is not an EdDSA key, evaluation fails.",
 ["inputs","configurations"],"every key id and DID document: any number of verification methods, in any relationship, with near-miss ids, relative ids and every supported and unsupported encoding of key material",
 "Tests use documents with a single verification method and one key encoding.",
 [J,CI],[("key selection and decoding","ProofJwtHeader::extract_key_and_alg"),("response","CredentialIssuer::evaluate_credential_request")],["result of CredentialIssuer::evaluate_credential_request","ProofJwt::extract_key_and_alg"])
p("C13","The bytes handed out for signature verification are the ones that were signed",
 "The message returned by a successful evaluation is the proof's JWS signing input, that is its first two dot-separated segments exactly as sent, and the returned signature is the signature in its third segment. A proof without a signature is refused.",
 ["inputs"],"every proof: any header member order, whitespace, extra members, claim text (dots, Unicode), and signature",
 "The only test fixes the bytes for one unsigned proof, and fixes them to a re-serialised text that no wallet signed.",
 [J,CI],[("message","ProofJwt::to_signable_message"),("signature","ProofJwt::extract_signature")],["proof_of_possession of CredentialIssuer::evaluate_credential_request","ProofJwt::to_signable_message","ProofJwt::extract_signature"])
p("C14","Legitimate credential requests are accepted and refusals state a true reason",
 "A request with a well-formed, signed, in-time proof for this issuer, carrying the expected fresh nonce, an acceptable client and a key id that the supplied DID document resolves to an EdDSA key, is always evaluated successfully given valid metadata and an offer and no authorization server metadata. When a request is refused, the error names a condition that really holds for it and any expected or actual values inside the error are the real ones.",
 ["inputs","configurations"],"every combination of metadata, offer, request, DID document, options and current time",
 "Six evaluation tests share one fixed proof and one fixed DID document.",
 [CI,J,S+"credential_issuer/error.rs",S+"jwt/error.rs"],[("evaluation","CredentialIssuer::evaluate_credential_request"),("error payloads","CredentialIssuerError, JwtError")],["result of CredentialIssuer::evaluate_credential_request"])
p("C15","A credential response carries exactly the issued credential on the wire",
 "Serialised to JSON, a credential success response has the requested format name as `format`, the given nonce and lifetime, and either the given acceptance token or, under `credential`, the issued credential: a JSON object for `ldp_vc`, and for every other format a JSON string that base64url-decodes to the credential's JSON. Nothing that was not given appears, the returned timestamp is the time of the call, and parsing the JSON back gives an equal response.",
 ["inputs"],"every request, every credential of every format or acceptance token or neither, every nonce",
 "One test builds one `jwt_vc_json` credential and looks at the in-memory value, never at the JSON that is sent.",
 [CI,TC],[("response construction","CredentialIssuer::create_credential_success_response"),("per-format encoding","TryFrom<CredentialFormatProfile> for CredentialFormatProfileOrEncoded")],["JSON of the response"])
p("C16","A token response carries exactly the given values on the wire",
 "Serialised to JSON, an access token success response has under each OAuth/OpenID4VCI member name exactly the value the issuer supplied, nothing for values not supplied, and `Bearer` as token type; parsing it back gives an equal response and the returned timestamp is the time of the call. Validating such a response fails exactly when it has a nonce lifetime without a nonce.",
 ["inputs"],"every combination of the eight values",
 "One test sets all eight values once and reads them back in memory.",
 [AT,S+"types/token_type.rs"],[("response construction","AccessToken::create_access_token_success_response"),("validation","Validatable for AccessTokenSuccessResponse")],["JSON of the response","Validatable::validate"])
p("C17","Error responses use the registered error codes on the wire",
 "Serialised to JSON, an access token or credential error response has the registered snake_case code of the chosen error as `error`, the given description and URI, and each additional detail as a top-level member, and nothing else; details that could not be sent that way, because they are not an object or would overwrite those members, are refused. Each registered code converts to text and back to the same error, and every other text is rejected.",
 ["inputs"],"every error code, description, URI, details value and code text",
 "Tests convert each code to text and build one response in memory; none looks at the JSON that is sent.",
 [S+"error_response.rs",S+"access_token/error_response.rs",S+"credential_issuer/error_code.rs",AT,CI],[("wire form","ErrorResponse serialisation"),("code tables","AccessTokenErrorCode, CredentialIssuerErrorCode conversions")],["JSON of the responses","conversions of the codes from and to text"])
p("C18","Error reports identify the error and carry its details",
 "Every error converts to a report with that error's documented numeric code (distinct for every kind of error), its name, its message as description (for a validation error, on its own or of a token or issuer call, the validation message), and a JSON object holding exactly the error's details, if it has any. Converting a result to a return object puts the value under `info` on success and the report under `error` on failure, never both, and adding warnings appends them without changing anything else.",
 ["inputs"],"every error of every kind with every payload, every success value and list of warnings",
 "Tests cover four of about forty errors; the numeric code is read through an unsafe cast that no test checks for the other kinds.",
 [S+"macros.rs",S+"error.rs",S+"return_object.rs",S+"validate.rs",S+"credential_issuer/error.rs",S+"jwt/error.rs",S+"access_token/error.rs"],[("report","error_impl macro"),("return object","ToReturnObject, ReturnObject::add_warning")],["information() of each error","to_return_object() and its JSON"])
p("C19","Protocol documents survive parsing and serialising",
 "Parsing a JSON issuer metadata, credential offer, credential description, credential request or token response and serialising it again keeps every member the library documents for it with its value and invents none, and issuer metadata additionally keeps every unknown top-level member. Unknown members elsewhere do not prevent parsing, parsing the result again gives the same document, and documents that lack a mandatory member, name an unknown format or give a member a value of the wrong type are rejected.",
 ["inputs"],"every well-formed document of each kind: any subset of optional members, all four formats, any text, any number of entries, nested claims",
 "Three tests parse one fixed document each and look at three fields; none serialises, and none checks offers, metadata or requests.",
 [TM,TC,TR,CI,AT],[("wire names and structure","serde attributes of the types")],["serde_json round trip of the public types"])
p("C20","A decoded proof says exactly what the wallet wrote",
 "Decoding a proof in compact form yields exactly the header members, claims, times and signature that were encoded, for any member order, whitespace, extra members and text, with times given as numeric dates or RFC 3339 text. A text that is not two or three dot-separated segments, of which the first two are the base64url encodings of JSON objects with all mandatory members of the right type, is rejected with an error.",
 ["inputs"],"every header, claim set and signature, and every malformed variant of the compact form",
 "One test decodes one fixed proof; no malformed proof is tried.",
 [J,S+"base.rs"],[("compact parsing","FromStr for ProofJwt"),("segment decoding","base64url::decode")],["ProofJwt::from_str"])
p("C21","No input makes the library panic",
 "Whatever text, JSON, DID document, options, times and previously decoded values are passed in, every public operation returns a result or an error and never panics, aborts or fails to terminate.",
 ["inputs"],"arbitrary and corrupted-but-plausible inputs to every public entry point",
 "Tests only pass well-formed inputs; a wallet controls the proof, key id and request bytes, and any of them could hit an arithmetic, slicing or unwrap failure.",
 [J,CI,AT,S+"macros.rs"],[("fallible parsing","FromStr for ProofJwt, extract_key_and_alg"),("time arithmetic","CredentialIssuer::evaluate_credential_request")],["all public operations"])
p("C22","Results depend only on the arguments and the clock",
 "The result of every operation is determined by its arguments and the current time alone: earlier calls, calls for other sessions in between, repetition and concurrent calls on other threads never change it, and arguments passed by reference are left unchanged.",
 ["histories","schedules"],"every sequence and interleaving of offer creation, token evaluation, pre-evaluation, evaluation and response creation over several sessions that share codes, nonces, keys and ids",
 "Every test makes one or two calls; state leaking between sessions only shows in longer histories with colliding identifiers.",
 [CI,AT,J],[("pure functions without shared state","CredentialIssuer, AccessToken, ProofJwt")],["results of every operation within a history"])
p("C23","The pre-authorized issuance flow works end to end and rejects any tampering",
 "For every issuer configuration, a wallet that parses the offer URL, requests a token with the offered code and required PIN, and requests an offered credential with a proof for the resulting nonce completes the flow and the issuer ends up with that wallet's DID, key and requested credential. If any one of the code, PIN, nonce, audience, key, proof type, time or metadata in that flow is replaced by a different or invalid value, the step that depends on it fails.",
 ["histories","inputs","configurations"],"every honest flow over generated issuers, offers, wallets and credentials, and every single replacement in it",
 "Each test exercises one function on hand-made input; no test feeds the output of one step into the next.",
 [CI,AT,J,S+"types"],[("the whole flow","CredentialIssuer::create_offer, AccessToken::evaluate_access_token_request, CredentialIssuer::pre_evaluate_credential_request, evaluate_credential_request, create_credential_success_response")],["results of each step of the flow"])
p("C24","Values stored or exchanged as JSON keep their meaning",
 "The evaluation options, nonces, token requests and decoded proofs that issuers store or pass on as JSON have exactly the documented members, come back equal when they are read again (times in any offset, optional members null or left out, members the library does not know ignored), and every operation gives the same result for metadata, offers, requests, options and proofs that were stored and read again as for the originals. The results of pre-evaluation and evaluation are written as JSON objects with exactly the documented members and the values they hold, and an error report displays as its own JSON.",
 ["inputs"],"every options, nonce, token request, proof and result: any texts, PINs, times to the nanosecond, lifetimes, keys and algorithms, any subset of optional members",
 "No test serialises options, results or proofs and reads them back; the tests use the Rust values directly.",
 [CI,AT,J,S+"error.rs",S+"types"],[("wire names and times","serde attributes of EvaluateCredentialRequestOptions, CNonceOptions, EvaluateAccessTokenRequestOptions, AccessTokenRequest, ProofJwt and the response types"),("reports as text","Display for ErrorInformation")],["serde_json round trips, results of operations on re-read values"])
p("C25","Validation accepts exactly the values that keep the documented rules, and calls refuse for that reason",
 "Validating issuer metadata fails exactly when two entries share an id; a credential request or its proof, exactly when the proof breaks a rule about proof type, header type, algorithm or number of keys; a key reference, exactly when it is not a key id; a token request or grant, exactly when its PIN has more than eight digits. Offers, grants, credential descriptions, displays, logos and server metadata have no rules and are always valid. A stored and re-read value gets the same verdict, and a call whose only fault is one invalid argument refuses with that argument's validation error, while calls with valid arguments never give a validation error.",
 ["inputs","configurations"],"every metadata, offer, request, proof, key reference, token request and grant, with any number of rules broken",
 "Tests validate a handful of values, mostly through the calls, and never compare the verdict on a value with what the calls do with it.",
 ["crates/openid4vci/src/validate.rs",TM,TC,TR,J,AT,CI],[("rules","implementations of Validatable"),("use of the rules","the validate calls at the start of each operation")],["Validatable::validate on each type","errors of create_offer, evaluate_access_token_request, pre_evaluate_credential_request, evaluate_credential_request, create_credential_success_response"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import subprocess
