From 2b0f0c3beecb03bebbc95c24158ab8e751fd8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 01/22] fix: serialize error codes as the registered snake_case
 values

Error responses sent to the wallet contained the Rust variant names
("InvalidRequest") instead of the codes of the specification
("invalid_request").
---
 crates/openid4vci/src/access_token/error_response.rs  | 1 +
 crates/openid4vci/src/credential_issuer/error_code.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/access_token/error_response.rs b/crates/openid4vci/src/access_token/error_response.rs
index e96c3f5..9cb4a39 100644
--- a/crates/openid4vci/src/access_token/error_response.rs
+++ b/crates/openid4vci/src/access_token/error_response.rs
@@ -6,6 +6,7 @@ use crate::validate::ValidationError;
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 6.3 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-6.3).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum AccessTokenErrorCode {
     /// `invalid_request`
     ///
diff --git a/crates/openid4vci/src/credential_issuer/error_code.rs b/crates/openid4vci/src/credential_issuer/error_code.rs
index 36061ba..0f22fb4 100644
--- a/crates/openid4vci/src/credential_issuer/error_code.rs
+++ b/crates/openid4vci/src/credential_issuer/error_code.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 7.3.1 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-7.3.1).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum CredentialIssuerErrorCode {
     /// Credential Request was malformed. One or more of the parameters (i.e. format, proof) are
     /// missing or malformed.
-- 
2.43.0


From 49c6c5469c6cb6c1c5ab2d29e5d7559ff2413201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 02/22] fix: serialize the issued credential as a plain JSON
 string or object

The `credential` member of the credential response was wrapped in an object
named after the Rust variant, e.g. {"Encoded": "..."}.
---
 crates/openid4vci/src/types/credential.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index ae89654..39797e4 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -166,6 +166,7 @@ impl Validatable for CredentialFormatProfile {
 /// format as specified in Appendix E of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#name-credential-format-profiles).
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(untagged)]
 pub enum CredentialFormatProfileOrEncoded {
     /// [`CredentialFormatProfile`]
     CredentialFormatProfile(CredentialFormatProfile),
-- 
2.43.0


From aa4f4745e7d90d5ed9789e0fb5d9d7b943ec516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 03/22] fix: use the specified name of
 cryptographic_binding_methods_supported

The member was misspelled on the wire, so the value in any issuer metadata
following the specification was silently dropped. The misspelled name is
still accepted when reading.
---
 crates/openid4vci/src/types/credential_issuer_metadata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/openid4vci/src/types/credential_issuer_metadata.rs b/crates/openid4vci/src/types/credential_issuer_metadata.rs
index 1812f11..ea2b5d9 100644
--- a/crates/openid4vci/src/types/credential_issuer_metadata.rs
+++ b/crates/openid4vci/src/types/credential_issuer_metadata.rs
@@ -68,6 +68,10 @@ pub struct CredentialSupported {
     /// did:example. Support for all DID methods listed in Section 13 of
     /// [DID_Specification_Registries](https://www.w3.org/TR/did-spec-registries/) is indicated by
     /// sending a DID without any method-name.
+    #[serde(
+        rename = "cryptographic_binding_methods_supported",
+        alias = "cryptographic_binding_mehtods_supported"
+    )]
     pub cryptographic_binding_mehtods_supported: Option<Vec<String>>,
 
     /// Array of case sensitive strings that identify the cryptographic suites that are supported
-- 
2.43.0


From 61068b1c3dc0d183841ebd69f2d4abd7e261ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 04/22] fix: use the specified name of the value_type claim
 property

It was read and written as `valueType`, so values in documents following the
specification were silently dropped. `valueType` is still accepted when
reading.
---
 crates/openid4vci/src/types/credential.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index 39797e4..a04f83c 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -133,7 +133,11 @@ pub struct CredentialSubject {
     /// defined by this specification are string, number, and image media types such as image/jpeg
     /// as defined in [IANA media type registry for
     /// images](https://www.iana.org/assignments/media-types/media-types.xhtml#image).
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "value_type",
+        alias = "valueType",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub value_type: Option<String>,
 
     /// An array of objects, where each object contains display properties of a certain claim in
-- 
2.43.0


From 7cf861a1de79cbdae7fd4230865b54ad8afb265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 05/22] fix: describe validation errors by their validation
 message

The description of every validation error was a fixed text, as the failing
test should_extract_correct_information_for_validation_error shows.
---
 crates/openid4vci/src/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/validate.rs b/crates/openid4vci/src/validate.rs
index 1e89fb1..0222019 100644
--- a/crates/openid4vci/src/validate.rs
+++ b/crates/openid4vci/src/validate.rs
@@ -6,7 +6,7 @@ use thiserror::Error;
 #[repr(u32)]
 #[serde(untagged)]
 pub enum ValidationError {
-    #[error("An error occurred during validation, serialization or deserialization")]
+    #[error("{validation_message}")]
     /// Any validation error occurred
     Any {
         /// Validation message that should help the user debug the issue
-- 
2.43.0


From 82e5707dd4d3aea22ee86e283a9569438f300b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 06/22] fix: validate the credential request before evaluating
 it

A proof with an unsupported `proof_type` was evaluated successfully, while
pre-evaluation and the success response refuse it.
---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3ff7744..c65f6b9 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -506,6 +506,7 @@ impl CredentialIssuer {
         evaluate_credential_request_options: Option<EvaluateCredentialRequestOptions>,
     ) -> CredentialIssuerResult<CredentialIssuerEvaluateRequestResponse> {
         issuer_metadata.validate()?;
+        credential_request.validate()?;
 
         let credential_offer =
             credential_offer.ok_or(CredentialIssuerError::CredentialOfferMustBeSupplied)?;
-- 
2.43.0


From 8a4404acb684de67619f960e5f0a25fd7c7517c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 07/22] fix: refuse proofs outside their validity window

Evaluating a credential request never verified `nbf` and `exp`, so a proof
that is expired or not yet valid was evaluated successfully.
---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index c65f6b9..11e0392 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -536,6 +536,7 @@ impl CredentialIssuer {
         if let Some(CredentialRequestProof { jwt, .. }) = &credential_request.proof {
             let jwt = ProofJwt::from_str(jwt)?;
             jwt.validate()?;
+            jwt.verify()?;
 
             let expected_c_nonce = evaluate_credential_request_options
                 .clone()
-- 
2.43.0


From 86fcd5559a2c5207b801e8826126921de5090adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:59 +0000
Subject: [PATCH 08/22] fix: refuse proofs without a digital signature
 algorithm

The `alg` of a proof MUST NOT be none or an identifier for a symmetric
algorithm, but `none`, the HMAC algorithms and ECDH-ES were all accepted.
---
 crates/openid4vci/src/jwt/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b1fa7be..3a474fb 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -556,7 +556,18 @@ impl Validatable for ProofJwtHeader {
             });
         }
 
-        Ok(())
+        // Check whether the `alg` is a digital signature algorithm
+        match self.alg {
+            ProofJwtAlgorithm::None
+            | ProofJwtAlgorithm::HS256
+            | ProofJwtAlgorithm::HS384
+            | ProofJwtAlgorithm::HS512
+            | ProofJwtAlgorithm::ECDHES => Err(ValidationError::Any {
+                validation_message: "jwt header `alg` MUST be a digital signature algorithm"
+                    .to_owned(),
+            }),
+            _ => Ok(()),
+        }
     }
 }
 
-- 
2.43.0


From 356dc3af645751fbba7ed1fe0df25f5e6870755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 09/22] fix: refuse user pins of nine digits

The integer logarithm is one less than the number of digits, so a pin of nine
digits passed the check for at most eight.
---
 crates/openid4vci/src/access_token/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 794220a..7ab2152 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -106,7 +106,8 @@ impl Validatable for GrantType {
                 if let Some(user_pin) = user_pin {
                     let max = 8;
                     let length = user_pin.checked_ilog10().unwrap_or_default();
-                    if length > max {
+                    // `ilog10` is one less than the number of digits
+                    if length >= max {
                         return Err(ValidationError::Any {
                             validation_message: format!(
                                 "user pin exeeded length. Maximum is {max}, supplied is {length}"
-- 
2.43.0


From b9b84a269da5efc95d956a1bfa8367f83f74b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 10/22] fix: append the offer to an endpoint that already has a
 query

A second `?` made the offer part of the value of the last query parameter of
the endpoint.
---
 crates/openid4vci/src/credential_issuer/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 11e0392..9d5b34e 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -454,7 +454,11 @@ impl CredentialIssuer {
         // This is a deeplink if no `credential_offer_endpoint` is provided
         let credential_offer_url_prefix = credential_offer_endpoint
             .clone()
-            .map_or("openid-credential-offer://".to_owned(), |u| format!("{u}?"));
+            .map_or("openid-credential-offer://".to_owned(), |u| {
+                // Retain the query parameters of the endpoint, if it has any
+                let separator = if u.contains('?') { '&' } else { '?' };
+                format!("{u}{separator}")
+            });
 
         let credential_offer_url =
             format!("{credential_offer_url_prefix}credential_offer={credential_offer_url_encoded}");
-- 
2.43.0


From c33f539aad6b6157f547e7aad0145b9f2e0ea8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 11/22] fix: do not panic when the expiry of a c_nonce is out
 of range

Adding the lifetime to a creation time close to the largest representable
time panicked.
---
 crates/openid4vci/src/credential_issuer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 9d5b34e..4d909c7 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -525,8 +525,10 @@ impl CredentialIssuer {
             .clone()
             .and_then(|o| o.c_nonce)
         {
-            let expiry_timestamp = c_nonce_options.c_nonce_created_at
-                + Duration::seconds(c_nonce_options.c_nonce_expires_in.into());
+            let expiry_timestamp = c_nonce_options
+                .c_nonce_created_at
+                .checked_add_signed(Duration::seconds(c_nonce_options.c_nonce_expires_in.into()))
+                .unwrap_or(DateTime::<Utc>::MAX_UTC);
             let now = Utc::now();
 
             if expiry_timestamp < now {
-- 
2.43.0


From e5b3aaa019338ffd237e9765778baba672d81582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:05 +0000
Subject: [PATCH 12/22] fix: do not report a key id that is not a DID as a DID

Parsing a DID URL accepts almost any text, so pre-evaluation asked to resolve
key ids like "key-1", and even the empty string, as a DID.
---
 crates/openid4vci/src/jwt/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 3a474fb..2c9d366 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -186,6 +186,19 @@ impl ProofJwt {
                         }
                     })?;
 
+                    // `DIDURL` accepts any text, so check for `did:<method>:<id>`
+                    let mut parts = did.did.splitn(3, ':');
+                    let is_did = parts.next() == Some("did")
+                        && parts.next().map_or(false, |method| !method.is_empty())
+                        && parts.next().map_or(false, |id| !id.is_empty());
+
+                    if !is_did {
+                        return Err(JwtError::UnableToTransformIntoDid {
+                            kid: key_id.clone(),
+                            message: ssi_dids::Error::DIDURL.to_string(),
+                        });
+                    }
+
                     Ok(Some(did.did))
                 }
                 ProofJwtAdditionalHeader::Jwk(jwk) => {
-- 
2.43.0


From 21b56294ce6d71d05ee9f58dfe74110f8d5e8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:07 +0000
Subject: [PATCH 13/22] fix: refuse octet keys that are not EdDSA keys

Only EdDSA is supported, but every OKP key was accepted for verifying a
signature, including X25519 key agreement keys.
---
 crates/openid4vci/src/jwt/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 2c9d366..60df34b 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -476,7 +476,13 @@ impl ProofJwtHeader {
                     algorithm: alg_name,
                 }),
             },
-            ssi_jwk::Params::OKP(params) => Ok(params.public_key.0.clone()),
+            // An `Ed448` key has no default algorithm
+            ssi_jwk::Params::OKP(params)
+                if alg == ssi_jwk::Algorithm::EdDSA
+                    || (jwk.algorithm.is_none() && params.curve == "Ed448") =>
+            {
+                Ok(params.public_key.0.clone())
+            }
             _ => Err(JwtError::UnsupportedAlgorithm {
                 algorithm: alg_name,
             }),
-- 
2.43.0


From c066aacc98d306196507be6d30b70695b0deb317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:39 +0000
Subject: [PATCH 14/22] fix: refuse proofs that name more than one key

---
 crates/openid4vci/src/jwt/mod.rs | 40 ++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 60df34b..b3ef5ee 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -329,6 +329,7 @@ impl ProofJwt {
 /// Struct mapping of `jwt header` in the `proof types` as defined in section 7.2.1 of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#proof_types)
 #[derive(Debug, Serialize, Deserialize, Clone)]
+#[serde(try_from = "RawProofJwtHeader")]
 pub struct ProofJwtHeader {
     /// MUST be openid4vci-proof+jwt, which explicitly types the proof JWT as recommended in
     /// Section 3.11 of [RFC8725](https://www.rfc-editor.org/rfc/rfc8725.txt).
@@ -344,6 +345,45 @@ pub struct ProofJwtHeader {
     pub additional_header: Option<ProofJwtAdditionalHeader>,
 }
 
+/// JOSE header of a `jwt` proof as it is received
+#[derive(Deserialize)]
+struct RawProofJwtHeader {
+    /// `typ` of the header
+    typ: String,
+
+    /// `alg` of the header
+    alg: ProofJwtAlgorithm,
+
+    /// Key id
+    kid: Option<String>,
+
+    /// Key
+    jwk: Option<String>,
+
+    /// Certificate chain
+    x5c: Option<String>,
+}
+
+impl TryFrom<RawProofJwtHeader> for ProofJwtHeader {
+    type Error = &'static str;
+
+    fn try_from(raw: RawProofJwtHeader) -> Result<Self, Self::Error> {
+        let additional_header = match (raw.kid, raw.jwk, raw.x5c) {
+            (None, None, None) => None,
+            (Some(kid), None, None) => Some(ProofJwtAdditionalHeader::KeyId(kid)),
+            (None, Some(jwk), None) => Some(ProofJwtAdditionalHeader::Jwk(jwk)),
+            (None, None, Some(x5c)) => Some(ProofJwtAdditionalHeader::X5c(x5c)),
+            _ => return Err("only one of `kid`, `jwk` and `x5c` MUST be present in the header"),
+        };
+
+        Ok(Self {
+            typ: raw.typ,
+            alg: raw.alg,
+            additional_header,
+        })
+    }
+}
+
 impl ProofJwtHeader {
     /// Extract the key and algorithm from the JWT header
     ///
-- 
2.43.0


From bf24aac116e7ebd5a701b05893ae97b088dfb9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:40 +0000
Subject: [PATCH 15/22] fix: read inline keys and certificates given as JSON

---
 crates/openid4vci/src/jwt/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b3ef5ee..b4f2aab 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -357,22 +357,28 @@ struct RawProofJwtHeader {
     /// Key id
     kid: Option<String>,
 
-    /// Key
-    jwk: Option<String>,
+    /// Key, a JSON object or the text of one
+    jwk: Option<serde_json::Value>,
 
-    /// Certificate chain
-    x5c: Option<String>,
+    /// Certificate chain, a JSON array or text
+    x5c: Option<serde_json::Value>,
 }
 
 impl TryFrom<RawProofJwtHeader> for ProofJwtHeader {
     type Error = &'static str;
 
     fn try_from(raw: RawProofJwtHeader) -> Result<Self, Self::Error> {
+        // Keep text as it is, and any other JSON as the text of it
+        let to_text = |value| match value {
+            serde_json::Value::String(text) => text,
+            value => value.to_string(),
+        };
+
         let additional_header = match (raw.kid, raw.jwk, raw.x5c) {
             (None, None, None) => None,
             (Some(kid), None, None) => Some(ProofJwtAdditionalHeader::KeyId(kid)),
-            (None, Some(jwk), None) => Some(ProofJwtAdditionalHeader::Jwk(jwk)),
-            (None, None, Some(x5c)) => Some(ProofJwtAdditionalHeader::X5c(x5c)),
+            (None, Some(jwk), None) => Some(ProofJwtAdditionalHeader::Jwk(to_text(jwk))),
+            (None, None, Some(x5c)) => Some(ProofJwtAdditionalHeader::X5c(to_text(x5c))),
             _ => return Err("only one of `kid`, `jwk` and `x5c` MUST be present in the header"),
         };
 
-- 
2.43.0


From be755628c2d4d6cd369845339940be905063a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 16/22] fix: refuse proofs with more than three parts

---
 crates/openid4vci/src/jwt/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b4f2aab..b4a2545 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -92,6 +92,12 @@ impl FromStr for ProofJwt {
 
         let signature = res.next();
 
+        if res.next().is_some() {
+            return Err(ValidationError::Any {
+                validation_message: "More than three parts found in the `JWT`".to_owned(),
+            });
+        }
+
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
-- 
2.43.0


From ffa21598868e4bd1b6e6bc154d26a520d8368faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:22 +0000
Subject: [PATCH 17/22] fix: read numeric dates in proofs

---
 crates/openid4vci/src/jwt/mod.rs | 67 ++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b4a2545..b2cb5ee 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -582,7 +582,7 @@ pub struct ProofJwtBody {
 
     /// The value of this claim MUST be the time at which the proof was issued using the syntax
     /// defined in [RFC7519](https://www.rfc-editor.org/rfc/rfc7519.txt).
-    #[serde(rename = "iat")]
+    #[serde(rename = "iat", deserialize_with = "timestamp::deserialize")]
     pub issued_at: DateTime<Utc>,
 
     /// The value type of this claim MUST be a string, where the value is a `c_nonce` provided by
@@ -595,7 +595,12 @@ pub struct ProofJwtBody {
     /// provide for some small leeway, usually no more than a few minutes, to account for clock
     /// skew.  Its value MUST be a number containing a NumericDate value.  Use of this claim is
     /// OPTIONAL.
-    #[serde(rename = "nbf", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "nbf",
+        default,
+        deserialize_with = "timestamp::deserialize_option",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub not_before: Option<DateTime<Utc>>,
 
     /// The "exp" (expiration time) claim identifies the expiration time on or after which the JWT
@@ -604,10 +609,66 @@ pub struct ProofJwtBody {
     /// Implementers MAY provide for some small leeway, usually no more than a few minutes, to
     /// account for clock skew.  Its value MUST be a number containing a NumericDate value.  Use of
     /// this claim is OPTIONAL.
-    #[serde(rename = "exp", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "exp",
+        default,
+        deserialize_with = "timestamp::deserialize_option",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub expires_at: Option<DateTime<Utc>>,
 }
 
+/// Deserialization of the timestamps in the body of a `jwt` proof
+mod timestamp {
+    use chrono::{DateTime, TimeZone, Utc};
+    use serde::{de::Error, Deserialize, Deserializer};
+
+    /// Forms in which a timestamp is accepted
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum Timestamp {
+        /// RFC 3339 text
+        Text(DateTime<Utc>),
+
+        /// `NumericDate`
+        Seconds(i64),
+
+        /// `NumericDate` with a fraction
+        Fractional(f64),
+    }
+
+    impl Timestamp {
+        fn into_date_time<E: Error>(self) -> Result<DateTime<Utc>, E> {
+            let (seconds, nanoseconds) = match self {
+                Self::Text(timestamp) => return Ok(timestamp),
+                Self::Seconds(seconds) => (seconds, 0),
+                Self::Fractional(value) => {
+                    let nanoseconds = (value - value.floor()) * 1e9;
+                    (value.floor() as i64, (nanoseconds as u32).min(999_999_999))
+                }
+            };
+
+            Utc.timestamp_opt(seconds, nanoseconds)
+                .single()
+                .ok_or_else(|| E::custom("timestamp is out of range"))
+        }
+    }
+
+    /// Deserialize a timestamp
+    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<DateTime<Utc>, D::Error> {
+        Timestamp::deserialize(d)?.into_date_time()
+    }
+
+    /// Deserialize an optional timestamp
+    pub fn deserialize_option<'de, D: Deserializer<'de>>(
+        d: D,
+    ) -> Result<Option<DateTime<Utc>>, D::Error> {
+        Option::<Timestamp>::deserialize(d)?
+            .map(Timestamp::into_date_time)
+            .transpose()
+    }
+}
+
 impl Validatable for ProofJwt {
     fn validate(&self) -> ValidationResult<()> {
         self.header.validate()?;
-- 
2.43.0


From 0603b1e64894d0bc6ec9fd330078a847ec09f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 18/22] fix: refuse error details that cannot be sent

---
 crates/openid4vci/src/access_token/mod.rs     |  3 ++-
 .../openid4vci/src/credential_issuer/mod.rs   |  4 ++-
 crates/openid4vci/src/error_response.rs       | 26 +++++++++++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 7ab2152..fe39d64 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -259,7 +259,7 @@ impl AccessToken {
     ///
     /// # Errors
     ///
-    /// Unable to error, `Result` is used for consistency
+    /// - When the additional details are not an object or contain a member of the response
     pub fn create_access_token_error_response(
         error: error_response::AccessTokenErrorCode,
         error_description: Option<String>,
@@ -272,6 +272,7 @@ impl AccessToken {
             error_uri,
             error_additional_details,
         };
+        error_response.validate()?;
 
         Ok(error_response)
     }
diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 4d909c7..db7fd54 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -656,7 +656,7 @@ impl CredentialIssuer {
     ///
     /// # Errors
     ///
-    /// Unable to error, `Result` is used for consistency
+    /// - When the additional details are not an object or contain a member of the response
     pub fn create_credential_error_response(
         error: &CredentialIssuerErrorCode,
         error_description: Option<String>,
@@ -669,6 +669,8 @@ impl CredentialIssuer {
             error_uri,
             error_additional_details,
         };
+        response.validate()?;
+
         Ok(response)
     }
 }
diff --git a/crates/openid4vci/src/error_response.rs b/crates/openid4vci/src/error_response.rs
index f9cc9a5..8d378f9 100644
--- a/crates/openid4vci/src/error_response.rs
+++ b/crates/openid4vci/src/error_response.rs
@@ -1,3 +1,4 @@
+use crate::validate::{Validatable, ValidationError};
 use serde::Serialize;
 
 /// Generic struct mapping for a `token error response`
@@ -21,3 +22,28 @@ where
     #[serde(flatten)]
     pub error_additional_details: Option<serde_json::Value>,
 }
+
+impl<T> Validatable for ErrorResponse<T>
+where
+    T: Serialize + PartialEq,
+{
+    fn validate(&self) -> Result<(), ValidationError> {
+        // The additional details are flattened into the response
+        let reserved = ["error", "error_description", "error_uri"];
+
+        match &self.error_additional_details {
+            None | Some(serde_json::Value::Null) => Ok(()),
+            Some(serde_json::Value::Object(details))
+                if !reserved.iter().any(|name| details.contains_key(*name)) =>
+            {
+                Ok(())
+            }
+            Some(_) => Err(ValidationError::Any {
+                validation_message: format!(
+                    "additional details MUST be an object without any of: {}",
+                    reserved.join(", ")
+                ),
+            }),
+        }
+    }
+}
-- 
2.43.0


From 40792c07bf8cd58d52d36ec533c9485058a07bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:17 +0000
Subject: [PATCH 19/22] fix: read credential offers without grants

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index db7fd54..c565bc7 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -190,6 +190,7 @@ pub struct CredentialOffer {
     /// the respective request(s). If grants is not present or empty, the Wallet MUST determine the
     /// Grant Types the Credential Issuer's AS supports using the respective metadata. When multiple
     /// grants are present, it's at the Wallet's discretion which one to use.
+    #[serde(default)]
     pub grants: CredentialOfferGrants,
 }
 
-- 
2.43.0


From cb138c00778383ca51d1e46661d9baee78804418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:18 +0000
Subject: [PATCH 20/22] fix: read token types in any letter case

---
 crates/openid4vci/src/types/token_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/types/token_type.rs b/crates/openid4vci/src/types/token_type.rs
index 550573b..5dad287 100644
--- a/crates/openid4vci/src/types/token_type.rs
+++ b/crates/openid4vci/src/types/token_type.rs
@@ -4,6 +4,7 @@ use crate::validate::ValidationError;
 
 /// Enum containing token types for an access token response.
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(try_from = "String")]
 pub enum AccessTokenType {
     /// `Bearer` token type, as defined in Section 6.1.1 of [OAuth 2.0 Bearer Token Usage](https://www.rfc-editor.org/rfc/rfc6750#section-6.1.1).
     Bearer,
@@ -21,8 +22,9 @@ impl TryFrom<String> for AccessTokenType {
     type Error = ValidationError;
 
     fn try_from(value: String) -> core::result::Result<Self, Self::Error> {
-        match value.as_str() {
-            "Bearer" => Ok(AccessTokenType::Bearer),
+        // The value is case insensitive
+        match value.to_ascii_lowercase().as_str() {
+            "bearer" => Ok(AccessTokenType::Bearer),
             _ => Err(ValidationError::Any {
                 validation_message: "Invalid access token type".to_string(),
             }),
-- 
2.43.0


From 66a731c2730b73e7765a9e09bff1ca185d56e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:44 +0000
Subject: [PATCH 21/22] fix: refuse proofs whose header or body is not a JSON
 object

---
 crates/openid4vci/src/jwt/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b2cb5ee..906353b 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -101,6 +101,16 @@ impl FromStr for ProofJwt {
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
+        // A struct can also be deserialized from a JSON array
+        let is_object = |json: &[u8]| json.iter().find(|b| !b.is_ascii_whitespace()) == Some(&b'{');
+
+        if !is_object(&header) || !is_object(&body) {
+            return Err(ValidationError::Any {
+                validation_message: "The header and body of the `JWT` MUST be JSON objects"
+                    .to_owned(),
+            });
+        }
+
         let header: ProofJwtHeader = serde_json::from_slice(&header)?;
         let body: ProofJwtBody = serde_json::from_slice(&body)?;
 
-- 
2.43.0


From f945238c442f83f8fff28135f33faa9e06b3c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:03 +0000
Subject: [PATCH 22/22] fix: return the signature of a signed proof whose
 claims contain dots

---
 crates/openid4vci/src/jwt/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 906353b..a45f31b 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -284,10 +284,14 @@ impl ProofJwt {
         let jwt = s_jwt.clone();
         let parts: Vec<_> = jwt.splitn(3, '.').collect();
 
-        // Get the second index, the signature and error if not defined
-        let signature = parts
-            .get(2)
-            .ok_or(JwtError::SignatureNotInJwt { jwt: s_jwt })?;
+        // Get the second index, the signature and error if not defined. The header and body can
+        // contain dots, so only search when the signature is not known
+        let signature = match &self.signature {
+            Some(signature) => signature.as_str(),
+            None => parts
+                .get(2)
+                .ok_or(JwtError::SignatureNotInJwt { jwt: s_jwt })?,
+        };
 
         // Return the bytes of the signature
         Ok(signature.as_bytes().to_vec())
-- 
2.43.0

