From 81ae07423e03256dbd4bd7e2e45444151109665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 01/28] fix: do not panic on short or empty SCRAM attributes

The parsers sliced and indexed attributes without checking their length, so a
peer could panic either side with e.g. an empty attribute. Also require the
'a=' prefix of the authorization identity instead of skipping two bytes.
---
 src/mechanisms/scram/parser.rs | 60 ++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 229ce63..8542d2a 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -179,6 +179,15 @@ pub enum ParseError {
     BadNonce,
 }
 
+impl ParseError {
+    /// Error for an attribute that is not the expected one, which may well be empty
+    fn invalid_attribute(attribute: &[u8]) -> Self {
+        attribute
+            .first()
+            .map_or(Self::MissingAttributes, |b| Self::InvalidAttribute(*b))
+    }
+}
+
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Debug)]
 pub enum GS2CBindFlag<'scram> {
     SupportedNotUsed,
@@ -257,25 +266,28 @@ impl<'scram> ClientFirstMessage<'scram> {
         let authzid = if authzid.is_empty() {
             None
         } else {
-            Some(core::str::from_utf8(&authzid[2..]).map_err(ParseError::BadUtf8)?)
+            let authzid = authzid
+                .strip_prefix(b"a=")
+                .ok_or(ParseError::BadGS2Header)?;
+            Some(core::str::from_utf8(authzid).map_err(ParseError::BadUtf8)?)
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let username = if &next[0..2] == b"n=" {
+        let username = if next.starts_with(b"n=") {
             core::str::from_utf8(&next[2..]).map_err(ParseError::BadUtf8)?
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
+        let nonce = if next.starts_with(b"r=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
         if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
             return Err(ParseError::BadNonce);
@@ -373,32 +385,32 @@ impl<'scram> ServerFirst<'scram> {
         if next.len() < 2 {
             return Err(ParseError::MissingAttributes);
         }
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let nonce = if &next[0..2] == b"r=" {
+        let nonce = if next.starts_with(b"r=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let salt = if &next[0..2] == b"s=" {
+        let salt = if next.starts_with(b"s=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let iteration_count = if &next[0..2] == b"i=" {
+        let iteration_count = if next.starts_with(b"i=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         }
 
         Ok(Self {
@@ -445,32 +457,32 @@ impl<'scram> ClientFinal<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let channel_binding = if &next[0..2] == b"c=" {
+        let channel_binding = if next.starts_with(b"c=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
+        let nonce = if next.starts_with(b"r=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let proof = loop {
             // Skip all extensions in between nonce and proof since we can't handle them.
             // If they are mandatory-to-implement extensions we error.
             let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-            if &next[0..2] == b"p=" {
+            if next.starts_with(b"p=") {
                 break &next[2..];
-            } else if &next[0..2] == b"m=" {
+            } else if next.starts_with(b"m=") {
                 return Err(ParseError::UnknownMandatoryExtensions);
             };
         };
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         }
 
         Ok(Self {
@@ -552,9 +564,9 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
-        if &input[0..2] == b"v=" {
+        if input.starts_with(b"v=") {
             Ok(Self::Verifier(&input[2..]))
-        } else if &input[0..2] == b"e=" {
+        } else if input.starts_with(b"e=") {
             use ServerErrorValue::{
                 ChannelBindingNotSupported, ChannelBindingsDontMatch, ExtensionsNotSupported,
                 InvalidEncoding, InvalidProof, InvalidUsernameEncoding, NoResources, OtherError,
@@ -575,7 +587,7 @@ impl<'scram> ServerFinal<'scram> {
             };
             Ok(Self::Error(e))
         } else {
-            Err(ParseError::InvalidAttribute(input[0]))
+            Err(ParseError::invalid_attribute(input))
         }
     }
 
-- 
2.43.0


From 6f01c03efdcfa94913412fb8d8d2d6107e429e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 02/28] fix: hand unescaped names to SCRAM server callbacks

AuthId and AuthzId were passed on with ',' and '=' still in their escaped form
('=2C', '=3D'), i.e. as a different identity than the client authenticated as.
SaslName::unescape never advanced past the first escape sequence and could
slice out of bounds; it also dropped the rest of the name.
---
 src/mechanisms/scram/parser.rs |  9 +++++----
 src/mechanisms/scram/server.rs | 20 +++++++++++++++++---
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 8542d2a..0df082c 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -139,14 +139,15 @@ impl<'a> SaslName<'a> {
                 let good =
                     core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
                 out.push_str(good);
-                let c = match &input[bad + 1..bad + 3] {
-                    b"2C" => ',',
-                    b"3D" => '=',
+                let c = match input.get(bad + 1..bad + 3) {
+                    Some(b"2C") => ',',
+                    Some(b"3D") => '=',
                     _ => return Err(SaslNameError::InvalidEscape),
                 };
                 out.push(c);
-                input = &input[bad..];
+                input = &input[bad + 3..];
             }
+            out.push_str(core::str::from_utf8(input).map_err(SaslNameError::InvalidUtf8)?);
 
             Ok(out.into())
         } else {
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 1d0c5b0..be27eb6 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -5,7 +5,8 @@ use crate::error::{MechanismError, MechanismErrorKind, SessionError};
 use crate::mechanism::Authentication;
 use crate::mechanisms::scram::client::{ProtocolError, SCRAMError};
 use crate::mechanisms::scram::parser::{
-    ClientFinal, ClientFirstMessage, GS2CBindFlag, ServerErrorValue, ServerFinal, ServerFirst,
+    ClientFinal, ClientFirstMessage, GS2CBindFlag, SaslName, ServerErrorValue, ServerFinal,
+    ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
 use crate::mechanisms::scram::tools::{compute_signatures, generate_nonce, DOutput};
@@ -142,7 +143,15 @@ impl<const N: usize> WaitingClientFirst<N> {
 
         // FIXME: Escape Username from SCRAM format to whatever
         // TODO: This must at this stage provide so much more info <.<
-        let provider = Prov { authid, authzid };
+        // The messages carry the names in their escaped form, callbacks must see the plain one.
+        let authid_plain = SaslName::unescape(authid.as_bytes())?;
+        let authzid_plain = authzid
+            .map(|authzid| SaslName::unescape(authzid.as_bytes()))
+            .transpose()?;
+        let provider = Prov {
+            authid: authid_plain.as_ref(),
+            authzid: authzid_plain.as_deref(),
+        };
 
         match cbflag {
             // TODO: check if this is a protocol downgrade
@@ -352,8 +361,13 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                         let mut vecw = VectoredWriter::new(msg.to_ioslices());
                         *written = vecw.write_all_vectored(writer)?;
 
+                        let authid = SaslName::unescape(username.as_bytes())?;
+                        let authzid = authzid
+                            .as_deref()
+                            .map(|authzid| SaslName::unescape(authzid.as_bytes()))
+                            .transpose()?;
                         let prov = Prov {
-                            authid: username.as_str(),
+                            authid: authid.as_ref(),
                             authzid: authzid.as_deref(),
                         };
                         session_data.validate(&prov)?;
-- 
2.43.0


From a435d5ef616e2a52acc22f2f900c909139d404b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 03/28] fix: keep SCRAM session state when required input is
 missing

The state was taken before the input was checked, so a call without input
destroyed the session and the next call panicked.
---
 src/mechanisms/scram/client.rs | 4 ++++
 src/mechanisms/scram/server.rs | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 6521a64..fc60b13 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -462,6 +462,10 @@ where
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
         use ScramClientState::{ClientFirst, Initial, ServerFirst};
+        // Don't consume the state if the required input is missing, a later call may provide it.
+        if input.is_none() && matches!(self.state, Some(ClientFirst(_) | ServerFirst(_))) {
+            return Err(SessionError::InputDataRequired);
+        }
         match self.state.take() {
             Some(Initial(state)) => {
                 let mut rng = rand::thread_rng();
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index be27eb6..d5bfcb4 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -444,6 +444,15 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
         use ScramServerState::{Finished, WaitingClientFinal, WaitingClientFirst};
+        // Don't consume the state if the required input is missing, a later call may provide it.
+        if input.is_none()
+            && matches!(
+                self.state,
+                Some(WaitingClientFirst(_) | WaitingClientFinal(_))
+            )
+        {
+            return Err(SessionError::InputDataRequired);
+        }
         match self.state.take() {
             Some(WaitingClientFirst(state)) => {
                 let client_first = input.ok_or(SessionError::InputDataRequired)?;
-- 
2.43.0


From 8e84baa6dceef12352d3319c19a200a75d8de39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 04/28] fix: don't select bare SCRAM if only the PLUS variant
 was offered

With channel bindings enabled the selector of the bare mechanism also reported
itself as selected when only SCRAM-*-PLUS was offered, so a client could start
a mechanism the server never offered.
---
 src/mechanisms/scram/mechinfo.rs | 45 +++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/mechanisms/scram/mechinfo.rs b/src/mechanisms/scram/mechinfo.rs
index 0e0ca1d..9404908 100644
--- a/src/mechanisms/scram/mechinfo.rs
+++ b/src/mechanisms/scram/mechinfo.rs
@@ -54,7 +54,9 @@ mod scram_sha1 {
         No,
         /// Only SCRAM-SHA1 but not -PLUS found
         Bare,
-        /// SCRAM-SHA1-PLUS found.
+        /// Only SCRAM-SHA1-PLUS but not the bare variant found
+        PlusOnly,
+        /// Both variants found.
         Plus,
     }
     impl Selector for ScramSelector1 {
@@ -62,17 +64,22 @@ mod scram_sha1 {
             if *mechname == *SCRAM_SHA1.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA1_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::PlusOnly,
+                    Self::Bare => Self::Plus,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
+                Self::No | Self::PlusOnly => None,
                 _ => Some(&SCRAM_SHA1),
             }
         }
@@ -81,7 +88,7 @@ mod scram_sha1 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha1Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha1Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -159,7 +166,9 @@ mod scram_sha256 {
         No,
         /// Only SCRAM-SHA256 but not -PLUS found
         Bare,
-        /// SCRAM-SHA256-PLUS found.
+        /// Only SCRAM-SHA256-PLUS but not the bare variant found
+        PlusOnly,
+        /// Both variants found.
         Plus,
     }
     impl Selector for ScramSelector256 {
@@ -167,17 +176,22 @@ mod scram_sha256 {
             if *mechname == *SCRAM_SHA256.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA256_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::PlusOnly,
+                    Self::Bare => Self::Plus,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
+                Self::No | Self::PlusOnly => None,
                 _ => Some(&SCRAM_SHA256),
             }
         }
@@ -186,7 +200,7 @@ mod scram_sha256 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha256Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha256Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -264,7 +278,9 @@ mod scram_sha512 {
         No,
         /// Only SCRAM-SHA512 but not -PLUS found
         Bare,
-        /// SCRAM-SHA512-PLUS found.
+        /// Only SCRAM-SHA512-PLUS but not the bare variant found
+        PlusOnly,
+        /// Both variants found.
         Plus,
     }
     impl Selector for ScramSelector512 {
@@ -272,17 +288,22 @@ mod scram_sha512 {
             if *mechname == *SCRAM_SHA512.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA512_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::PlusOnly,
+                    Self::Bare => Self::Plus,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
+                Self::No | Self::PlusOnly => None,
                 _ => Some(&SCRAM_SHA512),
             }
         }
@@ -291,7 +312,7 @@ mod scram_sha512 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha512Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha512Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
-- 
2.43.0


From e3035de04584e08ce528907d0cb67cf5dee1b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 05/28] fix: SCRAM PLUS servers must not accept clients that
 didn't bind

A SCRAM-*-PLUS server accepted the GS2 flag 'n' and then completed the exchange
without any channel binding.
---
 src/mechanisms/scram/server.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index d5bfcb4..4ac9b61 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -66,6 +66,8 @@ enum CBSupport {
     No,
     /// Server *does* support CB
     Yes,
+    /// The PLUS variant was selected so channel bindings must be used
+    Required,
 }
 
 pub struct ScramServer<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
@@ -84,7 +86,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> ScramServer<D, N>
     }
 
     pub const fn new_plus() -> Self {
-        let plus = CBSupport::Yes;
+        let plus = CBSupport::Required;
         Self {
             state: Some(ScramServerState::WaitingClientFirst(ScramState::new(plus))),
         }
@@ -156,13 +158,20 @@ impl<const N: usize> WaitingClientFirst<N> {
         match cbflag {
             // TODO: check if this is a protocol downgrade
             GS2CBindFlag::SupportedNotUsed => {
-                if self.plus == CBSupport::Yes {
+                if self.plus != CBSupport::No {
+                    return Err(SessionError::MechanismError(Box::new(
+                        ScramServerError::ChannelBindingsNotUsed,
+                    )));
+                }
+            }
+            GS2CBindFlag::NotSupported => {
+                // A PLUS mechanism without channel bindings is not a PLUS mechanism.
+                if self.plus == CBSupport::Required {
                     return Err(SessionError::MechanismError(Box::new(
                         ScramServerError::ChannelBindingsNotUsed,
                     )));
                 }
             }
-            GS2CBindFlag::NotSupported => {}
             GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                 gs2_header.extend_from_slice(cbdata);
                 Ok(())
-- 
2.43.0


From 4b07b22d7d5239ab2336546797242bcab3d6a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 06/28] fix: reject empty SCRAM client nonces

RFC 5802 requires at least one printable character.
---
 src/mechanisms/scram/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 0df082c..4786485 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -290,7 +290,7 @@ impl<'scram> ClientFirstMessage<'scram> {
         } else {
             return Err(ParseError::invalid_attribute(next));
         };
-        if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
+        if nonce.is_empty() || !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
             return Err(ParseError::BadNonce);
         }
 
-- 
2.43.0


From 1c1d237834956fb9ae673c6f1c102c59be0d1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 07/28] fix: a second satisfy() must not void the first answer

Answering an already satisfied request dropped the value instead of keeping the
first one, and evaluated the closure of satisfy_with. Both are documented to
return Ok(self) without effect in that case.
---
 src/callback.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/callback.rs b/src/callback.rs
index 87297a0..0c72761 100644
--- a/src/callback.rs
+++ b/src/callback.rs
@@ -215,6 +215,8 @@ impl CallbackError {
 }
 
 pub(crate) trait CallbackRequest<Answer: ?Sized> {
+    /// Returns `true` if no answer was given so far
+    fn is_open(&self) -> bool;
     fn satisfy(&mut self, answer: &Answer) -> Result<(), SessionError>;
 }
 
@@ -254,10 +256,18 @@ where
     P: for<'p> Property<'p>,
     F: FnOnce(&<P as Property<'_>>::Value) -> Result<G, SessionError>,
 {
+    fn is_open(&self) -> bool {
+        matches!(self.closure, Some(ClosureCRState::Open(_)))
+    }
+
     fn satisfy(&mut self, answer: &<P as Property<'_>>::Value) -> Result<(), SessionError> {
-        if let Some(ClosureCRState::Open(closure)) = self.closure.take() {
-            let reply = closure(answer)?;
-            self.closure = Some(ClosureCRState::Satisfied(reply));
+        match self.closure.take() {
+            Some(ClosureCRState::Open(closure)) => {
+                let reply = closure(answer)?;
+                self.closure = Some(ClosureCRState::Satisfied(reply));
+            }
+            // Only the first answer counts
+            satisfied => self.closure = satisfied,
         }
         Ok(())
     }
@@ -417,6 +427,9 @@ impl<'a> Request<'a> {
         answer: &<P as Property<'_>>::Value,
     ) -> Result<&mut Self, SessionError> {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
+            if !mech.is_open() {
+                return Ok(self);
+            }
             mech.satisfy(answer)?;
             Err(CallbackError::early_return().into())
         } else {
@@ -494,6 +507,9 @@ impl<'a> Request<'a> {
         F: FnOnce() -> Result<P::Value, SessionError>,
     {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
+            if !mech.is_open() {
+                return Ok(self);
+            }
             let answer = closure()?;
             mech.satisfy(&answer)?;
             Err(CallbackError::early_return().into())
-- 
2.43.0


From 25d10df8c43f4374ead0e3fd5f288012b7cc7ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 08/28] fix: report errors writing the final base64 chunk in
 step64

---
 src/session.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e730042..28f8ef9 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -230,17 +230,21 @@ mod provider {
             input: Option<&[u8]>,
             writer: &mut impl Write,
         ) -> Result<State, SessionError> {
-            use base64::write::EncoderWriter;
-            let mut writer64 =
-                EncoderWriter::new(writer, &base64::engine::general_purpose::STANDARD);
+            use base64::{engine::general_purpose::STANDARD, Engine};
+
+            // Collect the whole message before encoding it. Encoding while the mechanism is still
+            // writing would need the final base64 chunk to be written on drop, where errors of the
+            // underlying writer can't be reported.
+            let mut message = Vec::new();
 
             let state = if let Some(input) = input {
-                let input =
-                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;
-                self.step(Some(&input[..]), &mut writer64)
+                let input = STANDARD.decode(input)?;
+                self.step(Some(&input[..]), &mut message)
             } else {
-                self.step(None, &mut writer64)
+                self.step(None, &mut message)
             }?;
+
+            writer.write_all(STANDARD.encode(&message).as_bytes())?;
             Ok(state)
         }
     }
-- 
2.43.0


From d804486f9b292f2fe02ec92d4dfee2a1306d57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 09/28] fix: report incomplete vectored writes and retry
 interrupted ones

---
 src/vectored_io.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/vectored_io.rs b/src/vectored_io.rs
index 0793039..ebbe56b 100644
--- a/src/vectored_io.rs
+++ b/src/vectored_io.rs
@@ -54,17 +54,23 @@ impl<'io, const N: usize> VectoredWriter<'io, N> {
         let mut bufs: [IoSlice; N] = self.data.map(IoSlice::new);
 
         let mut written = 0;
-        while {
-            let len = self.write_vectored_inner(&mut bufs, &mut writer)?;
+        while self.skip < N {
+            let len = match self.write_vectored_inner(&mut bufs, &mut writer) {
+                Ok(len) => len,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            };
             // Check the corner case that Ok(0) was returned because the underlying writer is
-            // exhausted.
-            if len == 0 {
-                return Ok(written);
+            // exhausted. Unless there is nothing left to write the message is incomplete.
+            if len == 0 && self.skip < N {
+                return Err(io::Error::new(
+                    io::ErrorKind::WriteZero,
+                    "failed to write whole message",
+                ));
             }
 
             written += len;
-            self.skip < N
-        } {}
+        }
 
         Ok(written)
     }
-- 
2.43.0


From 1f105dc7b003a560d67a4c47536f4a1134ac5b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 10/28] fix: accept '=' in OAUTHBEARER key/value pair values

---
 src/mechanisms/oauthbearer/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 86adcde..40425ae 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -57,12 +57,10 @@ impl<'a> OAuthBearerMsg<'a> {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
                     token = Some(core::str::from_utf8(t)?);
                 } else {
-                    let mut kviter = kv.split(|b| matches!(b, b'='));
+                    // Only the first '=' separates key and value, values may contain it too.
+                    let mut kviter = kv.splitn(2, |b| matches!(b, b'='));
                     let key = kviter.next().ok_or(ParseError::InvalidKVPair)?;
                     let val = kviter.next().ok_or(ParseError::InvalidKVPair)?;
-                    if kviter.next().is_some() {
-                        return Err(ParseError::InvalidKVPair);
-                    }
                     let key = core::str::from_utf8(key)?;
                     let val = core::str::from_utf8(val)?;
                     fields.push((key, val));
-- 
2.43.0


From cd312177c2e7fce313df4f8a21973685d2a67347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 11/28] fix: hand OAUTHBEARER tokens on without the scheme name

---
 src/mechanisms/oauthbearer/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 40425ae..ec67f4e 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -55,6 +55,9 @@ impl<'a> OAuthBearerMsg<'a> {
 
             for kv in it {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
+                    // The value is a HTTP authorization header, so the token itself only starts
+                    // after the name of the authentication scheme.
+                    let t = t.strip_prefix(b"Bearer ").unwrap_or(t);
                     token = Some(core::str::from_utf8(t)?);
                 } else {
                     // Only the first '=' separates key and value, values may contain it too.
-- 
2.43.0


From 1a080bf25f2abc24085d184d584ed36efd9a447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 12/28] fix: escape the authzid in OAUTHBEARER GS2 headers

---
 src/mechanisms/oauthbearer/client.rs |  3 ++-
 src/mechanisms/oauthbearer/parser.rs | 37 ++++++++++++++++++++++++++--
 src/mechanisms/oauthbearer/server.rs |  2 +-
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a43662f..a2251a2 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -1,6 +1,7 @@
 use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
+use crate::mechanisms::oauthbearer::parser::escape_authzid;
 use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
@@ -37,7 +38,7 @@ impl Authentication for OAuthBearer {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
                     writer.write_all(b"a=")?;
-                    writer.write_all(authzid.as_bytes())?;
+                    writer.write_all(escape_authzid(authzid).as_bytes())?;
                     Ok(())
                 })?;
                 writer.write_all(b",")?;
diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index ec67f4e..5532192 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -1,3 +1,4 @@
+use alloc::borrow::Cow;
 use alloc::str::Utf8Error;
 use thiserror::Error;
 
@@ -23,8 +24,36 @@ pub enum ParseError {
     ),
 }
 
+/// Escape an authzid for use in a GS2 header
+pub fn escape_authzid(authzid: &str) -> String {
+    authzid.replace('=', "=3D").replace(',', "=2C")
+}
+
+/// Undo [`escape_authzid`]
+fn unescape_authzid(authzid: &str) -> Result<Cow<'_, str>, ParseError> {
+    let mut parts = authzid.split('=');
+    let first = parts.next().unwrap_or_default();
+    if first.len() == authzid.len() {
+        return Ok(Cow::Borrowed(authzid));
+    }
+    let mut out = String::from(first);
+    for part in parts {
+        let rest = if let Some(rest) = part.strip_prefix("3D") {
+            out.push('=');
+            rest
+        } else if let Some(rest) = part.strip_prefix("2C") {
+            out.push(',');
+            rest
+        } else {
+            return Err(ParseError::InvalidGs2);
+        };
+        out.push_str(rest);
+    }
+    Ok(Cow::Owned(out))
+}
+
 pub struct OAuthBearerMsg<'a> {
-    pub authzid: Option<&'a str>,
+    pub authzid: Option<Cow<'a, str>>,
     pub token: &'a str,
     pub fields: Vec<(&'a str, &'a str)>,
 }
@@ -45,10 +74,14 @@ impl<'a> OAuthBearerMsg<'a> {
             let authzid = if gs2_authzid.is_empty() {
                 None
             } else if let Some(rem) = gs2_authzid.strip_prefix(b"a=") {
-                Some(core::str::from_utf8(rem)?)
+                Some(unescape_authzid(core::str::from_utf8(rem)?)?)
             } else {
                 return Err(ParseError::InvalidGs2);
             };
+            // The header ends with the comma after the authzid
+            if gs2iter.next().map_or(true, |rem| !rem.is_empty()) || gs2iter.next().is_some() {
+                return Err(ParseError::InvalidGs2);
+            }
 
             let mut token = None;
             let mut fields = Vec::new();
diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 077e5b1..5d228d1 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -57,7 +57,7 @@ impl Authentication for OAuthBearer {
                 } = OAuthBearerMsg::parse(input).map_err(Error::Parse)?;
 
                 let prov = Prov {
-                    authzid,
+                    authzid: authzid.as_deref(),
                     token,
                     kvpairs: fields.as_slice(),
                 };
-- 
2.43.0


From 1db8a6119e038664d0068c6f6f18af246937bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 13/28] fix: refuse OAuth values that can't be represented in
 the message

---
 src/mechanisms/oauthbearer/client.rs     | 17 +++++++++++++++++
 src/mechanisms/oauthbearer/properties.rs |  2 ++
 src/mechanisms/xoauth2/client.rs         | 12 ++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a2251a2..74400c2 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -26,6 +26,14 @@ impl Default for OAuthBearerState {
     }
 }
 
+/// `^A` separates the parts of the message, so no part may contain it.
+fn check_input(input: &str, name: &'static str) -> Result<(), Error> {
+    if input.contains('\x01') {
+        return Err(Error::InvalidInput(name));
+    }
+    Ok(())
+}
+
 impl Authentication for OAuthBearer {
     fn step(
         &mut self,
@@ -37,6 +45,7 @@ impl Authentication for OAuthBearer {
             OAuthBearerState::Initial => {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
+                    check_input(authzid, "authzid")?;
                     writer.write_all(b"a=")?;
                     writer.write_all(escape_authzid(authzid).as_bytes())?;
                     Ok(())
@@ -45,6 +54,13 @@ impl Authentication for OAuthBearer {
 
                 session.maybe_need_with::<OAuthBearerKV, _, _>(&EmptyProvider, |kvpairs| {
                     for (k, v) in kvpairs {
+                        check_input(k, "key")?;
+                        check_input(v, "value")?;
+                        // A '=' in the key would move to the value and the key 'auth' is reserved
+                        // for the token.
+                        if k.contains('=') || *k == "auth" {
+                            return Err(Error::InvalidInput("key").into());
+                        }
                         let data = [b"\x01", k.as_bytes(), b"=", v.as_bytes()];
                         let mut vecw = VectoredWriter::new(data);
                         vecw.write_all_vectored(&mut *writer)?;
@@ -53,6 +69,7 @@ impl Authentication for OAuthBearer {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    check_input(token, "token")?;
                     let data = [b"\x01auth=Bearer ", token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
diff --git a/src/mechanisms/oauthbearer/properties.rs b/src/mechanisms/oauthbearer/properties.rs
index 4fd0dc0..321adf4 100644
--- a/src/mechanisms/oauthbearer/properties.rs
+++ b/src/mechanisms/oauthbearer/properties.rs
@@ -12,6 +12,8 @@ pub enum Error {
         #[from]
         super::parser::ParseError,
     ),
+    #[error("{0} contains characters that can not be sent")]
+    InvalidInput(&'static str),
     #[error("failed to serialize error message")]
     Serde(
         #[source]
diff --git a/src/mechanisms/xoauth2/client.rs b/src/mechanisms/xoauth2/client.rs
index f336228..5d212d9 100644
--- a/src/mechanisms/xoauth2/client.rs
+++ b/src/mechanisms/xoauth2/client.rs
@@ -35,6 +35,16 @@ enum Error {
         #[source]
         core::str::Utf8Error,
     ),
+    #[error("{0} contains characters that can not be sent")]
+    InvalidInput(&'static str),
+}
+
+/// `^A` separates the parts of the message, so no part may contain it.
+fn check_input(input: &str, name: &'static str) -> Result<(), Error> {
+    if input.contains('\x01') {
+        return Err(Error::InvalidInput(name));
+    }
+    Ok(())
 }
 impl MechanismError for Error {
     fn kind(&self) -> MechanismErrorKind {
@@ -52,6 +62,7 @@ impl Authentication for XOAuth2 {
         match self.state {
             XOAuth2State::Initial => {
                 session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
+                    check_input(authid, "authid")?;
                     let data = [b"user=", authid.as_bytes(), b"\x01auth=Bearer "];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(&mut *writer)?;
@@ -59,6 +70,7 @@ impl Authentication for XOAuth2 {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    check_input(token, "token")?;
                     let data = [token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
-- 
2.43.0


From bfee960aff401cc524e1003215b866b39d4a1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 14/28] fix: GSSAPI servers must reject a selection of several
 layers

---
 src/mechanisms/gssapi/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index c663a0b..1bf9c88 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -125,8 +125,9 @@ impl Authentication for Gssapi {
                 let selected =
                     SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;
 
-                // If the client selected a layer we don't support or accept, error.
-                if !selected.intersects(supported) {
+                // If the client selected a layer we don't support or accept or did not select
+                // exactly one layer, error.
+                if selected.bits().count_ones() != 1 || !supported.contains(selected) {
                     Err(Error::BadFinalToken)?;
                 }
 
-- 
2.43.0


From d00b45a43720c8ba63122ef90945d00fee5242f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 15/28] fix: keep GSSAPI session state when required input is
 missing

---
 src/mechanisms/gssapi/client.rs | 8 +++++++-
 src/mechanisms/gssapi/server.rs | 9 +++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index 8483fd5..78b6742 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -49,6 +49,11 @@ impl Authentication for Gssapi {
         input: Option<&[u8]>,
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
+        // Keep the state if there is no data to continue with.
+        if input.is_none() && matches!(self.state, GssapiState::Pending(..) | GssapiState::Last(..))
+        {
+            return Err(SessionError::InputDataRequired);
+        }
         match core::mem::replace(&mut self.state, GssapiState::Errored) {
             GssapiState::Initial => {
                 let mut targ_name = session
@@ -78,7 +83,8 @@ impl Authentication for Gssapi {
                     Some(&GSS_MECH_KRB5),
                 ));
 
-                self.step(session, input, writer)
+                // Only the first token is generated without data from the server
+                self.step(session, Some(input.unwrap_or_default()), writer)
             }
             GssapiState::Pending(mut ctx) => {
                 if let Some(token) = ctx.step(input, None).map_err(Error::Gss)? {
diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 1bf9c88..520503b 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -53,6 +53,15 @@ impl Authentication for Gssapi {
         input: Option<&[u8]>,
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
+        // Keep the state if there is no data to continue with.
+        if input.is_none()
+            && matches!(
+                self.state,
+                GssapiState::Initial | GssapiState::Pending(..) | GssapiState::Final(..)
+            )
+        {
+            return Err(SessionError::InputDataRequired);
+        }
         match mem::replace(&mut self.state, GssapiState::Errored) {
             GssapiState::Initial => {
                 let mut krb5 = OidSet::new().map_err(Error::Gss)?;
-- 
2.43.0


From f96d5ac46ba2fa83176b1fedd0d054fb50a4afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 16/28] fix: don't panic on cached SCRAM keys of the wrong size

---
 src/mechanisms/scram/client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index fc60b13..bf64874 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -310,6 +310,12 @@ where
                  client_key,
                  server_key,
              }| {
+                // Keys of another size belong to another hash and can't be used.
+                if client_key.len() != <D as Digest>::output_size()
+                    || server_key.len() != <D as Digest>::output_size()
+                {
+                    return Err(SessionError::CallbackError(CallbackError::NoValue));
+                }
                 Ok((
                     DOutput::<D>::clone_from_slice(client_key),
                     DOutput::<D>::clone_from_slice(server_key),
-- 
2.43.0


From 35b24dfe9df22d10c86c4ba28f0bd1326f273007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 17/28] fix: allow users to construct ScramCachedPassword

---
 src/mechanisms/scram/properties.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mechanisms/scram/properties.rs b/src/mechanisms/scram/properties.rs
index 64320d8..740c554 100644
--- a/src/mechanisms/scram/properties.rs
+++ b/src/mechanisms/scram/properties.rs
@@ -64,6 +64,15 @@ pub struct ScramCachedPassword<'a> {
     pub client_key: &'a [u8],
     pub server_key: &'a [u8],
 }
+impl<'a> ScramCachedPassword<'a> {
+    #[must_use]
+    pub const fn new(client_key: &'a [u8], server_key: &'a [u8]) -> Self {
+        Self {
+            client_key,
+            server_key,
+        }
+    }
+}
 impl<'a> Property<'a> for ScramCachedPassword<'static> {
     type Value = ScramCachedPassword<'a>;
 }
-- 
2.43.0


From 149b04e3bdc8a4029ad16ddd8c84f1459e1de499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 18/28] fix: reject SCRAM proofs of the wrong length

---
 src/mechanisms/scram/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 4ac9b61..c1adca1 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -331,9 +331,13 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     && proof.len() <= (<SimpleHmac<D> as OutputSizeUser>::output_size() * 4 / 3) + 3
                 {
                     let mut proof_decoded = DOutput::<D>::default();
-                    base64::engine::general_purpose::STANDARD
+                    let len = base64::engine::general_purpose::STANDARD
                         .decode_slice(proof, &mut proof_decoded)
                         .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;
+                    // A shorter proof must not be treated as if it were padded with zeros.
+                    if len != proof_decoded.len() {
+                        return Err(SCRAMError::Protocol(ProtocolError::Base64Decode).into());
+                    }
 
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
-- 
2.43.0


From 2398b504b69399baa42b7d05073c3db047a269ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 19/28] fix: reject server nonces with invalid characters

---
 src/mechanisms/scram/parser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 4786485..1c52699 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -189,6 +189,13 @@ impl ParseError {
     }
 }
 
+/// Check for `printable` as defined by RFC 5802, i.e. visible ASCII except ','
+fn is_printable(nonce: &[u8]) -> bool {
+    nonce
+        .iter()
+        .all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E))
+}
+
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Debug)]
 pub enum GS2CBindFlag<'scram> {
     SupportedNotUsed,
@@ -290,7 +297,7 @@ impl<'scram> ClientFirstMessage<'scram> {
         } else {
             return Err(ParseError::invalid_attribute(next));
         };
-        if nonce.is_empty() || !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
+        if nonce.is_empty() || !is_printable(nonce) {
             return Err(ParseError::BadNonce);
         }
 
@@ -396,6 +403,10 @@ impl<'scram> ServerFirst<'scram> {
             return Err(ParseError::invalid_attribute(next));
         };
 
+        if !is_printable(nonce) {
+            return Err(ParseError::BadNonce);
+        }
+
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
         let salt = if next.starts_with(b"s=") {
             &next[2..]
-- 
2.43.0


From e892161c41d6c812ef945e7070b2ee6f9769f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 20/28] fix: reject SCRAM iteration counts with a sign

---
 src/mechanisms/scram/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index bf64874..201ab54 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -283,6 +283,10 @@ where
             return Err(SCRAMError::Protocol(ProtocolError::InvalidNonce).into());
         }
 
+        // `parse` below would accept a leading '+'
+        if !iteration_count.iter().all(u8::is_ascii_digit) {
+            return Err(SCRAMError::Protocol(ProtocolError::IterationCountFormat).into());
+        }
         let iterations: u32 = core::str::from_utf8(iteration_count)
             .map_err(|e| SCRAMError::ParseError(super::parser::ParseError::BadUtf8(e)))?
             .parse()
-- 
2.43.0


From 1772720c60a0228da351b37155a120421a25ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 21/28] fix: read OAUTHBEARER errors containing JSON escapes

---
 src/mechanisms/oauthbearer/client.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index 74400c2..b746255 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -2,11 +2,13 @@ use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
 use crate::mechanisms::oauthbearer::parser::escape_authzid;
-use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
+use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerError, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
 use crate::vectored_io::VectoredWriter;
+use alloc::borrow::Cow;
 use alloc::io::Write;
+use serde::Deserialize;
 
 #[derive(Debug, Default, Clone)]
 pub struct OAuthBearer {
@@ -34,6 +36,18 @@ fn check_input(input: &str, name: &'static str) -> Result<(), Error> {
     Ok(())
 }
 
+/// An error message as sent by the server. Strings containing escape sequences can't be borrowed
+/// from the message, so unlike [`OAuthBearerError`] this has to be able to own them.
+#[derive(Deserialize)]
+struct ErrorMessage<'a> {
+    #[serde(borrow)]
+    status: Cow<'a, str>,
+    #[serde(borrow, default)]
+    scope: Option<Cow<'a, str>>,
+    #[serde(borrow, default, rename = "openid-configuration")]
+    openid_config: Option<Cow<'a, str>>,
+}
+
 impl Authentication for OAuthBearer {
     fn step(
         &mut self,
@@ -94,7 +108,12 @@ impl Authentication for OAuthBearer {
                     return Ok(State::Finished(MessageSent::No));
                 }
 
-                let error = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error: ErrorMessage = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error = OAuthBearerError::new(
+                    &error.status,
+                    error.scope.as_deref(),
+                    error.openid_config.as_deref(),
+                );
 
                 // If the user callback *doesn't*, we must error, so '?' is correct.
                 session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
-- 
2.43.0


From 1bc237f4d8e25365ea4d6cbb5764a22c88ae735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 22/28] fix: don't try to start mechanisms without a client
 side

---
 src/registry.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index ea31183..4655080 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -238,8 +238,11 @@ impl Registry {
         // Only if the selector has to keep state (e.g. the non-PLUS SCRAM ones have to change
         // their behaviour depending on what mechanisms the server offered for their GS2 header)
         // the Box has to make an allocation.
-        let mut selectors: Vec<Selection> =
-            self.get_mechanisms().filter_map(|m| m.select(cb)).collect();
+        let mut selectors: Vec<Selection> = self
+            .get_mechanisms()
+            .filter(|m| m.client.is_some())
+            .filter_map(|m| m.select(cb))
+            .collect();
 
         for o in offered {
             for s in &mut selectors {
-- 
2.43.0


From 18664437287872242039d6b51b0f3815fac85f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 23/28] fix: cover optional SCRAM extensions with the
 AuthMessage

Optional extensions were ignored when computing the AuthMessage, so conforming
peers sending them could not authenticate (and trailing garbage was accepted,
unprotected by the proof).
---
 src/mechanisms/scram/client.rs |  4 +++
 src/mechanisms/scram/parser.rs | 59 ++++++++++++++++++++++++++++------
 src/mechanisms/scram/server.rs | 10 ++++++
 src/mechanisms/scram/tools.rs  |  9 ++++++
 4 files changed, 73 insertions(+), 9 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 201ab54..525414f 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -274,6 +274,7 @@ where
             server_nonce: _,
             salt: salt64,
             iteration_count,
+            extensions,
         } = ServerFirst::parse(input).map_err(SCRAMError::ParseError)?;
 
         let server_nonce = nonce
@@ -367,10 +368,13 @@ where
             &server_key,
             &self.username,
             &self.client_nonce,
+            b"",
             server_nonce,
             salt64,
             iteration_count,
+            extensions,
             self.channel_bindings.as_bytes(),
+            b"",
             &mut client_signature,
             &mut server_signature,
         );
diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 1c52699..07297d6 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -196,6 +196,25 @@ fn is_printable(nonce: &[u8]) -> bool {
         .all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E))
 }
 
+/// Check the optional extensions at the end of a message, i.e. `*("," attr-val)`.
+///
+/// Unknown extensions are ignored, but as part of the message they are part of the AuthMessage too.
+fn parse_extensions(input: &[u8]) -> Result<&[u8], ParseError> {
+    // The first item is what's in front of the first comma, i.e. always empty.
+    for attribute in input.split(|b| matches!(b, b',')).skip(1) {
+        match attribute {
+            [b'm', b'=', ..] => return Err(ParseError::UnknownMandatoryExtensions),
+            [b'A'..=b'Z' | b'a'..=b'z', b'=', value @ ..]
+                if !value.is_empty() && !value.contains(&0) =>
+            {
+                core::str::from_utf8(value).map_err(ParseError::BadUtf8)?;
+            }
+            _ => return Err(ParseError::invalid_attribute(attribute)),
+        }
+    }
+    Ok(input)
+}
+
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Debug)]
 pub enum GS2CBindFlag<'scram> {
     SupportedNotUsed,
@@ -247,6 +266,8 @@ pub struct ClientFirstMessage<'scram> {
     pub authzid: Option<&'scram str>,
     pub username: &'scram str,
     pub nonce: &'scram [u8],
+    /// Optional extensions, including the leading comma
+    pub extensions: &'scram [u8],
 }
 impl<'scram> ClientFirstMessage<'scram> {
     #[allow(unused)]
@@ -261,6 +282,7 @@ impl<'scram> ClientFirstMessage<'scram> {
             authzid,
             username,
             nonce,
+            extensions: &[],
         }
     }
 
@@ -301,11 +323,15 @@ impl<'scram> ClientFirstMessage<'scram> {
             return Err(ParseError::BadNonce);
         }
 
+        let extensions: usize = partiter.map(|part| part.len() + 1).sum();
+        let extensions = parse_extensions(&input[input.len() - extensions..])?;
+
         Ok(Self {
             cbflag,
             authzid,
             username,
             nonce,
+            extensions,
         })
     }
 
@@ -322,7 +348,7 @@ impl<'scram> ClientFirstMessage<'scram> {
 
     #[allow(clippy::similar_names)]
     #[allow(unused)]
-    pub fn as_ioslices(&self) -> [&'scram [u8]; 8] {
+    pub fn as_ioslices(&self) -> [&'scram [u8]; 9] {
         let [cba, cbb, prefix, authzid] = self.gs2_header_parts();
 
         [
@@ -334,6 +360,7 @@ impl<'scram> ClientFirstMessage<'scram> {
             self.username.as_bytes(),
             b",r=",
             self.nonce,
+            self.extensions,
         ]
     }
 
@@ -369,6 +396,8 @@ pub struct ServerFirst<'scram> {
     pub server_nonce: Option<&'scram [u8]>,
     pub salt: &'scram [u8],
     pub iteration_count: &'scram [u8],
+    /// Optional extensions, including the leading comma
+    pub extensions: &'scram [u8],
 }
 
 impl<'scram> ServerFirst<'scram> {
@@ -383,6 +412,7 @@ impl<'scram> ServerFirst<'scram> {
             server_nonce: Some(server_nonce),
             salt,
             iteration_count,
+            extensions: &[],
         }
     }
 
@@ -421,19 +451,19 @@ impl<'scram> ServerFirst<'scram> {
             return Err(ParseError::invalid_attribute(next));
         };
 
-        if let Some(next) = partiter.next() {
-            return Err(ParseError::invalid_attribute(next));
-        }
+        let extensions: usize = partiter.map(|part| part.len() + 1).sum();
+        let extensions = parse_extensions(&input[input.len() - extensions..])?;
 
         Ok(Self {
             nonce,
             server_nonce: None,
             salt,
             iteration_count,
+            extensions,
         })
     }
 
-    pub fn as_ioslices(&self) -> [&'scram [u8]; 7] {
+    pub fn as_ioslices(&self) -> [&'scram [u8]; 8] {
         [
             b"r=",
             self.nonce,
@@ -442,6 +472,7 @@ impl<'scram> ServerFirst<'scram> {
             self.salt,
             b",i=",
             self.iteration_count,
+            self.extensions,
         ]
     }
 }
@@ -449,6 +480,8 @@ impl<'scram> ServerFirst<'scram> {
 pub struct ClientFinal<'scram> {
     pub channel_binding: &'scram [u8],
     pub nonce: &'scram [u8],
+    /// Optional extensions, including the leading comma
+    pub extensions: &'scram [u8],
     pub proof: &'scram [u8],
 }
 
@@ -461,6 +494,7 @@ impl<'scram> ClientFinal<'scram> {
         Self {
             channel_binding,
             nonce,
+            extensions: &[],
             proof,
         }
     }
@@ -482,16 +516,18 @@ impl<'scram> ClientFinal<'scram> {
             return Err(ParseError::invalid_attribute(next));
         };
 
+        let start = channel_binding.len() + nonce.len() + 5;
+        let mut end = start;
         let proof = loop {
             // Skip all extensions in between nonce and proof since we can't handle them.
             // If they are mandatory-to-implement extensions we error.
             let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
             if next.starts_with(b"p=") {
                 break &next[2..];
-            } else if next.starts_with(b"m=") {
-                return Err(ParseError::UnknownMandatoryExtensions);
-            };
+            }
+            end += next.len() + 1;
         };
+        let extensions = parse_extensions(&input[start..end])?;
 
         if let Some(next) = partiter.next() {
             return Err(ParseError::invalid_attribute(next));
@@ -500,16 +536,18 @@ impl<'scram> ClientFinal<'scram> {
         Ok(Self {
             channel_binding,
             nonce,
+            extensions,
             proof,
         })
     }
 
-    pub const fn to_ioslices(&self) -> [&'scram [u8]; 6] {
+    pub const fn to_ioslices(&self) -> [&'scram [u8]; 7] {
         [
             b"c=",
             self.channel_binding,
             b",r=",
             self.nonce,
+            self.extensions,
             b",p=",
             self.proof,
         ]
@@ -576,7 +614,10 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
+        let end = input.iter().position(|b| *b == b',');
+        let (input, extensions) = input.split_at(end.unwrap_or(input.len()));
         if input.starts_with(b"v=") {
+            parse_extensions(extensions)?;
             Ok(Self::Verifier(&input[2..]))
         } else if input.starts_with(b"e=") {
             use ServerErrorValue::{
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index c1adca1..a01de03 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -135,6 +135,7 @@ impl<const N: usize> WaitingClientFirst<N> {
             authzid, // FIXME: Save authzid
             username: authid,
             nonce: client_nonce,
+            extensions,
         } = ClientFirstMessage::parse(client_first).map_err(SCRAMError::ParseError)?;
 
         // AuthMessage we need to validate the user:
@@ -219,6 +220,7 @@ impl<const N: usize> WaitingClientFirst<N> {
 
             Ok(WaitingClientFinal::new(
                 client_nonce.into(),
+                extensions.into(),
                 server_nonce,
                 gs2_header,
                 authid.to_string(),
@@ -252,6 +254,7 @@ pub struct WaitingClientFinal<D: Digest + BlockSizeUser + FixedOutput, const N:
 }
 struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
     client_nonce: Vec<u8>,
+    client_first_ext: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
     username: String,
@@ -267,6 +270,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
     #[allow(clippy::too_many_arguments)]
     fn new(
         client_nonce: Vec<u8>,
+        client_first_ext: Vec<u8>,
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
         username: String,
@@ -279,6 +283,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         Self {
             data: Some(FinalInner {
                 client_nonce,
+                client_first_ext,
                 server_nonce,
                 gs2_header,
                 username,
@@ -305,11 +310,13 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         let ClientFinal {
             channel_binding,
             nonce,
+            extensions,
             proof,
         } = ClientFinal::parse(client_final).map_err(SCRAMError::ParseError)?;
 
         let msg = if let Some(FinalInner {
             client_nonce,
+            client_first_ext,
             server_nonce,
             gs2_header,
             username,
@@ -347,10 +354,13 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                         &server_key,
                         &username,
                         &client_nonce,
+                        &client_first_ext,
                         &server_nonce,
                         salt.as_bytes(),
                         iterations.as_bytes(),
+                        b"",
                         channel_binding,
+                        extensions,
                         &mut client_signature,
                         &mut server_signature,
                     );
diff --git a/src/mechanisms/scram/tools.rs b/src/mechanisms/scram/tools.rs
index 79c31ba..05d4b78 100644
--- a/src/mechanisms/scram/tools.rs
+++ b/src/mechanisms/scram/tools.rs
@@ -30,10 +30,13 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
     server_key: &DOutput<D>,
     username: &str,
     client_nonce: &[u8],
+    client_first_ext: &[u8],
     server_nonce: &[u8],
     salt: &[u8],
     iterations: &[u8],
+    server_first_ext: &[u8],
     channel_binding: &[u8],
+    client_final_ext: &[u8],
     client_signature: &mut DOutput<D>,
     server_signature: &mut DOutput<D>,
 ) {
@@ -43,6 +46,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(username.as_bytes())
         .chain(b",r=")
         .chain(client_nonce)
+        .chain(client_first_ext)
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
@@ -50,11 +54,13 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(salt)
         .chain(",i=")
         .chain(iterations)
+        .chain(server_first_ext)
         .chain(b",c=")
         .chain(channel_binding)
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
+        .chain(client_final_ext)
         .finalize_into(client_signature);
 
     <SimpleHmac<D>>::new_from_slice(server_key.as_slice())
@@ -63,6 +69,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(username.as_bytes())
         .chain(b",r=")
         .chain(client_nonce)
+        .chain(client_first_ext)
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
@@ -70,11 +77,13 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(salt)
         .chain(",i=")
         .chain(iterations)
+        .chain(server_first_ext)
         .chain(b",c=")
         .chain(channel_binding)
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
+        .chain(client_final_ext)
         .finalize_into(server_signature);
 }
 
-- 
2.43.0


From c328b66bd3969129f44fa95e32f9be5bec7fded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 24/28] fix: reject separators inside of XOAUTH2 tokens

---
 src/mechanisms/xoauth2/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/xoauth2/server.rs b/src/mechanisms/xoauth2/server.rs
index 69c0b89..371ee8d 100644
--- a/src/mechanisms/xoauth2/server.rs
+++ b/src/mechanisms/xoauth2/server.rs
@@ -84,6 +84,8 @@ impl Authentication for XOAuth2 {
                 let raw_token = tokenpart
                     .strip_prefix(b"\x01auth=Bearer ")
                     .and_then(|token| token.strip_suffix(b"\x01\x01"))
+                    // The token is the last field, so it can't contain a separator either
+                    .filter(|token| !token.contains(&ASCII_SOH))
                     .ok_or_else(|| SessionError::MechanismError(Box::new(Error::InvalidFormat)))?;
 
                 let authid = core::str::from_utf8(raw_authid)
-- 
2.43.0


From 73ad1c5a69fc4efda35f53e7b3f333226b263435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 25/28] fix: keep the GSSAPI server context across steps until
 it is complete

---
 src/mechanisms/gssapi/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 520503b..2ad8400 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -100,6 +100,8 @@ impl Authentication for Gssapi {
                     }
 
                     self.state = GssapiState::Installed(ctx, acceptable);
+                } else {
+                    self.state = GssapiState::Pending(ctx);
                 }
                 // If an auth exchange token was produced we need to do another loop, otherwise we
                 // immediately produce the supported security layer token.
-- 
2.43.0


From 14b42088152c0967d5bef9f346d4d5bcabcc33f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 26/28] fix: only select GSSAPI security layers the context
 provides

---
 src/mechanisms/gssapi/client.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index 78b6742..3ad9b10 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -98,7 +98,7 @@ impl Authentication for Gssapi {
                 }
 
                 // Request acceptable security layers from the client.
-                let acceptable = session
+                let mut acceptable = session
                     .maybe_need_with::<GssSecurityLayer, _, _>(&EmptyProvider, |acceptable| {
                         let flags = ctx.flags().map_err(Error::Gss)?;
                         // If acceptable contains `NO_SECURITY_LAYER` or is empty, which we treat as
@@ -129,6 +129,15 @@ impl Authentication for Gssapi {
                     })?
                     .unwrap_or_default();
 
+                // Never select a layer the context doesn't provide.
+                let flags = ctx.flags().map_err(Error::Gss)?;
+                if !flags.contains(CtxFlags::GSS_C_MUTUAL_FLAG | CtxFlags::GSS_C_CONF_FLAG) {
+                    acceptable.set(SecurityLayer::CONFIDENTIALITY, false);
+                }
+                if !flags.contains(CtxFlags::GSS_C_INTEG_FLAG) {
+                    acceptable.set(SecurityLayer::INTEGRITY, false);
+                }
+
                 self.state = GssapiState::Last(ctx, acceptable);
                 Ok(State::Running)
             }
-- 
2.43.0


From 8484b8d2fa07110d3d07f9839480d8f8c79a832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 27/28] fix: validate the identity of GSSAPI clients

---
 src/mechanisms/gssapi/server.rs | 10 +++++++++-
 src/mechanisms/mod.rs           |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 2ad8400..760fa4c 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -1,8 +1,9 @@
-use crate::context::EmptyProvider;
+use crate::context::{EmptyProvider, ThisProvider};
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
 use crate::mechanisms::gssapi::properties::{Error, GssSecurityLayer, SecurityLayer};
 use crate::prelude::State::Finished;
+use crate::property::AuthId;
 use crate::session::MessageSent;
 use alloc::mem;
 use core::fmt;
@@ -142,6 +143,13 @@ impl Authentication for Gssapi {
                     Err(Error::BadFinalToken)?;
                 }
 
+                let name = ctx
+                    .source_name()
+                    .and_then(|name| name.display_name())
+                    .map_err(Error::Gss)?;
+                let authid = core::str::from_utf8(&name).map_err(|_| Error::BadContext)?;
+                session.validate(&ThisProvider::<AuthId>::with(authid))?;
+
                 let wrap_state = if selected.contains(SecurityLayer::CONFIDENTIALITY) {
                     Some((ctx, true))
                 } else if selected.contains(SecurityLayer::INTEGRITY) {
diff --git a/src/mechanisms/mod.rs b/src/mechanisms/mod.rs
index a0e1850..52df19b 100644
--- a/src/mechanisms/mod.rs
+++ b/src/mechanisms/mod.rs
@@ -208,6 +208,9 @@ pub mod gssapi {
     //! # Server
     //!
     //! Requests the property [`GssSecurityLayer`](properties::GssSecurityLayer) using a 'satisfiable' callback.
+    //!
+    //! Calls validation providing the property [`AuthId`], set to the name of the initiator of the
+    //! GSS-API context.
     #[cfg(doc)]
     use crate::property::*;
 
-- 
2.43.0


From b3df777efe75205f4f004df77dcf9f20ce8f5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 28/28] fix: report failures to write OAUTHBEARER errors as I/O
 errors

---
 src/mechanisms/oauthbearer/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 5d228d1..70ac3d3 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -64,7 +64,8 @@ impl Authentication for OAuthBearer {
 
                 let state = session.need_with::<OAuthBearerValidate, _, _>(&prov, |result| {
                     if let Err(error) = result {
-                        serde_json::to_writer(writer, error).map_err(Error::Serde)?;
+                        let message = serde_json::to_vec(error).map_err(Error::Serde)?;
+                        writer.write_all(&message)?;
                         self.state = OAuthBearerState::Errored;
                         Ok(State::Running)
                     } else {
-- 
2.43.0

