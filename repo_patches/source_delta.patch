From 8a6a449f72171794a0d004144200a92c8e3e27c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 01/22] fix: reject messages shorter than a header instead of
 panicking

Msg::parse_header asserted on the length of data received from the peer.
---
 src/msgs/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/msgs/mod.rs b/src/msgs/mod.rs
index 0f47a7c..8689fa0 100644
--- a/src/msgs/mod.rs
+++ b/src/msgs/mod.rs
@@ -62,11 +62,12 @@ pub trait Msg {
     ///
     /// Return `Ok(true)` if the writed header is of the given type and has a correct version.
     /// Return `Ok(false)` if the header is another message type.
-    /// Return an error if the version is wrong for a GetVersion message.
-    ///
-    /// Prerequisite buf >= 2 bytes
+    /// Return an error if the version is wrong for a GetVersion message, or if
+    /// `buf` is too short to hold a header.
     fn parse_header(buf: &[u8]) -> Result<bool, ParseHeaderError> {
-        assert!(buf.len() > 2);
+        if buf.len() < HEADER_SIZE {
+            return Err(ParseHeaderError);
+        }
         if buf[1] != Self::SPDM_CODE {
             Ok(false)
         } else {
-- 
2.43.0


From 66c846ab4c777f8948815919f48f237cce25e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 02/22] fix: report the received message code, not the version
 byte

UnexpectedMsgCode carried the first header byte, which is the SPDM version,
in its 'got' field.
---
 src/requester.rs         | 2 +-
 src/responder.rs         | 2 +-
 src/responder/version.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/requester.rs b/src/requester.rs
index 9f5022d..856499c 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -41,7 +41,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), RequesterError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(RequesterError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder.rs b/src/responder.rs
index ef3791e..af73017 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -247,7 +247,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), ResponderError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(ResponderError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder/version.rs b/src/responder/version.rs
index 64da3cc..cd726d5 100644
--- a/src/responder/version.rs
+++ b/src/responder/version.rs
@@ -21,7 +21,7 @@ impl State {
             Ok(true) => self.handle_get_version(req, rsp, transcript),
             Ok(false) => Err(ResponderError::UnexpectedMsgCode {
                 expected: GetVersion::SPDM_CODE,
-                got: req[0],
+                got: req[1],
             }),
             Err(e) => Err(e.into()),
         }
-- 
2.43.0


From bf2909c1968c306b6d6e58e6e433563188ff414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 03/22] fix: return an error instead of panicking once a
 session is over

Messages received, or requests asked for, in the Error and NewSession states
hit unimplemented!(). A terminated responder or requester now reports it and
stays terminated, and a completed requester stays complete.
---
 src/requester.rs       | 16 ++++++++++++++--
 src/requester/error.rs |  3 +++
 src/responder.rs       |  2 +-
 src/responder/error.rs |  5 +++++
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/requester.rs b/src/requester.rs
index 856499c..ee0fa0d 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -120,10 +120,16 @@ impl<'a, S: Signer> RequesterInit<'a, S> {
     ///
     /// `Ok(true)` will be returned when initialization is complete. At this
     /// point the user should call the `begin_session` method.
+    ///
+    /// A `RequesterError::InitializationComplete` error will be returned if
+    /// this method is called when initialization is complete.
     pub fn handle_msg<'b>(
         &mut self,
         rsp: &[u8],
     ) -> Result<bool, RequesterError> {
+        if let Some(AllStates::NewSession) = self.data.state {
+            return Err(RequesterError::InitializationComplete);
+        }
         let state = self.data.state.take().unwrap();
         match state.handle_msg(
             rsp,
@@ -241,7 +247,10 @@ impl AllStates {
                 }
             }
             AllStates::Challenge(state) => state.write_msg(buf, transcript),
-            _ => unimplemented!(),
+            AllStates::NewSession => {
+                Err(RequesterError::InitializationComplete)
+            }
+            AllStates::Error => Err(RequesterError::Terminated),
         }
     }
 
@@ -290,7 +299,10 @@ impl AllStates {
                 state.handle_msg(rsp, transcript, root_cert)?;
                 Ok(AllStates::NewSession)
             }
-            _ => unimplemented!(),
+            AllStates::NewSession => {
+                Err(RequesterError::InitializationComplete)
+            }
+            AllStates::Error => Err(RequesterError::Terminated),
         }
     }
 
diff --git a/src/requester/error.rs b/src/requester/error.rs
index 935008c..329f531 100644
--- a/src/requester/error.rs
+++ b/src/requester/error.rs
@@ -76,6 +76,9 @@ pub enum RequesterError {
 
     // Parsing a Certificate Chain failed
     ParseCertChain(ParseCertificateChainError),
+
+    // The requester has terminated because of an earlier error
+    Terminated,
 }
 
 impl From<BufferFullError> for RequesterError {
diff --git a/src/responder.rs b/src/responder.rs
index af73017..3f38f13 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -116,7 +116,7 @@ impl AllStates {
             AllStates::Challenge(state) => {
                 state.handle_msg(slots, req, rsp, transcript)
             }
-            _ => unimplemented!(),
+            AllStates::Error => Err(ResponderError::Terminated),
         };
         match res {
             Ok((size, state)) => (&rsp[..size], state, Ok(())),
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 2ffe186..08321f5 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -49,6 +49,10 @@ pub enum ResponderError {
 
     // Writing a ChallengeAuth message failed
     WriteChallengeAuth(WriteChallengeAuthError),
+
+    // The responder has terminated. It must be reset before it can be used
+    // again.
+    Terminated,
 }
 
 impl From<BufferFullError> for ResponderError {
@@ -114,6 +118,7 @@ impl From<&ResponderError> for msgs::Error {
             ResponderError::UnexpectedMsgCode { .. } => {
                 msgs::Error::UnexpectedRequest
             }
+            ResponderError::Terminated => msgs::Error::UnexpectedRequest,
             ResponderError::InvalidSlot => msgs::Error::InvalidRequest,
             ResponderError::SigningFailed => msgs::Error::Unspecified,
             ResponderError::WriteCertChain(_) => msgs::Error::LargeResponse(0),
-- 
2.43.0


From da42744fda0937e07ed43e5b615c85c68e479d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 04/22] fix: refuse responses when no request is outstanding

A response delivered before the request for the current state was written
panicked (capabilities, algorithms) or was accepted and recorded
(identification, challenge).
---
 src/requester.rs       | 26 ++++++++++++++++++++------
 src/requester/error.rs |  3 +++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/requester.rs b/src/requester.rs
index ee0fa0d..aa32a31 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -60,6 +60,9 @@ struct RequesterData<'a, S: Signer> {
     // This Option allows us to move between AllStates variants at runtime, without having
     // to take self by value.
     state: Option<AllStates>,
+
+    // Has a request been written that was not answered yet?
+    awaiting_rsp: bool,
 }
 
 /// The `RequesterInit` state handles the "autonomous" part of the
@@ -94,6 +97,7 @@ impl<'a, S: Signer> RequesterInit<'a, S> {
                 slots,
                 transcript: Transcript::new(),
                 state: Some(version::State {}.into()),
+                awaiting_rsp: false,
             },
         }
     }
@@ -112,7 +116,9 @@ impl<'a, S: Signer> RequesterInit<'a, S> {
         if let AllStates::NewSession = state {
             return Err(RequesterError::InitializationComplete);
         }
-        state.write_req(buf, &mut self.data.transcript)
+        let req = state.write_req(buf, &mut self.data.transcript)?;
+        self.data.awaiting_rsp = true;
+        Ok(req)
     }
 
     /// The user calls `handle_msg` when a response is received over the
@@ -131,11 +137,19 @@ impl<'a, S: Signer> RequesterInit<'a, S> {
             return Err(RequesterError::InitializationComplete);
         }
         let state = self.data.state.take().unwrap();
-        match state.handle_msg(
-            rsp,
-            &mut self.data.transcript,
-            &self.data.root_cert,
-        ) {
+        let result = if self.data.awaiting_rsp {
+            state.handle_msg(
+                rsp,
+                &mut self.data.transcript,
+                &self.data.root_cert,
+            )
+        } else if let AllStates::Error = state {
+            Err(RequesterError::Terminated)
+        } else {
+            Err(RequesterError::UnsolicitedResponse)
+        };
+        self.data.awaiting_rsp = false;
+        match result {
             Ok(next_state) => {
                 self.data.state = Some(next_state);
                 if let Some(AllStates::NewSession) = self.data.state {
diff --git a/src/requester/error.rs b/src/requester/error.rs
index 329f531..d542606 100644
--- a/src/requester/error.rs
+++ b/src/requester/error.rs
@@ -77,6 +77,9 @@ pub enum RequesterError {
     // Parsing a Certificate Chain failed
     ParseCertChain(ParseCertificateChainError),
 
+    // A response was received without an outstanding request
+    UnsolicitedResponse,
+
     // The requester has terminated because of an earlier error
     Terminated,
 }
-- 
2.43.0


From daaeff02334303e3cd86919ad4f47f5247343d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 05/22] fix: choose only algorithms both sides support

An offer without any supported algorithm made the responder panic, and it
selected hash and signing algorithms it has no implementation for.
---
 src/responder/algorithms.rs | 44 ++++++++++++++++++++++++++++---------
 src/responder/error.rs      | 18 ++++++++++++++-
 2 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/responder/algorithms.rs b/src/responder/algorithms.rs
index addb978..4035e1e 100644
--- a/src/responder/algorithms.rs
+++ b/src/responder/algorithms.rs
@@ -3,6 +3,8 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use super::{capabilities, expect, id_auth, AllStates, ResponderError};
+use crate::config;
+use crate::crypto::ProvidedDigests;
 use crate::msgs::algorithms::*;
 use crate::msgs::capabilities::{ReqFlags, RspFlags};
 use crate::msgs::{Msg, HEADER_SIZE};
@@ -46,7 +48,7 @@ impl State {
         let req_msg = NegotiateAlgorithms::parse_body(&req[HEADER_SIZE..])?;
         transcript.extend(req)?;
 
-        let algorithms = self.choose_algorithms(req_msg);
+        let algorithms = self.choose_algorithms(req_msg)?;
         let size = algorithms.write(rsp)?;
         transcript.extend(&rsp[..size])?;
         self.algorithms = Some(algorithms);
@@ -55,7 +57,7 @@ impl State {
     }
 
     // We use the simplest mechanism possible here and just choose the first set
-    // bit for each algorithm.
+    // bit for each algorithm that is supported by both sides.
     //
     // TODO: Allow the user to choose which algorithms it can utilize, or
     // encapsulate that in a type/trait ?
@@ -63,17 +65,27 @@ impl State {
     // TODO: Allow the user to pass priorities? It really seems like the
     // requester should be the one prioritizing though! Unfortunately, SPDM
     // doesn't appear to have a mechanism for that.
-    fn choose_algorithms(&self, req: NegotiateAlgorithms) -> Algorithms {
+    fn choose_algorithms(
+        &self,
+        req: NegotiateAlgorithms,
+    ) -> Result<Algorithms, ResponderError> {
         let mut rsp = Algorithms::default();
 
         rsp.measurement_spec_selected = req.measurement_spec;
 
-        let first_bit_set = req.base_hash_algo.bits().trailing_zeros();
+        let hash_algos =
+            req.base_hash_algo & ProvidedDigests::supported_algorithms();
+        let first_bit_set = lowest_bit_set(hash_algos.bits())?;
         rsp.measurement_hash_algo_selected =
             BaseHashAlgo::from_bits(1 << first_bit_set).unwrap();
         rsp.base_hash_algo_selected = rsp.measurement_hash_algo_selected;
 
-        let first_bit_set = req.base_asym_algo.bits().trailing_zeros();
+        let mut asym_algos = BaseAsymAlgo::default();
+        for s in config::ALGORITHMS_ASYMMETRIC_SIGNING {
+            asym_algos |= s.parse()?;
+        }
+        let asym_algos = req.base_asym_algo & asym_algos;
+        let first_bit_set = lowest_bit_set(asym_algos.bits())?;
         rsp.base_asym_algo_selected =
             BaseAsymAlgo::from_bits(1 << first_bit_set).unwrap();
 
@@ -82,7 +94,8 @@ impl State {
         for i in 0..rsp.num_algorithm_responses as usize {
             match &req.algorithm_requests[i] {
                 AlgorithmRequest::Dhe(algo) => {
-                    let first_bit_set = algo.supported.bits().trailing_zeros();
+                    let first_bit_set =
+                        lowest_bit_set(algo.supported.bits().into())?;
                     let supported =
                         DheFixedAlgorithms::from_bits(1 << first_bit_set)
                             .unwrap();
@@ -90,7 +103,8 @@ impl State {
                     rsp.algorithm_responses[i] = AlgorithmResponse::Dhe(algo);
                 }
                 AlgorithmRequest::Aead(algo) => {
-                    let first_bit_set = algo.supported.bits().trailing_zeros();
+                    let first_bit_set =
+                        lowest_bit_set(algo.supported.bits().into())?;
                     let supported =
                         AeadFixedAlgorithms::from_bits(1 << first_bit_set)
                             .unwrap();
@@ -98,7 +112,8 @@ impl State {
                     rsp.algorithm_responses[i] = AlgorithmResponse::Aead(algo);
                 }
                 AlgorithmRequest::ReqBaseAsym(algo) => {
-                    let first_bit_set = algo.supported.bits().trailing_zeros();
+                    let first_bit_set =
+                        lowest_bit_set(algo.supported.bits().into())?;
                     let supported = ReqBaseAsymFixedAlgorithms::from_bits(
                         1 << first_bit_set,
                     )
@@ -108,7 +123,8 @@ impl State {
                         AlgorithmResponse::ReqBaseAsym(algo);
                 }
                 AlgorithmRequest::KeySchedule(algo) => {
-                    let first_bit_set = algo.supported.bits().trailing_zeros();
+                    let first_bit_set =
+                        lowest_bit_set(algo.supported.bits().into())?;
                     let supported = KeyScheduleFixedAlgorithms::from_bits(
                         1 << first_bit_set,
                     )
@@ -120,6 +136,14 @@ impl State {
             }
         }
 
-        rsp
+        Ok(rsp)
+    }
+}
+
+// Return the position of the lowest bit set, or an error if there is none.
+fn lowest_bit_set(bits: u32) -> Result<u32, ResponderError> {
+    if bits == 0 {
+        return Err(ResponderError::NoSupportedAlgorithms);
     }
+    Ok(bits.trailing_zeros())
 }
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 08321f5..77050cc 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -4,7 +4,7 @@
 
 use crate::msgs::{
     self,
-    algorithms::ParseNegotiateAlgorithmsError,
+    algorithms::{ParseBaseAsymAlgoError, ParseNegotiateAlgorithmsError},
     capabilities::{ParseGetCapabilitiesError, ParseRspCapabilityError},
     certificates::WriteCertificateChainError,
     challenge::{ParseChallengeError, WriteChallengeAuthError},
@@ -38,6 +38,12 @@ pub enum ResponderError {
     // Parsing a NegotiateAlgorithms message failed
     ParseNegotiateAlgorithms(ParseNegotiateAlgorithmsError),
 
+    // None of the algorithms offered by the requester is supported
+    NoSupportedAlgorithms,
+
+    // Parsing a base asymetric signing algorithm type from a string failed
+    ParseBaseAsymAlgo,
+
     // Parsing a GetCapabilities message failed
     ParseGetCapabilities(ParseGetCapabilitiesError),
 
@@ -91,6 +97,12 @@ impl From<ParseNegotiateAlgorithmsError> for ResponderError {
     }
 }
 
+impl From<ParseBaseAsymAlgoError> for ResponderError {
+    fn from(_: ParseBaseAsymAlgoError) -> Self {
+        ResponderError::ParseBaseAsymAlgo
+    }
+}
+
 impl From<ParseRspCapabilityError> for ResponderError {
     fn from(_: ParseRspCapabilityError) -> Self {
         ResponderError::ParseCapability
@@ -120,6 +132,10 @@ impl From<&ResponderError> for msgs::Error {
             }
             ResponderError::Terminated => msgs::Error::UnexpectedRequest,
             ResponderError::InvalidSlot => msgs::Error::InvalidRequest,
+            ResponderError::NoSupportedAlgorithms => {
+                msgs::Error::InvalidRequest
+            }
+            ResponderError::ParseBaseAsymAlgo => msgs::Error::Unspecified,
             ResponderError::SigningFailed => msgs::Error::Unspecified,
             ResponderError::WriteCertChain(_) => msgs::Error::LargeResponse(0),
             ResponderError::ParseCapability => msgs::Error::Unspecified,
-- 
2.43.0


From aff992514932946b7ef3188254dd7acd6e25ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 06/22] fix: keep the slot when mutual authentication is
 flagged

CHALLENGE_AUTH masked out the slot number instead of adding the flag, so the
flag was never sent and any slot but the first was misreported.
---
 src/msgs/challenge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index 244869b..faae470 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -166,7 +166,7 @@ impl Msg for ChallengeAuth {
     ) -> Result<usize, WriteChallengeAuthError> {
         self.validate()?;
         if self.use_mutual_auth {
-            w.put(self.slot & (1 << 7))?;
+            w.put(self.slot | (1 << 7))?;
         } else {
             w.put(self.slot)?;
         }
-- 
2.43.0


From 0122d5c85a4389325c67d79aeefa3188757c1680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 07/22] fix: reject opaque data beyond the configured limits

More elements, or more data in one element, than the buffers hold made the
decoder panic.
---
 src/msgs/common.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index ce93c81..9ccd3c1 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -11,6 +11,7 @@ use core::convert::{From, TryFrom, TryInto};
 
 #[derive(Debug, PartialEq)]
 pub enum ParseOpaqueDataError {
+    MaxElementsExceeded,
     Read(ReadError),
     ParseOpaqueElement(ParseOpaqueElementError),
 }
@@ -54,6 +55,9 @@ impl OpaqueData {
 
     pub fn read(r: &mut Reader) -> Result<OpaqueData, ParseOpaqueDataError> {
         let total_elements = r.get_byte()?;
+        if total_elements as usize > config::MAX_OPAQUE_ELEMENTS {
+            return Err(ParseOpaqueDataError::MaxElementsExceeded);
+        }
         r.skip_reserved(3)?;
         let mut elements =
             [OpaqueElement::default(); config::MAX_OPAQUE_ELEMENTS];
@@ -80,6 +84,7 @@ impl From<BufferFullError> for WriteOpaqueElementError {
 
 #[derive(Debug, PartialEq)]
 pub enum ParseOpaqueElementError {
+    MaxDataSizeExceeded,
     Read(ReadError),
 
     // The vendor Id does not match the registry format
@@ -191,6 +196,9 @@ impl OpaqueElement {
 
         let vendor_id = VendorId::read(r, vendor_id_len)?;
         let data_len = r.get_u16()?;
+        if data_len as usize > config::MAX_OPAQUE_ELEMENT_DATA_SIZE {
+            return Err(ParseOpaqueElementError::MaxDataSizeExceeded);
+        }
         let mut data = [0u8; config::MAX_OPAQUE_ELEMENT_DATA_SIZE];
         r.get_slice(data_len as usize, &mut data)?;
         let bytes_read = 4 + vendor_id_len as usize + data_len as usize;
-- 
2.43.0


From f73341698b2ce4d4956565533235db5614ff4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 08/22] fix: treat a zero or wrongly sized signature as invalid

A signature with an all zero r or s, or longer than the buffer it is converted
in, made verification panic.
---
 src/crypto/pki.rs      |  3 ++-
 src/crypto/ring/pki.rs | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/crypto/pki.rs b/src/crypto/pki.rs
index c501773..5021046 100644
--- a/src/crypto/pki.rs
+++ b/src/crypto/pki.rs
@@ -97,7 +97,8 @@ pub fn bin_to_der(signature: &[u8], out: &mut [u8]) -> usize {
 // Take an integer (`r` or `s`) and return as a pair its start location and its
 // size including any necessary pad bytes.
 fn get_start_and_length(i: &[u8]) -> (usize, usize) {
-    let start = i.iter().position(|b| *b != 0).unwrap();
+    // The value 0 is encoded as a single zero byte
+    let start = i.iter().position(|b| *b != 0).unwrap_or(i.len() - 1);
     let pad = if i[start] & 0x80 != 0 { 1 } else { 0 };
     let length = i.len() - start + pad;
     (start, length)
diff --git a/src/crypto/ring/pki.rs b/src/crypto/ring/pki.rs
index acbf1b9..93a4801 100644
--- a/src/crypto/ring/pki.rs
+++ b/src/crypto/ring/pki.rs
@@ -4,6 +4,7 @@
 
 use core::convert::TryFrom;
 
+use crate::config::MAX_SIGNATURE_SIZE;
 use crate::msgs::algorithms::BaseAsymAlgo;
 
 use super::super::pki::{bin_to_der, max_encoded_size, EndEntityCert, Error};
@@ -28,6 +29,15 @@ fn spdm_to_webpki(algo: BaseAsymAlgo) -> &'static webpki::SignatureAlgorithm {
     }
 }
 
+// The size of a raw signature, i.e. the concatenation of `r` and `s`
+fn signature_size(algo: BaseAsymAlgo) -> usize {
+    match algo {
+        BaseAsymAlgo::ECDSA_ECC_NIST_P256 => 64,
+        BaseAsymAlgo::ECDSA_ECC_NIST_P384 => 96,
+        _ => unimplemented!(),
+    }
+}
+
 /// webpki based implementaion of `EndEntityCert`
 ///
 /// TODO: put behind a feature flag
@@ -51,6 +61,11 @@ impl<'a> EndEntityCert<'a> for WebpkiEndEntityCert<'a> {
         signature: &[u8],
     ) -> bool {
         let algo = spdm_to_webpki(algorithm);
+        if signature.len() > MAX_SIGNATURE_SIZE
+            || signature.len() != signature_size(algorithm)
+        {
+            return false;
+        }
         let mut der = [0u8; max_encoded_size()];
         let size = bin_to_der(signature, &mut der[..]);
         self.cert.verify_signature(algo, msg, &der[..size]).is_ok()
-- 
2.43.0


From 194b37fb87557130b278f170c16d3a0688b62834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 09/22] fix: reject a certificate that is not a DER sequence

The tag was asserted, so a responder could make a requester panic.
---
 src/msgs/certificates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msgs/certificates.rs b/src/msgs/certificates.rs
index ba20fad..fd4d660 100644
--- a/src/msgs/certificates.rs
+++ b/src/msgs/certificates.rs
@@ -303,7 +303,9 @@ impl<'a> CertificateChain<'a> {
         r: &mut Reader,
     ) -> Result<(usize, usize), ParseCertificateChainError> {
         // Skip the sequence byte
-        assert_eq!(r.get_byte()?, 0x30);
+        if r.get_byte()? != 0x30 {
+            return Err(ParseCertificateChainError::BadDerEncoding);
+        }
 
         let pair = match r.get_byte()? {
             n if (n & 0x80) == 0 => (n.into(), 2),
-- 
2.43.0


From e241ec6871e848e122e4f9d742a577cb67bcfe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 10/22] fix: reject more measurement blocks than supported

The decoder panicked when a message announced more blocks than it can hold.
---
 src/msgs/measurements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 23483a6..e5ebf61 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -601,6 +601,7 @@ impl From<WriteOpaqueElementError> for WriteMeasurementsError {
 
 #[derive(Debug, PartialEq)]
 pub enum ParseMeasurementBlocksError {
+    MaxBlocksExceeded,
     MaxSizeExceeded,
     MeasurementSizeMismatch,
     Block(ParseMeasurementBlockError),
@@ -663,6 +664,9 @@ impl MeasurementBlocks {
         r: &mut Reader,
     ) -> Result<MeasurementBlocks, ParseMeasurementBlocksError> {
         let num_blocks = r.get_byte()? as usize;
+        if num_blocks > config::MAX_MEASUREMENT_BLOCKS {
+            return Err(ParseMeasurementBlocksError::MaxBlocksExceeded);
+        }
         let size = r.get_u24()?;
         if size > config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS
         {
-- 
2.43.0


From a417bde3583382bfb55faa5805c64b01e186a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 11/22] fix: reject the slot number one past the last slot

MEASUREMENTS and CHALLENGE_AUTH let it through, and such a value cannot be
encoded again.
---
 src/msgs/challenge.rs    | 4 ++--
 src/msgs/measurements.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index faae470..c41ebc3 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -230,8 +230,8 @@ impl ChallengeAuth {
     ) -> Result<ChallengeAuth, ParseChallengeAuthError> {
         let mut r = Reader::new(buf);
         let slot = r.get_bits(4)?;
-        if slot as usize > NUM_SLOTS {
-            return Err(ParseChallengeAuthError::MaxOpaqueDataSizeExceeded);
+        if slot as usize >= NUM_SLOTS {
+            return Err(ParseChallengeAuthError::MaxSlotNumberExceeded);
         }
         let _ = r.get_bits(3)?;
         let use_mutual_auth = r.get_bit()? == 1;
diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index e5ebf61..9017178 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -824,7 +824,7 @@ impl Measurements {
 
         // Parse Param2
         let slot_id = r.get_bits(4)?;
-        if usize::from(slot_id) > config::NUM_SLOTS {
+        if usize::from(slot_id) >= config::NUM_SLOTS {
             return Err(ParseMeasurementsError::MaxSlotNumberExceeded);
         }
         let content_changed = ContentChanged::try_from(r.get_bits(2)?)?;
-- 
2.43.0


From ddcf62b4ab2d40dbd773abb0a36793523c1da95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 12/22] fix: refuse requests for capabilities that are not
 advertised

A responder without CERT_CAP or CHAL_CAP still served digests, certificates and
challenges.
---
 src/responder/challenge.rs |  5 +++++
 src/responder/error.rs     |  6 ++++++
 src/responder/id_auth.rs   | 11 +++++++++++
 3 files changed, 22 insertions(+)

diff --git a/src/responder/challenge.rs b/src/responder/challenge.rs
index 33d8c72..1d8d214 100644
--- a/src/responder/challenge.rs
+++ b/src/responder/challenge.rs
@@ -51,6 +51,11 @@ impl State {
     ) -> Result<(usize, AllStates), ResponderError> {
         reset_on_get_version!(req, rsp, transcript);
         expect::<Challenge>(req)?;
+        if !self.responder_cap.contains(RspFlags::CHAL_CAP) {
+            return Err(ResponderError::UnsupportedRequest(
+                Challenge::SPDM_CODE,
+            ));
+        }
         let digest_size =
             self.algorithms.base_hash_algo_selected.get_digest_size();
         let signature_size =
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 77050cc..e76cf06 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -41,6 +41,9 @@ pub enum ResponderError {
     // None of the algorithms offered by the requester is supported
     NoSupportedAlgorithms,
 
+    // The capability needed to serve the request is not advertised
+    UnsupportedRequest(u8),
+
     // Parsing a base asymetric signing algorithm type from a string failed
     ParseBaseAsymAlgo,
 
@@ -135,6 +138,9 @@ impl From<&ResponderError> for msgs::Error {
             ResponderError::NoSupportedAlgorithms => {
                 msgs::Error::InvalidRequest
             }
+            ResponderError::UnsupportedRequest(code) => {
+                msgs::Error::UnsupportedRequest(*code)
+            }
             ResponderError::ParseBaseAsymAlgo => msgs::Error::Unspecified,
             ResponderError::SigningFailed => msgs::Error::Unspecified,
             ResponderError::WriteCertChain(_) => msgs::Error::LargeResponse(0),
diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index a47e3b7..e4aa0ed 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -82,6 +82,7 @@ impl State {
         rsp: &mut [u8],
         transcript: &mut Transcript,
     ) -> Result<(usize, AllStates), ResponderError> {
+        self.ensure_cert_cap::<GetCertificate>()?;
         let get_cert = GetCertificate::parse_body(&req[HEADER_SIZE..])?;
         if get_cert.slot as usize >= NUM_SLOTS {
             return Err(ResponderError::InvalidSlot);
@@ -117,6 +118,7 @@ impl State {
         rsp: &mut [u8],
         transcript: &mut Transcript,
     ) -> Result<(usize, AllStates), ResponderError> {
+        self.ensure_cert_cap::<GetDigests>()?;
         let slot_mask = create_slot_mask(cert_chains);
         let digests = self.hash_cert_chains(cert_chains)?;
 
@@ -129,6 +131,15 @@ impl State {
         Ok((size, self.into()))
     }
 
+    // Digests and certificates are only served if the responder said so.
+    fn ensure_cert_cap<T: Msg>(&self) -> Result<(), ResponderError> {
+        if self.responder_cap.contains(RspFlags::CERT_CAP) {
+            Ok(())
+        } else {
+            Err(ResponderError::UnsupportedRequest(T::SPDM_CODE))
+        }
+    }
+
     fn hash_cert_chains<'a>(
         &self,
         cert_chains: &[Option<CertificateChain<'a>>; NUM_SLOTS],
-- 
2.43.0


From 38a497e6cf17a4ca822748cb210ef7216f8513bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 13/22] fix: treat a signature of the wrong size as a signing
 failure

Copying it into the response panicked.
---
 src/responder/challenge.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/responder/challenge.rs b/src/responder/challenge.rs
index 1d8d214..8f863b2 100644
--- a/src/responder/challenge.rs
+++ b/src/responder/challenge.rs
@@ -131,6 +131,9 @@ impl State {
         let signature = signer
             .sign(m1_hash.as_ref())
             .map_err(|_| ResponderError::SigningFailed)?;
+        if signature.as_ref().len() != usize::from(signature_size) {
+            return Err(ResponderError::SigningFailed);
+        }
 
         // Attach the real signature to the CHALLENGE_AUTH message
         rsp[sig_start..size].copy_from_slice(signature.as_ref());
-- 
2.43.0


From 6564d554aee2b2f77b7b0a6d0c60825c940275e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 14/22] fix: compare only the recorded part of transcripts

After a clear, bytes left over from before made equal transcripts differ.
---
 src/transcript.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/transcript.rs b/src/transcript.rs
index 3d59f39..b3b7740 100644
--- a/src/transcript.rs
+++ b/src/transcript.rs
@@ -11,12 +11,21 @@ use crate::msgs::BufferFullError;
 /// A Transcript spans multiple states, and is purposefully kept outside those
 /// states to reduce the cost of the typestate pattern which takes and returns
 /// states by value.
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone)]
 pub struct Transcript {
     buf: [u8; TRANSCRIPT_SIZE],
     offset: usize,
 }
 
+// We can't derive PartialEq because buf may only be partially full.
+impl PartialEq for Transcript {
+    fn eq(&self, other: &Self) -> bool {
+        self.get() == other.get()
+    }
+}
+
+impl Eq for Transcript {}
+
 impl Transcript {
     pub fn new() -> Transcript {
         Transcript { buf: [0; TRANSCRIPT_SIZE], offset: 0 }
-- 
2.43.0


From a0f2dbdb77a93fe51f62a9c9095e02d09c52a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 15/22] fix: write only the announced version entries

VERSION always carried every entry of the array, whatever the count said.
---
 src/msgs/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/version.rs b/src/msgs/version.rs
index c63a3a2..e8dfdbf 100644
--- a/src/msgs/version.rs
+++ b/src/msgs/version.rs
@@ -94,7 +94,7 @@ impl Msg for Version {
 
         w.put(self.num_entries)?;
 
-        for v in self.entries.iter() {
+        for v in self.entries.iter().take(self.num_entries as usize) {
             w.put(v.alpha | (v.update << 4))?;
             w.put(v.minor | (v.major << 4))?;
         }
-- 
2.43.0


From 4cd8c6c0a0bd2e7dbfbf1d02157a67ace9a097eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 16/22] fix: do not offer hashes that exceed the configured
 digest size

Negotiating such a hash made either side panic when it computed a digest.
---
 src/crypto/ring/digest.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/crypto/ring/digest.rs b/src/crypto/ring/digest.rs
index 9f97343..4729853 100644
--- a/src/crypto/ring/digest.rs
+++ b/src/crypto/ring/digest.rs
@@ -6,6 +6,7 @@ use core::convert::{TryFrom, TryInto};
 use crypto::digest::Digest;
 use ring_compat::digest::{Sha256, Sha384, Sha512};
 
+use crate::config::MAX_DIGEST_SIZE;
 use crate::crypto::digest::Digests;
 use crate::impl_digests;
 use crate::msgs::algorithms::BaseHashAlgo;
@@ -20,13 +21,21 @@ impl_digests!(
 
 impl ProvidedDigests {
     pub fn supported_algorithms() -> BaseHashAlgo {
-        BaseHashAlgo::SHA_256 | BaseHashAlgo::SHA_384 | BaseHashAlgo::SHA_512
+        // A digest must fit in a `DigestBuf`
+        let mut algos = BaseHashAlgo::empty();
+        algos.set(BaseHashAlgo::SHA_256, MAX_DIGEST_SIZE >= 32);
+        algos.set(BaseHashAlgo::SHA_384, MAX_DIGEST_SIZE >= 48);
+        algos.set(BaseHashAlgo::SHA_512, MAX_DIGEST_SIZE >= 64);
+        algos
     }
 }
 
 impl TryFrom<BaseHashAlgo> for ProvidedDigests {
     type Error = ();
     fn try_from(algo: BaseHashAlgo) -> Result<Self, Self::Error> {
+        if !ProvidedDigests::supported_algorithms().contains(algo) {
+            return Err(());
+        }
         match algo {
             BaseHashAlgo::SHA_256 => Ok(ProvidedDigests::Sha256(Sha256::new())),
             BaseHashAlgo::SHA_384 => Ok(ProvidedDigests::Sha384(Sha384::new())),
-- 
2.43.0


From e3f97925cd94b4b1e08921bc84d288e494502da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 17/22] fix: request the whole chain when the chain buffer is
 64 KiB

The requested length wrapped around to 0.
---
 src/requester/id_auth.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/requester/id_auth.rs b/src/requester/id_auth.rs
index 7b03722..c4ebf98 100644
--- a/src/requester/id_auth.rs
+++ b/src/requester/id_auth.rs
@@ -2,7 +2,7 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-use core::convert::From;
+use core::convert::{From, TryFrom};
 
 use super::{algorithms, expect, RequesterError};
 use crate::config::{MAX_CERT_CHAIN_SIZE, NUM_SLOTS};
@@ -108,7 +108,9 @@ impl State {
         let msg = GetCertificate {
             slot,
             offset: 0,
-            length: MAX_CERT_CHAIN_SIZE as u16,
+            // The largest supported chain buffer is one byte too large for
+            // the field.
+            length: u16::try_from(MAX_CERT_CHAIN_SIZE).unwrap_or(u16::MAX),
         };
         let size = msg.write(buf)?;
         transcript.extend(&buf[..size])?;
-- 
2.43.0


From f6f79a2611b01491ea83408f7eb3fc9ec998d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 18/22] fix: check the body of GET_DIGESTS

Truncated requests and ones with reserved bytes set were served.
---
 src/responder/id_auth.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index e4aa0ed..de1ebec 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -119,6 +119,7 @@ impl State {
         transcript: &mut Transcript,
     ) -> Result<(usize, AllStates), ResponderError> {
         self.ensure_cert_cap::<GetDigests>()?;
+        GetDigests::parse_body(&req[HEADER_SIZE..])?;
         let slot_mask = create_slot_mask(cert_chains);
         let digests = self.hash_cert_chains(cert_chains)?;
 
-- 
2.43.0


From 79c74d3500550fa742bdf4d0f22a26e6ef280d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 19/22] fix: refuse a certificate chain for another slot

The requester silently went on to challenge whichever slot the responder named
in its CERTIFICATE response.
---
 src/requester.rs         | 8 +++++---
 src/requester/error.rs   | 3 +++
 src/requester/id_auth.rs | 4 ++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/requester.rs b/src/requester.rs
index aa32a31..0a6f911 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -30,6 +30,9 @@ use crate::msgs::capabilities::{ReqFlags, RspFlags};
 
 use core::convert::From;
 
+// The slot used to identify and challenge the responder
+const CERT_SLOT: u8 = 0;
+
 /// We expect a messsage of the given type.
 ///
 /// Return an error if the header doesn't match the given type.
@@ -256,8 +259,7 @@ impl AllStates {
                     // automatically transition after retrieving one cert.
                     //
                     // Tracked in https://github.com/oxidecomputer/spdm/issues/29
-                    let slot = 0;
-                    state.write_get_certificate_msg(slot, buf, transcript)
+                    state.write_get_certificate_msg(CERT_SLOT, buf, transcript)
                 }
             }
             AllStates::Challenge(state) => state.write_msg(buf, transcript),
@@ -297,7 +299,7 @@ impl AllStates {
                     state.handle_digests(rsp, transcript)?;
                     Ok(state.into())
                 } else {
-                    state.handle_certificate(rsp, transcript)?;
+                    state.handle_certificate(CERT_SLOT, rsp, transcript)?;
                     if state.requester_cap.contains(ReqFlags::CHAL_CAP)
                         && state.responder_cap.contains(RspFlags::CHAL_CAP)
                     {
diff --git a/src/requester/error.rs b/src/requester/error.rs
index d542606..6f09a51 100644
--- a/src/requester/error.rs
+++ b/src/requester/error.rs
@@ -46,6 +46,9 @@ pub enum RequesterError {
     ParseCert(ParseCertificateError),
     InvalidCert,
 
+    // A certificate chain was received for another slot than requested
+    IncorrectSlot,
+
     // An Algorithms msg could not be parsed properly
     ParseAlgorithms(ParseAlgorithmsError),
 
diff --git a/src/requester/id_auth.rs b/src/requester/id_auth.rs
index c4ebf98..01fb8a5 100644
--- a/src/requester/id_auth.rs
+++ b/src/requester/id_auth.rs
@@ -120,11 +120,15 @@ impl State {
     // Handle a CERTFICATE msg.
     pub fn handle_certificate(
         &mut self,
+        slot: u8,
         buf: &[u8],
         transcript: &mut Transcript,
     ) -> Result<(), RequesterError> {
         expect::<Certificate>(buf)?;
         let cert = Certificate::parse_body(&buf[HEADER_SIZE..])?;
+        if cert.slot != slot {
+            return Err(RequesterError::IncorrectSlot);
+        }
         self.cert_chain = Some(cert);
         transcript.extend(buf)?;
         Ok(())
-- 
2.43.0


From 248449e8ce2e3e1837d0a841255497efa79ef127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 20/22] fix: accept measurement records whose blocks are all of
 the maximum size

---
 src/msgs/measurements.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 9017178..e7cdf25 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -511,6 +511,15 @@ impl DmtfMeasurement {
     }
 }
 
+// The header of a measurement block (4 bytes) and of the measurement in it
+// (3 bytes), followed by the largest digest or raw bit stream.
+const MAX_MEASUREMENT_BLOCK_SIZE: usize =
+    7 + if config::MAX_MEASUREMENT_SIZE > config::MAX_DIGEST_SIZE {
+        config::MAX_MEASUREMENT_SIZE
+    } else {
+        config::MAX_DIGEST_SIZE
+    };
+
 /// Table 44 of DMTF 1.2.0 spec
 #[derive(Debug, Clone, PartialEq)]
 pub struct MeasurementBlock {
@@ -668,8 +677,7 @@ impl MeasurementBlocks {
             return Err(ParseMeasurementBlocksError::MaxBlocksExceeded);
         }
         let size = r.get_u24()?;
-        if size > config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS
-        {
+        if size > MAX_MEASUREMENT_BLOCK_SIZE * config::MAX_MEASUREMENT_BLOCKS {
             return Err(ParseMeasurementBlocksError::MaxSizeExceeded);
         }
         let offset = r.byte_offset();
-- 
2.43.0


From 6ba701b64575d37e5d9f5d6407ef3a50cd0f2f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 21/22] fix: check the vendor ID length in vendor defined ERROR
 messages

---
 src/msgs/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msgs/error.rs b/src/msgs/error.rs
index 4ca950e..8c7af2b 100644
--- a/src/msgs/error.rs
+++ b/src/msgs/error.rs
@@ -232,12 +232,12 @@ impl Error {
 
             // TODO: Figure out how to parse opaque_error_data. Use `buf.len()`?
             // See https://github.com/oxidecomputer/spdm/issues/20
-            //
-            // TODO: Should we also validate that the VendorId lengths match the
-            // values in table 50 of the 1.2 spec?
             0xFF => {
                 let vendor_registry_id = VendorRegistryId::try_from(data)?;
                 let vendor_id_len = r.get_byte()?;
+                if vendor_id_len != vendor_registry_id.vendor_id_len() {
+                    return Err(ParseVendorIdError::InvalidLen.into());
+                }
                 let vendor_id = VendorId::read(&mut r, vendor_id_len)?;
                 Error::VendorDefined(
                     vendor_registry_id,
-- 
2.43.0


From f1e4f1a0f5f1b39aec6c7200a1f97a0d4e880ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 22/22] fix: rebuild when the configuration file named by
 SPDM_CONFIG changes

---
 build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.rs b/build.rs
index 266298b..dfbfb0a 100644
--- a/build.rs
+++ b/build.rs
@@ -187,6 +187,7 @@ fn main() {
         Ok(path) => PathBuf::from(path),
         _ => PathBuf::from("./spdm-config.toml"),
     };
+    println!("cargo:rerun-if-changed={}", src_path.display());
     let config_input = load(src_path).unwrap();
     let config_output = gen_config(config_input).unwrap();
     fs::write(&dest_path, &config_output).unwrap();
-- 
2.43.0

