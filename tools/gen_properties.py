#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "A requester completes authentication only against a genuine responder",
  "When both sides advertise certificate and challenge support, the requester reports completion only if the peer proved possession of the private key of the leaf certificate in the chain it presented, that chain verifies up to the provisioned root at the fixed validation time, and the peer's signature covers exactly the bytes this requester sent and received in this session, including this session's challenge. Any tampering with, substitution, reordering, replay, injection or omission of messages, any wrong key, wrong root, invalid chain, wrong slot or wrong chain hash makes it fail instead.",
  ["inputs", "histories", "fault_sequences"],
  "every peer behaviour and every man-in-the-middle edit of every message of a session, over all certificate hierarchies and configurations",
  "The tests run one honest handshake; they never present a forged, replayed, tampered or differently signed session, so they cannot tell a verifying requester from one that skips a check.",
  ["src/requester/challenge.rs", "src/requester.rs", "src/crypto/ring/pki.rs", "src/crypto/pki.rs", "src/msgs/certificates.rs", "src/requester/id_auth.rs"],
  [("chain hash, slot, slot mask, chain of trust and signature verification over the running transcript", "src/requester/challenge.rs"),
   ("path building to the provisioned root", "src/crypto/ring/pki.rs")],
  ["RequesterInit::handle_msg result", "RequesterInit::state", "bytes exchanged"])

p("C02", "An honest requester and responder always complete, in a bounded exchange",
  "A requester and a responder built from the same configuration, joined by a faithful transport, always finish with the requester reporting completion exactly once, after exactly the exchanges their common capabilities call for (version, capabilities, algorithms, then digests and certificate, then challenge), with neither side reporting an error and both transcripts equal. The same holds for an independently written peer that follows the wire protocol, for any valid certificate hierarchy that fits the configured limits, any population of the slots with slot 0 filled, and any number of restarts before completion.",
  ["inputs", "configurations", "histories"],
  "every certificate hierarchy, slot population, key, capability configuration, negotiated hash, message size and restart history",
  "The only end-to-end test uses one hierarchy shape, one slot pattern, one hash and one configuration, and never restarts; the negotiation variants and the other configurations are never exercised.",
  ["src/requester.rs", "src/responder.rs", "src/requester/challenge.rs", "src/responder/challenge.rs", "src/msgs/challenge.rs"],
  [("state transitions driven by negotiated capabilities", "src/requester.rs"), ("responder state machine", "src/responder.rs")],
  ["RequesterInit::handle_msg", "Responder::handle_msg", "transcripts of both sides"])

p("C03", "Every challenge and challenge response carries a fresh random nonce",
  "Each challenge a requester emits and each challenge response a responder emits carries a 32-byte random nonce that never repeats, in the same session or another, on either side, and shows no fixed, counting or input-dependent part. Therefore a challenge response recorded in one exchange is never accepted in another.",
  ["histories", "inputs"],
  "all sessions and all repeated challenges of a process, and all recorded responses offered to later sessions",
  "A single handshake yields one nonce per side; freshness is a relation between runs, which no test compares, and no test replays anything.",
  ["src/crypto/nonce.rs", "src/msgs/challenge.rs", "src/requester/challenge.rs", "src/responder/challenge.rs"],
  [("operating system random source", "src/crypto/nonce.rs")],
  ["CHALLENGE bytes 4..36", "CHALLENGE_AUTH nonce field", "result of replayed CHALLENGE_AUTH"])

p("C04", "Both sides record exactly the conversation, and agree on it",
  "After every call, each side's transcript is exactly the concatenation, in order and byte for byte, of the version request that started the session and every request and response since that this side sent or accepted, with a challenge response recorded without its signature. A version request empties it first, a failed attempt to produce a request leaves it unchanged, and two transcripts with equal recorded contents compare equal.",
  ["histories", "inputs"],
  "every sequence of requests, responses, repeated requests, restarts and failures, with messages of any accepted form including trailing bytes",
  "Tests compare the two transcripts once per step on one honest run; both could be wrong in the same way, and restarts, repeated requests, failures and unusual accepted encodings are not reached.",
  ["src/transcript.rs", "src/requester.rs", "src/responder.rs", "src/requester/id_auth.rs", "src/responder/id_auth.rs", "src/responder/challenge.rs", "src/requester/challenge.rs"],
  [("append on send and on acceptance", "src/requester/*.rs, src/responder/*.rs"), ("clear on GET_VERSION", "src/responder/version.rs, src/requester/version.rs")],
  ["RequesterInit::transcript", "Responder::transcript", "Transcript equality"])

p("C05", "The responder follows the protocol order and stops at the first violation",
  "A responder answers a request only if it is the next legal one: version first (legal at any time before termination), then capabilities, then algorithms, then any number of digest requests followed by one certificate request, then any number of challenges. Any other, malformed or unserviceable request yields an error result and terminates the session: from then on every message, including a version request, is refused with an error until the user resets it, and the reported state always matches the history.",
  ["histories", "inputs"],
  "every finite sequence of request messages, legal or not, in any order with any content",
  "Tests drive one legal order and two isolated restarts; the set of orders is unbounded and what a wrong transition enables (for instance challenge before certificate) only shows on particular sequences.",
  ["src/responder.rs", "src/responder/version.rs", "src/responder/capabilities.rs", "src/responder/algorithms.rs", "src/responder/id_auth.rs", "src/responder/challenge.rs"],
  [("typestate transitions", "src/responder.rs"), ("expected message check", "src/responder.rs expect")],
  ["Responder::handle_msg result and response code", "Responder::state"],
  state=[("state", "current protocol phase", "src/responder.rs")])

p("C06", "A restarted session is indistinguishable from a first session",
  "After a version request accepted in any phase, or a user reset in any phase including after termination, a responder behaves on every following message exactly as a newly created one does: same responses up to fresh nonces and signatures, same state, same transcript, with nothing negotiated or recorded earlier having any effect. A requester that has not yet received the version response may restart the same way by issuing the version request again.",
  ["histories"],
  "every history before the restart and every history after it",
  "Tests only check that a version request leads to the capabilities phase from two isolated states; whether stale negotiated values or transcript bytes leak into the next session needs pairs of histories.",
  ["src/responder.rs", "src/responder/version.rs", "src/transcript.rs", "src/requester/version.rs"],
  [("reset on GET_VERSION", "src/responder.rs reset_on_get_version"), ("Responder::reset", "src/responder.rs")],
  ["responses, states and transcripts of the restarted responder and of a fresh one"])

p("C07", "No input can make a responder panic, hang or abort",
  "For every byte string of any length received in any phase, every response buffer size, every slot population and every configuration, handling a message returns normally with either a response or an error, after which the responder can still be queried, driven and reset. No panic, arithmetic overflow, out-of-bounds access, unbounded loop or abort can be triggered by the peer or by a small response buffer.",
  ["inputs", "histories", "configurations"],
  "all request byte strings, all buffer sizes, all sequences, all slot populations, all configurations with and without crypto",
  "Unit tests feed a handful of well-formed messages; panics hide behind specific lengths, counts and negotiated values.",
  ["src/responder.rs", "src/responder/algorithms.rs", "src/responder/challenge.rs", "src/responder/id_auth.rs", "src/msgs/mod.rs", "src/msgs/algorithms.rs", "src/msgs/encoding.rs"],
  [("bounds checked readers and typed parse errors", "src/msgs/encoding.rs"), ("error to ERROR message conversion", "src/responder.rs")],
  ["unwinding out of Responder::handle_msg", "call CPU time"])

p("C08", "No input can make a requester panic, hang or abort",
  "For every byte string of any length offered as a response in any phase, whether or not a request is outstanding, and for every request buffer size, every requester call returns normally with a value or an error. No panic, arithmetic overflow, out-of-bounds access, unbounded loop or abort can be triggered by a hostile responder that controls certificates, digests, opaque data and signatures, or by calling the interface in an unexpected order.",
  ["inputs", "histories", "configurations"],
  "all response byte strings, all phases, all buffer sizes, all configurations, including well-signed hostile responses",
  "Unit tests parse only well-formed responses; the panics lie behind over-long counts, odd DER, zero signature components and unexpected call orders.",
  ["src/requester.rs", "src/requester/challenge.rs", "src/msgs/certificates.rs", "src/msgs/common.rs", "src/crypto/pki.rs", "src/msgs/challenge.rs", "src/msgs/mod.rs"],
  [("bounds checked readers and typed parse errors", "src/msgs/encoding.rs")],
  ["unwinding out of RequesterInit methods", "call CPU time"])

p("C09", "A requester fails closed: one bad response ends the session for good",
  "Any response that is not the one expected for the outstanding request, that is malformed, that is an ERROR message, that arrives when no request is outstanding, or that contradicts what was negotiated is reported as an error and leaves the requester in its error state, where no further request is produced, no further response is accepted and completion is never reported. Completion, once reported, is stable: no later message can undo it or complete again.",
  ["inputs", "histories", "fault_sequences"],
  "every response in every phase, followed by every continuation",
  "Tests only follow the success path; that an error is final needs continuations after every kind of failure.",
  ["src/requester.rs", "src/requester/version.rs", "src/requester/capabilities.rs", "src/requester/algorithms.rs", "src/requester/id_auth.rs", "src/requester/challenge.rs"],
  [("state replaced by Error on any failure", "src/requester.rs handle_msg")],
  ["RequesterInit::handle_msg and next_request results", "RequesterInit::state"])

p("C10", "The responder selects exactly one offered and supported algorithm each",
  "In every algorithms response, the base hash, the measurement hash and the base asymmetric algorithm are each exactly one algorithm that the requester offered and that this responder supports, and each algorithm structure in the request is answered in order by one of the same kind with exactly one of the algorithms offered in it. A request that offers no common hash or signing algorithm, or an empty algorithm structure, is refused with an error rather than answered, and the rest of the session uses the selected hash and signature algorithm.",
  ["inputs"],
  "every offered combination of hash, signature, DHE, AEAD, requester-signature and key-schedule algorithms and of number and order of structures",
  "The end-to-end test offers one fixed combination, in which the first offered algorithm is always supported.",
  ["src/responder/algorithms.rs", "src/msgs/algorithms.rs", "src/crypto/ring/digest.rs"],
  [("choose_algorithms", "src/responder/algorithms.rs"), ("supported digests of the crypto provider", "src/crypto/ring/digest.rs")],
  ["ALGORITHMS response bytes", "digest and signature sizes in later responses"])

p("C11", "The requester offers what it supports and accepts only what it offered",
  "The algorithms request offers exactly the configured signing algorithms and the hashes the crypto provider implements. The requester goes past algorithm negotiation only if every selected algorithm, in the base fields and in every algorithm structure of the response, is exactly one algorithm out of those it offered for that purpose; it then uses the selected hash for everything that follows.",
  ["inputs"],
  "every algorithms response: all selections, multiple selections, empty selections, numbers and kinds of structures",
  "Three unit tests try one good and two bad selections; a downgrade through any other field or count is untested.",
  ["src/requester/algorithms.rs", "src/msgs/algorithms.rs"],
  [("ensure_valid_algorithms_selected", "src/requester/algorithms.rs"), ("one bit checks while parsing", "src/msgs/algorithms.rs")],
  ["NEGOTIATE_ALGORITHMS bytes", "RequesterInit::handle_msg result on ALGORITHMS"])

p("C12", "Version negotiation picks the highest common version or fails",
  "For every list of versions a responder announces within the supported list size, in any order, the requester continues with the highest entry that it also supports, and fails if there is none or the list is malformed. The responder announces exactly the versions it supports.",
  ["inputs"],
  "every version list and entry value, including update and alpha fields, duplicates and unused entries",
  "Only the library's own fixed list, in one order, is ever negotiated.",
  ["src/requester/version.rs", "src/responder/version.rs", "src/msgs/version.rs"],
  [("find_max_matching_version", "src/requester/version.rs")],
  ["RequesterInit::state after VERSION", "VERSION bytes"])

p("C13", "Capabilities are advertised as configured and decide which phases run",
  "Each side advertises exactly the configured capability flags and remembers exactly those the peer advertised. The requester runs identification only if both sides advertise certificates and the challenge only if, after that, both advertise challenges, and otherwise reports completion at once; the responder refuses digest, certificate and challenge requests for capabilities it does not advertise.",
  ["inputs", "configurations"],
  "every pair of requester and responder capability sets, and every configuration with and without crypto",
  "Tests have one configuration with everything advertised on both sides, so no phase is ever skipped and no request is ever refused.",
  ["src/requester.rs", "src/requester/capabilities.rs", "src/responder/capabilities.rs", "src/responder/id_auth.rs", "src/responder/challenge.rs", "src/msgs/capabilities.rs"],
  [("capability conditions on transitions", "src/requester.rs"), ("flags from configuration", "src/requester/capabilities.rs, src/responder/capabilities.rs")],
  ["GET_CAPABILITIES and CAPABILITIES bytes", "sequence of requests until completion", "stored peer flags"])

p("C14", "Every message is encoded exactly as the specification lays it out",
  "Serializing any well-formed message value produces exactly the bytes the SPDM specification prescribes for it: version and code header, fields at their offsets in little-endian order, zeros in reserved positions, consistent length and count fields, and only the elements the counts announce. The reported size is the number of bytes written and nothing beyond it is touched.",
  ["inputs"],
  "every value of every message type the library can express",
  "Tests mostly check that what was written can be read back by the same code, which stays true if both sides deviate from the specification together.",
  ["src/msgs/mod.rs", "src/msgs/version.rs", "src/msgs/capabilities.rs", "src/msgs/algorithms.rs", "src/msgs/digest.rs", "src/msgs/certificates.rs", "src/msgs/challenge.rs", "src/msgs/encoding.rs"],
  [("write_header and write_body", "src/msgs/*.rs")],
  ["bytes and size returned by Msg::write"])

p("C15", "Decoding is lossless and rejects malformed messages",
  "Every well-formed message decodes to the field values its bytes carry, and encoding that value again gives back the same bytes. Every message that is cut short anywhere, or has a non-zero reserved byte, an undefined flag, algorithm or enumeration value, more than one selected algorithm, or a count or length beyond the supported limits is rejected with an error, and a header of another message type or version is never taken for this one.",
  ["inputs"],
  "every byte string offered to every message decoder",
  "Tests decode a few values they encoded themselves and a few single faults; truncation at each offset, each reserved byte and each undefined bit is a far larger space.",
  ["src/msgs/version.rs", "src/msgs/capabilities.rs", "src/msgs/algorithms.rs", "src/msgs/digest.rs", "src/msgs/certificates.rs", "src/msgs/challenge.rs", "src/msgs/error.rs", "src/msgs/mod.rs"],
  [("parse_header and parse_body", "src/msgs/*.rs")],
  ["Result of parse_body and re-encoded bytes", "requests accepted by the responder"])

p("C16", "Output buffers are respected and a buffer that is too small is harmless",
  "No call writes outside the message it returns and, on error, outside the error message it returns plus the attempted response area; a message is produced if and only if the buffer holds it entirely, and an exactly fitting buffer always suffices. A requester whose buffer was too small reports it and, offered a sufficient buffer later, produces the very request it would have produced; a responder whose buffer was too small reports an error with a complete ERROR message or none.",
  ["inputs", "fault_sequences"],
  "every buffer size from zero to beyond the need, at every step of a session, with retries",
  "Tests always pass generously sized buffers.",
  ["src/requester.rs", "src/responder.rs", "src/msgs/encoding.rs", "src/requester/challenge.rs", "src/responder/challenge.rs"],
  [("Writer bounds", "src/msgs/encoding.rs"), ("empty slice when even the error does not fit", "src/responder.rs")],
  ["returned slice", "canary bytes around and after the buffer", "later requests"])

p("C17", "Digests and certificates served are those of the provisioned slots",
  "A digests response lists exactly the provisioned slots in its mask and, in slot order, the digest under the negotiated hash of each one's serialized certificate chain. A certificate response for a provisioned slot carries that slot's number and exactly its serialized chain: length, reserved bytes, root hash, intermediates in order, leaf; it never carries bytes of another slot, and a slot number out of range is refused.",
  ["inputs", "configurations"],
  "every slot population, chain content and size, negotiated hash, requested slot and number of configured slots",
  "Tests use one alternating population, one hash and only ever fetch slot 0.",
  ["src/responder/id_auth.rs", "src/msgs/digest.rs", "src/msgs/certificates.rs"],
  [("create_slot_mask, hash_cert_chains", "src/responder/id_auth.rs"), ("CertificateChain::write", "src/msgs/certificates.rs")],
  ["DIGESTS and CERTIFICATE bytes"])

p("C18", "A challenge response is bound to slot, chain, session and key",
  "A challenge response names the challenged slot, the mutual authentication flag both sides agreed on, the mask of provisioned slots, and the digest under the negotiated hash of that slot's serialized chain, and its signature verifies under that slot's key over the hash of this session's transcript up to and including this response without its signature, however many challenges preceded it. A challenge for an empty or non-existent slot is refused and nothing is signed.",
  ["inputs", "histories", "configurations"],
  "every slot population, challenged slot, negotiated hash, capability pair, measurement request kind and history of earlier challenges and restarts",
  "The test checks the requester's verdict once, for slot 0 with the first hash; the requester shares this code's idea of the transcript and never challenges another slot.",
  ["src/responder/challenge.rs", "src/msgs/challenge.rs", "src/responder/id_auth.rs"],
  [("M1 construction and signing", "src/responder/challenge.rs")],
  ["CHALLENGE_AUTH bytes", "message passed to the signer", "independent signature verification"])

p("C19", "Signing faults never yield a usable or partial response",
  "If the slot's signer fails or returns a signature of the wrong size, the responder reports an error and terminates the session with an ERROR message, never a challenge response, and never panics. The signer is asked exactly once per accepted challenge, only the challenged slot's signer is asked, and a later session after a reset works normally once signing works again.",
  ["fault_sequences", "histories"],
  "every pattern of signer failures and malformed signatures, on every slot and at every challenge of a session",
  "Tests only use a signer that always succeeds.",
  ["src/responder/challenge.rs", "src/crypto/signing.rs", "src/responder/error.rs"],
  [("SigningFailed mapping", "src/responder/challenge.rs")],
  ["Responder::handle_msg result and response", "signer invocation log"])

p("C20", "Failures are reported with a well-formed and truthful error",
  "Whenever a responder returns an error it also returns a complete ERROR message, or nothing when the buffer cannot hold it; the message decodes with this library's decoder, and its code is UnexpectedRequest for a message that is out of order or of unknown type, InvalidRequest for a well-placed request with an invalid field value or slot, and Unspecified for a signing failure. On either side, an unexpected-message error names the code that was expected and the code actually received.",
  ["inputs", "histories"],
  "every failing request in every phase with every buffer size, and every failing response",
  "No test looks at an error response or at error details.",
  ["src/responder.rs", "src/responder/error.rs", "src/msgs/error.rs", "src/requester.rs"],
  [("ResponderError to ERROR mapping", "src/responder/error.rs"), ("expect", "src/requester.rs, src/responder.rs")],
  ["ERROR bytes", "returned error values"])

p("C21", "A certificate chain splits into exactly its certificates, or is rejected",
  "Parsing a serialized certificate chain returns its root hash, its intermediates in order and its leaf as contiguous, non-overlapping parts covering the whole input, so that serializing them again reproduces it; any chain built from at most the supported number of certificates of any lengths is parsed back equal. Input whose declared length is wrong, whose certificates overrun or do not exactly fill it, are too many, or have a tag or length that is not minimal DER within the supported range is rejected with an error.",
  ["inputs"],
  "every byte string and every chain of certificates of every length class and depth, for every digest size",
  "Two tests round-trip two chains; length-encoding boundaries, depth limits and malformed chains are untested.",
  ["src/msgs/certificates.rs"],
  [("CertificateChain::parse, read_cert_size, write, append_intermediate_cert", "src/msgs/certificates.rs")],
  ["CertificateChain fields and re-serialized bytes"])

p("C22", "Signature encoding and verification are exact",
  "A raw signature is converted to the canonical DER sequence of two minimal positive integers with the same values, within the advertised maximum size, for every value including leading zeros and high bits. Verification of a message under a leaf certificate succeeds for exactly the signatures that are valid for that message and key, and chain validation succeeds for exactly the hierarchies that lead from the leaf through certificate authorities to the given root and are valid at the given time; neither ever panics.",
  ["inputs"],
  "every raw signature value, message, key pair and certificate hierarchy, valid or not",
  "One test signs and verifies one message; values with leading zeros or high bits in either half occur rarely by chance and wrong acceptance is never tried.",
  ["src/crypto/pki.rs", "src/crypto/ring/pki.rs", "src/crypto/ring/signing.rs"],
  [("bin_to_der", "src/crypto/pki.rs"), ("verify_signature, verify_chain_of_trust", "src/crypto/ring/pki.rs")],
  ["DER bytes", "verify results against independent verification"])

p("C23", "Digests equal SHA-2 for any data, split in any way",
  "For each supported hash algorithm, the digest of any data of any length equals the standard SHA-256, SHA-384 or SHA-512 value and has the advertised size, whether computed at once or incrementally over any split of the data. Unsupported algorithms are reported as such and never mapped to another one.",
  ["inputs"],
  "every data string, length around block boundaries and split, and every algorithm value",
  "Three fixed vectors of five bytes are checked.",
  ["src/crypto/ring/digest.rs", "src/crypto/digest.rs", "src/msgs/common.rs", "src/msgs/algorithms.rs"],
  [("impl_digests", "src/crypto/digest.rs")],
  ["Digests::digest, update and finalize results"])

p("C24", "Sessions are independent of each other and can move between threads",
  "Any number of requesters and responders in one process, interleaved in any way on one thread or running on many threads, behave exactly as each would alone, up to fresh nonces and signatures. Requesters and responders with a sendable signer can be moved to another thread at any point of a session.",
  ["schedules", "histories"],
  "every interleaving of the calls of several sessions, on one or several threads, including migration between calls",
  "Every test runs one session at a time; shared mutable state only shows when sessions overlap.",
  ["src/requester.rs", "src/responder.rs", "src/transcript.rs", "src/lib.rs", "src/crypto/nonce.rs"],
  [("all state is owned by the session value; no unsafe code", "src/lib.rs")],
  ["per-session responses, states and transcripts against a solo run"])

p("C25", "The library never allocates from the heap",
  "No operation of a requester, a responder, a codec, a digest or a signature verification allocates heap memory, on success and on every error path. Memory use is fixed by the values the user creates.",
  ["inputs", "histories"],
  "every call on every input and every path, honest or hostile",
  "Tests run with a normal allocator and do not observe allocation, and the test build links the standard library.",
  ["src/lib.rs", "README.adoc", "src/requester.rs", "src/responder.rs", "src/crypto/ring/pki.rs"],
  [("no_std, fixed-size arrays", "src/lib.rs")],
  ["allocator calls attributed to library calls"])

p("C26", "Byte and bit cursors follow their laws for any sequence of operations",
  "For every sequence of reads, each value returned equals the corresponding bits or little-endian bytes of the input, the cursor advances by exactly what was read, and a read that would pass the end, is unaligned where alignment is required, or asks for more bits than supported fails without moving the cursor past the end. For every sequence of writes, the buffer holds exactly the concatenation of what was accepted, block writes are all or nothing, and remaining space, offset and fullness are consistent.",
  ["inputs", "histories"],
  "every buffer and every sequence of reader or writer operations",
  "Unit tests read two bytes in three fixed patterns; bit reads crossing byte boundaries at all offsets and mixtures of operations are not covered.",
  ["src/msgs/encoding.rs"],
  [("Reader and Writer", "src/msgs/encoding.rs")],
  ["values returned, offsets, buffer contents"])

p("C27", "The transcript store is all or nothing and never exceeds its capacity",
  "Appending to a transcript either stores all the bytes after those already stored or, if they do not fit, fails and changes nothing; an append that exactly fills it succeeds. What is read back is always the concatenation of the appends accepted since the last clear, the length agrees with it, and a session whose conversation outgrows the capacity ends with an error on the side that cannot record it, never with a truncated record being hashed.",
  ["inputs", "histories", "configurations"],
  "every sequence of appends and clears of any sizes and every configured capacity, including sessions with endlessly repeated requests",
  "Tests never come near the capacity.",
  ["src/transcript.rs", "src/responder/challenge.rs", "src/responder/id_auth.rs", "src/requester/challenge.rs"],
  [("Transcript::extend", "src/transcript.rs")],
  ["Transcript::get, len", "session results at capacity"])

p("C28", "Measurement messages decode and encode faithfully",
  "Every well-formed measurement request or response, with any attributes, index, slot, block count, measurement types, digest or raw values, opaque data and optional signature within the limits, is decoded and encodes back to the same bytes. Messages that are truncated, carry inconsistent block or record lengths, undefined types, or exceed block, size or slot limits are rejected with an error.",
  ["inputs"],
  "every byte string offered to the measurement decoders and every value they accept",
  "Unit tests round-trip a few values with uniform blocks through the same code.",
  ["src/msgs/measurements.rs", "src/msgs/common.rs"],
  [("MeasurementBlocks::read, Measurements::parse_body", "src/msgs/measurements.rs")],
  ["parse results and re-encoded bytes"])

p("C29", "Opaque data and error messages decode and encode faithfully",
  "Every well-formed opaque data list, with any registry, vendor identifier, element data and count within the limits, and every well-formed ERROR message (the opaque data of a vendor-defined one apart, which the library does not keep) is decoded and encodes back to the same bytes with correct padding and announced sizes. Lists or messages that are truncated, have non-zero padding, an unknown registry, a vendor identifier of the wrong length, an unknown error code, or more elements or data than supported are rejected with an error.",
  ["inputs"],
  "every byte string offered to these decoders and every value they accept",
  "Unit tests use two elements of fixed content and a few error values.",
  ["src/msgs/common.rs", "src/msgs/error.rs"],
  [("OpaqueData, OpaqueElement, VendorId", "src/msgs/common.rs"), ("Error", "src/msgs/error.rs")],
  ["parse results and re-encoded bytes", "serialized sizes"])

p("C30", "Configuration is honoured exactly, and an invalid one fails the build",
  "For every configuration file within the documented limits, the built library uses exactly the configured numbers, capabilities and algorithms. A configuration outside the limits (slot count, chain buffer, chain depth), naming an unknown capability or signing algorithm, or asking for capabilities without a crypto provider fails the build.",
  ["configurations"],
  "every configuration file and feature selection",
  "Tests are built with two fixed configurations, and a configuration error cannot be expressed as a unit test.",
  ["build.rs", "config.rs.template", "src/config.rs"],
  [("validate, gen_config", "build.rs")],
  ["generated constants", "exit status of the build script", "behaviour of differently configured builds"])

p("C31", "Behaviour is defined and the same in every build profile",
  "On every input, a build with overflow and debug checks and an optimized build without them give the same results, responses, states and transcripts, and neither performs an invalid memory access or other undefined behaviour. In particular no result depends on wrapped arithmetic or on leftover memory contents.",
  ["inputs", "histories"],
  "every history of calls, run in both build profiles and under memory and undefined-behaviour checkers",
  "Tests run in one profile without sanitizers.",
  ["src/lib.rs", "src/msgs/encoding.rs", "src/msgs/common.rs", "src/responder/algorithms.rs", "src/crypto/pki.rs", "Cargo.toml"],
  [("forbid(unsafe_code) and checked arithmetic", "src/lib.rs")],
  ["event logs of the two builds", "sanitizer reports"])

p("C32", "Secret-dependent timing does not leak",
  "The time any call takes does not depend on private key material.",
  ["inputs"], "all keys and inputs",
  "Timing is not observable in functional tests.",
  ["src/crypto/ring/signing.rs"], [("delegated to the signer implementation", "src/crypto/ring/signing.rs")], ["call duration"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
