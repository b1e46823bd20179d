#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the long texts stay editable)."""
import os
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

S = "src/mechanisms/scram/"
p("C01", "SCRAM server validates only a peer that proves the stored password",
  "A SCRAM server session hands an identity to the user's validation callback, or sends a `v=` server signature, only if the client-final message it received carries the complete nonce of this exchange, the channel-binding field matching this exchange's GS2 header and binding data, and a proof that is correct for the stored key of the user name in the client-first message under this exchange's nonces, salt and iteration count. Every other client-final (altered, truncated, replayed, computed from another password, salt, iteration count or user) and every unknown user ends without validation and without a server signature, and nothing sent to a session that has ended (failed or finished) authenticates anybody. Conversely a peer that does know the password is always accepted and receives the matching server signature.",
  ["inputs", "histories"], "for every stored credential, user name, client nonce, GS2 header, and every client-first/client-final an active attacker can construct or alter, for SHA-1, SHA-256 and SHA-512, bare and PLUS",
  "The tests run a handful of honest SCRAM exchanges; none sends a proof that differs from the right one in a single field or byte, and acceptance of any other message is a universally quantified claim over inputs.",
  [S+"server.rs", S+"parser.rs", S+"tools.rs"],
  [("handle_client_final compares channel binding, nonce and H(proof XOR signature)", S+"server.rs"), ("compute_signatures builds the AuthMessage MACs", S+"tools.rs"), ("unknown users get a fabricated salt and a dead-end state", S+"server.rs")],
  ["Session::step results and output", "SessionCallback::validate calls"])
p("C02", "SCRAM client completes only after the server proves it knows the password",
  "A SCRAM client session reports Finished without error only if the server-final message carries exactly the server signature derived from the client's own password (or keys), this exchange's nonces, salt and iteration count, and channel binding; any other verifier, an `e=` error or a malformed message yields an error, after which the session never finishes. The client sends a client-final only in answer to a well-formed server-first whose nonce strictly extends the client's own nonce and whose iteration count is a positive number and whose salt is valid base64. A server that is honest and shares the password is always accepted.",
  ["inputs", "histories"], "for every password, and every server-first/server-final a hostile or tampered-with server can send",
  "Tests cover one accepting run; mutual authentication is about all wrong server-finals (flipped at any byte, truncated, extended, empty, signature of another exchange).",
  [S+"client.rs", S+"parser.rs", S+"tools.rs"],
  [("handle_server_first checks nonce extension, iteration count, salt", S+"client.rs"), ("handle_server_final compares the verifier", S+"client.rs")],
  ["Session::step results and output"])
p("C03", "Channel binding is enforced and its downgrade is detected",
  "A SCRAM exchange that uses channel binding succeeds only if both sides hold the same binding data for the binding type the client named; a PLUS server never validates a client that did not bind, and a server that offers PLUS rejects a client that states it would have bound had the server offered it (`y` flag). A client configured for channel binding sends `y` if and only if the server did not offer the PLUS variant, `p=<type>` with PLUS, and `n` otherwise. Missing binding data is reported as an error naming the missing type rather than silently omitted.",
  ["inputs", "configurations", "histories"], "for every combination of client/server binding support, offered mechanism lists, binding type and data, and every man-in-the-middle edit of the GS2 flag or of the offered list",
  "No test runs a PLUS mechanism at all; the property ranges over the product of both configurations and an attacker.",
  [S+"client.rs", S+"server.rs", S+"mechinfo.rs", "src/session.rs", "src/channel_bindings.rs"],
  [("GS2 flag chosen from CbSupport", S+"client.rs"), ("flag check and need_cb_data", S+"server.rs"), ("ScramSelector* picks bare/plus/none", S+"mechinfo.rs"), ("maybe_need_cb_data tries the provider's callback, then the user's", "src/session.rs")],
  ["Session::step results and output", "SASLClient::start_suggested"])
p("C04", "SCRAM nonces are fresh, and recorded exchanges cannot be replayed",
  "Every SCRAM exchange, on either side, uses a newly drawn random nonce of full length made only of printable ASCII other than comma, independent between sessions, threads and processes; the server's combined nonce starts with the exact client nonce and the fabricated salt for unknown users is fresh too. Consequently the client messages of any recorded successful exchange never authenticate when sent to another server session, and recorded server messages are never accepted by another client session.",
  ["histories", "inputs"], "for every pair of exchanges with the same or different credentials, in any interleaving and in separate processes",
  "Tests look at single exchanges; freshness is a relation between all exchanges and replay a property of pairs of histories.",
  [S+"tools.rs", S+"client.rs", S+"server.rs"],
  [("generate_nonce", S+"tools.rs"), ("nonce prefix and remainder checks", S+"server.rs"), ("strip_prefix(client_nonce)", S+"client.rs")],
  ["bytes written by Session::step", "validate calls"])
allm = ["src/mechanisms/anonymous", "src/mechanisms/external", "src/mechanisms/login", "src/mechanisms/plain", "src/mechanisms/scram", "src/mechanisms/xoauth2", "src/mechanisms/oauthbearer"]
p("C05", "Identities and secrets reach the server exactly as the client supplied them",
  "In an exchange between an rsasl client and an rsasl server, whatever user name, authorization identity, password, anonymous trace, OAuth token and key/value pairs the client's callback supplies are exactly the ones the server's callbacks see (modulo the string preparation PLAIN prescribes), for every string the mechanism can carry. A value the mechanism cannot carry (embedded separators, or an empty mandatory field) is refused by the client with an error before a message carrying it is completed. A value is never truncated, split into or merged with another field, or left in escaped form.",
  ["inputs"], "for all strings, in particular ones containing NUL, ^A, comma, equals sign, spaces, quotes, non-ASCII characters, long strings, absent or empty optional fields, for all nine password/token mechanisms",
  "Tests use a couple of plain ASCII names; escaping and delimiter errors show only for particular strings.",
  allm, [("client message construction and server message parsing of each mechanism", "src/mechanisms/*/client.rs, server.rs"), ("SaslName escape/unescape", S+"parser.rs")],
  ["SessionCallback::callback and validate contexts on the server", "Session::step errors on the client"])
p("C06", "No peer input can panic, hang or abort a session",
  "For every mechanism and side, feeding any byte string (or no data where data is expected) to any not-yet-finished session makes step/step64 return Ok or Err: it never panics, never overflows, never loops without end (beyond the work the SCRAM iteration count asks for) and never aborts the process. The same holds for parsing arbitrary mechanism names and for encode/decode.",
  ["inputs", "histories"], "for all byte strings, at every state reachable by any sequence of inputs, for every mechanism and side",
  "Example based tests send well-formed messages; a remote denial of service is a single odd input (too short attribute, missing separator, invalid UTF-8).",
  allm + ["src/session.rs", "src/mechname.rs"], [("parsers use slicing and must check lengths", "src/mechanisms/*/parser.rs, server.rs")],
  ["Session::step, step64, encode, decode, Mechname::parse"])
p("C07", "Servers accept exactly the well-formed messages of their mechanism",
  "A server session never calls the validation callback or reports success for a message that violates its mechanism's grammar (too few fields, fields out of order, missing separator or terminator, invalid UTF-8 where text is required, empty mandatory field, unknown mandatory extension, bad flag, non-canonical base64, text failing string preparation): it returns an error. A well-formed message is never rejected for its form, and the fields handed on are exactly the fields of the message.",
  ["inputs"], "for all byte strings as client messages of every mechanism, in particular every short string over the grammar's significant bytes",
  "Tests check a few malformed PLAIN/XOAUTH2 messages; the grammar boundary is exact over all inputs.",
  allm, [("PLAIN split and saslprep", "src/mechanisms/plain/server.rs"), ("SCRAM attribute parser", S+"parser.rs"), ("OAUTHBEARER gs2 header and key/value parser", "src/mechanisms/oauthbearer/parser.rs"), ("XOAUTH2 parser", "src/mechanisms/xoauth2/server.rs")],
  ["Session::step results", "validate contexts"])
p("C08", "Validation runs exactly once per completed server exchange; outcome is kept",
  "A server session that completes an exchange successfully has called the user's validation callback exactly once, with this exchange's identity, before reporting Finished; client sessions never call it, and a failed exchange never leaves a validation outcome behind except one the callback itself set. If the callback returns an error, that step fails with a validation error. The first outcome finalized in a session is the one validation() yields, exactly once; later finalizations and values of other validation types are ignored.",
  ["inputs", "histories", "configurations"], "for every mechanism, every sequence of messages, every behaviour of the validation callback (finalize, finalize twice, finalize another type, not at all, error) and every order of validation() calls",
  "Tests check presence of a value after one honest exchange; ordering, multiplicity and first-wins are claims over callback behaviours and histories.",
  ["src/validate.rs", "src/session.rs"] + allm, [("Validate::with/finalize only store into an empty slot", "src/validate.rs"), ("Session::validation takes the value", "src/session.rs"), ("session.validate(provider) in each server mechanism", "src/mechanisms/*/server.rs")],
  ["SessionCallback::validate", "Session::validation"])
p("C09", "Step results tell the truth and every honest exchange terminates",
  "step returns Running exactly when the mechanism has produced a message and awaits the peer's reply (or must be fed the peer's first message), and Finished(Yes) or Finished(No) exactly when it needs no further input and did or did not produce a message that must be delivered. are_we_first is true exactly for the side that speaks first, and get_mechname names the mechanism in use. If both sides simply deliver every announced message (the outer protocol's outcome counting as an empty message), every exchange reaches Finished or an error on both sides within the mechanism's fixed number of messages, without either side waiting for a message that never comes.",
  ["schedules", "configurations", "histories"], "for every mechanism, configuration and credential outcome (accepted, rejected, unknown user, OAuth error), and protocol drivers that follow the reported states",
  "Tests hard-code the sequence of steps for each mechanism; a wrong report strands only a driver that believes it.",
  ["src/session.rs", "src/mechanisms"], [("State/MessageSent returned by each mechanism", "src/mechanisms/*/{client,server}.rs"), ("Session::are_we_first compares side and mechanism.first", "src/session.rs")],
  ["Session::step, are_we_first, get_mechname"])
p("C10", "A missing input is reported as such and does not destroy the session",
  "Calling step without input in a state that needs peer data returns the InputDataRequired error, writes nothing, calls no validation, and leaves the session as it was: supplying the data in the next call continues exactly as if the empty call had not happened. The side that speaks first never needs input for its first message; where the peer's message may be empty (ANONYMOUS, EXTERNAL, the last reply of the OAuth mechanisms, the prompts of LOGIN) no input counts as an empty message instead.",
  ["histories", "schedules"], "for every mechanism and side, at every reachable state, with any number of input-less calls inserted into any exchange",
  "Tests do not insert extra calls at intermediate states; recoverability is a claim about all histories with such insertions.",
  allm + ["src/mechanisms/gssapi"], [("input.ok_or(InputDataRequired) before the state is consumed", "src/mechanisms/*/{client,server}.rs")],
  ["Session::step results and output"])
p("C11", "A client starts the best mechanism both offered and enabled, or none",
  "start_suggested on a client starts a mechanism only if it is in the configured list, has a client implementation, was offered under exactly its name, and, for PLUS mechanisms, channel binding is enabled, and fails with NoSharedMechanism if there is none. By default the one started has maximal priority among the candidates; with a custom preference function the fold of that function over the candidates decides, a preference for nothing over a candidate rejecting that candidate. The order, repetition and unknown names of the offer do not matter.",
  ["inputs", "configurations"], "for every configured mechanism list, every list of offered names (any subset, order, repetition, unknown names), channel binding on or off and any preference function",
  "Tests try a few offers with default priorities; the claim is over all subsets, orders and preference functions.",
  ["src/registry.rs", "src/config.rs", "src/sasl.rs", "src/callback.rs", S+"mechinfo.rs"], [("Registry::select collects selectors, feeds offered names, folds with prefer", "src/registry.rs"), ("SessionCallback::prefer default compares priority", "src/callback.rs")],
  ["SASLClient::start_suggested, Session::get_mechname, the first message"])
p("C12", "A server starts exactly the mechanisms it lists as available",
  "get_available yields exactly the configured mechanisms that have a server implementation, in configured order; start_suggested on a server succeeds exactly for those names and starts the mechanism of that very name, on the server side, and otherwise fails with NoSharedMechanism. Whether a SCRAM server treats itself as capable of channel binding depends exactly on the matching PLUS variant being configured.",
  ["inputs", "configurations"], "for every configured mechanism list and every mechanism name",
  "Tests start one mechanism from one list.",
  ["src/sasl.rs", "src/registry.rs", S+"mechinfo.rs"], [("server_start_suggested / get_available", "src/sasl.rs")],
  ["SASLServer::get_available, start_suggested"])
p("C13", "Property requests deliver the first answer, once, to the right request only",
  "A property request reaches the user's callback once, is answered only by satisfying the property actually asked for, and the first answer given is the one the mechanism uses: answering some other property has no effect and lets the callback go on, a satisfied request ends the callback early when errors are propagated, and a lazily computed answer is computed only if it is the requested property and not yet answered. A required property that is not answered makes the step fail with a no-callback error; an optional one is treated as absent, as is an explicit no-value; any other callback error is returned to the caller unchanged. An action carries its value to the callback, can be taken once, and counts as unhandled (no-callback error) if not taken.",
  ["configurations", "histories", "inputs"], "for every sequence of satisfy/satisfy_with/get_action calls, for right and wrong properties, with and without error propagation, and every return value of the callback",
  "Tests satisfy exactly the requested property once; the type-erased request protocol must hold for every sequence of calls.",
  ["src/callback.rs", "src/session.rs", "src/typed.rs"], [("Request::satisfy/satisfy_with/get_action", "src/callback.rs"), ("ClosureCR keeps the closure until satisfied", "src/callback.rs"), ("need_with/maybe_need_with/action map the outcome", "src/session.rs")],
  ["SessionCallback::callback", "a custom mechanism driving MechanismData"])
p("C14", "Callbacks see exactly the context and session facts of the exchange",
  "Every callback and validation call is made with a context that yields, for each property, exactly the value the mechanism established for this exchange (the leftmost of several providers) and nothing for every other property, and with session data naming the running mechanism and side. In particular password requests of SCRAM clients carry the server's salt and iteration count, stored-password requests carry the claimed user and authorization identity, and channel-binding requests carry the binding type.",
  ["inputs", "configurations"], "for every mechanism, message and property, and every combination of providers",
  "Tests read one property in one mechanism.",
  ["src/context.rs", "src/typed.rs", "src/session.rs"] + allm, [("Demand::provide_ref compares type tags", "src/context.rs"), ("per-mechanism Provider impls", "src/mechanisms/*/server.rs")],
  ["Context::get_ref/get_mut, SessionData::mechanism/side in callbacks"])
p("C15", "Errors name the one at fault",
  "When a step fails, the kind of error says whose doing it was, and no fault is blamed on somebody else. A message of the peer that is refused (malformed, contradictory, a wrong proof) is a mechanism error; a failing writer an I/O error carrying the writer's own kind; input that is not base64 a base64 error; a step without the message it needs the missing-input error, and neither of these two is reported for a message that was there; a property nobody answered a no-callback error naming it, which is what is_missing_prop() tells; an error of the callback comes back as it was returned; missing channel binding data names the type. MutualAuthenticationFailed is returned exactly by SCRAM clients whose server's final message is well-formed but proves nothing, never on a server; a server that reports failure itself (e=...) makes a mechanism error of kind Outcome. is_mechanism_error() holds for mechanism errors only, and every error can be displayed.",
  ["inputs", "fault_sequences", "configurations"], "for every mechanism, side, step and fault, or pair of faults, of peer, callback, transport and writer",
  "Tests check that something failed, rarely with what; users decide on it whether to retry, to ask the user again or to raise the alarm about a server that only pretends.",
  ["src/error.rs", "src/session.rs", "src/callback.rs"] + allm, [("SessionError and its conversions", "src/error.rs"), ("mechanism error types and their kind()", "src/mechanisms/*")],
  ["SessionError returned by step/step64, MechanismError::kind, is_mechanism_error, is_missing_prop"])
p("C16", "A step that reports success has written its whole message",
  "If step returns Ok, the writer has received the complete message, once and in order, however the writer splits it (partial or vectored writes of any size, interruptions); if the writer fails or refuses to make progress at any point, step returns an error instead of success. The message does not depend on how the writer accepts it.",
  ["fault_sequences", "inputs"], "for every mechanism message and every sequence of short writes, zero-length writes, interruptions and errors of the writer",
  "Tests write into growing in-memory buffers that never split or fail.",
  ["src/vectored_io.rs", "src/session.rs"] + allm, [("VectoredWriter::write_all_vectored", "src/vectored_io.rs"), ("write_all in mechanisms", "src/mechanisms/*")],
  ["bytes received by the writer, step result"])
p("C17", "step64 equals step with base64 on both ends",
  "step64 behaves exactly like decoding the input as standard padded base64, calling step, and encoding everything step wrote as standard padded base64: same state, same callbacks, same result; no input stays no input. Input that is not canonical base64 is rejected with an error without any effect on the session, and an error while writing the encoded output is reported.",
  ["inputs", "fault_sequences"], "for every mechanism, state and input, valid or not, every message length modulo 3 and every writer fault",
  "Only one test steps through base64 and only with short ASCII messages.",
  ["src/session.rs"], [("step64 wraps writer in EncoderWriter and decodes the input", "src/session.rs")], ["Session::step64"])
p("C18", "SCRAM clients use the strongest cached secret offered and cache the right keys",
  "A SCRAM client asks for cached keys first, then the salted password, then the plain password, stops at the first one supplied and authenticates with it; an equivalent secret in any of the three forms produces the same proof and accepts the same server signature. After the server has proven itself, and only then, the callback is offered the client and server key of this exchange together with the salt and iteration count they belong to, and ignoring the offer does not fail the exchange. Keys of the wrong size or empty salted passwords are never used.",
  ["configurations", "inputs"], "for every subset of the secrets supplied, right, wrong or malformed, every hash function, salt and iteration count, and every outcome of the exchange",
  "No test supplies cached or salted secrets or observes the offer to cache.",
  [S+"client.rs", S+"properties.rs", S+"tools.rs"], [("maybe_need_with chain in handle_server_first", S+"client.rs"), ("action::<ScramCachedPassword> after verification", S+"client.rs")],
  ["callback requests and actions, client-final, step results"])
p("C19", "OAuth errors reach the client verbatim and never count as success",
  "When the server's callback rejects an XOAUTH2 or OAUTHBEARER token, the server sends exactly the error it was given and keeps Running, the client hands exactly that error to its callback and answers, and then the server finishes; when it accepts, the server finishes without sending anything and the client finishes on the empty reply without reporting an error. A malformed error message or a callback that does not handle the error makes the client step fail.",
  ["inputs", "histories"], "for all error payloads (any status, scope and configuration strings), all tokens and both mechanisms",
  "Tests use one fixed error string.",
  ["src/mechanisms/xoauth2", "src/mechanisms/oauthbearer"], [("need_with::<*Validate> writes the error", "src/mechanisms/*/server.rs"), ("action::<*Error> on the client", "src/mechanisms/*/client.rs")],
  ["step results, bytes, callback values"])
p("C20", "GSSAPI negotiates only a security layer both sides accept",
  "A GSSAPI exchange finishes only with a single security layer that the server offered, the client's callback accepts and the established context supports; client and server agree on it, has_security_layer is true exactly when integrity or confidentiality was selected, and the client picks the strongest layer in common. Tokens of wrong length, unknown bits, a layer not offered, or a tampered token end the exchange with an error. A server finishes only after its user has validated the name the context was established with, and data encoded by one end with the negotiated layer (encrypted if and only if that is confidentiality) decodes to the same data at the other, while altered, repeated or reflected data is refused.",
  ["configurations", "inputs"], "for every pair of accepted layer sets, every capability of the context, every number of context tokens, every reply of the peer and every failing library call",
  "No test exercises GSSAPI.",
  ["src/mechanisms/gssapi"], [("layer intersection and selection", "src/mechanisms/gssapi/client.rs, server.rs")], ["step results, has_security_layer, encode/decode"])
p("C21", "Without a negotiated security layer data is never silently passed through",
  "has_security_layer is false for every session unless its mechanism has negotiated a layer; encode and decode on such a session, at any point before, during or after the exchange, return the NoSecurityLayer error, write nothing, and do not change the session.",
  ["histories", "inputs"], "for every mechanism and side, every state and every data",
  "No test calls encode or decode at intermediate states.",
  ["src/session.rs", "src/mechanism.rs", "src/mechanisms"], [("default Authentication::encode/decode", "src/mechanism.rs")], ["Session::encode/decode/has_security_layer"])
p("C22", "Mechanism names are exactly the valid ones and compare by content",
  "Parsing a mechanism name (from bytes or text) succeeds exactly for non-empty sequences of upper-case ASCII letters, digits, hyphen and underscore, returns the same bytes, and otherwise reports an empty name or the first offending byte and its offset. Equality and display agree with the parsed bytes for every comparison the type offers.",
  ["inputs"], "for all byte strings",
  "Tests parse a few names; the accepted set is exact over all byte values, positions and lengths.",
  ["src/mechname.rs"], [("is_valid per byte", "src/mechname.rs")], ["Mechname::parse, TryFrom, PartialEq, Display"])
p("C23", "Credential configurations offer only password mechanisms that honour them",
  "A configuration made from plain credentials enables exactly the SCRAM variants, PLAIN and (only if no authorization identity is given) LOGIN, on any offer starts the preferred of these, and answers requests with exactly the given user name, password and authorization identity and no other property. The default configuration enables the built-in mechanisms in documented order of preference, never a PLUS variant without channel binding; where mechanisms are registered at compile time (registry_static) all of those linked in are offered and selected by the same rules.",
  ["inputs", "configurations"], "for all credentials with and without authorization identity and all offers",
  "Tests do not combine credentials with offers.",
  ["src/config.rs", "src/registry.rs", "src/builder.rs"], [("with_credentials and Registry::credentials", "src/config.rs, src/registry.rs")], ["SASLConfig::with_credentials + exchange with a server"])
p("C24", "Sessions sharing a configuration do not influence each other",
  "Any number of sessions created from one shared configuration, stepped in any interleaving on one or several threads, each behave exactly as they would alone: no message, state, nonce, identity or validation outcome of one session ever shows in another, and a failed or abandoned session has no effect on the rest.",
  ["schedules", "histories"], "for every interleaving of the steps of concurrent sessions of equal or different mechanisms, and concurrent threads",
  "Tests run one session at a time.",
  ["src/sasl.rs", "src/session.rs", "src/config.rs"], [("per-session mechanism state, Arc<SASLConfig> shared immutably", "src/session.rs")], ["all session observables per session"])
p("C25", "Diagnostics never reveal secrets",
  "What rsasl says about itself is safe to write into a log: no error (its Display, Debug, alternate Debug, and those of all its sources), no State, no SASLError and no Debug output of a configuration or client contains a password, an access token, a salted password, or any stored, cached or derived key, nor a part of one longer than single characters or octets, whether the secret came from a callback, from credentials in a configuration or from the peer's messages, and whether it is written as text, as numbers, in hex or in base64. A message may name positions, lengths and single offending characters. Errors that the user's own callback returns are the user's and shown as they are.",
  ["inputs", "configurations", "histories"], "for every mechanism, side and step, every secret and every malformed message that carries one, and every configuration made of credentials",
  "Tests compare error variants and never look at what errors say about inputs they did not foresee; a leak needs a secret in the very message that is refused.",
  ["src/error.rs", "src/config.rs", "src/session.rs", "src/sasl.rs", "src/callback.rs"] + allm, [("error types carry positions and single characters", "src/mechanisms/*"), ("Debug of SASLConfig and credentials", "src/config.rs"), ("SessionError and its sources", "src/error.rs")],
  ["Display/Debug/source() of SessionError, Debug of State, SASLConfig, SASLClient, SASLError"])
with open(sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
