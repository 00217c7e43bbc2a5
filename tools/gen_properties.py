"""Source of /verif/properties.jsonl: run `python3 tools/gen_properties.py` after editing."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


MSG = ["wampproto/messages/*.py", "wampproto/serializers/json.py", "wampproto/serializers/msgpack.py",
       "wampproto/serializers/cbor.py", "wampproto/serializers/serializer.py"]

prop("C01", "Every message survives a serialize/deserialize round trip",
     "A message of any of the 24 kinds, built from valid field values that the serializer can represent, comes back from "
     "serialize followed by deserialize (JSON, MessagePack or CBOR alike) as the same kind of message with equal field values. "
     "The only normalisations allowed are that absent positional arguments become an empty list when keyword arguments are "
     "present, and that an unset WELCOME authextra becomes an empty dictionary.",
     ["inputs"], "all 24 message kinds x 3 serializers x all valid IDs, strings, dictionaries, argument lists and keyword arguments, "
     "including empty, falsy, deeply nested, very long and boundary values and every present/absent combination of optional fields",
     "The serializer tests round-trip one HELLO per serializer; most message kinds are never serialized and read back at all, and no "
     "value space is explored (the interop tests need an external program).",
     MSG, [("marshal/parse of each message class", "wampproto/messages/*.py"),
           ("to_message dispatch on the type code", "wampproto/serializers/serializer.py:to_message")],
     ["Serializer.serialize", "Serializer.deserialize", "message field accessors"])

prop("C02", "The wire format is the array WAMP prescribes for each message kind",
     "For every message kind the serialized form is a str for JSON and bytes for MessagePack and CBOR, and decodes to exactly the "
     "array the WAMP specification prescribes: the kind's numeric code, then its fields in the specified order, with args/kwargs "
     "(and optional HELLO/WELCOME detail keys) left out when absent and a declared payload serializer shown as the "
     "x_payload_serializer option of CALL, YIELD, INVOCATION and RESULT. Conversely a conforming array written by another "
     "implementation is decoded into exactly those field values.",
     ["inputs"], "all message kinds, serializers and field values, in both directions, against an independent encoder written from the specification",
     "A round-trip or a single literal example cannot see a consistently swapped or dropped field; the cross-implementation tests need an "
     "external binary that is not available, so most kinds have no check of their layout at all.",
     MSG, [("TYPE codes, VALIDATION_SPEC index tables and marshal() of each class", "wampproto/messages/*.py")],
     ["Serializer.serialize output bytes", "Message.marshal", "Message.parse", "Serializer.deserialize"])

prop("C03", "Exactly the well-formed WAMP arrays are accepted as messages",
     "A decoded array is accepted if and only if its first element is one of the 24 known integer codes, its length is allowed for that "
     "kind, and every field has the prescribed type: IDs are integers (a boolean is not an integer) from 1 to 2^53, URIs, realm, reason, "
     "signature and authmethod are strings, options/details/extra/kwargs dictionaries, args a list. HELLO and WELCOME details must also hold a "
     "non-empty roles dictionary naming only the six WAMP roles, and authid, authrole, authmethod (string), authmethods (list) and authextra "
     "(dictionary) must be absent, null or of that type. Everything else is refused with ValueError or TypeError, never accepted and never another error.",
     ["inputs"], "all JSON/MessagePack/CBOR-representable values as decoded messages: conforming arrays and arrays with one or several malformed, "
     "missing, surplus, out-of-range or wrongly typed elements, for every kind and position",
     "Tests try a handful of wrong types for ten kinds; the ID range limits, wrong types in the optional tail, and the other fourteen kinds are untested.",
     ["wampproto/messages/util.py", "wampproto/messages/*.py", "wampproto/serializers/serializer.py"],
     [("validate_message and the validate_* functions", "wampproto/messages/util.py"), ("sanity_check", "wampproto/messages/util.py"),
      ("to_message", "wampproto/serializers/serializer.py")],
     ["Serializer.deserialize result or exception", "Message.parse result or exception"])

prop("C04", "Arbitrary input bytes never yield an ill-formed message",
     "Decoding any byte string or text with any serializer either raises an exception that reports bad input, or yields one of the 24 "
     "message kinds whose fields satisfy the well-formedness rules of WAMP (field types, ID range, roles). A message accepted from "
     "arbitrary input of plain data can be serialized again and then decodes to an equal message.",
     ["inputs"], "all byte strings and texts: random, truncated, spliced, bit-flipped and type-confused encodings, for each of the three serializers",
     "Tests only ever decode well-formed encodings produced by the library itself; hostile or damaged input is what a network peer sends.",
     MSG, [("deserialize -> to_message -> parse", "wampproto/serializers/*.py")],
     ["Serializer.deserialize result or exception"])

prop("C05", "Application payload encoding round-trips and refuses what it cannot carry",
     "For the JSON, MessagePack and CBOR payload formats, encoding args and kwargs and decoding the result returns equal args and kwargs (absent args "
     "become an empty list when kwargs are present; both absent stay absent; empty bytes mean both absent), and for the raw format the single bytes "
     "argument is passed through unchanged. Anything that is not a list of an args list and an optional kwargs dictionary, a raw payload that is not "
     "exactly one bytes argument without kwargs, and an unknown format number are refused with ValueError or TypeError.",
     ["inputs"], "all args/kwargs combinations and serializer numbers; all encodable non-payload values on decode",
     "The payload module has no tests at all.",
     ["wampproto/serializers/payload.py", "wampproto/serializers/__init__.py"],
     [("serialize_payload / deserialize_payload", "wampproto/serializers/payload.py"), ("decode, prepare_for_encode", "wampproto/serializers/payload.py")],
     ["serialize_payload", "deserialize_payload"])

prop("C06", "Raw-socket handshakes encode and decode faithfully; malformed ones are refused",
     "A handshake for any serializer number 0 to 15 and any power-of-two size from 512 bytes to 16 MiB is written as the four bytes the WAMP raw-socket "
     "specification prescribes and reads back with the same serializer and size; a size that is not a power of two is announced as the next lower one, "
     "never as more than requested. Reading accepts only exactly four bytes with the magic first byte and two zero reserved bytes, and refuses "
     "everything else, as well as sizes below 512 bytes on writing, with ValueError.",
     ["inputs"], "all serializer numbers, all sizes, and all byte strings as input (the four-byte space by structured enumeration)",
     "The raw-socket module has no tests at all.",
     ["wampproto/transports/rawsocket.py"], [("send_handshake / receive_handshake", "wampproto/transports/rawsocket.py")],
     ["Handshake.to_bytes", "Handshake.from_bytes", "send_handshake", "receive_handshake"])

prop("C07", "Raw-socket message headers carry the exact frame kind and length",
     "A frame header with any kind 0 to 255 and any payload length 0 to 2^24-1 is four bytes - the kind, then the length as a 24-bit big-endian "
     "integer - and reads back as the same kind and length. A length that does not fit is refused with ValueError, never silently truncated, so a "
     "stream of headers and payloads is always split back into the frames that were written.",
     ["inputs", "histories"], "all kinds and all 2^24 lengths, over-long and negative lengths, and sequences of frames in one byte stream",
     "The raw-socket module has no tests at all.",
     ["wampproto/transports/rawsocket.py"], [("MessageHeader", "wampproto/transports/rawsocket.py"), ("int_to_bytes / bytes_to_int", "wampproto/transports/rawsocket.py")],
     ["MessageHeader.to_bytes", "MessageHeader.from_bytes"])

prop("C08", "An honest client and router with matching credentials always establish a session",
     "For the anonymous (with or without a router-side authenticator), ticket, WAMP-CRA (plain or salted) and cryptosign methods and any serializer, when "
     "the client's credentials are the ones the router's authenticator expects, exchanging the messages the two sides produce ends with both joined. Both "
     "then report equal session details: the realm the client asked for, the authid and authrole the authenticator granted ('anonymous' for both without "
     "one), and the same session ID from 1 to 2^53; the router flags only the closing WELCOME as final, and WELCOME carries the configured router roles.",
     ["inputs", "configurations"], "all realms, authids, auth-extra dictionaries, secrets, tickets, keys, salts and iteration counts, role configurations and serializers",
     "The join tests use one fixed identity per method, pair each method with a single serializer, and never use salted secrets or an authenticator that grants "
     "another authid than was asked for.",
     ["wampproto/joiner.py", "wampproto/acceptor.py", "wampproto/auth/*.py"],
     [("Joiner.send_hello/receive", "wampproto/joiner.py"), ("Acceptor.receive_message", "wampproto/acceptor.py"), ("client authenticators", "wampproto/auth/*.py")],
     ["Joiner.get_session_details", "Acceptor.get_session_details", "Acceptor.receive return values"])

prop("C09", "No WELCOME without a valid proof for this very handshake",
     "When the chosen method requires proof, the router never answers with WELCOME nor reports session details unless the AUTHENTICATE it received carries a valid "
     "proof for the challenge issued in this very handshake: a cryptosign signature by the announced key over this challenge, an HMAC of this challenge with the "
     "secret the authenticator supplied, or a ticket the authenticator accepted. Replayed proofs from other handshakes, wrong keys or secrets, altered or malformed "
     "signatures are answered with ABORT and leave the handshake aborted; a request the authenticator refuses likewise gets ABORT, and the identity "
     "granted is always the authenticator's, never the client's claim.",
     ["inputs", "histories"], "all forged, replayed, spliced, truncated and garbage proofs, across interleaved handshakes sharing one authenticator",
     "Tests only exercise successful authentication; no test ever presents a wrong proof to the router.",
     ["wampproto/acceptor.py", "wampproto/auth/cryptosign.py", "wampproto/auth/wampcra.py", "wampproto/auth/ticket.py"],
     [("AUTHENTICATE handling per method", "wampproto/acceptor.py:receive_message"), ("verify_cryptosign_signature", "wampproto/auth/cryptosign.py"),
      ("verify_wampcra_signature", "wampproto/auth/wampcra.py")],
     ["Acceptor.receive / receive_message", "Acceptor.is_aborted", "Acceptor.get_session_details"],
     [("challenge", "the challenge issued to this client", "wampproto/acceptor.py")])

prop("C10", "The router-side handshake only follows the protocol's message order",
     "Whatever sequence of messages a client sends, the router side answers HELLO only while none was accepted before, AUTHENTICATE only while a challenge is outstanding, and "
     "refuses everything else with ValueError without sending anything; after WELCOME or after an ABORT in either direction nothing can lead to a WELCOME or CHALLENGE "
     "any more. It reports itself aborted exactly after an ABORT was sent or received, marks exactly WELCOME and ABORT as final, and reports session details "
     "only once WELCOME was sent.",
     ["histories"], "all sequences of messages of all kinds, for every authentication method, authenticator outcome and serializer, including input that is refused",
     "Tests follow only the straight successful path of each method; no out-of-order, repeated or post-abort message is ever sent.",
     ["wampproto/acceptor.py"], [("state machine in receive_message", "wampproto/acceptor.py")],
     ["Acceptor.receive", "Acceptor.receive_message", "Acceptor.is_aborted", "Acceptor.get_session_details"],
     [("handshake state", "how far the handshake has come", "wampproto/acceptor.py")])

prop("C11", "The client-side handshake only joins on an expected WELCOME",
     "Whatever sequence of messages a router sends, the client side becomes joined only by a WELCOME received after it sent HELLO and before any ABORT, answers "
     "a CHALLENGE at most once per HELLO and only between HELLO and WELCOME, and refuses any other message with ValueError and stays as it was. Session details are "
     "available only once joined and are exactly the realm that was requested and the session ID, authid and authrole of that WELCOME.",
     ["histories"], "all sequences of messages of all kinds, for every client authenticator and serializer",
     "Tests follow only the straight successful path; unexpected, repeated or late messages and ABORT are never delivered to a client.",
     ["wampproto/joiner.py"], [("state machine in receive_message", "wampproto/joiner.py")],
     ["Joiner.receive", "Joiner.receive_message", "Joiner.get_session_details"],
     [("handshake state", "HELLO sent, AUTHENTICATE sent, joined, aborted", "wampproto/joiner.py")])

prop("C12", "A refused join tells the client why",
     "When the router side aborts because its authenticator refused the request by raising an exception with serializable arguments, the ABORT that "
     "travels to the client has the reason wamp.error.authentication_failed and exactly those arguments, and any ABORT received by a client surfaces as an "
     "application error carrying the ABORT's reason, args and kwargs unchanged. This holds for every serializer and at every stage of the handshake.",
     ["inputs", "configurations"], "all exception arguments and ABORT contents x methods x serializers x stages",
     "No test makes an authenticator refuse or delivers an ABORT to a client; the ABORT tests never give it args or kwargs.",
     ["wampproto/acceptor.py", "wampproto/joiner.py", "wampproto/messages/abort.py", "wampproto/exception.py"],
     [("Abort built from the authenticator's exception", "wampproto/acceptor.py"), ("ApplicationError raised", "wampproto/joiner.py"), ("Abort.marshal", "wampproto/messages/abort.py")],
     ["Acceptor.receive", "Joiner.receive raising ApplicationError"])

prop("C13", "Signing, verifying and key derivation agree with the published algorithms",
     "Cryptosign signatures are the hex Ed25519 signature followed by the challenge, WAMP-CRA signatures the base64 HMAC-SHA256 of the challenge, and a salted "
     "WAMP-CRA key the base64 PBKDF2-HMAC-SHA256 of the secret, for every key, secret, challenge, salt, positive iteration count and positive key length. Verification returns true for every "
     "such signature made with the matching key, and returns false, without raising, for any string that does not encode one: altered, truncated, not hex or base64, "
     "not ASCII, made with another key, or for another challenge (WAMP-CRA).",
     ["inputs"], "all keys, secrets, challenges, salts, iteration counts, key lengths, and all strings as signature",
     "Each function is tested on one fixed vector, key derivation and rejected cryptosign signatures not at all.",
     ["wampproto/auth/cryptosign.py", "wampproto/auth/wampcra.py"],
     [("sign/verify_cryptosign_*", "wampproto/auth/cryptosign.py"), ("sign/verify_wampcra_*, derive_cra_key", "wampproto/auth/wampcra.py")],
     ["return values of the signing, verifying and deriving functions", "AUTHENTICATE signature produced by client authenticators"])

prop("C14", "Every authentication challenge is fresh, unpredictable and well-formed",
     "No two challenges are ever equal, and a challenge cannot be foretold by someone who knows or resets the state of Python's default random generator. A cryptosign challenge "
     "is 32 random bytes in hex; a WAMP-CRA challenge is a JSON object with a nonce of 16 random bytes in hex, and exactly the given session ID, "
     "authid, authrole and provider, the method name and the current UTC time in ISO form with milliseconds.",
     ["inputs", "histories"], "all identities, and arbitrarily long runs of challenges, under any reseeding of the default generator and any local time zone",
     "Tests look at the shape of one challenge; freshness and unpredictability are statements about all pairs of challenges.",
     ["wampproto/auth/cryptosign.py", "wampproto/auth/wampcra.py", "wampproto/acceptor.py"],
     [("generate_cryptosign_challenge", "wampproto/auth/cryptosign.py"), ("generate_wampcra_challenge", "wampproto/auth/wampcra.py")],
     ["generated challenge strings", "CHALLENGE messages sent by the Acceptor"])

SES = ["wampproto/session.py"]
SSTATE = [("outstanding requests and held registrations/subscriptions", "what the session is waiting for and may receive", "wampproto/session.py")]
prop("C15", "A client session accepts exactly the replies it is waiting for",
     "In any interleaving of requests and incoming messages, a client session accepts RESULT, REGISTERED, UNREGISTERED, SUBSCRIBED, UNSUBSCRIBED, PUBLISHED and ERROR "
     "exactly when a request of that very kind with that request ID is outstanding, and each final reply settles its request once (PUBLISHED only for publications that asked for "
     "acknowledgement). INVOCATION and EVENT are accepted exactly for registrations and subscriptions that were confirmed and not yet confirmed as removed, and YIELD can be sent only for an invocation received "
     "and not yet answered. Everything else is refused with ValueError, and what is accepted is handed to the application unchanged.",
     ["histories"], "all sequences of sends and receives with overlapping requests of all kinds, equal IDs across kinds, late, duplicate, missing and mismatched replies",
     "Tests send one request and one reply at a time; overlap between kinds, duplicate replies and reuse of IDs never occur.",
     SES, [("send_message / receive_message", "wampproto/session.py")], ["WAMPSession.send_message", "WAMPSession.receive", "WAMPSession.receive_message"], SSTATE)

prop("C16", "Progressive calls stay open in a client session until their final message",
     "A caller's session accepts any number of RESULTs marked as progress for an outstanding call and keeps the call open until the first RESULT that is not so marked, or an ERROR, "
     "which settles it. Likewise a callee's session may send any number of YIELDs marked as progress for a received invocation and the invocation stays "
     "answerable until a YIELD that is not so marked or an ERROR is sent. Other outstanding requests are never affected.",
     ["histories"], "all interleavings of progressive and final results, errors, and other traffic over several simultaneous calls and invocations",
     "No test passes a progressive RESULT or YIELD through a client session.",
     SES, [("RESULT and YIELD handling", "wampproto/session.py")], ["WAMPSession.send_message", "WAMPSession.receive_message"], SSTATE)

prop("C17", "A refused operation leaves no trace",
     "When a client session, broker or dealer refuses an operation by raising - an unexpected reply, an unknown ID, a message the sender may not send, an unsupported kind, or a "
     "message the serializer cannot encode - its later behaviour is exactly as if the operation had never been attempted. (An UNREGISTERED or UNSUBSCRIBED that is refused because the "
     "registration or subscription is already gone may use up its request.)",
     ["histories"], "all histories with refused operations inserted at any point, compared with the same history without them",
     "Tests stop at the exception; nothing compares what the object does afterwards with an undisturbed one.",
     ["wampproto/session.py", "wampproto/broker.py", "wampproto/dealer.py"],
     [("checks precede state changes", "wampproto/session.py, wampproto/broker.py, wampproto/dealer.py")],
     ["outputs of the whole remaining history"])

BST = [("subscriptions by topic and by session", "who is subscribed to what", "wampproto/broker.py")]
prop("C18", "An event reaches exactly the current subscribers; acks only when asked for",
     "At any point of any history of joins, leaves, subscribes, unsubscribes and publishes, a publication to a topic is addressed to exactly the sessions currently subscribed to exactly that topic, each "
     "once, with the subscription ID those subscribers were given and the publication's args and kwargs unchanged; with no subscribers there is no event. The publisher receives PUBLISHED with its own request ID, and "
     "the event's publication ID if there is one, exactly when it set the acknowledge option. A topic is reported as having a subscription exactly while someone is subscribed.",
     ["histories"], "all histories over many sessions and topics, including double subscriptions, partial unsubscribes, leaving sessions and rejoining IDs",
     "Tests use one session and one topic; nothing exercises several subscribers, leaving sessions or topics that empty and refill.",
     ["wampproto/broker.py"], [("receive_message, receive_publish, remove_session", "wampproto/broker.py")],
     ["Broker.receive_publish result", "Broker.receive_message result", "Broker.has_subscription"], BST)

prop("C19", "Subscription and publication IDs identify one thing each",
     "Every subscriber of a topic is given the same subscription ID for as long as the topic keeps at least one subscriber, no two topics ever share an ID, an ID is never given out again for "
     "another topic or another lifetime of the topic, and every publication gets an ID of its own. UNSUBSCRIBE succeeds exactly for an ID the sender itself currently holds and ends "
     "exactly that subscription of that sender.",
     ["histories"], "all histories of subscribes, unsubscribes, publishes, joins and leaves over many sessions and topics",
     "Tests hold a single subscription with ID 1; collisions and reuse need several topics, sessions and lifetimes.",
     ["wampproto/broker.py", "wampproto/idgen.py"], [("ID allocation and lookup", "wampproto/broker.py")],
     ["SUBSCRIBED / UNSUBSCRIBED / EVENT / PUBLISHED contents"], BST)

DST = [("registrations, pending calls, call-to-invocation map", "what is registered and what is in flight", "wampproto/dealer.py")]
prop("C20", "Every call reaches the procedure's callee and its answer reaches the caller",
     "In any history, a call to a registered procedure becomes one INVOCATION addressed to the session holding that registration, with its registration ID, the call's args, kwargs and binary payload unchanged and an "
     "invocation ID not used for any other call; a call to an unregistered procedure is answered to the caller with ERROR no_such_procedure. The callee's YIELD or ERROR for that invocation is delivered to the session that made "
     "that call, with that caller's own request ID and the args, kwargs, payload, and for an ERROR its URI and details, unchanged.",
     ["histories"], "all histories with many callers, callees, procedures and simultaneous calls answered in any order, equal request IDs in different sessions",
     "Tests have at most two sessions and one call in flight, no ERROR answer, and never look at args or at which caller is answered.",
     ["wampproto/dealer.py"], [("CALL, YIELD, ERROR handling", "wampproto/dealer.py:receive_message")],
     ["Dealer.receive_message results"], DST)

prop("C21", "Only the invoked callee can answer a call, and finally only once",
     "A YIELD or ERROR for an invocation is accepted only from the session the invocation was sent to and only while no final answer was given; answers from any other session, a second final answer, answers "
     "for unknown invocations and ERRORs not about an invocation are refused with ValueError. A refused answer never reaches a caller nor prevents the rightful callee from answering afterwards, and a caller gets at most one final "
     "RESULT or ERROR per call.",
     ["histories"], "all histories with forged, duplicated, crossed and late answers among many simultaneous calls",
     "Tests try one duplicate YIELD and one from an absent session; an ERROR is never sent, nor an answer by another joined session.",
     ["wampproto/dealer.py"], [("sender check and pending-call removal", "wampproto/dealer.py:receive_message")],
     ["Dealer.receive_message results and exceptions"], DST)

prop("C22", "A procedure is held by at most one session, until that session gives it up",
     "A REGISTER succeeds, with a registration ID never used before, exactly when the procedure is not currently registered, and is otherwise answered with ERROR procedure_already_exists without disturbing the holder. "
     "UNREGISTER succeeds exactly for a registration the sender holds, and frees exactly that procedure; a leaving session frees exactly the procedures it held. A procedure is reported as registered, and is callable, "
     "exactly while some session holds it.",
     ["histories"], "all histories of joins, leaves, registers, unregisters and calls over many sessions and procedures",
     "Tests register one procedure from one session; ownership conflicts between sessions and leaving owners are not covered.",
     ["wampproto/dealer.py"], [("REGISTER, UNREGISTER, remove_session", "wampproto/dealer.py")],
     ["Dealer.receive_message", "Dealer.has_registration"], DST)

prop("C23", "Progressive calls keep one invocation and forward progress only when asked",
     "All CALLs that continue a progressive call (same caller and request ID), up to and including the final one without the progress option, are forwarded to the same callee under the same invocation ID, marked as progress exactly "
     "when the CALL was. A progressive YIELD is forwarded as a progressive RESULT and keeps the call open exactly when the caller asked to receive progress, and otherwise counts as the final answer; the INVOCATION tells the callee "
     "whether progress is wanted. A call that received its final answer is closed for both directions.",
     ["histories"], "all interleavings of progressive call chunks and progressive results over several simultaneous calls, with errors, re-registrations and other traffic in between",
     "Tests run one progressive call alone, do not compare the invocation ID of the final chunk, and never mix progressive calls with other traffic.",
     ["wampproto/dealer.py"], [("progress and receive_progress handling", "wampproto/dealer.py:receive_message")],
     ["Dealer.receive_message results"], DST)

prop("C24", "Sessions outside the realm neither send nor receive",
     "A session can join a broker or dealer once until it leaves, and only a joined session can leave, subscribe, unsubscribe, publish, register, unregister, call or answer; anything else is refused with ValueError. After a session has left, no message "
     "or event is ever addressed to it - not events for its former subscriptions, not invocations for its former procedures, not results of calls it had made - and nothing it held or had in flight passes to a later session that joins with "
     "the same ID.",
     ["histories"], "all histories in which sessions leave with subscriptions, registrations and calls in flight in either role, and IDs are reused",
     "Tests remove only sessions that hold nothing, and never look at what happens to others afterwards.",
     ["wampproto/broker.py", "wampproto/dealer.py"], [("add_session, remove_session and membership checks", "wampproto/broker.py, wampproto/dealer.py")],
     ["recipients of every message", "exceptions"], DST + BST)

prop("C25", "Generated IDs stay in the WAMP range and do not repeat",
     "A session-scope generator yields 1, 2, 3, ... up to 2^53 and then starts again from 1, independently of any other generator. A session ID is an integer from 1 to 2^53, drawn over the whole of that "
     "range, so that no value or narrow range recurs in practice.",
     ["histories"], "arbitrarily long runs, including the wrap-around at 2^53, of any number of generators",
     "The generators have no tests; the wrap-around and the range cannot be sampled by ordinary use.",
     ["wampproto/idgen.py"], [("SessionScopeIDGenerator.next, generate_session_id", "wampproto/idgen.py")],
     ["returned IDs", "Acceptor session IDs"])

prop("C26", "Conforming peers built from the library never see a protocol violation",
     "When clients (joiner plus session) and a router (acceptor, broker, dealer) built from this library talk over order-preserving connections, each with its own serializer, and the applications follow the protocol, then under every "
     "interleaving of deliveries no side raises. Every call returns the answer its callee gave for its arguments, every published event reaches every session that was subscribed when the router handled it, and every other request "
     "is confirmed.",
     ["schedules", "histories", "configurations"], "all numbers of clients and mixes of serializers and authentication methods, all application scripts and all delivery orders that keep each connection in order",
     "No test connects the parts: session, broker and dealer are only tested in isolation with hand-made messages.",
     ["wampproto/joiner.py", "wampproto/acceptor.py", "wampproto/session.py", "wampproto/broker.py", "wampproto/dealer.py", "wampproto/serializers/*.py", "wampproto/idgen.py"],
     [("the whole stack", "wampproto/")],
     ["exceptions anywhere", "results, events and confirmations at the clients"])

prop("C27", "Independent objects never influence each other",
     "Two sessions, brokers, dealers, ID generators, handshakes, authenticators or messages created separately share no state: running two histories interleaved on two objects gives each the outputs it would have given alone. In particular a dictionary obtained "
     "from one message or authenticator created with default options is never seen in another, and creating an authenticator does not alter the caller's dictionary or another authenticator's key.",
     ["histories"], "all pairs of histories and all interleavings of them, all message kinds with defaulted dictionaries",
     "Each test creates fresh objects and checks only them; leakage through shared defaults shows only across objects.",
     ["wampproto/session.py", "wampproto/broker.py", "wampproto/dealer.py", "wampproto/joiner.py", "wampproto/acceptor.py", "wampproto/messages/*.py", "wampproto/auth/*.py"],
     [("per-instance state, None defaults", "constructors throughout wampproto/")],
     ["outputs of interleaved versus separate histories"])

prop("C28", "Messages are inert: handling one never changes it or the data it came from",
     "Serializing, routing through a broker or dealer, or passing a message through a client session any number of times leaves its fields and serialized form unchanged, and decoding leaves the decoded data unchanged. "
     "Serializing the same message twice gives identical output, whatever was done with the message, its copies or other messages in between.",
     ["inputs", "histories"], "all messages without a declared payload serializer, all sequences of reading, serializing, sending and routing operations on them",
     "Tests use each message once.",
     ["wampproto/messages/*.py", "wampproto/session.py", "wampproto/broker.py", "wampproto/dealer.py"],
     [("marshal builds new lists; routing builds new messages", "wampproto/messages/*.py, wampproto/dealer.py, wampproto/broker.py")],
     ["marshal/serialize output before and after", "input arrays before and after"])

prop("C29", "The stand-alone validators accept exactly the values they name",
     "The public checking helpers for realm, URI, procedure, details and session ID return the value unchanged when it is, respectively, a string, a string, a string, a dictionary with only string keys, or an integer from 1 to 2^53, and raise "
     "their own error type (invalid realm, invalid URI, invalid details, protocol error) naming the given context for every other value.",
     ["inputs"], "all values of all types as argument, and all context strings",
     "Tests try a few values each; the lower bound of the session ID and most types are not tried.",
     ["wampproto/messages/util.py", "wampproto/messages/exceptions.py"], [("validate_*_or_raise", "wampproto/messages/util.py")],
     ["return value or exception type"])

prop("C30", "Session details and application errors report exactly what they were given",
     "Session details expose the session ID, realm, authid and authrole they were created with and compare equal exactly when all four are equal, and never to anything else. The text of an application error "
     "or of an ERROR message is its URI, followed by the positional arguments and then the keyword arguments, in order, where present.",
     ["inputs"], "all field values and pairs that differ in any subset of fields; all error URIs, args and kwargs",
     "Tests compare one pair of equal details; the error texts are not tested.",
     ["wampproto/types.py", "wampproto/exception.py", "wampproto/messages/error.py"], [("SessionDetails.__eq__", "wampproto/types.py"), ("ApplicationError.__str__, Error.__str__", "wampproto/exception.py, wampproto/messages/error.py")],
     ["equality, accessors and str()"])

prop("C31", "Secret-dependent comparisons take constant time",
     "The time the router takes to reject a WAMP-CRA signature does not depend on how much of it is right, so a signature cannot be found by measuring responses.",
     ["inputs"], "all pairs of wrong signatures",
     "It is a statement about timing distributions, not about outputs.",
     ["wampproto/auth/wampcra.py"], [("hmac.compare_digest", "wampproto/auth/wampcra.py")], ["response time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
