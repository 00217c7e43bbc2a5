"""Writes KNOWN_FINDINGS.txt from the fix: commits in /repo."""
import os
import subprocess

TEXT = [  # (subject prefix, properties, what failed)
    ("marshal ABORT with", "C01 C02 C12", "ABORT lost its args and kwargs on the wire"),
    ("don't accept booleans", "C03", "true was accepted as an ID, a message kind and a request type"),
    ("refuse an empty array", "C03 C04", "[] raised IndexError instead of ValueError"),
    ("refuse a handshake with", "C06", "a handshake with one non-zero reserved byte was accepted"),
    ("refuse message lengths", "C07", "a length of 2^24 or more, or below 0, was truncated or raised OverflowError"),
    ("refuse payloads that are not", "C05", "a payload that is not an array (number, text, map) raised TypeError/KeyError at random or was accepted"),
    ("session IDs start at 1", "C29", "0 and True were accepted as session IDs"),
    ("an application error without args", "C12 C30", "ApplicationError without args showed its constructor's arguments as its args"),
    ("a progressive RESULT or YIELD", "C15 C16", "a progressive RESULT or YIELD settled the call, so the next one was refused"),
    ("forward binary payloads", "C20", "the binary payload of a YIELD was dropped, and the binary flag of a CALL"),
    ("refuse calls from sessions", "C24", "a CALL from a session that had not joined (or had left) was forwarded"),
    ("answering a call whose", "C20 C21", "two open calls with one request ID: the second YIELD raised KeyError and lost the answer"),
    ("only the callee can answer", "C21", "any session could answer any call with ERROR"),
    ("an ERROR closes", "C23", "after an ERROR the next progressive CALL with that request ID went to the dead invocation"),
    ("forget the pending calls", "C24", "answers were addressed to callers that had left; a rejoining session could answer old invocations"),
    ("all parts of a progressive", "C23", "the final part of a progressive call got an invocation ID of its own, and parts went to another callee after a re-registration"),
    ("refuse a cryptosign HELLO", "C10", "a cryptosign HELLO without authextra raised AttributeError, with a non-string key TypeError at AUTHENTICATE"),
    ("accept a cryptosign signature", "C09", "a cryptosign signature recorded in another handshake was accepted"),
    ("a malformed cryptosign", "C13 C09", "a signature that is not hex raised instead of not verifying"),
    ("a non-ASCII WAMP-CRA", "C13 C09", "a non-ASCII signature raised ValueError instead of not verifying"),
    ("a handshake refused by", "C09 C10", "after an authenticator's refusal is_aborted() was False and another HELLO or AUTHENTICATE was answered"),
    ("the acceptor refuses messages", "C10", "receive() of any other message kind raised AttributeError, receive_message() returned None"),
    ("an ABORT received by", "C10", "receive() of an ABORT raised AttributeError"),
    ("characters outside of base64", "C13", "a WAMP-CRA signature with characters outside base64 inserted verified"),
    ("endless recursion", "C08", "WAMPCRASaltedResponse.salt recursed without end"),
    ("send salt, iterations", "C08", "a salted WAMP-CRA handshake could not succeed: CHALLENGE carried no salt"),
    ("a message that can't be", "C17", "a CALL that could not be serialized left its request outstanding"),
    ("a client whose join", "C11", "a client became joined by a WELCOME after an ABORT"),
    ("make authentication challenges", "C14", "resetting the state of the random module repeated challenges"),
    ("CryptoSignAuthenticator doesn't", "C27", "creating an authenticator put its pubkey into the caller's dictionary, and so into the next authenticator"),
    ("declaring a payload serializer", "C27 C28", "serializing a message with a payload serializer wrote x_payload_serializer into the caller's dictionary"),
    ("a HELLO that cannot be serialized", "C11", "send_hello() that raised because HELLO could not be serialized counted as sent, and a WELCOME then joined"),
    ("acceptors don't share", "C27", "all acceptors' WELCOMEs exposed one module-level roles dictionary"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
    out = [
        "# Defects of wampproto-python found by these checks. 'fixed:' entries were repaired by the named commit and suppress nothing.",
        "# An unrepaired one would be a line 'finding: property=<id> key=<key> <what fails>'. There is none.",
    ]
    used = set()
    for line in log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        m = [t for t in TEXT if s[5:].startswith(t[0])]
        assert len(m) == 1, s
        used.add(m[0][0])
        for p in m[0][1].split():
            out.append(f"fixed: property={p} {h} {m[0][2]}")
    assert len(used) == len(TEXT), {t[0] for t in TEXT} - used
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "KNOWN_FINDINGS.txt"), "w") as f:
        f.write("\n".join(out) + "\n")
    print(len(used), "fixes")


main()
