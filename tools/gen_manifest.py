"""Source of /verif/MANIFEST.json: run `python3 tools/gen_manifest.py` after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C01": "property-based round trip over generated messages, three serializers, plus coverage-guided fuzzing",
    "C02": "differential PBT against an independent encoder and foreign-style encodings of conforming arrays",
    "C03": "differential PBT of mutated arrays against an independent well-formedness oracle",
    "C04": "structured fuzzing (and atheris) of input bytes with a well-formedness oracle",
    "C05": "PBT round trip and mutated payloads against a reference acceptor",
    "C06": "PBT plus enumeration against a reference handshake codec",
    "C07": "PBT plus stream splitting against a reference frame codec",
    "C08": "PBT of whole handshakes over generated credentials, methods and serializers",
    "C09": "PBT of adversarial handshakes with independently verified proofs",
    "C10": "model-based stateful testing of the router-side handshake",
    "C11": "model-based stateful testing of the client-side handshake",
    "C12": "PBT with injected authenticator failures, end to end over each serializer",
    "C13": "differential PBT against independent Ed25519, HMAC and PBKDF2",
    "C14": "PBT with adversarial generator states, time zones and clocks; statistics over samples",
    "C15": "model-based stateful testing of a client session",
    "C16": "model-based stateful testing of progressive calls in a client session",
    "C17": "metamorphic stateful testing: history with and without the refused operations",
    "C18": "model-based stateful testing of the broker",
    "C19": "model-based stateful testing of the broker's IDs",
    "C20": "model-based stateful testing of the dealer",
    "C21": "model-based stateful testing of the dealer with answers from the wrong sessions",
    "C22": "model-based stateful testing of the dealer's registrations",
    "C23": "model-based stateful testing of progressive calls through the dealer",
    "C24": "model-based stateful testing of broker and dealer with sessions that leave and rejoin",
    "C25": "PBT of ID generators against a reference, with samples over the range",
    "C26": "simulation of clients and router with generated delivery schedules, invariants over the history",
    "C27": "metamorphic stateful testing: interleaved histories against the same histories alone",
    "C28": "metamorphic PBT: deep snapshots before and after each use",
    "C29": "differential PBT against a reference predicate",
    "C30": "PBT against reference equality and text",
    "C31": "",
    "C32": "stateful testing of repeated wound-up histories; the invariant is that reachable data does not keep growing",
    "C33": "PBT of handshake messages against an independent decoder and a recording authenticator",
    "C34": "differential PBT: messages, histories and handshakes with foreign fields, serializers and authenticators against the library's own",
    "C36": "PBT with controlled schedules: histories in threads switched at generated lines and bytecodes, or carried on within callbacks, against each alone",
    "C37": "metamorphic PBT: the same cases judged again in interpreters with other settings",
    "C35": "metamorphic stateful testing: the same cases under injected clock jumps, with a recorder of I/O and process state",
}
NA = {"C31": "timing of comparisons is not a function of the outputs: a generated-input search has no sound oracle for it (measured times are noise in a shared sandbox)"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif not os.path.exists(os.path.join(HERE, "vf", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "no check built yet"})
    else:
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": "Held on every generated case of the run (counts and samples in the evidence file); nothing is proved beyond them. Trusts the oracle described in DESIGN.md and the JSON, msgpack, cbor2 and nacl libraries.",
        })
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'from vf import env; env.setup(); import hypothesis'", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
