#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the tests that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
T = {
 "C01": "property-based round trip over real endpoints against an independent normal form",
 "C02": "property-based testing: emitted frames judged by an independent JSON-schema validator and reference encoder",
 "C03": "property-based testing: schema-generated payloads and single-fault mutations against a reference decoder",
 "C04": "structured fuzzing of websocket conversations against a frame-classification model",
 "C05": "model-based testing of call sequences against a reference list of answers",
 "C06": "property-based testing of cross-direction traffic against a direction model",
 "C07": "stateful property-based testing: outstanding requests x answer schedules against an id-to-answer model",
 "C08": "model-based histories over virtual time (testing/synctest) against a termination model",
 "C09": "stateful property-based testing of connection histories against a registry model",
 "C10": "property-based testing of identities and tagged concurrent traffic",
 "C11": "model-based outage/cancellation scripts against a fake central system's record",
 "C12": "property-based round trip over real SOAP endpoints against an independent normal form",
 "C13": "property-based testing of SOAP outcomes with a raw HTTP peer",
 "C14": "structured fuzzing of SOAP servers and clients with liveness and type oracles",
 "C15": "property-based testing against an independent validator and reader of the service descriptions",
 "C16": "property-based lookup sequences against an independent table of the actions",
 "C17": "property-based testing of handshakes against an RFC 6455 selection model",
 "C18": "metamorphic testing: resource use of generated conversations must not depend on their length",
 "C19": "randomised concurrent operation mixes under the race detector",
 "C20": "property-based interleavings of HTTP requests against a classification model",
 "C25": "property-based testing of URLs and server certificates against a model of whom to trust and what must arrive",
 "C30": "property-based relaying of generated messages through chains of charge points of both transports, against what was sent, the schemas and the service descriptions",
 "C29": "stateful property-based testing of starts that fail and succeed, with generated answers to handshakes, against a model of who has which address",
 "C28": "model-based testing of self-driven connections and calls, codec round trips and differential reading of damaged messages",
 "C27": "property-based histories of messages and failures against what loggers that remember are told",
 "C26": "property-based testing of metadata: generated HTTP requests and overlapping messages against what was sent",
 "C24": "stateful property-based testing of constructions, cancellations and requests against a model of who has which address",
 "C23": "property-based sharing, reuse and overwriting of message objects, with value oracle and race detector",
 "C22": "property-based fault scripts (places and times of a peer's failures) against a termination model, in real time",
 "C21": "property-based fault combinations (stuck parts x acts of bystanders) with a liveness oracle",
}
have = {f[:3].upper() for f in os.listdir(os.path.join(V, "harness", "props")) if f.startswith("c") and f.endswith("_test.go")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": T[i], "level": "exploration",
                       "level_note": "Randomised search with an explicit oracle over the real, exported API and the bytes on the wire; a failure is shrunk and replayable. Absence of failures is evidence over the generated cases, not a proof. Trusts Go's runtime and standard library, gorilla/websocket, and the harness's own reference models."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests or fuzzers in harness/ (Go module replacing go-ocpp with /repo), driven by run.py. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(sorted(have))
