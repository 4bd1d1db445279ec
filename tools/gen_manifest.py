#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json
T="stateless model checking of the real code: exhaustive enumeration of "
C={
"C01":"requests within a deviation bound and request/record-change histories, against a reference decision",
"C02":"interleavings of concurrent redemptions and of store faults and crash points",
"C03":"redemption requests within a deviation bound, ages around the boundary, and histories",
"C04":"verifiers x challenge neighbourhoods, redemption histories and end-to-end flows",
"C05":"refresh requests within a deviation bound, token neighbourhoods, histories and interleavings",
"C06":"direct-grant requests within a deviation bound, credential neighbourhoods and histories",
"C07":"assertions within a deviation bound of a genuine one, all single-character edits, replay histories and interleavings",
"C08":"fault placements (each store/callback call x each failure kind, up to a deviation bound) over every flow, and faulted histories",
"C09":"requests x token placements x token neighbourhoods x ages, and histories with record changes",
"C10":"scope maps x granted scopes x paths, request edits and policy histories, against a set-semantics oracle",
"C11":"redirect URI neighbourhoods x client records x flows x outcomes, and interaction histories",
"C12":"response types x modes x policies x outcomes within a deviation bound",
"C13":"login/consent/policy states x prompts x ages x hints, and screen-by-screen interaction histories",
"C14":"authorization requests within a deviation bound x policies, and encode/decode round trips",
"C15":"flows x algorithms x keys x requests within a deviation bound, each token re-verified independently",
"C16":"all short strings over a hostile alphabet in every position of every encoded response, decoded by an independent recipient",
"C17":"request sequences and all interleavings at store calls of concurrent requests against each request's outcome alone in a fresh process, with the race detector on the explored schedules",
"C18":"!explicit-state breadth-first search of the reachable states of the real endpoints over a modelled store, plus stateless enumeration of all operation paths to a depth",
"C19":"all scope, prompt and response-type lists up to a length, against set-semantics references",
"C20":"key document edits, key sets and add/publish histories, each published key decoded independently",
"C21":"secrets x flows x outcomes x store faults within a deviation bound, searching every output channel for each secret in raw and encoded form",
"C22":"issued token values x lifetimes x scopes x refusal reasons",
"C24":"the values, chunkings and failure points of the secure random source the generator reads, and of interleavings of concurrent generations, counting the outputs they tell apart",
"C23":"error types x values x forms, and refusal sequences over differently configured endpoints",
}
N={}
import sys,os
extra=os.path.join(os.path.dirname(__file__),"manifest_more.json")
if os.path.exists(extra):
    m=json.load(open(extra)); C.update(m.get("technique",{})); N.update(m.get("note",{}))
checks=[]
for k in sorted(C):
    checks.append({"property":k,"quick_cmd":"./run.sh %s quick"%k,"thorough_cmd":"./run.sh %s thorough"%k,
      "evidence_file":"evidence/%s.json"%k,"technique":(C[k] if C[k].startswith("!") else T+C[k]).lstrip("!"),"level":"model_checking",
      "level_note":N.get(k,"exhaustive within the bounds given in DESIGN.md; every explored execution runs the real code, the store and clock are the harness's")})
json.dump({"version":1,"setup_cmd":"./run.sh warm","checks":checks,
 "not_applicable":[]},
 open(os.path.join(os.path.dirname(__file__),"..","MANIFEST.json"),"w"),indent=1)
