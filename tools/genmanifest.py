#!/usr/bin/env python3-vt
# Source of MANIFEST.json (run by hand after editing; the checks never run it).
import json, os, jsonschema
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM="deterministic simulation: seeded search over "
C={
"C01":("operation histories and client schedules on one index, with crash-and-bulk-rebuild; every answer against a multiset model","index code only; model and locks are the harness's; finite coordinates below 1e9"),
"C02":("operation histories and client schedules; every nearest-neighbour answer against brute force","ties within 1e-9 relative may come in any order"),
"C03":("delivery histories with repeated messages, sender and receiver crashes; exact model and convergence to single delivery","one or two senders that own disjoint IDs"),
"C04":("clock faults (granularity, stalls, jumps) and insert/delete histories; uniqueness of generated IDs","the library's clock readings and math/rand go through the simulator"),
"C05":("the failing evaluation of caller conditions (panic, goroutine exit) in histories and schedules; index compared with the model afterwards","interruption points are the evaluations of caller-supplied functions"),
"C06":("statement-level interleavings of queries on a shared index, plain and under the race detector; each result against the result alone","standard-library internals are not preempted"),
"C07":("statement-level interleavings of measuring calls on shared geometries, plain and under the race detector; result alone on a private copy, arguments and memory behind them unchanged, call-order independence across processes","standard-library internals are not preempted"),
"C08":("statement-level interleavings of derivations and owner edits on shared geometries, plain and under the race detector","standard-library internals are not preempted"),
"C09":("statement-level interleavings of codec calls on shared values, plain and under the race detector","encoding/json and regexp run unpreempted"),
"C10":("crash points, torn writes, I/O errors and schedules of a document store; documents re-read and compared","disk model: append-only files, page cache, fsync, torn tails"),
"C11":("crash points, torn writes, I/O errors and schedules of a document store; documents re-read and compared","disk model: append-only files, page cache, fsync, torn tails"),
"C12":("damage to stored and transmitted GeoJSON; error or complete geometry judged by an independent reading","damage model: bytes, tokens and JSON values"),
"C13":("damage to stored and transmitted WKT; error or complete geometry judged by an independent reading","damage model: bytes and tokens"),
"C14":("statement-level interleavings and call histories of lookups and conversions, plain and under the race detector; call-order independence across processes","golang/geo and geohash dependencies are not preempted"),
"C15":("edit histories of several owners under statement-level schedules; list model","-"),
"C16":("crash, disk and network fault sequences of a replicated service around index and codecs; exact model after every recovery, convergence within bounded steps","service, disk and network are the harness's; index and codecs are real"),
"C17":("operation histories; listed boxes against stored objects, step budgets","step budget is a generous fixed polynomial"),
"C18":("long histories of requests of few kinds under client schedules, with failing calls, interrupted queries and clock jumps; live memory and waiting goroutines compared between phases of the history","6 bytes per request, sustained over growing phases, count as growth; bounded caches of up to some ten thousand entries pass"),
}
pure="pure function of one input: no schedule, clock, fault, I/O or history takes part in it, so simulation with fault injection has nothing to decide. "
N={"C20":"Needs numerical analysis or differential testing of formulas.","C21":"Needs an exact-geometry oracle over inputs.","C22":"Needs an exact-geometry oracle over inputs.","C23":"Needs numerical error analysis.","C24":"Needs differential testing of the delegated libraries.","C25":"Only its use by the index is exercised here (C01)."}
m={"version":1,"setup_cmd":"./setup.sh",
"hooks":{"guard":"go build -overlay (generated instrumented copies of the sources; nothing in /repo is guarded or changed)","enable":"./build.sh runs sim/cmd/instrument over /repo's working tree and builds with -overlay","source_commits":[]},
"checks":[{"property":k,"quick_cmd":f"./check.sh {k}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {k}","evidence_file":f"evidence/{k}.json","technique":SIM+v[0],"level":"exploration",
 "level_note":"Holds on every explored run; seeded sampling, no proof. Every violation comes with a minimised replay file. "+("Assumes: "+v[1]+"." if v[1]!="-" else "")} for k,v in C.items()],
"not_applicable":[{"property":k,"reason":pure+v} for k,v in N.items()],
"notes":"See DESIGN.md. Replay: ./check.sh ID --replay FILE."}
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
