#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json
CHECKS = {
 # id: (technique, level_note)
 "C01": ("property-based testing: round trip against an independent reference encoder, plus sweep of the message types", "Random and edge-value headers and raw buffers against a reference codec written with shifts; the type field is swept over every value below 2^16 and each single-bit neighbourhood. Exploration, no proof."),
 "C02": ("property-based testing with scripted I/O: generated write plans against a byte-exact oracle", "Every poll of the write half is compared with the concatenation of reference frames, over scripted streams (hook) and real Unix/TCP sockets. Exploration."),
 "C03": ("property-based testing with scripted I/O: generated read segmentations against the list of sent messages", "Every poll of the read half is compared with the bytes handed out so far. Exploration."),
 "C04": ("structure-aware fuzzing of hostile byte streams against a reference decoder", "Generated hostile streams (field edge values, bit flips, truncation) with panic, allocation and hang detection, on the read half and on a running peer. Exploration."),
 "C05": ("property-based testing: generated limits and message lengths against the limit rules, on Unix, TCP and seqpacket transports", "Two running peers with generated, often just-at-the-limit sizes; plus the frame-length overflow edge through the hook. Exploration."),
 "C06": ("property-based testing: generated message and descriptor sequences over real seqpacket sockets, differential against the sent list", "Descriptor identity by kcmp-like comparison of inode and shared offset. Exploration."),
 "C07": ("structure-aware fuzzing of hostile datagrams and control messages against a reference decoder", "Raw sendmsg with generated headers, lengths and descriptor counts. Exploration."),
 "C08": ("property-based testing: descriptor accounting over generated mixes of delivered, rejected and dropped messages", "/proc/self/fd of the case's process before and after. Exploration."),
 "C09": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; two-way conversations; large numbers over real sockets. Exploration."),
 "C10": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; ID counter set near open requests through the hook; thousands of open requests. Exploration."),
 "C11": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; concurrent senders, clones and drops; many writers on real threads. Exploration."),
 "C12": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; non-fatal write failures injected; plus the real transports' own refusals. Exploration."),
 "C13": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; protocol violations between valid messages; thousands of them. Exploration."),
 "C14": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; cancelled, frozen and peeking receives. Exploration."),
 "C15": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; all ways to end a connection; plus races on threads, many pending operations, typed handles. Exploration."),
 "C16": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; handle clone and drop orders; plus up to 70000 clones, and typed handles. Exploration."),
 "C17": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; read handle dropped; plus thousands of refusals. Exploration."),
 "C18": ("property-based testing, model-based: generated populations of listener clients (connect, talk, reset, half-close, shut down) over real Unix, TCP and seqpacket sockets", "Each well-behaved client's conversation is compared with what it sent; task errors and resets of other clients must not affect it. Exploration."),
 "C19": ("property-based testing: generated file-system states and bind histories against a reference model", "Real socket files in a scratch directory made by the check. Exploration."),
 "C20": ("property-based testing: generated interface definitions, compiled against the current macro, and generated typed histories with an exact oracle; shrunk to a minimal interface and history", "Typed and raw handles of generated interfaces on real sockets; every value and raw message compared. Bounded by the number of interfaces that can be compiled. Exploration."),
 "C21": ("property-based testing with injected faults: generated interface definitions and histories with unknown, undecodable and error messages and failing encoders, exact oracle; shrunk", "As C20, with faults at every message position. Exploration."),
 "C22": ("property-based testing: generated interface definitions with documentation and hidden markers, introspection compared with the definition they were printed from", "Generated interfaces compiled against the current macro. Exploration."),
 "C23": ("grammar-based fuzzing of the interface macro: generated valid definitions must compile and be visible as declared, definitions with injected violations must be refused with the macro's own error at the offending line; shrunk", "rustc's verdict and JSON diagnostics are judged. Exploration."),
 "C24": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; back-pressure; plus two peers with large numbers over real sockets. Exploration."),
 "C25": ("property-based testing, model-based stateful: generated operation histories, faults and schedules on a deterministic executor, each step compared with a reference model; shrunk to a minimal history", "Real Peer and handles on an in-memory transport; late receivers; plus bulk over real sockets. Exploration."),
 "C26": ("property-based testing: generated texts, bodies and ways to answer between two real peers, and round trips of all conversions, against exact expectations; shrunk", "Unix stream, TCP and seqpacket; all constructors of Error. Exploration."),
 "C27": ("property-based testing: generated sets of endpoints and concurrent, cancelled and failing connects, against plain listeners that check the bytes and credentials; shrunk", "Real sockets in a scratch directory and on loopback; differential against connect(2) for the errors. Exploration."),
 "C28": ("property-based testing: generated cycles of conversations and connections, repeated hundreds of times; metamorphic relation: memory and descriptors do not depend on the number of repetitions; shrunk", "Counting allocator; three measurements, each the minimum of several, so that block-wise growth is no alarm. Exploration."),
 "C29": ("property-based testing, differential between builds: generated choices of features and profiles with generated conversations, whose transcripts must equal those of the reference build, and generated cases of the other properties in a build without debug assertions; shrunk", "All 32 builds of a probe program; a case of another property counts only if it fails there repeatedly and not in the reference build. Exploration."),
}
NA = []
checks = []
for i, (t, n) in CHECKS.items():
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": t,
        "level": "exploration",
        "level_note": n,
    })
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
for p in props:
    if p not in CHECKS and p not in [x["property"] for x in NA]:
        NA.append({"property": p, "reason": "check not built yet"})
doc = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "hooks": {
        "guard": "cfg(fizyr_rpc_verif)",
        "enable": "run.sh builds the harness, and /repo as its path dependency, with RUSTFLAGS='--cfg fizyr_rpc_verif'",
        "source_commits": ["9e91ba4", "e402047"],
    },
    "checks": checks,
    "not_applicable": NA,
    "notes": "run.sh replay <file> re-runs a single counterexample. VERIF_SEED and VERIF_TIER select seed and depth.",
}
json.dump(doc, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
