#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the table below (committed output; run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, q, why, files, mech, note, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
              anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)), note))

prop("C01", "The image cache never holds more than its capacity",
     "After every cache operation the number of used bytes is the sum of the pixel bytes of the entries held, is never larger than the capacity, and the entry count is the number of keys that can be looked up; an image larger than the capacity (or any image when the capacity is zero) is refused and leaves everything else in place. No operation panics or loops, and only as many least recently used entries are evicted as the operation needs.",
     ["histories", "inputs"], "every history of inserts (new and repeated keys), lookups, evictions and capacity changes, for every size, amount and capacity",
     "The tests insert one or two fixed images through one fixed graph; the accounting depends on the history of sizes, repeated keys and capacity changes.",
     ["src/cache.rs"], [("insert / evict_bytes / set_capacity_bytes accounting", "src/cache.rs")],
     "All histories of the stated length with symbolic capacities and amounts; the standard hash map's hashing is idealised (equal hashes only for equal keys).")
prop("C02", "A cache lookup returns the latest value stored and evicts the least recent",
     "Looking up a key returns exactly the image last stored under that key (pixels, windows, specification) unless it was evicted or refused since, and nothing for any other key. Entries are evicted in order of their last insert or lookup, oldest first; evicting one entry reports whether there was one.",
     ["histories", "inputs"], "every history of inserts, lookups, evictions and capacity changes over several keys, including repeated keys",
     "Recency order is a function of the whole history; the tests never evict.",
     ["src/cache.rs"], [("LinkedHashMap order and get_refresh", "src/cache.rs")],
     "All histories of the stated length against a list-based reference; hashing idealised.")
prop("G01", "Each input of a node holds exactly its latest connection",
     "After any sequence of adding and removing nodes, connecting and disconnecting, executing a node sees on each of its inputs exactly the node connected there last (and not disconnected or removed since), inputs ordered by input number; connecting one input never changes another, the same source may feed several inputs, and calls naming unknown or removed nodes change nothing.",
     ["histories", "inputs"], "every sequence of add, remove, connect and disconnect calls, with any input numbers, followed by an execution",
     "The tests wire a few fixed graphs once; re-connection, shared sources, removal and input numbers interact only over histories.",
     ["src/graph.rs"], [("disconnect_input, connect, find_direct_upstream_nodes", "src/graph.rs")],
     "All histories of the stated lengths; input numbers symbolic over their whole range; images compared pixel by pixel with a reference evaluator.")
prop("G02", "Executing any graph ends with a definite, truthful status",
     "Executing any node of any graph - including graphs with cycles, nodes of every type with any number of inputs, unknown start nodes, and no frames at all - terminates without a panic and returns Success, or Error exactly when the start node is unknown, a cycle lies upstream of it, or an upstream node fails; the stored execution status is the returned one, and an earlier outcome never leaks into a later execution. A node shared by several others is computed once per frame.",
     ["programs", "inputs", "fault_sequences"], "every wiring of a bounded number of nodes, every start id, every node type and connection count, every failing node",
     "The tests execute a handful of well-formed graphs.",
     ["src/graph.rs", "src/node.rs", "src/node/*.rs"], [("find_all_upstream_nodes, execute_frame, execute", "src/graph.rs")],
     "Every wiring within the bound, including cyclic ones; panics, overflows and out-of-bounds accesses count as violations.")
prop("G03", "A graph's output is the composition of its nodes' operations",
     "Executing a node of any acyclic graph outputs exactly what applying each upstream node's operation to the outputs of its own inputs gives, whatever the order in which nodes were created and connected and however often a node is shared. For a merge node: the output covers the union of both data windows (everything outside an image counts as zero), has the display window and channels of the second image, and each channel is A + B*mix (Add), A + B*(1-alphaA)*mix (Over) or A*B*mix (Multiply).",
     ["programs", "inputs"], "every acyclic wiring of the bounded number of nodes, every pixel value, merge mode and mix",
     "Tests look at a few fixed wirings and mostly do not look at pixels.",
     ["src/graph.rs", "src/node/merge_image.rs", "src/ops/imagemerge.rs"], [("dependency order and input collection", "src/graph.rs"), ("merge arithmetic", "src/ops/imagemerge.rs")],
     "Bit-exact floating-point comparison with a recursive reference evaluator over symbolic pixels.")
exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, n in P: f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="cargo build --release --offline --manifest-path engine/Cargo.toml --target-dir .build/engine && ./run.py --warm",
         checks=[dict(property=p["id"], quick_cmd="./run.py %s quick" % p["id"], thorough_cmd="./run.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                      technique="symbolic execution of the compiled crate (LLVM IR) with an SMT solver (Z3), bounded", level="model_checking",
                      level_note=n + " Within the stated bounds the solver decides all values; trusted: rustc/LLVM's IR, the engine's IR semantics (cross-checked by native replay of solver models), Z3, and the stand-ins for the C++ functions and file queries (harness/vp/stubs.rs).")
                 for p, n in P if not any(x["property"] == p["id"] for x in NA)],
         not_applicable=NA,
         notes="/repo carries only fix: commits, no hooks: the harness is compiled into a mirror of the crate under .build.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p, n in P: assert len(p["title"]) <= 80, p["id"]; 
print(len(P), "properties")
