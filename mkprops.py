#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
import props
HERE = os.path.dirname(os.path.abspath(__file__))
VF, SF, AS = "container/stdb_vector.hpp", "string/string.hpp", "string/arena_string.hpp"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                           "mechanism": [dict(name=a, where=b) for a, b in mech]},
                  observe_at=list(observe), hook_needed=False, _na=na))


prop("V01", "Vector operations stay within the vector's own storage",
     "Every vector operation called within its documented precondition reads and writes only memory inside the vector's current allocation, its operands and its temporaries, never memory already released, and never trips one of the library's own assertions. "
     "This holds for every size, spare capacity, position, count and element type, including empty ranges, zero counts and vectors that never allocated.",
     ["inputs", "histories"], "all reachable (size, capacity) states, all positions/counts up to 2^30, several element kinds (trivial 1 and 4 byte, copy-only, movable, large, move-only)",
     "The tests sample a few dozen fixed sizes; an off-by-one in a growth or shift path shows only at particular relations between size, capacity, position and count.",
     [VF], [("growth computation", VF + ": compute_new_capacity/compute_next_capacity"), ("backward and forward shifting", VF + ": move_backward, move_range_forward"), ("reallocation", VF + ": realloc_with_move, realloc_and_emplace_back")],
     [("buffer bounds", "start, end of the elements and end of the allocation", VF + ": class core")])
prop("V02", "Vector constructs and destroys every element exactly once",
     "Each element slot goes through construct, use, destroy in that order: no operation constructs over a living element, touches or destroys a dead one, or releases or abandons storage that still holds a living or moved-from element. "
     "After the vector is destroyed, constructions and destructions are balanced.",
     ["inputs", "histories"], "all operations on all reachable states, for copy-only, move-only and movable non-trivial element types",
     "Most element types used in tests are indifferent to a missing destructor call or to assignment over raw storage; only a type that counts every event would notice, and only on the state that takes the faulty branch.",
     [VF], [("relocation helpers", VF + ": move_range_without_overlap, move_range_forward, move_backward"), ("range construction and destruction", VF + ": construct_range, construct_range_with_cref, destroy_range")],
     [("element lifetime", "which slots of the buffer hold living elements", VF + ": class core")])
prop("V03", "Vector operations act on the sequence as specified",
     "After each operation the vector holds exactly the specified sequence: untouched elements keep value and order, inserted elements stand at the given position, erased ones are gone, and size, capacity, emptiness, iteration and comparison agree with that sequence.",
     ["inputs", "histories"], "all operations, all sizes, capacities, positions and counts",
     "Tests compare a handful of small fixed sequences; they do not relate every position and count to every capacity state.",
     [VF], [("insert/emplace/erase/assign/resize", VF + ": class stdb_vector"), ("in-place filters", VF + ": erase(value), erase_if")], [("sequence", "elements between begin and end", VF)])
prop("V04", "Each vector owns its buffer alone through copy, move and swap",
     "At any time each allocation belongs to exactly one vector: copies share no storage with their source, moves and swaps transfer ownership completely, and every allocation is released exactly once, by the end of its owner's life at the latest. "
     "Copy, move, swap and self-assignment leave both operands in the specified state.",
     ["inputs", "histories"], "all pairs of vector states, including never-allocated ones and self-assignment",
     "Leaks and double releases appear only for particular state pairs (for example empty source, larger destination capacity); the tests exercise few of them.",
     [VF], [("copy/move/assign/swap", VF + ": core copy and move members, core::swap")], [("buffer ownership", "which vector releases an allocation", VF + ": class core")])
prop("V05", "Vector accepts references to its own elements as arguments",
     "Appending, inserting or resizing with a reference to an element of the same vector stores that element's value from before the call, whatever reallocation or shifting the call performs.",
     ["inputs"], "every element index, insert position, count and spare capacity",
     "Whether the argument is invalidated depends on the relation between the aliased index, the insert position and the spare capacity; no test passes own elements.",
     [VF], [("value kept across the shift", VF + ": insert, emplace, resize"), ("new element built before the old buffer is released", VF + ": realloc_and_emplace_back")])
prop("V06", "Vector survives allocation failure",
     "When an allocation fails (or the requested size is not representable) the operation throws the out-of-memory exception, nothing leaks or is released twice, and the vector stays usable; growing operations leave the content unchanged.",
     ["fault_sequences", "inputs"], "every allocation of every operation failing, from every vector state",
     "The tests never make an allocation fail.",
     [VF], [("checked allocation", VF + ": allocate_elements, core::allocate, realloc_with_move")])
exec(open(os.path.join(HERE, "mkprops_more.py")).read()) if os.path.exists(os.path.join(HERE, "mkprops_more.py")) else None

NOTE = {"default": "Every obligation on every analysed path is discharged for unbounded symbolic sizes (up to 2^30) by abstract interpretation; cases that could not be followed to their end are listed in the evidence and do not count as covered. Trusts the engine's transfer functions, clang's IR and the modelled C library."}
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        f.write(json.dumps(q) + "\n")
        if p["_na"]:
            na.append({"property": p["id"], "reason": p["_na"]})
            continue
        c = props.PROPS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                       "technique": c.get("technique", "abstract interpretation of the compiled IR (relational numeric, ownership and lifetime domains)"),
                       "level": "other", "level_note": c.get("note", NOTE["default"]), "evidence_file": "evidence/%s.json" % p["id"]})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only; see DESIGN.md. The checks read VP_REPO (default /repo)."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
