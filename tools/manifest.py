#!/usr/bin/env python3
"""Write MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CLAIMED = {
 "C01": ("exploration", T + "seeded build histories over hash behaviours, memory contents and capacities, against a value model",
   "Seeded search. Trusts the value model and the generated glue; schemas are the simulator's families, translated by planus-cli from the current tree."),
 "C02": ("exploration", T + "seeded build histories, every finished buffer judged by an independent FlatBuffers decoder",
   "Seeded search. Trusts the independent decoder in sim/core."),
 "C03": ("exploration", T + "each seeded build history replayed under several hash seeds, collision patterns, memory fills, capacities, prior uses, interleavings and processes",
   "Seeded search; differential, no model of the layout is trusted."),
 "C04": ("exploration", T + "seeded build histories with colliding hash functions, with the caches compiled in and compiled out",
   "Seeded search. Trusts the independent decoder in sim/core."),
 "C05": ("exploration", T + "seeded storage damage to buffers, read at several places in guarded memory",
   "Seeded search, debug assertions and overflow checks on; page protection on both sides of the buffer. Reads that stray but stay within the slice's pages are only seen through differing results."),
 "C06": ("exploration", T + "seeded operation histories on views and iterators against plain slices",
   "Seeded search. No fault but elements that decode to errors has a place here. Trusts std's slice iterators."),
 "C07": ("fault_enumeration", T + "allocation failures and panics injected at seeded points inside builds, by a simulated allocator that checks every block",
   "Seeded search over histories and crash points (in thorough runs about every allocation of a history). Trusts the simulated allocator."),
}
CLAIMED.update({
 "C08": ("exploration", T + "seeded operation histories on array-init cursors with drop bookkeeping and panics injected between steps, under Drop accounting",
   "Seeded search. The only fault with a place here is a panic of the user's code between cursor steps. That sizes must add up at compile time is decided by compiling a fixed set of wrong programs."),
 "C09": ("exploration", T + "seeded cluster of peers of different schema versions and implementations, with message loss, duplication, delay, partition, crash, upgrade and roll-back",
   "Seeded search over three generated chains of three schema versions; schemas are fixed when the simulator is built, only histories, values and layouts vary with the seed. Trusts the evolution model, the independent encoder and the independent decoder."),
})
CLAIMED.update({
 "C14": ("exploration", T + "seeded user sessions of the real viewer on a simulated terminal, every state and screen compared with an independent reading of the bytes",
   "Seeded search. The only fault with a place here is the changing window. Trusts the independent reading of the buffer; objects that look the same at the same place are not told apart."),
 "C13": ("exploration", T + "seeded user sessions (keys, resizes, draws) of the real viewer on a simulated terminal with failing calls, against a model of the navigation",
   "Seeded search. Trusts the navigation model; setting up and restoring the terminal is C16."),
})
CLAIMED.update({
 "C10": ("exploration", T + "the real program planus on a simulated operating system with seeded faults at its file and output calls, compared with its fault-free run",
   "Seeded search over one or a few faults per run at any call; in thorough runs most single faults of the generated inputs are met. The oracle is the fault-free run of the same tree. Errors of close cannot be seen through std; what happens when even standard error fails is only checked for false success and hangs."),
 "C11": ("exploration", T + "the real program planus run repeatedly on a simulated operating system under different hash seeds, clocks, addresses, process ids, fragmentation and previous output",
   "Seeded search; differential, no model of the output is trusted. The clock and the process id are not read by the present code, so they only guard against changes."),
 "C12": ("exploration", T + "the real program planus with simulated rustfmt children that fail at seeded points of the exchange, over simulated pipes and a seeded scheduler of threads",
   "Seeded search over child behaviours, pipe capacities and interleavings. A child that exits successfully without reading what still fits into its pipe cannot be told apart by planus."),
 "C16": ("exploration", T + "the real program planus view on a simulated terminal with seeded failures of its terminal calls and writes, judged by a terminal emulator that tracks mode, screen and cursor",
   "Seeded search. The input half of crossterm (event parsing) is a stub that takes the simulator's key events; the output half, ratatui and the program are real. A terminal that refuses the restoring operation itself is excused for that operation only."),
 "C15": ("exploration", T + "the real program planus on schema files damaged by simulated storage faults",
   "Seeded search. Which damaged schemas ought to be refused is not judged, only that every tool agrees, diagnoses and survives."),
})
CLAIMED.update(json.load(open(os.path.join(V, "tools", "claimed_more.json"))) if os.path.exists(os.path.join(V, "tools", "claimed_more.json")) else {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        level, tech, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Machinery not built yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
