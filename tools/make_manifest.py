#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MBT = "TLA+ spec checked by TLC; "
T = {
 "C01": ("Assembler model; TLC-exported codec replayed into encode/decode; sampled calls judged by TLC", "every code x condition x register value and every boundary immediate, plus random instructions and words; words of 64 bits are not exhausted"),
 "C02": ("Assembler model; field independence replayed bit by bit into the real codec; sampled calls judged by TLC", "every field value against every background class; every single and double bit flip of the backgrounds used"),
 "C03": ("Assembler model (both modes); replay into the 128-bit codec; sampled calls judged by TLC", "as C01/C02 for the testing mode"),
 "C04": ("IsaWalk model; every code in both modes recorded and judged; mass replay of words", "all 2048 codes x both modes with many operand fields; remaining word bits sampled"),
 "C05": ("IsaWalk model of the numbering; all slots and all variants looked up, recorded and judged by TLC", "exhaustive: every code and every constructible variant"),
 "C06": ("Synthesis and IsaWalk models; generated tables of all versions and widths recorded and judged by TLC", "exhaustive over versions 0 and 1 and widths 11..18 (22 thorough); abstract upgrades up to 3 versions in the model"),
 "C07": ("ISA model; every metadata query recorded and judged by TLC", "exhaustive over families, versions, sub-operations; out-of-range indices up to 300 (70000 thorough) and boundaries"),
 "C08": ("IsaWalk and Machine models; every rights query recorded and judged by TLC", "exhaustive over operations, variants, versions and description bits; the consequence is proved on the Machine model within its bounds and exercised by C23"),
 "C09": ("ISA model; operand, mode and swap queries recorded and judged by TLC", "exhaustive over operations, versions, modes and flags"),
 "C10": ("IsaWalk model of the bit description; generated and published descriptions recorded and judged by TLC", "exhaustive over all codes, both versions"),
 "C11": ("Assembler model (masking); masks replayed over all variants and operand values; recorded and judged by TLC", "all codes x conditions with boundary and random operands, both modes"),
 "C12": ("Prices model, tied by TLC to a ledger of prover work whose inductive invariant Apalache proves (Ind_Circuits); all price queries recorded and judged by TLC", "exhaustive over codes, constructible variants, operations and versions"),
 "C13": ("Prices model (ceil-division, floors) checked by TLC, and Ind_Circuits by Apalache; the real generator is run and its output judged", "exhaustive: all published prices"),
 "C14": ("AbiWords model; layout exported by TLC replayed into pack/unpack; sampled calls judged by TLC", "all single and double bit words, all 16-bit lane values, random words; 256-bit words are not exhausted"),
 "C15": ("Pointers model (TLC exhaustive for small words; inductive invariant at 32 bits by Apalache, tied to it by a refinement TLC checks); real validation replayed against exported classes; pointer sessions generated by TLC and recorded from the code", "model exhaustive for base 4 (5 thorough); real 32-bit values by boundary products and random sessions"),
 "C16": ("AbiWords model; exported layout replayed into the ABI decoders; sampled calls judged by TLC", "all byte values of each byte field, all single/double bit words, all lane values, random words"),
 "C17": ("AbiWords model; exported layout replayed into the ABI packers; sampled calls judged by TLC", "as C14"),
 "C18": ("AbiWords model (code hash); replay into the hash types; sampled calls judged by TLC", "all version/marker byte pairs, all lengths, random digests"),
 "C19": ("TLA+ SHA-256 evaluated by TLC on recorded bytecodes; longer codes against a reference digest which TLC validates", "short codes judged completely by TLC; long codes (all lengths in thorough) against the reference SHA-256 the model validates on short inputs"),
 "C20": ("CodeMemory model; fetch and pc arithmetic replayed; sampled calls judged by TLC", "all 16-bit pcs and operands pairs on boundaries; 32-bit ones sampled"),
 "C21": ("Params model with coherence invariants checked by TLC; Ind_Counters, an inductive invariant proved by Apalache: timestamps, pages and stack depth fit for every program; every published constant recorded and judged", "exhaustive over the published constants"),
 "C22": ("LazyInit model (TLC: liveness, refinement of LazyCells); fresh-process sessions recorded and judged by TLC", "all ordered pairs of first touches of the shared cells, racing pairs, random storms with up to 16 threads; OS schedules are sampled"),
 "C23": ("Machine model checked by TLC, refining an ergs ledger whose inductive invariant Apalache proves for all prices and limits (with counters: no 32-bit timestamp or page overflow); behaviours from TLC replayed into a front end on the real definitions; recorded programs judged by TLC", "every code alone in user/kernel, static/non-static frames with ergs around its price; random programs"),
 "C24": ("KeyedStore model (any lawful hash and order, TLC exhaustive); all pairs of pools of real values compared, a sample and every mismatch judged by TLC; recorded store histories judged by TLC against the ghost map", "all pairs of all opcodes, modes, conditions, versions, variant numbers and constructible variants; pools of thousands of wide values clustered around single-bit differences"),
 "C25": ("Deploy model (TLC, all histories with ideal hashes); real deployments (assemble, hash, bind, call, fetch) shadowed by the exported specification, a sample and every mismatch judged by TLC (TraceDeploy, with SHA-256 in TLA+); behaviours generated by TLC replayed", "two accounts (three thorough) and any history in the model; millions of random deployment histories of the real code, including codes up to the longest; codes and words are not exhausted"),
 "C26": ("Grants model (frames with heaps, forwarding and returning pointers; TLC, all histories within bounds); random sessions of the real call and return words, pointer checks, limits and page numbers shadowed by the exported layouts, a sample and every mismatch judged by TLC (TraceGrants, which also checks the isolation invariants on the recorded states); behaviours generated by TLC replayed", "one-digit words, depth 3 (thorough 4), 1 to 3 calls in the model; millions of random histories of the real code to depth 6 with 32-bit ranges; histories and words are not exhausted"),
 "C27": ("Effects model (log, rollbacks, identities of frames; TLC, all histories of 18 instructions between a privileged and an ordinary contract within bounds, against ghost snapshots); random histories on the real decoding, markings, masks, words, log types, counters and addresses shadowed by the exported specification, a sample and every mismatch judged by TLC (TraceEffects, which also checks the guarantees on the recorded steps); behaviours generated by TLC replayed", "histories of 5 (thorough 6) cycles in the model; millions of random histories of the real code to depth 5; histories and words are not exhausted"),
}
checks = [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
           "technique": "model-based verification: " + MBT + a, "level": "model_checking",
           "level_note": "Explored: " + b + ". Trusts TLC, the Rust toolchain, the harness's calls of the public interface and the hand-written specification."}
          for p, (a, b) in T.items()]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks are needed: everything is reached through the crate's public interface."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
