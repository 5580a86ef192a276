#!/usr/bin/env python3
"""Writes MANIFEST.json (run from /verif)."""
import json
T = "deterministic simulation with fault injection: "
COMMON = (" Seeded search, not proof: it covers the explored runs only. Trusted: the simulated writer, the simulated device and the "
          "reference model in sim/ (cross-checked with e2fsck during development), the Rust compiler.")
C = {
"C01": ("simulated ext4+jbd2 writer crashed at seeded points over a volatile write cache; reader judged against the snapshot of the last intact committed transaction",
        "The whole reader runs as shipped on the image that each crash leaves (torn, lost, reordered and damaged log blocks, revocations, wrap-around); every client call is compared with the model of the committed prefix."),
"C02": ("seeded device read failures under interleaved clients; result must be right or that very device error",
        "Includes sweeps in which each device read of one call fails in turn."),
"C03": ("seeded device faults followed by a fault-free suffix; every later result must be right",
        "Cursors, iterators and caches that lived through the faults are used further."),
"C04": ("seeded interleavings of many clients and clones over shared state; each result judged against the history-free model",
        "The scheduler decides which client calls next; cached and uncached reads, clones, open order and repetition vary."),
"C05": ("seeded cursor histories with short and failed reads over shared state; byte array plus cursor as the model",
        "read, read_bytes, std Read/Seek, seek to any u64, partial buffers, errors in between."),
"C06": ("seeded layouts (extents, block maps, holes, unwritten ranges, fragmented, sparse up to the format's limits) on a simulated sparse device, read by interleaved clients",
        "Content is compared byte for byte with the generator's model."),
"C07": ("seeded directory histories (insert, delete, split, htree, collisions) on the simulated disk; listing and lookup judged against a name map",
        "Linear, htree with all hash versions, non-UTF-8 names, empty and deleted entries; names and paths also compared as text."),
"C08": ("seeded trees and paths driven by interleaved clients; independent model of Linux path resolution",
        "dot, dot-dot, symlink chains and loops, trailing slashes, limits, relative and absolute targets."),
"C09": ("seeded filesystem geometries and attributes on the simulated disk; attribute model",
        "Block sizes 1K-64K, 32/64-byte descriptors, flex groups, inode sizes, high halves of fields, checksum seeds."),
"C10": ("seeded corruption of stored bytes before and during the run, allocation cap, device step bound and CPU limit",
        "No panic, no overflow, no endless loop, bounded memory; checksums are repaired after the corruption in most runs so that the parsers are reached."),
"C11": ("seeded detectable damage (bit bursts, zeroed or stale sectors, misdirected reads) on the medium or in transit on metadata_csum filesystems",
        "Damage the checksum must detect: the call fails as corrupt or its result does not depend on the damaged structure."),
"C12": ("monitor over the device request log of every simulated run, on devices of the exact size",
        "Every request inside the device, none to free or foreign blocks, none for calls answered from loaded state, and loading reads only what it is entitled to."),
"C13": ("seeded feature/format mutations combined with crash states; load must be refused, or a clean journal left alone",
        "Every unsupported incompatible feature bit, journals of unsupported formats (also escaped blocks and unknown block types in the live log), and clean journals with leftover garbage."),
}
NA = {
"C14": "Path and PathBuf operations are pure functions of their arguments: no I/O, schedule, clock, fault or history for a simulation to decide.",
"C15": "Name, label, UUID and error formatting/conversion are pure functions of their arguments: nothing for a simulator to schedule or fail.",
}
props = {json.loads(l)["id"] for l in open("properties.jsonl")}
assert props == set(C) | set(NA), props
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "hooks": {"guard": "none", "enable": "no hooks: the Ext4Read trait and the public API are the seams; the simulator is built against /repo as shipped (feature std)", "source_commits": []},
     "notes": "Known and repaired defects: known_findings.txt. Replay a violation with: sim/target/release/sim replay <file>."}
for k, (t, n) in C.items():
    m["checks"].append({"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
        "evidence_file": f"evidence/{k}.json", "technique": T + t, "level": "exploration", "level_note": n + COMMON})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
