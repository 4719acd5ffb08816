#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, subprocess
NOTE = "Seeded exploration, not proof: a clean run is evidence over the schedules and faults sampled (counts in the evidence file). "
C = {
 "C01": ("deterministic simulation: caller threads under a seeded scheduler preempting at instrumented memory accesses; oracle = same call alone in a fresh process",
   "Sequentially consistent memory; preemption inside phonenumber, once_cell and inlined std code, regex runs atomically; most workers embed a seeded subset of the bundled metadata (built by the real build script), some the complete one."),
 "C02": ("deterministic simulation of cold-start races: seeded scheduler, suspended initialisers, spurious futex wake-ups; bounded-step completion and single-call oracle",
   "As C01; cold processes mostly embed small subsets of the bundled metadata so that thousands of cold starts fit in a run."),
 "C03": ("deterministic simulation: one caller thread suspended for ever at a seeded event, the others must complete; single-call oracle",
   "As C01. Suspension points are the instrumented accesses and futex calls."),
 "C04": ("deterministic simulation: long seeded call histories under simulated clock, entropy, environment, heap placement and thread identity; oracle = same call alone in a fresh process",
   "History length is bounded per run (see evidence)."),
 "C05": ("deterministic simulation: seeded interleavings of loads, clones, drops and uses of several databases, with heap-address reuse; oracle = the same database alone in a fresh process",
   "Heap reuse policy is the simulator's allocator (LIFO reuse, no reuse, poison)."),
 "C06": ("deterministic simulation of delivery: seeded chunking, interruptions and delays of reader and file system calls; oracle = abstract document model plus whole-slice load",
   "The document vocabulary is that of the bundled metadata format."),
 "C07": ("deterministic simulation with fault injection: read/open errors and end of file at seeded bytes and system calls, followed by retry; descriptor conservation",
   "Faults after the closing tag of the root element are excluded: nothing need be read there."),
 "C08": ("deterministic simulation with fault injection: stored metadata blocks flipped, torn, lost, repeated, swapped; then an operation workload in simulated processes (panic, abort, hang, stack overflow detected)",
   "Pathological regular expressions of exponential compile cost are bounded by the regex crate's own limits."),
 "C09": ("deterministic simulation with fault injection: sink failures, short writes, interruptions at every write point; prefix/completeness oracle",
   "Sinks are fmt::Write and io::Write implementations owned by the simulator."),
 "C10": ("deterministic simulation with fault injection: panics and re-entrant calls inside caller-supplied callbacks, also during unwinding and thread teardown; single-call oracle for everything else",
   "A panic while already panicking aborts by language rule and is not injected."),
 "C11": ("deterministic simulation of a number log on a simulated disk: crash at seeded points, torn tail, bit flips, restart in a fresh process; acknowledged-prefix oracle",
   "Formats: JSON (compact, pretty, value tree, flattened struct), postcard, bincode (also inside a list), CBOR (also inside an untagged enum)."),
 "C12": ("fault injection into the real build script process: errors, short transfers, end of file, disk full, kills at seeded system calls, then re-runs; output equality oracle",
   "Runs the compiled build script of the library under an interposed C library I/O layer."),
 "C14": ("deterministic simulation of a store shared by successive processes of two versions: seeded upgrades, downgrades, rewrites, kills at seeded bytes and field-reordering stores; oracle = an independent model of the earlier release's record layout and the values first stored",
   "The earlier release is a model (sim/ops/src/old.rs), not its compiled code. Formats as in C11, alone and in rows."),
 "C15": ("deterministic simulation with fault injection: seeded refusal of memory requests inside operations of simulated processes; single-call oracle",
   "Most runs end in Rust's own abort on a failed allocation, which is an allowed outcome; the rest are compared."),
 "C13": ("deterministic simulation: long histories with failures, unwinding and thread churn; exact live-byte and descriptor accounting by the simulated allocator",
   "Counts memory requested through the global allocator."),
}
NA = {
 "C20": "A pure function of its input: no schedule, clock, fault, I/O or history enters; generating strings would be input fuzzing, not simulation.",
 "C21": "A pure algebraic round trip of one caller's data: nothing nondeterministic for a simulator to decide.",
 "C22": "A pure statement about the text of one call.",
 "C23": "A pure relation between two calls' results for given inputs.",
 "C24": "A pure relation between a number and immutable metadata.",
 "C25": "Pure equality and hashing laws.",
 "C26": "A pure relation between two inputs.",
 "C27": "A finite pure check over the bundled data; no schedule or fault involved.",
}
import sys
done = sys.argv[1].split(",") if len(sys.argv) > 1 else list(C)
hook = subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^Add a simulation seam"],capture_output=True,text=True).stdout.split()
m = {"version":1,"setup_cmd":"bash sim/build.sh",
 "hooks":{"guard":"phonenumber_sim","enable":"RUSTFLAGS=--cfg phonenumber_sim (set by sim/env.sh for the simulated build only)","source_commits":hook},
 "checks":[{"property":k,"quick_cmd":f"bash check.sh {k} quick","thorough_cmd":f"bash check.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":t,"level":"exploration","level_note":NOTE+n} for k,(t,n) in sorted(C.items()) if k in done],
 "not_applicable":[{"property":k,"reason":r} for k,r in NA.items()]+[{"property":k,"reason":"check not built yet"} for k in C if k not in done],
 "notes":"One simulator (sim/) hosts all checks; see DESIGN.md. Replay any violation with: sim/target/x86_64-unknown-linux-gnu/release/simcheck replay FILE (after sim/build.sh; SIM_BUILD_SCRIPT from sim/target/paths.sh)."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
