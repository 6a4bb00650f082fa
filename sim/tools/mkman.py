import json
sim="deterministic simulation with fault injection"
T={
"C01":(sim+": seeded I/O faults on a simulated disk, result compared with a fault-free run","Seeded search. The unmodified command and library run on a simulated operating system (sim/shim) that decides every short transfer, interruption, error and full disk. Trusts the simulated system calls."),
"C02":(sim+": seeded crashes at and inside file operations, restart on what survived","Seeded search over kill points and retries; what survives is what the simulated disk holds (writes are durable in order once made; a torn last write is simulated)."),
"C03":(sim+": seeded corruption of stored definitions and failing reads","Seeded search over damaged inputs and option sets; 'must be refused' is decided by independent parsers where they are certain, otherwise only panic, abort, hang and partial effects are judged."),
"C04":(sim+": whole simulated disk compared before and after under faults","Seeded search. Everything the process can reach through libc is inside the simulated disk; an access outside is recorded as an escape."),
"C05":(sim+": the same request in differing simulated environments","Seeded search over hash seeds, clocks, pids, heap layouts, environment, routes and earlier requests."),
"C06":(sim+": seeded thread schedules, preemption at system calls and at single instructions","Seeded search over schedules of 2-4 threads under sequential consistency; results compared with serial runs."),
"C07":(sim+": seeded histories of a simulated JavaScript host with re-entrant calls","Seeded search over call histories on the real wasm packages, compared with fresh instances and with the native library."),
"C08":(sim+": seeded exceptions of host values at every property access","Seeded search over throwing getters, malformed values and long runs of failures on the real wasm packages."),
"C09":(sim+": Byzantine provers against circuits read back from a simulated disk","Seeded search. Constraints are evaluated over a 61-bit-plus prime field by this simulator's own circom interpreter with a stand-in circomlib; the oracle is an independent reference model. Definitions whose parts overlap are judged by a weaker oracle (what is found must be a possible match)."),
"C10":(sim+": author histories with crashes and faults, then honest provers","As C09 with honest witnesses; completeness is judged for definitions whose parts do not overlap."),
"C11":(sim+": honest and Byzantine provers against the shipped circuits","As C09, for the committed circuits of the common folder, and for circuits compiled again from the committed definitions."),
"C12":(sim+": author histories with faults, then honest and Byzantine claims to a table-lookup verifier","Seeded search over definitions, histories and claims; per table set the languages are compared by a product walk with the reference model. Definitions whose parts overlap are judged for soundness only."),
"C16":(sim+": another program replaces the definition at seeded moments of a compile","Seeded search over the operation at which files are renamed over the definition, and over pairs of definitions; the oracle is a compile of each version alone on the same simulated disk. Replacement is by rename; writing into the file in place is not simulated."),
"C17":(sim+": faults that never go away, judged by bounded progress in simulated operations and time","Seeded search over standing faults, full disks, killed predecessors and clocks; the bound is a generous multiple of the fault-free run plus the bytes moved and interruptions met. CPU-bound loops are judged by a wall-clock limit of the supervisor."),
"C18":(sim+": the same or differing calls, round after round in one process with faults; what is held is read from the simulated machine","Seeded search. Descriptors, threads and live allocations are counted exactly by the simulated operating system; growth must persist over all later rounds (at least five) to be reported."),
"C19":(sim+": rounds of calls on long-lived simulated JavaScript instances, allocator and host-value table measured","Seeded search. One known finding (generated glue of wasm-bindgen keeps an entry per host exception) is recognised by the exact count of such exceptions; growth beyond it is reported."),
"C20":(sim+": several real processes on one simulated disk, their file operations interleaved by a seeded scheduler, some killed, stalled or failing","Seeded search over turns of file operations, mostly dense where the outputs are written. One process runs at a time and hands over only between file operations; atomic operations are those of POSIX calls. Each request alone on the same disk is the oracle. Hard links and fcntl locks are not modelled (flock is)."),
}
level={k:"exploration" for k in T}
import os,sys
have=sys.argv[1].split(',')
man={"version":1,"setup_cmd":"sim/build.sh all","checks":[
 {"property":k,"quick_cmd":f"sim/check.sh {k}","thorough_cmd":f"VERIF_TIER=thorough sim/check.sh {k}","evidence_file":f"evidence/{k}.json","technique":T[k][0],"level":level[k],"level_note":T[k][1]} for k in T if k in have],
"not_applicable":[
 {"property":"C13","reason":"a pure function of its argument: no schedule, clock, I/O, fault or second party can influence it, so deterministic simulation has nothing to decide (its consequences for circuits and tables are judged under C09 to C12)"},
 {"property":"C14","reason":"a pure function of its arguments: no schedule, I/O, fault or second party can influence it (threads calling it are judged under C06, agreement with circuits under C10 and C11, JavaScript under C07 and C08)"},
 {"property":"C15","reason":"a pure function of its arguments with nothing to simulate (its JavaScript form is judged under C07 and C08)"}]+[
 {"property":k,"reason":"check under construction"} for k in T if k not in have],
"notes":"No hooks in /repo: every seam used is one the code already has (libc symbols, files, wasm exports, generated artefacts). Replay: sim/target/harness/release/zksim replay FILE (C07, C08, C19: node sim/js/sim.mjs replay FILE)."}
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
