"""Writes /verif/MANIFEST.json: one check per property that has a module under sim/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "deterministic simulation with fault injection: "
TECH = {
 "C01": (S + "seeded errors, interrupts, crashes and power loss at system calls; file-system model tracks durable state",
         "Seeded search over inputs, layouts and fault points; the target is checked after every system call and after simulated power loss against a small durable-state model. Not exhaustive. Trusts the POSIX durability model described in DESIGN.md."),
 "C02": (S + "seeded I/O faults on standardize, output compared with an independent CSV model",
         "Seeded search; oracle is an independent RFC-4180 reader and an independent model of the dialect reader. The detected dialect is taken from the code under test."),
 "C03": (S + "seeded errors and interrupts at system calls, handle and directory conservation checks",
         "Seeded search over operations and failing calls; descriptors and directory trees compared before and after."),
 "C04": (S + "seeded short, delayed, interrupted and failing transfers against the fault-free run and an independent reader model",
         "Seeded search over contents, encodings, transfer splits and read errors."),
 "C05": (S + "seeded short writes, full disk and I/O errors against the complete output and an independent reader model",
         "Seeded search over tables, dialects and write faults."),
 "C06": (S + "seeded interleavings of consumption and failing line sources against an executable reader model",
         "Seeded search over sources, dialects and consumption histories against an independent reference reader."),
 "C07": (S + "seeded thread scheduler (baton) preempting at line and opcode boundaries, results compared with solo runs",
         "Seeded search over interleavings of 2-4 real threads, one runs at a time; preemption at Python opcodes (the GIL's granularity)."),
 "C08": (S + "seeded errors and interrupts with snapshots of process state and caller-owned objects around each call",
         "Seeded search over operations, outcomes and histories; process-wide state is compared before and after."),
 "C09": (S + "seeded hash seeds, call histories, cache capacities and switches; results compared across simulated interpreters",
         "Seeded search; several interpreter processes with different hash seeds must agree with each other, whatever their histories."),
 "C10": (S + "seeded allocation failures in the native extensions, leak accounting and retry",
         "Every allocation of the extensions goes through the simulator; the Nth one fails. All N are visited for small inputs, sampled for others."),
 "C11": (S + "seeded hostile line sources under AddressSanitizer and UBSan with leak accounting",
         "Seeded search over source behaviours and call histories on a sanitizer build of the real extension."),
 "C12": (S + "simulated clocks with seeded jumps and latency, printed runtime compared with simulated elapsed time",
         "Seeded search over clock behaviours, options and inputs; all clocks the process reads are simulated."),
 "C13": (S + "seeded faults and crashes in multi-file runs against a per-file reference",
         "Seeded search over file lists, options and fault points; each file compared with the same file converted alone."),
 "C14": (S + "seeded import faults (absent, broken, outdated, changing between calls)",
         "Seeded search over subsets of optional packages, failure kinds and call histories."),
 "C15": (S + "seeded errors on input and on standard output, answer compared with the fault-free answer",
         "Seeded search over commands, options, input and failing calls."),
 "C33": (S + "generated program run in the simulator with seeded short, interrupted and failing reads, records compared with a reader model",
         "Seeded search over file names, contents, encodings and options; the oracle is an independent reader model."),
 "C35": (S + "seeded short, interrupted and failing reads under the view command, the rows shown compared with a reader model",
         "Seeded search over contents, encodings, options and failing calls; the screen is a recorder, the oracle an independent reader model."),
 "C16": (S + "seeded interleaving of the system calls of several processes, with crashes",
         "Seeded search over interleavings of 2-3 processes at system-call granularity; one process runs at a time."),
}
NA = {
 "C30": "A statistical statement about a pure function of the sample and a human judgement: no schedule, time, I/O or fault can influence it, so simulation has nothing to explore.",
 "C31": "A pure function from one cell's text to a type; no scheduling, clock, I/O or fault is involved.",
 "C32": "Conversions of an in-memory value; no scheduling, clock, I/O or fault is involved.",
 "C34": "A pure vote over the parsed sample; no scheduling, clock, I/O or fault is involved.",
}
checks = []
for pid in sorted(TECH):
    if not os.path.exists(os.path.join(V, "sim", "props", pid.lower() + ".py")):
        NA[pid] = "check not built yet"
        continue
    t, note = TECH[pid]
    checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": t,
                   "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 -m sim.stage", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: the seams are the C library (LD_PRELOAD shim sim/simos.c), the import system, the "
              "interpreter's trace hook and the linker (allocation wrapping of the extensions). DESIGN.md describes the simulator."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
