#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "deterministic simulation with fault injection (seeded search over schedules and fault sequences"
SRV = "real language server on a simulated scheduler, clock, pipes and extension processes; "
CLAIMED = {
 "E01": (SRV + "editing sessions with seeded interleavings, delays and extension faults; every answer compared with a freshly started server's for one state of the history)",
         "Sampled sessions; the reference is the same server started freshly and given only that state, so a fault common to both (a wrong answer for a settled text) is E07's subject."),
 "E02": (SRV + "seeded interleavings; every published set and the final one compared with a freshly started server's)",
         "Sampled sessions; reference as in E01."),
 "E03": (SRV + "seeded configurations, damaged files, commands and consents; every start checked against the consents given so far)",
         "Sampled configurations and sessions; the operating system's process start is the simulator's, which records the exact program and arguments."),
 "E04": (SRV + "overlapping handlers, extensions that crash, hang or refuse to end, disconnects at any point; process table checked at every step)",
         "Sampled sessions; processes are simulated, termination is checked within simulated time."),
 "E05": (SRV + "extensions that answer late, never, with garbage, call back or die; simulated 60 s deadline on every request and comparison with answers with and without the contribution)",
         "Sampled sessions and extension behaviours; liveness as a bound in simulated time."),
 "E06": (SRV + "arbitrary, malformed and cut off message streams, any split and delay, odd files; response accounting, survival, bounded exit)",
         "Sampled message streams, memory limited by an address-space limit; the simulator's tokio is the released one plus seeded pauses."),
 "E07": (SRV + "a simulated UTF-16 editor that asks, applies what it is offered and goes on; ranges and results compared with the real parser's tree and a model of the schema)",
         "Sampled sessions; trusts the parser (N02) for what a text means and the formatter (N01) for its own output."),
 "E08": (SRV + "extensions that ask about open, closed and unknown documents while these change; every call and reply compared with the texts sent, by an independent converter)",
         "Sampled sessions and questions; trusts the parser (N02) for the tree of a text."),
 "D01": (SRV + "several servers on one simulated disk, their system calls interleaved one at a time, with disk errors, kills and power losses; the configuration judged after every operation by what a later session loads from it)",
         "Sampled configurations, programs and interleavings at system-call granularity. Trusts the libc interposer, the kernel's flock, and its two models of what a power loss may take."),
 "D02": (SRV + "servers and the cache command on one simulated disk, their system calls interleaved one at a time, with disk errors, kills, power losses, damaged entries and upgraded binaries)",
         "Sampled names, schemas, damages and interleavings. Trusts the libc interposer and its models of a power loss."),
 "D03": ("real styx executable on a simulated OS; crash, power loss, disk error at every step)",
         "Every I/O step of every sampled run is hit by errors, short and torn writes, crashes and power-loss images; inputs are sampled. Trusts the libc interposer, and its model of what an unsynced file system may lose."),
 "D04": ("real styx executable on a simulated OS; I/O errors at every step, checked against the fault-free run)",
         "Sampled commands and inputs, all I/O steps of each. Trusts the libc interposer; stderr is assumed to accept what is written."),
 "D05": ("real styx executable on a simulated OS; segmentation, interruptions, short transfers)",
         "Sampled commands, inputs and segmentations; the fault-free whole-delivery run is the reference."),
 "D06": ("stored bytes corrupted by the simulator; reference list of what was embedded)",
         "Sampled containers and corruptions against the list of schemas that were embedded by an independent writer; memory accounted by an address-space limit."),
 "D07": ("environment randomness, clock, pid and directory order replaced by seeds; runs compared)",
         "Sampled commands and inputs, each under several environments; equality of all observable output."),
 "D08": ("real styx executable on a simulated OS with a stub registry and stub curl/cargo: failed, truncated, misdirected and slow answers, concurrent processes, crash at every step)",
         "Sampled registries, crates and failures; the registry, curl and cargo are stubs, tar and diffing are real. Trusts the stubs' model of what curl prints on failure."),
 "D09": ("real styx executable on a simulated OS; disk errors, short writes, crash and power loss at every step)",
         "Sampled schemas and generated-directory commands, all I/O steps of each."),
}
NA = {
 "N01": "pure function of its input: no concurrency, time, I/O or second party the property depends on, so there is no schedule or fault to simulate",
 "N02": "pure function of its input (tokenizer, parsers, tree builder): nothing to schedule or to fault",
 "N03": "pure function of its input: nothing to schedule or to fault",
 "N04": "pure functions (serialise, parse) of a value: nothing to schedule or to fault",
 "N05": "pure function of schema and document: nothing to schedule or to fault (its nondeterminism through hash seeds is D07)",
 "N06": "agreement of pure parsers in several languages: differential testing over inputs, nothing to schedule or to fault; the other languages' dependencies are not installed either",
 "N07": "the generated text is a pure function of the schema (faults while writing it are D09, its determinism is D07); compiling Go is translation validation",
 "N08": "a synchronous, single-threaded library interface without I/O: call sequences are programs over immutable handles, with no schedule or fault to inject",
 "N09": "pure function of two schema trees (what surrounds it, the download and publication, is D08)",
 "N10": "thin bindings over pure functions; needs a WebAssembly toolchain, and has nothing to schedule or to fault",
}
import subprocess
def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMED:
            t, note = CLAIMED[i]
            checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                           "technique": f"{DST}; {t}", "level": "exploration", "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i) or "not claimed yet: its check is being built"})
    m = {"version": 1, "setup_cmd": "./check setup",
         "hooks": {"guard": "cfg(styx_sim)", "enable": "RUSTFLAGS=--cfg styx_sim",
                   "source_commits": [open(os.path.join(ROOT, "tools/hook-commits.txt")).read().split()[0]] if False else
                   open(os.path.join(ROOT, "tools/hook-commits.txt")).read().split()},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. ./check <property> [quick|thorough] runs a check, ./check replay <file> reproduces a violation."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
