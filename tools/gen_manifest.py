#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, F = "exploration", "fault_enumeration"
def c(pid, technique, level, note):
    return {"property": pid, "quick_cmd": f"./run.sh {pid}", "thorough_cmd": f"env VERIF_TIER=thorough ./run.sh {pid}",
            "evidence_file": f"evidence/{pid}.json", "technique": technique, "level": level, "level_note": note}
seen = "holds on the executions observed, whose number and variety the evidence gives; "
checks = [
 c("C01", "runtime monitoring of every reply per connection against a sequential reference model, under stress and a perturbed schedule", E,
   seen + "trusts the harness's own RESP decoder and reference model"),
 c("C02", "linearizability checking of recorded histories (porcupine) and conservation monitors, with a perturbed schedule", E,
   seen + "histories are short so that the checker decides them all; undecided ones are counted"),
 c("C03", "runtime comparison of the running server with a reference model, reply by reply and dump by dump", E, seen + "trusts the reference model"),
 c("C04", "runtime comparison of the running server with a reference model, reply by reply and dump by dump", E, seen + "trusts the reference model"),
 c("C05", "runtime comparison of the running server with a reference model, reply by reply and dump by dump", E, seen + "trusts the reference model"),
 c("C06", "runtime comparison of the running server with a reference model; random outcomes are checked for admissibility and followed", E, seen + "trusts the reference model"),
 c("C07", "before and after dumps of the running server around failing, reading and writing commands, and after a restart", E, seen + "trusts that read commands show the whole state"),
 c("C08", "hostile and faulty clients against the running server while a canary's replies and the process are monitored", E, seen + "a hang is a missing reply within a minute"),
 c("C09", "round-trip monitors with an independent encoder and decoder, over random fragmentation, prefixes and mutated bytes", E, seen + "trusts the harness's own RESP encoder"),
 c("C10", "restart monitors: state dumps of the real server before and after shutdowns of every kind under traffic", E, seen + "trusts the reference model and what clients saw acknowledged"),
 c("C11", "crash injection: recovery of the database file cut off at every byte, and kills under load, judged against the states of the command sequence", F,
   "every byte of the files tried is a crash point; kills are sampled; the operating system is trusted to keep what was written in order"),
 c("C12", "fault injection into log streams: every cut, damaged contents and random damage, judged by the entries that must come back", F,
   "every byte of small streams is cut, large ones are sampled; damage inside an entry is judged for contents that are no message"),
 c("C13", "replicas started under load, transfers cut off at any byte and masters stopped in transfer; contents judged by prefix-consistent monitors", E,
   seen + "the order of writes is known per client and by counters"),
 c("C14", "shutdown monitors: return of serve, ports, client connections and file contents after stops of every kind under every condition", E, seen + "a hang is no return within a minute"),
 c("C15", "concurrent monitors of connection objects over TCP with timing oracles that only judge what was measured, schedule perturbed", E, seen + "time bounds are one-sided, slow runs give no verdict"),
 c("C16", "offline checking of recorded send and receive logs (exactly-once, order, closure, expiry), schedule perturbed", E, seen + "a hang is no return within a minute"),
 c("C17", "offline checking of delivery logs (conservation, isolation, counts) and linearizability of the topic registry, schedule perturbed", E, seen + "a hang is no return within a minute"),
 c("C18", "offline checking of all answers of a future against a single outcome, schedule perturbed", E, seen + "a hang is no return within a minute"),
 c("C19", "linearizability checking of recorded map histories (porcupine) and length monitors at quiescence, schedule perturbed", E, seen + "undecided histories are counted"),
 c("C20", "Go race detector on the server and library workloads, with schedule perturbation that adds no synchronization", E, seen + "the detector reports races of accesses that occur in the run"),
 c("C21", "runtime comparison with the documented definition on all small inputs, boundaries and random large ones", E, "complete up to the sizes given in the evidence, sampled beyond"),
 c("C22", "the real client process monitored at its terminal and its socket", E, seen + "what a reply must show are its leaves in order, the layout is free"),
 c("C23", "runtime comparison with a sorted reference list after every operation", E, seen + "the unimplemented range operations are out of scope"),
 c("C24", "concurrent monitors of every read of a broadcaster, schedule perturbed", E, seen + "the value is set once, as documented"),
 c("C25", "offline checking of the file against the records written, with logged flushes and looks at the disk, schedule perturbed", E, seen + "trusts the file system"),
 c("C26", "resource monitors (goroutines, descriptors, live objects, temporary files) of the server process around waves of clients", E, seen + "small constant growth is tolerated, growth per client is not"),
 c("C27", "stalled readers next to monitored clients; every reply of all is judged, also after the stalled ones resume", E, seen + "a delay is a reply missing for a minute"),
 c("C28", "runtime comparison of parsed configurations with what the generated file says, and error monitors for defective files", E, seen + "trusts the generator's TOML notation"),
 c("C30", "runtime comparison of the containers with reference values after every operation, aliasing monitors, sizes up to tens of millions", E, seen + "trusts the reference containers"),
 c("C31", "collection of all identifiers made by concurrent goroutines and processes, and a search for duplicates, schedule perturbed", E, seen + "a duplicate is found if it occurs among those made"),
 c("C32", "offline checking of log files and streams of child processes against what was logged", E, seen + "the time stamp and prefix of a line are free"),
 c("C33", "runtime comparison with the definition over hostile byte sources", E, seen + "trusts the harness's own definitions"),
 c("C34", "fault injection into the start of the server (ports, database file) with monitors of its result, ports, files and resources", E, seen + "obstacles are those root meets too, permissions are not among them"),
 c("C35", "monitors of overtaking and throughput over crowds of thousands of clients, relative to few clients on the same server", E, seen + "a break-down is a factor of ten in four attempts, unfairness 25 turns of everyone else during one wait"),
 c("C29", "call logs of the handlers compared with the definition", E, seen + "handlers do not change the pipeline while it runs"),
]
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks are committed in /repo: the checks that perturb the schedule instrument a copy of the current sources through a build overlay (harness/cmd/yieldgen). Fixed defects are listed in known_findings.txt."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
