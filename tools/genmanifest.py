#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C23": "a pure function of one number: no schedule, time, I/O, fault or history enters, so simulation has nothing to decide; the temperatures it yields are only used as inputs by the simulated runs",
 "C24": "pure constructors and angle conversions on one vector: nothing for a scheduler or fault injector to vary",
 "C25": "a pure function of one chain state that no mode calls: nothing for a scheduler or fault injector to vary",
}
CLI = "the real sc binary under a simulated scheduler, clock, entropy source and file system: "
LIB = "the library's own chains and updates on simulated threads with a simulated entropy source, and "
NOTE = {
 "C01": CLI + "random schedules, harmless faults, run/thread counts and time grids; every log re-read against the documented row grid",
 "C02": CLI + "random schedules, kills, I/O errors, earlier torn files; every sample file must grow by exactly the requested rows",
 "C03": CLI + "profile means checked exactly where all samples are known, and by differences of consecutive sample counts drawn from one entropy stream",
 "C04": CLI + "histories of invocations with kills and failures; numbering and byte equality of earlier completed logs",
 "C05": CLI + "kills, power loss (unsynced data and renames may be lost) and errors at every configuration file operation",
 "C06": CLI + "an I/O or thread-start error at a random operation of a random mode; success is believed only if all outputs are complete, harmless disturbances must not fail",
 "C07": CLI + "deadlock detection (no runnable thread), step limits and failing workers, writers and thread starts",
 "C08": CLI + "averages compared with a reference over synthetic, real and torn logs under shuffled directory order and split reads",
 "C09": CLI + "histories of modes and overrides; every setting compared before and after",
 "C10": CLI + "every mode without logs, also killed and failing, with logs present around the stored offset",
 "C11": CLI + LIB + "extreme temperatures, vanishing and huge fields; all logged values finite, all spins of length one",
 "C12": CLI + LIB + "steps and trajectories compared with an independent fine Runge-Kutta integration within second-order error",
 "C13": CLI + LIB + "energy along undriven trajectories to rounding, conserved magnetisation to second order",
 "C14": CLI + LIB + "acceptance of single updates against exp(-beta dE), direction statistics, and canonical means against exact or reference values; statistical bounds at a false-alarm probability below 1e-8 per check",
 "C15": CLI + LIB + "distribution of initial bond angles and azimuths (Kolmogorov-Smirnov, false-alarm probability about 1e-9 per test)",
 "C16": CLI + LIB + "free and damped motion against reference integration, fluctuation-dissipation by the statistics of one-step displacements",
 "C17": CLI + "reported fits against an independent Monte-Carlo reference (tolerance 0.06 in energy density and magnetisation)",
 "C18": CLI + LIB + "no repeated random part among runs, workers, samples and invocations, under equal clocks and every schedule",
 "C19": CLI + "kill or error at a random operation, then another invocation without clean-up, judged as in C01 to C08",
 "C20": CLI + LIB + "every logged column recomputed from the chain where the chain is visible or predictable",
 "C21": LIB + "moments and independence of couplings and fields over many chains (false-alarm probability below 1e-8 per test), exactness at zero spread",
 "C22": CLI + "recorded times, and phases of a uniformly precessing chain, against whole drive periods",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash build.sh",
  hooks=dict(guard="--cfg spinchain_sim", enable="build.sh sets RUSTFLAGS=--cfg spinchain_sim for the sc binary and for /verif/physics; DST_THIN then thins Metropolis updates", source_commits=["96be459", "0299434"]),
  checks=[], not_applicable=[])
for p in props:
    if p in NA: m["not_applicable"].append(dict(property=p, reason=NA[p])); continue
    m["checks"].append(dict(property=p, quick_cmd=f"bash check {p}", thorough_cmd=f"VERIF_TIER=thorough bash check {p}", evidence_file=f"evidence/{p}.json",
        technique="deterministic simulation with fault injection", level="exploration",
        level_note="Seeded search, not exhaustive. " + NOTE[p][0].upper() + NOTE[p][1:] + ". Trusts the simulator runtime (dst/libdst.c), the driver's oracles and, for cost, thinned Metropolis equilibration; thread switches happen at intercepted operations only."))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
