#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json from the lists below."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))

NOTES = {
    "C01": "Seeded search over process histories; the reference is the same code in a pristine process, so a wrong but reproducible survey is not seen here (C05, C13, C14 and C15 judge values).",
    "C02": "Seeded search over operation histories; the reference is a newly built synth with the modelled configuration. Assumes the model in sim/history.py states what each public operation means.",
    "C03": "Seeded search over fault sites and passes: user callbacks, random number calls, integration and console output; not arbitrary bytecode positions.",
    "C04": "Seeded search over line-level interleavings of real threads run one at a time under the simulator's scheduler (random and PCT plans); C code is atomic.",
    "C05": "Expected selection recomputed independently for every object; probabilistic selections are tested with p < 1e-10 per statement, so a deviation of a few per cent in an acceptance probability may go unseen.",
    "C06": "Every bookkeeping identity is recomputed with plain numpy over chains of draws, extractions and reloads.",
    "C07": "Histories of file operations against a model dictionary of what each file holds; compares every field of a population bit for bit.",
    "C08": "Simulated disk (system-call shim): failing, short and lost writes and full disks injected at sampled operations, crash states materialised from the recorded operations. Assumes the crash model in sim/disk.py (ordered metadata, unordered unsynced data).",
    "C09": "Chains of conversions; surveys compared bit for bit.",
    "C10": "Whole processes scheduled one file-system operation at a time; crash at any operation; the file system itself is real, in a scratch directory.",
    "C11": "Logging run against a simulated clock, failing log files and consoles; level oracle is a small model.",
    "C12": "Histories with every earlier population re-examined after every step.",
    "C13": "Callback event logs of simulated samplers plus recorded values; built-in samplers are covered through their recorded values only.",
    "C14": "Statistical tests over simulated surveys with a fixed seed per scenario, p < 1e-10 per test: deviations below the resolution of the sample size go unseen.",
    "C15": "Every derived value is recomputed from the latent values with independent formulas; scatter is judged statistically and by exact replays of the generator where the order of draws does not matter.",
    "C18": "Seeded search over schedules of real processes (one file-system call at a time, sim/shim.c, some killed at any call) and of threads (line by line); linearizability of the whole history per file is decided exactly. A load may fail while the file is in use. System calls are atomic; in thread runs library code is.",
    "C19": "Expected graph, parameters, forms and grids come from the modelled configuration, not from popsynth; compared after random histories and storage.",
    "C20": "What is meant is built from the classes and drawn in a new process; descriptions are written by a simulated user in random style and may fail to be read. What may be left out is taken from the documented example.",
    "C21": "Expected probabilities are recomputed from the recorded latent values with independently written densities; constants are fixed per survey by the first object.",
}

NOT_APPLICABLE = {
    "C16": "A pure function of redshift and cosmology: no schedule, clock, fault, randomness or history reaches it, so there is nothing to simulate. (C14 and C15 exercise it as part of surveys, against an independent integration.)",
    "C17": "Drawing is a pure function of a finished population into matplotlib artists: no schedule, clock, fault, randomness or history reaches it.",
}

FIXED = [l.split("|") for l in """
C07|65c7143|a population with a probability could not be reloaded
C07|cc05999|name and forms of a reloaded population were lost
C07|899906f|a reloaded graph was not a directed graph
C06|5bbad13|known distances of a sub-population were those of the parent
C06|0ceba7d|a sub-population lost its synth description
C06|d47cde5|selection of selected and non_selected views was not boolean
C15|22638df|in-place array operations on a quantity failed or lost the latent values
C02|0ecf4c4|removed samplers stayed in the model graph
C13|485f956|a nested secondary that uses the distance did not get it
C14|f9009e9|normalised surveys without progress bars used the wrong density maximum
C03|5f19441|an interrupted normalised draw left the normalisation at one
C01|c1fbc6d|default parameters were missing before first use
C02|fb80aef|samplers and selectors kept values of earlier surveys
C05|beef2f0|a selector shared by several samplers applied one result to all
C05|1d09df2|a survey in which no distance is known failed
C09|90c7e13|from_dict modified the dictionary it was given
C09|77b745d|a derived luminosity sampler came back as an ordinary sampler
C09|27d3a53|inherited parameters of selections were left out of the description
C05|ab7de83|a distance selection got no distances
C01|a34f8aa|power law sampling used its own generator
C12|f3853e5|populations shared parameters and model spaces with the synth
C13|f5b3efd|nested secondaries got no luminosity and were left out of the truth
C11|7ce7e25|activating logs after repeated silencing did not restore the levels
C10|059a157|concurrent first starts failed on an existing log directory
C10|2f5c3fb|a crash during the first start left a partial configuration file
C08|1215102|overwriting a saved population destroyed the old file first
C08|b0cdffd|overwriting a synth description destroyed the old file first
C08|eb43c71|a failed addition left a partial group
C14|b9cd176|broken power law sampler without sigma
C14|a0f0071|lower bound of the truncated log10 normal was ignored
C07|09b8e32|a spiral galaxy population could not be saved
C09|93a2a3b|sampler order was lost in YAML
C09|d4a5de6|sampler order was lost in HDF5
C07|2fddf1f|numbers and booleans of the description changed type in files
C09|3b2d753|numpy numbers in the description could not be written to YAML
C09|8feb92f|flags of selections on samplers were lost
C14|e72cf76|broken power law with index -1 failed
C04|f86fc07|reading the graph during a draw changed it
C04|880f951|concurrent draws mixed their random numbers
C10|c33dad7|a first start replaced a configuration the user had written meanwhile
C11|62e5637|errors were reported within silence_console_log although the logs were silenced
C08|713cc26|a save could succeed without having stored everything; a failed addition left the file unreadable
C08|952c552|an error when looking at a file made it be written in place; a finished save could be undone by a power failure
C15|4984845|an in-place operation on luminosities changed the fluxes of a Flatland survey
C04|99aed6d|describing a synth while another thread first uses its class failed
C19|3d59a46|the graph had no edge from the distance to unobserved samplers that use it
C19|38b4630|the graph missed the distance and the observed quantity of samplers that feed a derived luminosity
C20|cd2430e|a distribution described without parameters could not be built
C20|8b10dbd|the documented example, which leaves out is_rate, could not be built
C20|5710990|samplers sharing a description lost their parameters, an empty section of samplers could not be built
C18|837a7b8|of two populations added to a file at the same time one was lost
C07|dbdef08|populations with a slash in the name of a quantity or model space could not be loaded, or lost it without an error
C05|502a0f4|a selection on distances or luminosities attached to a sampler that does not itself use them failed with a TypeError instead of selecting
C07|2f468d4|a pickled population, e.g. sent to another process, lost its latent values and selections, and a population could not be deep-copied
""".strip().splitlines()]
KNOWN = []


def main():
    checks = []
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = []
    for i in ids:
        if i in NOT_APPLICABLE:
            na.append({"property": i, "reason": NOT_APPLICABLE[i]})
            continue
        path = os.path.join(HERE, "sim", "props", i.lower() + ".py")
        if not os.path.exists(path):
            na.append({"property": i, "reason": "its simulation is not built yet"})
            continue
        src = open(path).read()
        level = re.search(r'^    level = "([^"]+)"', src, re.M).group(1)
        technique = next(ast.literal_eval(n.value) for n in ast.walk(ast.parse(src))
                         if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == "technique")
        checks.append({
            "property": i,
            "quick_cmd": f"python3 sim/check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 sim/check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation: " + technique,
            "level": level,
            "level_note": NOTES[i],
        })
    doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is an interface, class attribute, environment setting or system call."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    kf = {"known": KNOWN, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump(kf, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
