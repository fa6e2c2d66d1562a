#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks (sim ids) and the property list."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {"C09": "fault_enumeration", "C10": "fault_enumeration", "C12": "fault_enumeration"}
NOTE = {
 "C01": "Seeded search over circuits, witnesses, entropy, challenges, message faults and restarts with the real prover and verifier; what was not drawn is not covered.",
 "C02": "Seeded search over circuits and a catalogue of protocol departures computed by an independent prover; each departure breaks exactly one verifier equation (checked against an independent verifier). Cryptographic hardness is assumed.",
 "C03": "Seeded search over proofs and structure-aware and byte-level alterations with the real verifier.",
 "C04": "Seeded search over cross deliveries and adaptively chosen circuits and inputs with the real verifier.",
 "C05": "Seeded search with a dishonest prover against circuits produced by the real setup tool; the standing defect is a listed finding.",
 "C06": "Seeded search over entropy streams; blinds and nonces are recovered from the proofs by an independent model that knows the witness.",
 "C07": "Seeded search over histories and interleavings of requests in one process, each compared byte for byte with the same request alone in a fresh process.",
 "C08": "Seeded search over files and deliveries against an independent encoder.",
 "C09": "Every structural field and truncation point of small files is enumerated with many replacements, the rest is seeded search; verdict by an independent strict parser.",
 "C10": "Every header field and truncation point of a small file is enumerated, the rest is seeded search; verdict by an independent strict parser.",
 "C11": "Seeded search against evaluation with independent integer arithmetic.",
 "C12": "Every storage operation of the tool is a crash and failure point (enumerated per file), tear patterns are seeded.",
 "C13": "Seeded search over proofs, circuits and damaged encodings.",
 "C14": "Independent implementation of the protocol checked in both directions, plus recorded proofs and circuits.",
 "C15": "Seeded search with the real SNARK prover and verifier.",
 "C16": "Seeded search over alterations, replays and false statements with the real SNARK verifier.",
 "C17": "Seeded search over call histories against an independent implementation of the permutation with its own copy of the constants.",
 "C18": "Seeded search over hostile messages with metered memory and time and interleaved honest requests.",
 "C19": "Seeded search over schedules, faults and altered or forged messages with the real TypeScript library in node and the real Rust verifier behind its wasm glue; the number libraries it imports and the compiled wasm module are stand-ins.",
 "C22": "Seeded search over schedules, faults, signatures and edge values with the real TypeScript library in node and the real Rust prover behind its wasm glue; the number libraries, the witness generator and the compiled wasm module are stand-ins.",
}
NA = {
 "C20": "The circom circuits are pure constraint systems: no schedule, time, I/O or multi-party behaviour, and no circom compiler is available offline to produce the constraints a simulator could load.",
 "C21": "Pure functions of their operands with no concurrency, time, I/O or multi-party behaviour; deciding them is a matter of input search or proof, not of simulation. They are exercised indirectly with edge values through C01, C11, C14.",
}
hooks = [l.split()[0] for l in subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines() if " hooks:" in l]
built = subprocess.run([os.environ.get("SIM","/tmp/tgt/release/sim"),"ids"],capture_output=True,text=True).stdout.split()
built += [i for i in os.environ.get("EXTRA","").split()]
props = [json.loads(l) for l in open(here+"/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": LEVEL.get(i, "exploration"),
            "level_note": NOTE[i],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet; planned with the same simulator.")})
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "hooks": {"guard": "verif_sim (rustc --cfg)", "enable": "/verif/sim/.cargo/config.toml passes --cfg verif_sim when the simulator is built", "source_commits": hooks},
 "checks": checks,
 "not_applicable": na,
 "notes": "Known findings and repaired defects: known-findings.txt. Replays: ./run.sh replay <file>.",
}
json.dump(m, open(here+"/MANIFEST.json","w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
