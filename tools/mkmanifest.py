"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
    "model": "model-based property testing (generated files against an independent encoder and model), coverage-guided choice-tape fuzzing, shrinking",
    "par": "property-based testing: generated files and thread pools, parallel result against model and sequential pass",
    "hist": "stateful model-based testing of operation histories, coverage-guided choice-tape fuzzing, shrinking",
    "fault": "property-based fault injection: generated files with generated damage, explicit oracle, shrinking",
    "faultfuzz": "property-based fault injection with coverage-guided choice-tape fuzzing, explicit oracle, shrinking",
    "meta": "metamorphic property testing (equivalent encodings), coverage-guided choice-tape fuzzing, shrinking",
    "fuzz": "structure-aware and byte-level fuzzing (random and coverage-guided) with step, memory and panic oracles",
    "conc": "model-based testing of generated interleavings, nestings and thread assignments of operations, shrinking",
    "need": "model-based testing of generated operation histories on a reader that records reads, shrinking",
    "diff": "differential property testing of three builds on the same generated inputs",
}
KIND = {
    **{c: "model" for c in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C21")},
    "C09": "par", "C10": "meta", "C11": "hist", "C12": "model", "C13": "hist",
    "C14": "fault", "C15": "faultfuzz", "C16": "fault", "C17": "fuzz", "C18": "faultfuzz",
    "C19": "faultfuzz", "C20": "meta", "C22": "faultfuzz", "C23": "diff", "C24": "conc",
    "C25": "need",
}
NOTE = {
    "model": "Search, not proof: a fixed number of generated cases per run, a pure function of code and seed. Trusts the harness's own encoder and model (written from the format description, sharing no code with the library).",
    "par": "As C01; schedules are sampled (pools of 1 to 8 threads, readers that yield), not enumerated.",
    "hist": "Generated histories of bounded length over generated files; each step is compared with the model or a fresh reader.",
    "fault": "Generated and, on small files, enumerated damage positions; trusts the harness's encoder and miniz_oxide's strict decoder.",
    "faultfuzz": "Generated damage positions and kinds; trusts the harness's encoder and, for zlib, miniz_oxide's strict decoder.",
    "meta": "Generated pairs of encodings or access paths, each also against the model.",
    "fuzz": "Panics (overflow checks and debug assertions on), steps counted in instrumented code instead of a clock, counted allocations. Parallel reading is bounded in panics only. Bounds are generous constants plus a multiple of the content.",
    "conc": "Interleavings on one thread are generated and replayed exactly; schedules of several threads are whatever the machine does.",
    "need": "Generated histories of bounded length; amounts are compared with a model of what each operation needs, with a margin of 64 KiB per blob.",
    "diff": "rust-zlib, zlib (the system's libz, linked dynamically) and zlib-ng (built in), each against the model.",
}
m = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
            "technique": TECH[KIND[p["id"]]],
            "level": "exploration",
            "level_note": NOTE[KIND[p["id"]]],
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks: the checks use only the public interface. Fixed defects are listed in KNOWN_FINDINGS.",
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
