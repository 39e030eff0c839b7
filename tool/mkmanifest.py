"""Writes MANIFEST.json: a claim for every property with a specs/cNN.py, a reason for every other one."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "specs"), os.path.join(V, "tool")]
NA = {
    "C17": "end-to-end correctness of the whole reconstruction is a probabilistic statement about interpolation with random anchor points; no contract of this family states it as a postcondition of RatReconst::interpolate (2800 lines of coroutine-like state machine over hash maps of heap objects). Its exact ingredients are decided as C01-C16.",
    "C18": "equality of a resumed with an uninterrupted run is a relation between two executions that communicate through a file system and gzip streams; the verifier's memory and I/O model has no contract for either, so it cannot be a postcondition over /repo's functions.",
    "C19": "quantifies over thread interleavings of std::thread/std::mutex/std::condition_variable; the deductive verifier used here is sequential (no permission or rely/guarantee logic for C++ threads is installed), so no contract within reach expresses it.",
    "C20": "quantifies over message orders of MPI processes; no contract-based verifier in this sandbox has a semantics for MPI, and the code is only compiled under a define the verified configurations do not set.",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    if os.path.exists(os.path.join(V, "specs", pid.lower() + ".py")):
        m = importlib.import_module(pid.lower())
        checks.append(dict(property=pid, quick_cmd="./check.sh " + pid, thorough_cmd="VERIF_TIER=thorough ./check.sh " + pid, technique=getattr(m, "TECHNIQUE", "function contracts on the real code (WhyML extracted from the clang AST), discharged by Why3 with z3/cvc5/E"),
                           level=getattr(m, "LEVEL", "proof"), level_note=m.NOTE, **({"theorems": m.THEOREMS} if hasattr(m, "THEOREMS") else {})))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "contracts for this property are not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
