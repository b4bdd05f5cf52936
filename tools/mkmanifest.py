"""writes MANIFEST.json from the registry"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import registry

VF = "interprocedural gated value-flow analysis of the source: extracted terms compared with their specification by algebraic normalisation"
TECH = {
    "C10": "value-flow analysis; operator words: adjoint word compared with the reversed, conjugated forward word",
    "C15": "interprocedural alias and effect analysis: no store may reach a caller-owned root",
    "C18": "value-flow analysis of the save routine; dataset-name table matched against all reader sites",
    "C19": "draw-site dataflow and who-may-call query over random number sources",
    "C32": "lint over the public signatures: order of the arguments and constant evaluation of their defaults",
    "C20": "effect analysis on shared state: defaults, class attributes, module globals",
    "C21": "typestate analysis of the stdout stream over all exits",
}
NOTE = ("Sound for the analysed fragment under the stated library semantics: each obligation is decided for all inputs at once by comparing normal forms; "
        "what the analysis cannot resolve is reported as UNDECIDED and not claimed.")
NA = {
    "C29": "convergence in distribution quantifies over infinite random runs; no static argument over the source bounds it (its per-step ingredients are C03-C07)",
    "C30": "exact reconstruction and adjointness of the wavelet routines are numerical facts of the compiled pys2let/pyssht libraries, whose source is not in the repository",
    "C31": "exactness to floating point rounding for every bandlimit is a numerical statement about sums of rounded values; the formulas themselves are C25",
}
checks = [{
    "property": p,
    "quick_cmd": "python3 check.py " + p,
    "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
    "evidence_file": "evidence/%s.json" % p,
    "technique": TECH.get(p, VF),
    "level": "other",
    "level_note": NOTE,
} for p in sorted(registry.CHECKS)]
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c \"import ast, sys; sys.exit(sys.version_info < (3, 9))\"", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in registry.CHECKS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
