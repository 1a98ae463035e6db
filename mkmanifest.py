"""Writes MANIFEST.json from the checks that exist (developer tool, not run by the checks)."""
import json, os
NA = {
 "N01": "Convergence of iterations and rounding error over all inputs need numerical error analysis of real values, which no static argument in reach supplies (the formulas and series themselves are decided under C32).",
 "N02": "Convexity and containment depend on exact signs of floating-point cross products along data-dependent stacks; syntax- and dataflow-level facts cannot establish them.",
 "N03": "Whether two particular segments cross depends on signs of rounded floating-point cross products; that every pair of segments is examined is part of C27, and the coordinate systems of the operands part of C01.",
 "N04": "Depends on the number formatting and parsing of the run-time library and the values written; nothing in the source bounds it.",
}
LEVEL = ("Static analysis of the current source: every function in the listed scope is analysed path by path; a "
         "reported construct definitely violates the rule under the stated contracts of numpy/GDAL/pyproj calls. "
         "Constructs the abstraction cannot express are counted as undecided in the evidence, never reported. ")
def main():
    props = [json.loads(l)["id"] for l in open("properties.jsonl")]
    checks, na = [], []
    import importlib
    for pid in props:
        if os.path.exists("kstat/checks/%s.py" % pid.lower()):
            m = importlib.import_module("kstat.checks.%s" % pid.lower())
            checks.append({"property": pid, "quick_cmd": "python3 -m kstat.run %s" % pid,
                           "thorough_cmd": "python3 -m kstat.run %s" % pid,
                           "evidence_file": "evidence/%s.json" % pid,
                           "technique": getattr(m, "TECHNIQUE", "dataflow over path-wise value terms"),
                           "level": "other", "level_note": LEVEL + getattr(m, "NOTE", "")})
        else:
            na.append({"property": pid, "reason": NA.get(pid, "No sound static check has been built for it yet.")})
    json.dump({"version": 1, "setup_cmd": "python3 -m kstat.setup", "checks": checks, "not_applicable": na,
               "notes": "All checks are static: they parse /repo's current sources (Python, Cython, C headers) and never execute them."},
              open("MANIFEST.json", "w"), indent=1)
main()
