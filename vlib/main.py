import importlib
import json
import os
import sys
import time
import traceback


def setup_paths():
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import diffstar

    root = os.path.realpath(os.path.dirname(diffstar.__file__))
    want = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    if not root.startswith(want):
        raise SystemExit(f"diffstar imported from {root}, expected {want}")


def load_known(pid):
    out = []
    fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                out.append(line[len(f"finding: property={pid} "):])
    return out


GENERIC = (
    "The functions listed were traced from /repo's current source into jaxprs, executed symbolically into real-arithmetic terms, "
    "and each obligation was decided by z3 (after canonicalisation) for every value inside the stated bounds; every unsat answer was "
    "accompanied by a satisfiability query of its own assumptions. Candidate counterexamples were replayed on the real functions."
)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    setup_paths()
    from . import harness, jx, solve

    mod = importlib.import_module(f"props.{pid}")
    if "--replay" in sys.argv:
        return replay(pid, mod, sys.argv[sys.argv.index("--replay") + 1], tier)
    out = harness.Outcome()
    out.known_list = load_known(pid)
    out.tier = tier
    errors = out.errors
    try:
        mod.run(out, tier, seed)
    except Exception:
        errors.append(traceback.format_exc())
    wall = time.time() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": (mod.__doc__ or "").strip() + " " + getattr(mod, "EXPLANATION", GENERIC),
            "obligations": out.obligations,
            "discharged": out.discharged,
            "queries_discharged": {k: round(v, 3) if isinstance(v, float) else v for k, v in solve.STAT.items()},
            "functions_encoded": sorted({f for h in out.harnesses for f in h.get("functions_encoded", [])}),
            "bounds": [h["harness"] + ": " + h["bounds"] for h in out.harnesses if h.get("bounds")],
            "harnesses": out.harnesses,
            "known_findings_reproduced": out.known,
            "decided_on_reduced_bounds_only": out.reduced,
            "decided_up_to_tolerance": out.toleranced,
            "inconclusive": out.inconclusive,
            "encoding_mismatches": out.encoding_mismatch,
            "errors": errors,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "arithmetic is over exact reals; rounding is outside the claim (replays use the real float64 code with a stated tolerance)",
            "diffmah, numpy, jax tracing and XLA are trusted; the encoding is jax's own jaxpr of the functions in /repo",
        ],
        "wall_s": round(wall, 2),
        "violations": len(out.violations),
    }
    os.makedirs("/verif/evidence", exist_ok=True)
    with open(f"/verif/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in out.known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    for v in out.violations:
        print(f"  {v['harness']}: {v['label']}: observed {v['observed']} vs {v['bound']}")
    if out.violations:
        print(f"VIOLATION property={pid} replay={out.violations[0]['path']}")
        sys.stdout.flush()
        return 1
    if errors:
        print("\n".join(errors))
    for s in out.inconclusive:
        print("UNDECIDED:", s[:400])
    for s in out.encoding_mismatch:
        print("ENCODING MISMATCH:", s)
    if out.discharged < 0.5 * max(1, out.obligations) or (errors and not out.harnesses):
        # not enough was decided for "held on everything explored" to mean anything
        print(f"NO ANSWER property={pid} {out.discharged}/{out.obligations} obligations decided, {len(errors)} errors")
        return 3
    for s in out.reduced:
        print("REDUCED BOUND:", s[:400])
    print(f"OK property={pid} {out.discharged}/{out.obligations} obligations, {solve.STAT['queries']} queries, {solve.STAT['time']:.1f}s solver, {wall:.1f}s wall")
    return 0


def replay(pid, mod, path, tier):
    import numpy as np
    from . import harness

    d = json.load(open(path))
    for H in mod.harnesses(tier):
        if H.name == d["harness"]:
            vals = {k: np.asarray(v, dtype=H.inputs[k].dtype) for k, v in d["inputs"].items()}
            if d["obligation"] == "raises":
                try:
                    H.concrete(vals)
                except Exception as e:
                    print(f"{type(e).__name__}: {e}")
                    if harness.from_repo(e):
                        print(f"VIOLATION property={pid} replay={path}")
                        return 1
                return 0
            harness.warm(H)
            got = H.concrete_check(vals, d["obligation"])
            print(got)
            if got:
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            return 0
    if hasattr(mod, "replay"):
        return mod.replay(d)
    print("unknown harness")
    return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc or 0)
