#!/usr/bin/env python3
"""check.py <property> --tier quick|thorough : exit 0 held, 1 VIOLATION, 2 error of the check."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import ROOT, Ctx, ToolError  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    c = checks.CHECKS[prop]
    t = time.time()
    ctx = Ctx(prop, tier, seed)
    try:
        c["run"](ctx)
    except ToolError as e:
        print(f"TOOL-ERROR property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples, explanation="; ".join(ctx.explanations), **ctx.extra)
    if c["level"] == "exploration":
        cov.setdefault("evaluations", ctx.traces)
        cov.setdefault("distinct_nontrivial", ctx.states)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=c["level"], coverage=cov,
                       assumptions=c.get("assumptions", []) + ctx.assumptions,
                       wall_s=round(time.time() - t, 2), violations=len(ctx.violations)), f, indent=1, default=str)
    for k in sorted(ctx.known_ids):
        # a listed finding is announced on every run; whether this run met it is in the evidence
        print(f"KNOWN-FINDING: property={prop} {k}: {ctx.known_ids[k]}")
    for what, path, finding in ctx.violations[:10]:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {what}"[:600] + (f" [finding {finding}]" if finding else ""))
    if not ctx.violations:
        print(f"OK property={prop} tier={tier} states={ctx.states} traces={ctx.traces} wall={time.time()-t:.1f}s")
    return 1 if ctx.violations else 0


if __name__ == "__main__":
    sys.exit(main())
