"""Development aid: decide every core property in one pass over a tree.
Usage: SA_REPO=<tree> /opt/venv/bin/python tools/allprops.py [group ...]"""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
from sa import props, reset, runner, spec           # noqa: E402
from sa.check import Checker                        # noqa: E402
from sa.main import Outcome, warl                   # noqa: E402


def main():
    t0 = time.time()
    chk = Checker()
    chk.gpr_row()
    bad = {}

    def take(pid, f):
        d = f if isinstance(f, dict) else vars(f)
        bad.setdefault(pid, []).append(
            f"{d['cls']}/{d['regime']}/{d['aspect']}: {d['what'][:200]}")
    lf, ln, words = chk.boundary_lemma()
    for f in lf:
        take("lemma", f)
    chk.csr_views()
    for f in chk.view_findings:
        take("views", f)
    rf, _ = reset.analyse(chk)
    for f in rf:
        take("reset", f)
    o = Outcome()
    warl(chk, o, "quick")
    for k, t in o.findings:
        bad.setdefault("warl", []).append(t)
    cl = [c for c in spec.all_classes()
          if not sys.argv[1:] or c.group in sys.argv[1:]]
    recs = runner.run_classes(
        chk, cl, None, ("progress", "handshake", "taint", "cycles"), 200)
    und = [(r["name"], r["undecided"].strip().splitlines()[-1])
           for r in recs if r["undecided"]]
    by = {c.name: c for c in cl}
    for r in recs:
        for f in r["findings"]:
            for pid in props.P:
                if props.concerns(pid, by[r["name"]], f):
                    take(pid, f)
    slow = sorted(((r["wall"], r["name"]) for r in recs), reverse=True)[:3]
    print(f"{time.time() - t0:.0f}s classes={len(cl)} undecided={und[:5]} "
          f"slow={slow} properties={sorted(bad)}")
    for k, v in sorted(bad.items()):
        print(" ", k, len(v), v[0][:300])
    return bool(bad or und)


if __name__ == "__main__":
    sys.exit(main())
