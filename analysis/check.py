"""check.py PROPERTY: decides one property on /repo's current source.

Exit 0: no violation.  Exit 1 with a VIOLATION line: an obligation is refuted."""
import json
import os
import sys
import time
import collections
import concurrent.futures

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
from mir import Prog
from contracts import Ctx
import registry

TRUST = [
    "the MIR that rustc's nightly front end builds from the source means what the source means",
    "the driver's dump of that MIR and the abstract interpreter's transfer functions and models of std in analysis/",
    "no allocation is larger than 2^56 bytes",
]


def known(pid):
    out = []
    p = os.path.join(build.VERIF, "findings", "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                j = json.loads(line)
                if j.get("property") == pid and j.get("status") == "open":
                    out.append(j)
    return out


_prog = {}


def task(t):
    """decides the obligations of one function in one configuration"""
    pid, cfg, path, n, name, tier, deadline = t
    if path not in _prog:
        _prog[path] = Prog(path)
    ctx = Ctx(_prog[path], cfg)
    ctx.tier = tier
    ctx.deadline = deadline
    cls, _ = registry.PROPS[pid]["rules"][n]
    cls(ctx).run(name)
    gate = registry.PROPS[pid].get("gate")
    if gate and any(r.status == "refuted" for r in ctx.results) and not gate(cls, _prog[path], cfg):
        # the private layout is no longer the one that the query is judged by
        for r in ctx.results:
            if r.status == "refuted":
                r.status = "weak"
    return cfg, ctx.results, dict(ctx.stats)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = registry.PROPS[pid]
    kf = known(pid)
    rows = []
    stats = collections.Counter()
    cfgs = spec.get("configs") or list(build.CONFIGS)
    tasks = []
    for cfg in cfgs:
        path = build.dump(cfg)
        for n, rule in enumerate(spec["rules"]):
            tasks += [(pid, cfg, path, n, name, tier, t0 + 780) for name in rule[1]]
    with concurrent.futures.ProcessPoolExecutor(max_workers=min(len(tasks), os.cpu_count() or 1)) as pool:
        for cfg, res, st in pool.map(task, tasks):
            stats.update(st)
            rows += [(cfg, r) for r in res]
    cnt = collections.Counter(r.status for _, r in rows)
    bad = []
    found = {}
    for cfg, r in rows:
        if r.status != "refuted":
            continue
        for k in kf:
            if k["function"] == r.fn and k["obligation"] == r.what:
                found[(k["function"], k["obligation"])] = k
                break
        else:
            bad.append((cfg, r))
    for k in found.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    undecided = [(c, r) for c, r in rows if r.status in ("unknown", "weak")]
    perfn = {}
    for cfg, r in rows:
        d = perfn.setdefault(r.fn, collections.Counter())
        d[r.status] += 1
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": spec["explain"],
            "configurations": cfgs,
            "functions": len(perfn),
            "abstract_paths": stats["paths"],
            "obligations": len(rows),
            "discharged": cnt["proved"],
            "undecided": len(undecided),
            "refuted": cnt["refuted"],
            "per_function": {f: dict(c) for f, c in sorted(perfn.items())},
            "undecided_list": [{"config": c, "function": r.fn, "obligation": r.what, "status": r.status, "detail": r.detail[:300]} for c, r in undecided][:200],
            "samples": [{"function": r.fn, "obligation": r.what, "result": r.status, "detail": r.detail[:200]} for _, r in rows[:8]],
        },
        "assumptions": TRUST + spec.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    json.dump(ev, open(os.path.join(build.VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d obligations over %d functions (%s): %d proved, %d undecided, %d refuted [%.1fs]" % (
        pid, len(rows), len(perfn), ", ".join(cfgs), cnt["proved"], len(undecided), cnt["refuted"], time.time() - t0))
    if "-v" in sys.argv:
        for c, r in undecided:
            print("  undecided [%s] %s: %s: %s %s" % (c, r.fn, r.what, r.status, r.detail[:200]))
    if bad:
        os.makedirs(os.path.join(build.CACHE, "reports"), exist_ok=True)
        rep = os.path.join(build.CACHE, "reports", pid + ".txt")
        with open(rep, "w") as f:
            for c, r in bad:
                line = "[%s] %s: obligation '%s' is violated: %s%s" % (c, r.fn, r.what, r.detail, " at %s" % (r.site,) if r.site else "")
                f.write(line + "\n")
                print(line)
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
