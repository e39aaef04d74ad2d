#!/usr/bin/env python3
"""triage.py PROP N SEED [MAXFAIL]: collects several failures, shrinks each, prints them."""
import os, sys, random, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vlib import engine, build as B
from vlib.farm import Farm
prop, n, seed = sys.argv[1].lower(), int(sys.argv[2]), int(sys.argv[3])
maxf = int(sys.argv[4]) if len(sys.argv) > 4 else 5
ss = float(sys.argv[5]) if len(sys.argv) > 5 else 20
exe, sysapl, _ = B.build_april()
os.environ["APRIL_EXE"], os.environ["APRIL_SYS"] = exe, sysapl
t0 = time.time()
with Farm(8) as pool:
    rs = [r for r in pool.map(engine._one, [(prop, seed, k, "quick") for k in range(n)]) if r]
    fails = [r for r in rs if r.get("msg")]
    rej = sum(1 for r in rs if r.get("reject"))
    tags = {}
    for r in rs:
        for t, c in r.get("tags", {}).items():
            tags[t] = tags.get(t, 0) + c
    print("%d cases, %d rejected, %d failed, %.1f s" % (len(rs), rej, len(fails), time.time() - t0))
    print(tags)
    kinds = {}
    for r in sorted(fails, key=lambda r: r["ndraws"]):
        kinds.setdefault(engine.kind_of(r["msg"]), []).append(r)
    print({k: len(v) for k, v in kinds.items()})
    todo = []
    while any(kinds.values()) and len(todo) < maxf:
        for k in list(kinds):
            if kinds[k]:
                todo.append(kinds[k].pop(0))
    seen = set()
    engine._load(prop)
    for r in todo[:maxf]:
        cur = engine.shrink(pool, prop, r["choices"], "quick", r["k"], ss, lambda m: None, engine.kind_of(r["msg"]))
        if cur is None:
            print("UNSTABLE", r["k"], r["msg"][:300]); continue
        src = engine.Src(None, cur[0]); src.tier, src.index = "quick", r["k"]
        c = engine.make_case(engine._gen.gen, src)
        txt = "\n".join(t for t in c["files"].values() if isinstance(t, str))
        if txt in seen: continue
        seen.add(txt)
        print("=" * 30, r["k"], cur[2][:500])
        print("\n".join(l for l in txt.split("\n") if l.strip() and not l.startswith(("import", "using"))))
