#!/usr/bin/env python3
"""show.py REPLAY...: prints the sources and the message of saved failures."""
import json, sys
for p in sys.argv[1:]:
    r = json.load(open(p))
    print("=====", p, r["message"][:600])
    for f, t in r["case"]["files"].items():
        print("--", f)
        print(t if isinstance(t, str) else str(t)[:300])
    for st in r["case"]["steps"]:
        print({k: (v if not isinstance(v, str) else v[:400]) for k, v in st.items()})
    for o in r["observed"]:
        print(o["rc"], repr(o["stdout"][:400]))
