#!/bin/bash
# Builds the dependencies and checkers once, so that each check only has to rebuild what depends on /repo.
cd "$(dirname "$0")"
exec python3 - <<'P'
import sys, threading, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import check
from props import PROPS
cfgs = sorted({c for p in PROPS.values() for c in p["quick"]})
bad = []
def work(c):
    cfg = check.Cfg(c)
    if cfg.compiler:
        rc, o, e = check.run(["cargo", "check", "--offline", "--lib"], cfg.env(), 1500)
    elif cfg.miri:
        rc, o, e = check.run(cfg.build_cmd("c03"), dict(cfg.env(), MC_ONLY="-", MC_OUT=os.devnull), 1500)
    else:
        rc, o, e = check.run(["cargo", "build", "--offline", "--profile", cfg.profile, "--lib"] + cfg.args, cfg.env(), 1500)
    print(c, "ok" if rc == 0 else "FAILED: " + e[-2000:])
    if rc != 0:
        bad.append(c)
ts = [threading.Thread(target=work, args=(c,)) for c in cfgs]
[t.start() for t in ts]
[t.join() for t in ts]
# a tree that does not build is for the checks to judge
sys.exit(0)
P
