#!/usr/bin/env python3
"""Decides one property: builds the model checker of that property against /repo's current working tree in every
configuration listed for it in props.py, runs it, and reports.  See DESIGN.md.

  check.py C03 [--tier quick|thorough]     exit 0: held; 1: VIOLATION line; 2: no answer (error of the check)
  check.py --replay out/C03.json           re-runs exactly the execution recorded in a replay file
"""
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402

MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}
# errors that mean "the public API no longer offers this", as opposed to a harness that is broken in itself
API_ERRORS = {"E0277", "E0599", "E0271", "E0369", "E0308", "E0080", "E0432", "E0433", "E0425", "E0412", "E0603",
              "E0382", "E0507", "E0596", "E0608", "E0600", "E0368", "E0614", "E0624", "E0616", "E0107", "E0061", "E0505"}


class Cfg:
    """A build configuration, written profile[+features]: release0, checked, release0+std, checked+none, miri, ..."""

    def __init__(self, text, wide=False):
        self.text = text + ("+wide" if wide and text not in ("miri", "compiler") else "")
        parts = text.split("+")
        self.profile = parts[0]
        self.miri = self.profile == "miri"
        self.compiler = self.profile == "compiler"
        feats = parts[1:]
        self.args = []
        sub = "default"
        if feats:
            self.args = ["--no-default-features"]
            names = [f for f in feats if f != "none"]
            if names:
                self.args += ["--features", ",".join(names)]
            sub = "-".join(feats)
        if wide and not self.miri and not self.compiler:
            self.args += ["--features", "wide"]
            sub += "-wide"
        if self.compiler:
            sub = "misuse"
        if self.miri:
            sub = "miri"
        self.target = os.path.join(TARGET, sub)

    def env(self):
        e = dict(os.environ)
        e["CARGO_TARGET_DIR"] = self.target
        e["CARGO_NET_OFFLINE"] = "true"
        e.pop("RUSTFLAGS", None)
        if self.miri:
            e["MIRIFLAGS"] = MIRIFLAGS
        return e

    def build_cmd(self, binary):
        if self.miri:
            # there is no `cargo miri build`; with MC_ONLY=- the program runs nothing
            return ["cargo", "+nightly", "miri", "run", "--offline", "--bin", binary] + self.args
        return ["cargo", "build", "--offline", "--profile", self.profile, "--bin", binary] + self.args

    def run_cmd(self, binary):
        if self.miri:
            return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", binary] + self.args
        return [os.path.join(self.target, self.profile, binary)]


def forget_rowcol(target):
    """Cargo trusts modification times; this check does not: the crate under test is always rebuilt."""
    for root, dirs, _ in os.walk(target):
        if os.path.basename(root) == ".fingerprint":
            for d in dirs:
                if re.fullmatch(r"rowcol-[0-9a-f]{16}", d):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            dirs[:] = []
        elif root.count(os.sep) - target.count(os.sep) > 4:
            dirs[:] = []


def limit(gb=24):
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, env, timeout, gb=24):
    """(returncode or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=MC, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", preexec_fn=lambda: limit(gb), start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


class Result:
    def __init__(self, cfg):
        self.cfg = cfg
        self.kind = "error"      # ok | violation | error
        self.data = {}
        self.message = ""
        self.build_s = self.run_s = 0.0


def repo_builds(cfg):
    feats = []
    if "--no-default-features" in cfg.args:
        feats = [a for a in cfg.args if a != "wide" and a != "--features"]
        feats = ["--no-default-features"] + (["--features", ",".join(f for f in feats if not f.startswith("--"))] if len(feats) > 1 else [])
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "repo"), CARGO_NET_OFFLINE="true")
    rc, _, _ = run(["cargo", "build", "--offline", "--manifest-path", "/repo/Cargo.toml"] + feats, env, 600)
    return rc == 0


def one(prop, binary, cfg, tier, only=None, timeout=800, tag=""):
    """Builds and runs the checker of `prop` in one configuration."""
    r = Result(cfg)
    t = time.time()
    rc, o, e = run(cfg.build_cmd(binary), dict(cfg.env(), MC_ONLY="-", MC_OUT=os.devnull), 800)
    r.build_s = time.time() - t
    if rc != 0 and not cfg.miri:
        codes = set(re.findall(r"^error\[(E\d+)\]", e, re.M))
        in_harness = "could not compile `rowcol-mc`" in e
        if in_harness and codes and codes <= API_ERRORS and repo_builds(cfg):
            r.kind = "violation"
            r.data = {"harness": "(compilation)", "script": [], "index": 0, "trace": e[max(0, e.find("\nerror")):].splitlines()[:60],
                      "message": "code that uses the public API as documented no longer compiles: " + ", ".join(sorted(codes))}
        else:
            r.message = "build failed:\n" + e[-3000:]
        return r
    if rc != 0 and cfg.miri:
        r.message = "build under miri failed:\n" + e[-3000:]
        return r
    out = os.path.join(OUT, "%s.%s%s.json" % (prop, cfg.text, tag))
    if os.path.exists(out):
        os.remove(out)
    env = cfg.env()
    env.update({"MC_OUT": out, "VERIF_TIER": tier, "MC_TRANSCRIPT": os.path.join(OUT, "%s.%s.transcript" % (prop, cfg.text))})
    env.update(only or {})
    t = time.time()
    if cfg.miri:
        env["MC_JOURNAL"] = out + ".journal"
    if cfg.miri and not only:
        rc, o, e, out = shards(cfg, binary, env, timeout, out, r)
    else:
        rc, o, e = run(cfg.run_cmd(binary), env, timeout, 24 if cfg.miri else 6)
    r.run_s = time.time() - t
    r.stdout = o
    if rc == 0 and os.path.exists(out):
        r.data = json.load(open(out))
        r.kind = "ok" if r.data.get("ok") else "error"
        return r
    if rc == 0 and only:
        r.kind = "ok"
        return r
    if rc == 10 and os.path.exists(out):
        r.data = json.load(open(out))
        r.kind = "violation"
        return r
    if cfg.miri and "Undefined Behavior" in e:
        r.kind = "violation"
        at = re.findall(r"^\s*--> (\S+)", e, re.M)
        msg = re.search(r"error: (Undefined Behavior:.*)", e).group(1)
        r.data = {"message": "%s (at %s)" % (msg, ", ".join(at[:2])), "trace": e.splitlines()[:60]}
        r.data.update(journal(out + ".journal"))
        return r
    if rc is not None and rc < 0 and -rc in CRASH and not only:
        # once more on one thread, writing every decision down before taking it
        env.update({"MC_THREADS": "1", "MC_JOURNAL": out + ".journal"})
        rc2, o2, e2 = run(cfg.run_cmd(binary), env, 300, 6)
        if rc2 == 10 and os.path.exists(out):
            r.data = json.load(open(out))
        else:
            r.data = {"message": "the process died with %s while running the code under test: %s"
                                 % (signal.Signals(-rc).name, (e2 or e).strip()[-300:]), "trace": []}
            r.data.update(journal(out + ".journal"))
        r.kind = "violation"
        return r
    if rc is not None and rc < 0 and -rc in CRASH:
        r.kind = "violation"
        r.data = {"message": "the process died with " + signal.Signals(-rc).name, "trace": [], "harness": "", "script": [], "index": 0}
        return r
    r.message = "checker ended with %s after %.0f s:\n%s\n%s" % (rc, r.run_s, o[-1000:], e[-3000:])
    return r


BORROW = {"misuse": {"E0499", "E0502", "E0503", "E0505", "E0506", "E0597", "E0515", "E0716", "E0382"}, "share": {"E0277"}}


def misuse():
    """Programs that the compiler must refuse, because what they do with the public API would reach outside of live elements."""
    r = Result(Cfg("compiler"))
    src = open(os.path.join(MC, "src", "bin", "c01_borrow.rs")).read().splitlines()
    t = time.time()
    def cargo(what, binary, feats):
        return run(["cargo", what, "--offline", "--bin", binary, "--message-format=json"] + (["--features", feats] if feats else []), r.cfg.env(), 600)
    total = {"ok": True, "harnesses": [], "samples": [], "bounds": {}}
    for binary in ("c01_borrow", "c01_foreign"):
        rc, o, e = cargo("check", binary, "")
        if rc != 0:
            r.message = "the control of %s does not compile:\n%s" % (binary, e[-2000:])
            return r
    for feat, codes in sorted(BORROW.items()):
        want = {i + 1 for i, l in enumerate(src) if " // ! " in l and '"%s"' % feat in l}
        got, other = set(), []
        _, o, e = cargo("check", "c01_borrow", feat)
        for l in o.splitlines():
            m = json.loads(l) if l.startswith("{") else {}
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or "c01_borrow" not in m["target"]["name"]:
                continue
            code = (m["message"].get("code") or {}).get("code")
            if code in codes:
                got |= {s["line_start"] for s in m["message"]["spans"] if s["is_primary"]}
            elif code:
                other.append(m["message"].get("rendered", code))
        if other or not want:
            r.message = "unexpected errors in c01_borrow: " + "\n".join(other)[:2000]
            return r
        name = {"misuse": "borrows end before what they refer to", "share": "elements that may not cross threads"}[feat]
        bad = sorted(want - got)
        if bad:
            r.kind = "violation"
            r.data = {"harness": name, "index": bad[0], "script": [], "trace": [src[i - 1] for i in bad[:40]],
                      "message": "the compiler accepts: " + src[bad[0] - 1].split(" // ! ")[1]}
            return r
        total["harnesses"].append({"name": name, "executions": len(want), "transitions": len(want), "states": len(want), "outcomes": len(codes),
                                   "nontrivial": len(want), "max_decisions": 1})
        total["bounds"][name] = "%d programs, each of which the compiler must refuse" % len(want)
    # array types chosen outside the library: refused, or harmless under Miri
    rc, o, e = cargo("check", "c01_foreign", "foreign")
    if rc == 0:
        miri = Cfg("miri")
        rc, o, e = run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", "c01_foreign", "--features", "foreign"], miri.env(), 600)
        if "Undefined Behavior" in e:
            r.kind = "violation"
            r.data = {"harness": "array types from outside", "index": 0, "script": [], "trace": e.splitlines()[:60],
                      "message": "safe code can choose the array type of a length: " + re.search(r"error: (Undefined Behavior:.*)", e).group(1)}
            return r
        if rc != 0:
            r.message = "c01_foreign under miri: " + e[-2000:]
            return r
    total["harnesses"].append({"name": "array types from outside", "executions": 1, "transitions": 1, "states": 1, "outcomes": 1, "nontrivial": 1, "max_decisions": 1})
    r.kind, r.data, r.run_s = "ok", total, time.time() - t
    return r


SHAPE_CODES = {"E0308", "E0277", "E0271", "E0599", "E0369", "E0368", "E0061"}
NAME_CODES = {"E0433", "E0432", "E0412", "E0425", "E0405", "E0573", "E0574", "E0223", "E0282", "E0283", "E0107", "E0423", "E0532"}
SHAPE_NAMES = {"n": "macros under other names", "+": "well-shaped programs", "!": "ill-shaped programs"}


def shapes():
    """Programs that combine shapes: the well-shaped ones must compile, the others must not."""
    r = Result(Cfg("compiler"))
    t = time.time()
    rc, o, e = run([sys.executable, os.path.join(HERE, "tools", "gen_shapes.py")], dict(os.environ), 100)
    if rc != 0:
        r.message = "gen_shapes.py: " + e[-2000:]
        return r
    src = open(os.path.join(MC, "src", "bin", "c22_shapes.rs")).read().splitlines()
    want = {"+": {i + 1 for i, l in enumerate(src) if " // + " in l}, "!": {i + 1 for i, l in enumerate(src) if " // ! " in l}}
    total = {"ok": True, "harnesses": [], "samples": [], "bounds": {}}

    def check(binary, feats):
        rc, o, e = run(["cargo", "check", "--offline", "--bin", binary, "--message-format=json"] + (["--features", feats] if feats else []), r.cfg.env(), 700)
        got, early, codes, other = {}, {}, set(), []
        for l in o.splitlines():
            m = json.loads(l) if l.startswith("{") else {}
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            code = (m["message"].get("code") or {}).get("code")
            if m["target"]["name"] != binary or code and code not in SHAPE_CODES | {"E0275"} | (NAME_CODES if binary == "c22_names" else set()):
                other.append(m["message"].get("rendered", str(code)))
                continue
            codes.add(code or "error")
            for s in m["message"]["spans"]:
                while s["is_primary"] and s.get("expansion"):
                    s = dict(s["expansion"]["span"], is_primary=True)
                if s["is_primary"]:
                    (got if code else early).setdefault(s["line_start"], m["message"]["message"])
        return rc, got, early, codes, other, e

    def alarm(kind, lines, message, text=src):
        r.kind = "violation"
        r.data = {"harness": SHAPE_NAMES[kind], "index": lines[0], "script": [], "trace": [text[i - 1] for i in lines[:40]], "message": message}
        return r

    # the well-shaped programs alone
    rc, got, early, codes, other, e = check("c22_shapes", "")
    got.update(early)
    bad = sorted(want["+"] & set(got))
    if bad:
        return alarm("+", bad, "the compiler refuses: %s (%s)" % (src[bad[0] - 1].split(" // + ")[1], got[bad[0]]))
    if rc != 0 or other:
        r.message = "the well-shaped programs do not compile:\n%s\n%s" % ("\n".join(other)[:2000], e[-2000:])
        return r
    # all of them; those refused before types are looked at (a macro that does not expand) hide the rest and are set aside
    refused = {}
    for _ in range(3):
        rc, got, early, codes, other, e = check("c22_shapes", "illshaped")
        refused.update(got)
        refused.update(early)
        if not early or other:
            break
        with open(os.path.join(MC, "src", "bin", "c22_shapes.rs"), "w") as f:
            f.write("\n".join("" if i + 1 in early and i + 1 in want["!"] else l for i, l in enumerate(src)) + "\n")
    bad = sorted(want["!"] - set(refused))
    if other or early and bad:
        r.message = "unexpected errors in c22_shapes: " + "\n".join(other)[:2000] + e[-2000:]
        return r
    if bad:
        return alarm("!", bad, "the compiler accepts: " + src[bad[0] - 1].split(" // ! ")[1])
    names = open(os.path.join(MC, "src", "bin", "c22_names.rs")).read().splitlines()
    want["n"] = {i + 1 for i, l in enumerate(names) if " // + " in l}
    rc, got, early, _, other, e = check("c22_names", "")
    got.update(early)
    bad = sorted(want["n"] & set(got))
    if bad:
        return alarm("n", bad, "the compiler refuses: %s (%s)" % (names[bad[0] - 1].split(" // + ")[1], got[bad[0]]), names)
    if rc != 0 or other:
        r.message = "c22_names: %s\n%s" % ("\n".join(other)[:2000], e[-2000:])
        return r
    rc0, _, _, _, _, e0 = check("c22_zero", "")
    rc1, _, _, zcodes, other, e = check("c22_zero", "illshaped")
    if rc0 != 0 or rc1 != 0 and (other or not zcodes):
        r.message = "c22_zero: " + (e0 if rc0 else e)[-2000:]
        return r
    if rc1 == 0:
        r.kind = "violation"
        r.data = {"harness": SHAPE_NAMES["!"], "index": 0, "script": [], "trace": ["Vector<i32, U3>::into_chunks::<U0>()"],
                  "message": "the compiler accepts: vector of length 3 in chunks of 0"}
        return r
    for k, extra, text in (("+", 0, src), ("!", 1, src), ("n", 0, names)):
        n = len(want[k]) + extra
        total["harnesses"].append({"name": SHAPE_NAMES[k], "executions": n, "transitions": n, "states": n, "outcomes": len(codes) if k == "!" else 1,
                                   "nontrivial": n, "max_decisions": 1})
        lines = sorted(want[k])
        total["samples"] += [{"harness": SHAPE_NAMES[k], "trace": text[i - 1]} for i in lines[::len(lines) // 4]]
        total["bounds"][SHAPE_NAMES[k]] = "%d programs, each of which the compiler must %s" % (n, "refuse" if k == "!" else "accept")
    r.kind, r.data, r.run_s = "ok", total, time.time() - t
    return r


SHARDS = 8


def shards(cfg, binary, env, timeout, out, r):
    """The interpreter has one thread: the decision tree is split over several processes."""
    res = [None] * SHARDS

    def work(i):
        p = "%s.%d" % (out, i)
        if os.path.exists(p):
            os.remove(p)
        res[i] = run(cfg.run_cmd(binary), dict(env, MC_SHARD="%d/%d" % (i, SHARDS), MC_OUT=p, MC_JOURNAL=p + ".journal"), timeout)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(SHARDS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for i, (rc, o, e) in enumerate(res):
        if rc != 0:
            return rc, o, e, "%s.%d" % (out, i)
    total = {"ok": True, "harnesses": [], "samples": [], "bounds": {}}
    for i in range(SHARDS):
        d = json.load(open("%s.%d" % (out, i)))
        total["bounds"].update(d["bounds"])
        for h in d["harnesses"]:
            old = [x for x in total["harnesses"] if x["name"] == h["name"]]
            if not old:
                total["harnesses"].append(h)
            else:
                for f in ("executions", "transitions", "nontrivial"):
                    old[0][f] += h[f]
                for f in ("states", "outcomes", "max_decisions"):
                    old[0][f] = max(old[0][f], h[f])
    json.dump(total, open(out, "w"))
    return 0, "", "", out


def journal(path):
    d = {"harness": "", "script": [], "index": 0}
    try:
        d["harness"] = open(path + ".harness").read()
        i, s = open(path).read().strip().split(" ", 1)
        d["index"], d["script"] = int(i), json.loads(s)
    except (OSError, ValueError):
        pass
    return d


def known(prop):
    """Lines `property=<id> :: <harness> :: <text that the message contains>`; lines starting `fixed:` suppress nothing."""
    ks = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("property=%s ::" % prop):
                _, h, t = [x.strip() for x in l.split("::", 2)]
                ks.append((h, t, l))
    return ks


def compare(prop, results):
    """C20: the transcripts of all configurations must be the same."""
    def load(r):
        d = {}
        for l in open(os.path.join(OUT, "%s.%s.transcript" % (prop, r.cfg.text))):
            k, _, v = l.rstrip("\n").partition("\t")
            d[k] = v
        return d
    base = results[0]
    a = load(base)
    n = 0
    for r in results[1:]:
        b = load(r)
        for k in sorted(set(a) | set(b)):
            if (k not in a or k not in b) and k.startswith("only "):
                continue
            n += 1
            if a.get(k) != b.get(k):
                return n, {"harness": k.split(" :: ")[0], "script": [], "index": 0, "trace": ["%s: %s" % (base.cfg.text, a.get(k)), "%s: %s" % (r.cfg.text, b.get(k))],
                           "message": "%s: built as %s the outcome is %s, built as %s it is %s" % (k, base.cfg.text, a.get(k), r.cfg.text, b.get(k))}
    return n, None


def main():
    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    for d in (OUT, EVID, TARGET):
        os.makedirs(d, exist_ok=True)
    cfgs = [Cfg(c, wide=(tier == "thorough")) for c in spec.get(tier, spec["quick"])]
    for t in {c.target for c in cfgs}:
        forget_rowcol(t)
    forget_rowcol(os.path.join(TARGET, "repo"))
    results = [None] * len(cfgs)
    budget = 800 if tier == "quick" else 6 * 3600
    sem = threading.Semaphore(spec.get("parallel", 4))

    def work(i):
        with sem:
            try:
                results[i] = {"C22": shapes}.get(prop, misuse)() if cfgs[i].compiler else one(prop, spec.get("bin", prop.lower()), cfgs[i], tier, timeout=budget)
            except Exception as x:  # an error of the check, never an answer
                r = Result(cfgs[i])
                r.message = repr(x)
                results[i] = r
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(cfgs))]
    [t.start() for t in ts]
    [t.join() for t in ts]

    compared = None
    if spec.get("transcripts") and all(r.kind == "ok" for r in results):
        compared, diff = compare(prop, results)
        if diff:
            r = Result(Cfg("+".join(["all"])))
            r.kind, r.data = "violation", diff
            results.append(r)

    viol, listed = [], []
    for r in results:
        if r.kind == "violation":
            k = [x for x in known(prop) if x[0] == r.data.get("harness") and x[1] in r.data.get("message", "")]
            (listed if k else viol).append((r, k))
    errors = [r for r in results if r.kind == "error"]
    evidence(prop, spec, tier, seed, results, len(viol), compared, time.time() - t0)
    for r, k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
    for r in results:
        print("%s %-16s %-9s build %.1f s run %.1f s, %d executions" % (
            prop, r.cfg.text, r.kind, r.build_s, r.run_s, sum(h["executions"] for h in r.data.get("harnesses", []))))
    if viol:
        r = viol[0][0]
        path = os.path.join(OUT, "%s.replay.json" % prop)
        d = dict(r.data)
        d.update({"property": prop, "config": r.cfg.text, "tier": tier,
                  "how_to_replay": "python3 check.py --replay " + os.path.relpath(path, HERE)})
        json.dump(d, open(path, "w"), indent=1)
        print("  [%s] %s: %s" % (r.cfg.text, d.get("harness"), d.get("message")))
        for n in d.get("trace", [])[:20]:
            print("    " + n)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for r in errors:
            print("ERROR [%s] %s" % (r.cfg.text, r.message))
        return 2
    return 0


def evidence(prop, spec, tier, seed, results, violations, compared, wall):
    hs = {}
    total_exec = total_trans = 0
    per_cfg = {}
    samples, bounds = [], {}
    for r in results:
        n = 0
        for h in r.data.get("harnesses", []):
            a = hs.setdefault(h["name"], {"executions": 0, "transitions": 0, "states": 0, "outcomes": 0, "distinct_executions": 0, "nontrivial": 0, "max_decisions": 0})
            a["executions"] += h["executions"]
            a["transitions"] += h["transitions"]
            for f in ("states", "outcomes", "nontrivial", "max_decisions"):
                a[f] = max(a[f], h[f])
            a["distinct_executions"] = max(a["distinct_executions"], h["executions"])
            n += h["executions"]
            total_exec += h["executions"]
            total_trans += h["transitions"]
        per_cfg[r.cfg.text] = {"executions": n, "build_s": round(r.build_s, 1), "run_s": round(r.run_s, 1), "result": r.kind}
        if not samples:
            samples = r.data.get("samples", [])[:8]
        bounds.update({("%s: %s" % (r.cfg.text, k) if r.cfg.miri else k): v for k, v in r.data.get("bounds", {}).items()})
    if not samples:
        samples = [{"violation": r.data} for r in results if r.kind == "violation"][:1] or [{"none": "no execution completed"}]
    cov = {
        # a harness that keeps no abstract state contributes its distinct executions (each is a distinct input)
        "states": sum(a["states"] or a["distinct_executions"] for a in hs.values()),
        "transitions": total_trans,
        "traces_validated_against_impl": total_exec,
        "evaluations": total_exec,
        "distinct_nontrivial": sum(a["nontrivial"] for a in hs.values()),
        "rule": spec["rule"] + "  Every decision sequence is executed once per build configuration on the real code; "
                "an execution is non-trivial when at least one step of the library was compared with the model.",
        "exhaustive": violations == 0 and all(r.kind == "ok" for r in results),
        "bounds": bounds, "harnesses": hs, "configurations": per_cfg, "samples": samples,
    }
    if compared is not None:
        cov["transcript_entries_compared"] = compared
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
               "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations},
              open(os.path.join(EVID, prop + ".json"), "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    spec = PROPS[prop]
    if d["config"] in ("all", "compiler") or d.get("harness") in ("", "(compilation)"):
        print("this violation is not a single execution: re-running the whole check")
        sys.argv[1:] = [prop, "--tier", d["tier"]]
        return main()
    cfg = Cfg(d["config"].replace("+wide", ""), wide="+wide" in d["config"])
    forget_rowcol(cfg.target)
    only = {"MC_ONLY": d["harness"]}
    only["MC_SCRIPT"] = ",".join(map(str, d["script"])) or "-"
    only["MC_INDEX"] = str(d["index"])
    r = one(prop, spec.get("bin", prop.lower()), cfg, d["tier"], only, tag=".replayed")
    print(getattr(r, "stdout", ""))
    if r.kind == "violation":
        print(r.data.get("message"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print(r.message or "no violation on the current tree")
    return 0 if r.kind == "ok" else 2


if __name__ == "__main__":
    sys.exit(main())
