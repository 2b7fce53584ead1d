"""Run TLC on recorded traces; normalise cases into the form the specification reads."""
import json, os, re, subprocess, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NULL = [-1]

def nn(x):
    return NULL if x is None else x

def norm_ent(e):
    return {"sys": nn(e["sys"]), "create": e.get("create", 0), "enc": nn(e.get("enc")),
            "seth": e.get("seth", []), "base": nn(e.get("base")), "ops": [norm_op(o) for o in e.get("ops", [])],
            "ret": e.get("ret", 1)}

def norm_op(o):
    o = list(o)
    return [nn(x) for x in o]

def norm_react(r):
    return [r[0], r[1], [nn(x) for x in r[2]]]

def norm_cfg(c):
    return {"h": c.get("h", []), "ns": c.get("ns", -1), "enc": nn(c.get("enc")), "triplet": c.get("triplet", 0),
            "foreign": c.get("foreign", 0), "pe": c.get("pe", 0), "base": nn(c.get("base")),
            "stret": c.get("stret", 1), "ents": [norm_ent(e) for e in c.get("ents", [])],
            "react": [norm_react(r) for r in c.get("react", [])],
            "unk": [{"name": u["name"], "map": u["map"], "conv": u.get("conv") or 0} for u in c.get("unk", [])],
            "pos": c.get("pos", 0), "rpos": c.get("rpos", 1), "wf": 0}

def mask(m):
    d = {"kinds": [], "names": 0, "res": 3, "pos": 2, "more": 0}
    d.update(m or {})
    return d

def run_tlc(module, cfgtext=None, env=None, workers=8, extra=(), timeout=3600, xss="512m", mem="12g"):
    """returns (rc, output)"""
    tmp = tempfile.mkdtemp(prefix="tlc.")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")): shutil.copy(os.path.join(SPEC, f), tmp)
        if cfgtext is not None: open(os.path.join(tmp, module + ".cfg"), "w").write(cfgtext)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss" + xss, "-Xmx" + mem, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(tmp, "st"), "-noGenerateSpecTE"] + list(extra) + [module]
        e = dict(os.environ); e.update(env or {})
        p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           universal_newlines=True, errors="replace")
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)

def validate(traces, workers=8, extra=(), keep=None):
    """traces: [{cfg, ops, out, mask}] (recorded); returns (verdicts, stats): verdicts[i] = "" or a text"""
    tmp = tempfile.mkdtemp(prefix="trace.")
    try:
        f = keep or os.path.join(tmp, "t.ndjson")
        with open(f, "w") as fh:
            for t in traces:
                fh.write(json.dumps({"cfg": norm_cfg(t["cfg"]), "ops": [norm_op(o) for o in t["ops"]],
                                     "out": t["out"], "mask": mask(t.get("mask"))}, separators=(",", ":")) + "\n")
        lines = open(f).read().splitlines(True) if keep is None else None
        v = [None] * len(traces)
        st = {"transitions": 0, "states": 0}
        todo = list(range(len(traces)))
        for attempt in range(40):
            if attempt:
                with open(f, "w") as fh: fh.writelines(lines[i] for i in todo)
            rc, out = run_tlc("Trace", env={"TRACE": f}, workers=workers, extra=extra)
            for m in re.finditer(r'^"(OK|BAD|OTHER) (\d+)(.*)"$', out, re.M):
                v[todo[int(m.group(2)) - 1]] = "" if m.group(1) == "OK" else "-" if m.group(1) == "OTHER" else m.group(3).strip().replace('\\"', '"')
            m = STATS.findall(out)
            if m: st["transitions"] += int(m[-1][0]); st["states"] += int(m[-1][1])
            if rc == 0 and all(x is not None for x in v): return v, st
            # A recorded value that cannot even be compared with the expected one (it is of another type) stops TLC.  What the
            # specification computes does not depend on what was recorded, so that this cannot happen to a conforming run.
            ids = re.findall(r"^(?:/\\ )?id = (\d+)", out, re.M)
            if rc != 75 or "Attempted to" not in out or not ids or keep: break
            v[todo[int(ids[-1]) - 1]] = "a recorded value of another kind than the expected one"
            todo = [i for i in todo if v[i] is None]
            if attempt > 10:
                for i in todo: v[i] = "-"
                return v, st
            if not todo: return v, st
        bad = [i for i, x in enumerate(v) if x is None]
        raise RuntimeError("TLC failed (rc %d, %d undecided, first %s):\n%s" % (rc, len(bad), bad[:3], (lambda k: out[max(0, k - 200):k + 3000])(out.find("Error:"))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
