#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]

Decides one property of /repo's working tree: builds the library, runs the property's scenarios on it, and has TLC
check the recorded traces against the TLA+ specification.  Exit 0: held on everything explored.  Exit 1 and a line
'VIOLATION property=<id> replay=<file>': broken.  Exit 2: the check itself could not do its work."""
import json, os, random, subprocess, sys, time, hashlib, copy

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
os.environ["RUST_BACKTRACE"] = "0"
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(HERE, ".build")

class ToolError(Exception): pass

def build():
    p = subprocess.run([os.path.join(HERE, "harness", "build_lib.sh")], stdout=subprocess.PIPE, text=True)
    if p.returncode != 0: raise ToolError("build failed")
    os.environ["RX_LIB"] = p.stdout.strip().splitlines()[-1]

def group_runs(groups):
    out = []
    for gi, g in enumerate(groups):
        for part in ("bases", "runs"):
            for ri, c in enumerate(g[part]): out.append((gi, part, ri, c))
    return out

def corrupted(trace):
    """a recorded trace with one recorded field changed, which the specification must then reject; or None"""
    m = trace.get("mask", {})
    t = copy.deepcopy(trace)
    res, kinds = m.get("res", 3), m.get("kinds", [])
    if m.get("pos", 2) != 1 and kinds != ["-"]:
        for o in t["out"]:
            for i, e in enumerate(o["ev"]):
                if e[0] in ("se", "ee", "pi", "ns", "en", "al", "no", "sk") and (not kinds or e[0] in kinds):
                    del o["ev"][i]
                    return t
    if res >= 1 and m.get("pos", 2) != 1:
        for op, o in zip(t["ops"], t["out"]):
            if op[0] in ("parse", "pbuf") and len(o["res"]) >= 2:
                o["res"][0] = 1 - o["res"][0] if o["res"][0] in (0, 1) else 0
                return t
    if m.get("pos", 2) >= 1 and res >= 3:
        for op, o in zip(t["ops"], t["out"]):
            if op[0] in ("parse", "pbuf") and len(o["res"]) >= 4 and o["res"][0] == 1 and o["res"][3]:
                o["res"][3][2] += 1
                return t
    return None

def judge(groups, tier, stats, tag):
    """run and validate; returns list of (group index, text)"""
    import rx, tlc
    runs = group_runs(groups)
    t = time.time()
    tmp = os.path.join(BUILD, "run.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        rs = rx.run_cases([r[3] for r in runs], tmp)
    finally:
        subprocess.run(["rm", "-rf", tmp])
    stats["impl_s"] += time.time() - t
    verdict = [None] * len(runs)
    traces, where = [], []
    for i, (r, x) in enumerate(zip(runs, rs)):
        if "crash" in x:
            verdict[i] = "the library did not return: %s %s" % (x["crash"], first_line(x.get("msg", "")))
        else:
            traces.append(dict(r[3], out=x["out"])); where.append(i)
    # binding self check: corrupted recordings, which have to be rejected
    probes = []
    for tr in traces:
        if len(probes) >= 5: break
        c = corrupted(tr)
        if c is not None: probes.append(c)
    t = time.time()
    if traces:
        v, st = tlc.validate(traces + probes, workers=8)
        stats["tlc_s"] += time.time() - t
        stats["states"] += st["states"]; stats["transitions"] += st["transitions"]
        for i, x in zip(where, v): verdict[i] = "" if x == "-" else x
        stats["other"] += sum(1 for x in v[:len(traces)] if x == "-")
        stats["accepted"] += sum(1 for x in v[:len(traces)] if x == "")
        bad = [i for i, (p, x) in enumerate(zip(probes, v[len(traces):])) if x == ""]
        if bad: raise ToolError("self check: a corrupted recording was accepted: " + json.dumps(probes[bad[0]])[:2000])
        stats["probes_rejected"] += len(probes)
    stats["runs"] += len(runs)
    stats["ops"] += sum(len(x["out"]) for x in rs if "out" in x)
    stats["events"] += sum(len(o["ev"]) for x in rs if "out" in x for o in x["out"])
    out = []
    byg = {}
    for (gi, part, ri, c), v in zip(runs, verdict): byg.setdefault(gi, {"bases": [], "runs": []})[part].append(v)
    for gi, d in sorted(byg.items()):
        g = groups[gi]
        rej = [(i, v) for i, v in enumerate(d["runs"]) if v]
        if g["sym"]:
            if rej and len(rej) < len(d["runs"]): out.append((gi, "run %d: %s (the other runs are accepted)" % rej[0]))
        elif g["bases"]:
            if rej and not any(d["bases"]): out.append((gi, "run %d: %s" % rej[0]))
            elif rej: stats["not_attributed"] += 1
        elif rej: out.append((gi, "run %d: %s" % rej[0]))
    return out

def first_line(s):
    for l in s.splitlines():
        if "panicked at" in l: return l.strip()[:300]
    return s.strip()[:200].replace("\n", " ")

def readable(c):
    """a case written out for people"""
    def op(o):
        return [bytes(x).decode("utf-8", "backslashreplace") if isinstance(x, list) and x and all(isinstance(y, int) and 0 <= y < 256 for y in x) else x for x in o]
    cfg = {k: v for k, v in c["cfg"].items() if v not in (None, [], 0) and k not in ("unk",)}
    if "ents" in cfg: cfg["ents"] = [{"sys": "".join(map(chr, [x for x in e["sys"] if x >= 0])), "ops": [op(o) for o in e.get("ops", [])][:8]} for e in cfg["ents"]]
    return {"cfg": cfg, "ops": [op(o) for o in c["ops"]][:12]}

def known_findings(prop):
    """(text, digest of the run) pairs for the findings of this property"""
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        l = l.strip()
        if l.startswith("finding: property=%s " % prop): out.append(l.split(" ", 2)[2])
    return out

def save(prop, group, text):
    d = os.path.join(HERE, ".build", "replays")
    os.makedirs(d, exist_ok=True)
    b = json.dumps({"property": prop, "what": text, "group": group})
    f = os.path.join(d, "%s.%s.json" % (prop, hashlib.sha1(b.encode()).hexdigest()[:12]))
    with open(f, "w") as fh: fh.write(b)
    return f

def corpus(prop):
    f = os.path.join(HERE, "corpus", prop + ".ndjson")
    return [json.loads(l) for l in open(f)] if os.path.exists(f) else []

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import checks, scen, tlc
    stats = dict(impl_s=0, tlc_s=0, states=0, transitions=0, accepted=0, other=0, probes_rejected=0, runs=0, ops=0, events=0, not_attributed=0)
    build()
    if "--replay" in sys.argv:
        g = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["group"]
        if "xmlwf" in g:
            import wf
            v = wf.judge([wf.unpack(g["xmlwf"])], BUILD, stats)
        else: v = judge([g], tier, stats, "replay")
        print("reproduced: " + v[0][1] if v else "not reproduced")
        return 1 if v else 0
    violations, samples, parts = [], [], {}
    def batch(name, groups):
        t = time.time()
        v = judge(groups, tier, stats, name)
        for gi, text in v[:20]:
            violations.append((save(prop, groups[gi], text), name, text))
        p = parts.setdefault(name, {"groups": 0, "runs": 0, "s": 0})
        p["groups"] += len(groups); p["runs"] += sum(len(g["bases"]) + len(g["runs"]) for g in groups); p["s"] = round(p["s"] + time.time() - t, 1)
        if groups and len(samples) < 6: samples.extend(readable((g["runs"])[0]) for g in random.Random(seed).sample(groups, min(2, len(groups))))
    gs = corpus(prop)
    plan = checks.PLAN.get(prop, [])
    limit = 600 if tier == "quick" else 3600 * 3
    big = []
    if gs: big.append(("corpus", gs))
    for name, nq, nt in plan:
        n = nq if tier == "quick" else nt
        if name == "c15_groups":
            big.append((name, scen.c15_groups(random.Random("%s/%d" % (name, seed)), tier)))
            continue
        fn = getattr(scen, name)
        step = 100000 if tier == "quick" else 3000
        for a in range(0, n, step):
            big.append((name, [fn(random.Random("%s/%d/%d" % (name, seed, i))) for i in range(a, min(n, a + step))]))
    if tier == "quick":       # one run of the model checker for all
        allg = [(nm, g) for nm, gg in big for g in gg]
        if allg:
            v = judge([g for _, g in allg], tier, stats, "all")
            for gi, text in v[:20]: violations.append((save(prop, allg[gi][1], text), allg[gi][0], text))
            for nm, gg in big:
                parts[nm] = {"groups": len(gg), "runs": sum(len(g["bases"]) + len(g["runs"]) for g in gg)}
                samples.extend(readable(g["runs"][0]) for g in random.Random(seed).sample(gg, min(2, len(gg))))
    else:
        for nm, gg in big:
            for a in range(0, len(gg), 6000):
                batch(nm, gg[a:a + 6000])
                if len(violations) > 20 or time.time() - t0 > limit: break
            if len(violations) > 20 or time.time() - t0 > limit: break
    for nm, fn in checks.OTHER.get(prop, []):
        parts[nm], v, s = fn(prop, tier, seed, stats, BUILD, save)
        violations += v; samples += s
    models = {}
    if hasattr(checks, "EXTRA") and prop in checks.EXTRA:
        for fn in checks.EXTRA[prop]:
            r = fn(prop, tier, seed, judge, stats)
            models[r["name"]] = {k: v for k, v in r.items() if k not in ("violations", "samples")}
            violations.extend(r.get("violations", []))
            samples.extend(r.get("samples", []))
    for k in known_findings(prop): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": stats["states"], "transitions": stats["transitions"], "traces_validated_against_impl": stats["accepted"],
                       "samples": samples[:8], "runs_on_the_library": stats["runs"], "api_calls": stats["ops"], "handler_calls": stats["events"],
                       "parts": parts, "bounded_models": models, "corrupted_recordings_rejected": stats["probes_rejected"],
                       "differences_not_attributed": stats["not_attributed"] + stats["other"]},
          "assumptions": ["the harness records handler calls faithfully (self check: corrupted recordings are rejected)", "TLC evaluates the specification correctly"],
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
    for f, nm, text in violations[:10]:
        print("%s: %s" % (nm, text))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    print("%s %s: %d runs, %d traces accepted, %d violations, %.0f s" % (prop, tier, stats["runs"], stats["accepted"], len(violations), time.time() - t0))
    return 1 if violations else 0

if __name__ == "__main__":
    try: rc = main()
    except ToolError as e:
        print("error: %s" % e, file=sys.stderr); rc = 2
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
