"""What each check runs: (scenario generator, groups in the quick tier, groups in the thorough tier) and the
bounded models of spec/ whose invariants TLC checks (name, quick constants, thorough constants)."""
import random, time
import scen, wf

def sweep(tier_fn): return ("sweep", tier_fn)

PLAN = {
    "C01": [("c01", 1300, 12000)],
    "C02": [("c02", 10000, 70000)],
    "C03": [("c03", 6000, 30000), ("c03long", 60, 800)],
    "C04": [("c04", 5000, 40000)],
    "C05": [("c05", 1600, 12000)],
    "C06": [("c06", 4000, 30000)],
    "C07": [("c07", 7000, 40000), ("c07many", 300, 4000)],
    "C08": [("c08", 7000, 40000)],
    "C09": [("c09", 7000, 40000)],
    "C10": [("c10", 7000, 40000)],
    "C11": [("c11", 8000, 40000)],
    "C12": [("c12", 1000, 8000), ("c12ann", 2600, 20000)],
    "C13": [("c13", 5000, 40000)],
    "C14": [("c14", 2800, 24000)],
    "C15": [("c15_groups", 0, 0)],
    "C16": [("c16", 4500, 80000)],
    "C17": [("c17", 1800, 20000), ("c17long", 50, 600)],
    "C18": [("c18", 1600, 14000)],
}

def xmlwf(prop, tier, seed, stats, build, save):
    """runs of the command line tool: (part, violations, samples)"""
    n, limit = (3500, 500) if tier == "quick" else (40000, 3 * 3600)
    t0, viol, samples, done = time.time(), [], [], 0
    for a in range(0, n, 5000):
        xs = [wf.scenario(random.Random("wf/%d/%d" % (seed, i))) for i in range(a, min(n, a + 5000))]
        for i, text in wf.judge(xs, build, stats)[:20]: viol.append((save(prop, {"xmlwf": wf.pack(xs[i])}, text), "xmlwf", text[:1500]))
        samples = samples or [wf.readable(x) for x in xs[:4]]
        done += len(xs)
        if len(viol) > 20 or time.time() - t0 > limit: break
    return {"groups": done, "runs": done}, viol, samples

OTHER = {"C19": [("xmlwf", xmlwf)]}
