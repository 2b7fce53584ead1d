"""xmlwf: scenarios (arguments, files, standard input), running the tool, and judging the runs with TLC (TraceWf.tla)."""
import json, os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import scen, tlc
from gen import *
from scen import A, U

ENCS = ["utf-8", "UTF-8", "utf-16", "iso-8859-1", "us-ascii", "utf-16le", "UTF-16BE", "windows-1252", "WINDOWS-", "windows-99999", "windows-x", "bad", ""]
FLAGS = "rsnpxwmctN"

def options(rng, b_enc, ns=False):
    """the command line before the files"""
    fl = [c for c in FLAGS if rng.random() < {"r": .4, "s": .08, "n": .75 if ns else .08, "p": .35, "x": .25, "w": .1, "m": .25, "c": .22, "t": .06, "N": .3}[c]]
    rng.shuffle(fl)
    parts = [("f", c) for c in fl]
    if rng.random() < .85: parts.append(("d", "o" if rng.random() < .96 else "nodir"))
    if b_enc is not None: parts.append(("e", b_enc))
    elif rng.random() < .06: parts.append(("e", rng.choice(ENCS)))
    rng.shuffle(parts)
    x = rng.random()
    if x < .02: parts.insert(rng.randint(0, len(parts)), ("f", rng.choice("hv")))
    elif x < .05: parts.insert(rng.randint(0, len(parts)), ("f", rng.choice(["q", "-", "=", "1", "D", "X"])))
    argv, cur = [], ""
    for k, v in parts:
        if not cur: cur = "-"
        if k == "f":
            cur += v
            if rng.random() < .5: argv.append(cur); cur = ""
        else:
            cur += k
            if v and rng.random() < .4: argv.append(cur + v)
            else: argv += [cur, v]
            cur = ""
    if cur: argv.append(cur)
    if rng.random() < .02: argv.append(rng.choice(["-", "-d", "-e", "--x", "-pd", "-re"]))
    elif rng.random() < .06: argv.append("--")
    return argv

def place(t, rng):
    """spread the external entities over directories"""
    if rng.random() < .6: return t, {}
    mp, pre = {}, rng.choice(["sub/", "./", "sub/"])
    for s in ("s1", "s2", "s3", "s4"):
        if rng.random() < .4: mp[s] = pre + s
    return re.sub(r"(?<=['\"])(s[1-4])(?=['\"])", lambda m: mp.get(m.group(1), m.group(1)), t), mp

def shown(rng, ns):
    """documents in which each output form has much to show"""
    nm = ["n", "m", "a", "ab", "a-b", "\u00e9", "\u4e00z", "z", "Z", "_", "b.c", "n1"]
    val = lambda: "".join(rng.choice(["a", "&lt;", "&gt;", ">", "&amp;", "&quot;", "&apos;", "\t", "&#9;", "\n", "&#10;", "&#13;", "\r\n", "&e;", "\u20ac", " ", "]]", "x"]) for _ in range(rng.randint(0, 4)))
    att = lambda: val().replace("]]", "]")
    d, nots = "", rng.sample(nm, rng.choice([0, 1, 2, 3, 4, 6]))
    decls = ["<!ENTITY e '%s'>" % rng.choice(["v", "&#38;lt;", "\"", "&#38;#38;", "<b/>"[:0], "&#10;"])]
    for n in nots:
        decls.append("<!NOTATION %s %s>" % (n, rng.choice(["SYSTEM 's%s'" % rng.choice(["", "<&>", "\"x"]), "PUBLIC 'p  q\n'", "PUBLIC 'p' \"s'q\"", "PUBLIC \"o'p\" 's'"])))
    for _ in range(rng.randint(0, 5)):
        decls.append(rng.choice([
            "<!ENTITY f 'x&#60;y&e;\"'>", "<!ENTITY g SYSTEM 's<&\"3'>", "<!ENTITY h PUBLIC 'pub' 's3'>", "<!ENTITY % q 'Q'>", "<!ENTITY % r SYSTEM 's1'>", "<!ENTITY e 'again'>",
            "<!ATTLIST a id ID #IMPLIED>", "<!ATTLIST b id ID #IMPLIED y CDATA 'dy'><!ATTLIST a id ID #REQUIRED>", "<!ATTLIST %s id ID #IMPLIED d CDATA 'dv&lt;'>" % ("p:a" if ns else "a"), "<!ATTLIST a d NMTOKENS ' x  y '>", "<!ATTLIST b %s CDATA 'q'>" % ("xmlns:z" if ns else "zz"), "<!ATTLIST r e CDATA #FIXED '%s'>" % att(),
            "<!--c--->"[:8] + "-->", "<?pi in dtd?>", "<!ELEMENT a ANY>", "<!ENTITY u SYSTEM 'u' NDATA %s>" % (nots[0] if nots else "none"), "<!ENTITY w PUBLIC 'w p' 'u&' NDATA n>"]))
    rng.shuffle(decls)
    if rng.random() < .85: d = "<!DOCTYPE r%s [%s%s]>%s" % (rng.choice(["", "", " SYSTEM 's1'", " PUBLIC 'p' 's2'"]), rng.choice(["", "\n"]).join(decls), rng.choice(["", "%r;" if "<!ENTITY % r SYSTEM 's1'>" in decls else ""]), rng.choice(["", "\n", "<?p?>"]))
    names = ["p:a", "q:a", "a", "b", "p:\u00e9", "o:b"] if ns else ["a", "b", "c", "\u00e9"]
    ents = "&e;" if d else "&amp;"
    def el(k):
        n = rng.choice(names)
        at = {}
        for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
            x = rng.choice(["id", "id", "x", "y", "X", "\u00e9", "p:x", "q:x", "o:x", "xml:lang", "p:y", "xmlns:p", "xmlns", "x-y", "xy"] if ns else ["id", "id", "x", "y", "X", "x.y", "xy", "\u00e9", "\u4e00", "\ud800\udf00"[:0] + "z", "d"])
            at[x] = rng.choice(["u:1", "u:2", "u&amp;v"]) if x.startswith("xmlns") else att()
        o = "<" + n + "".join(rng.choice([" ", "\n"]) + "%s=\"%s\"" % y for y in at.items())
        if rng.random() < .3: return o + "/>"
        return o + ">" + "".join(body(k + 1) for _ in range(rng.randint(0, 3))) + "</" + n + ">"
    def body(k):
        x = rng.random()
        if x < .4 and k < 4: return el(k)
        if x < .65: return val().replace("]]>", "")
        return rng.choice(["<!--a\n\"<b>-->", "<?pi d\"a<t&?>", "<?pi?>", "<![CDATA[<&\">]]>", "<![CDATA[]]>", ents, "\r\n", "&#13;", "&g;" if "&g;" and rng.random() < .1 else "t"])
    root = "r%s" % (" xmlns:p='u:1' xmlns:q='u:%s' xmlns:o='http://x/y#'%s" % (rng.choice("12"), rng.choice(["", " xmlns='u:d&amp;&lt;'"])) if ns else "")
    o = "<%s>" % root + "".join(body(0) for _ in range(rng.randint(0, 5))) + "</r>" + rng.choice(["", "\n", "<!--end-->", "<?end?>\n", "x"[:rng.randrange(8) // 7]])
    o = d + o
    if "&e;" in o and "<!ENTITY e " not in o: o = o.replace("&e;", "")
    return (rng.choice(["<?xml version='1.0'?>", "<?xml version='1.0' encoding='utf-8' standalone='%s'?>\n" % rng.choice(["yes", "no"])]) if rng.random() < .4 else "") + o

def one_document(rng, ns):
    """(bytes, protocol encoding, {system id: bytes})"""
    x = rng.random()
    if x < .5:
        d = shown(rng, ns) if x < .36 else scen.nsdoc(rng) if ns and x < .45 else scen.attdoc(rng)
        if rng.random() < .08: d = Gen(rng, ns=ns).mutate(d)
        if rng.random() < .05: d = grow(d, growth(rng))
        ents = {"s1": scen.encode(rng.choice(["<!NOTATION ext SYSTEM 'x'>", "<!ENTITY late 'l'>", "", "<!ATTLIST a dd CDATA 'ext'>", "<!ATTLIST a id ID #IMPLIED>", "<![INCLUDE[<!ENTITY z 'z'>]]>", "<!x", "%zz;"]), "utf-8"),
                "s2": scen.encode(rng.choice(["<!NOTATION ext2 PUBLIC 'x'>", "<?xml encoding='utf-8'?><!ELEMENT a ANY>", "<!ENTITY % r SYSTEM 's1'>%r;", "\u00e9"]), "utf-8"), "s3": b"<b>three</b>"}
        b, enc = scen.enc_doc(rng, d, .9)
        return b, None if enc is None else "".join(map(chr, enc)), ents
    if x < .62:
        d, cfg = scen.extdoc(rng) if x < .57 else scen.sadoc(rng)
        ents = {}
        for e in cfg["ents"]:
            if e["sys"] != [-1]: ents["".join(map(chr, e["sys"]))] = bytes(x for o in e["ops"] for x in o[1])
        return scen.encode(d, "utf-8"), None, ents
    g, d = scen.some_doc(rng, rng.choice([.9, .9, .3]), .25 if rng.random() < .4 else .05, ns=ns, dtd=rng.choice([.3, .8]))
    x = rng.random()
    if x < .03: d = ""
    elif x < .08: d = "<r>" + rng.choice(["<b/>\n", "text & more "[:5], "\u20ac\n", "<!--c-->", "<p:q xmlns:p='u'/>"]) * rng.choice([900, 1700, 2000]) + rng.choice(["</r>", "</r>", "</x>", ""])
    elif x < .11: d = "x" * 0 + "<r>" + "y" * rng.choice([8185, 8188, 8189, 8190, 8191, 8192]) + rng.choice(["</r>", "<b/></r>", "&lt;</r>", "]]></r>"])
    ents = {}
    for e in scen.ents_for(rng, g, ["one"]):
        ents["".join(map(chr, e["sys"]))] = bytes(x for o in e["ops"] for x in o[1])
    b, enc = scen.enc_doc(rng, d, .85)
    if enc is not None: enc = "".join(map(chr, enc))
    return b, enc, ents

def scenario(rng):
    ns = rng.random() < .4
    n = rng.choice([1, 1, 1, 1, 2, 2, 3])
    files, names, enc = {}, [], None
    stdin = b""
    for i in range(n):
        b, e, ents = one_document(rng, ns)
        if i == 0: enc = e
        elif e is not None: b = scen.encode("<r a='&#10;'>\u00e9<!--c--></r>", "utf-8")
        where = rng.choice(["", "", "", "d/", "d/e/"])
        name = where + rng.choice(["a.xml", "a.xml", "b.xml", "c", "\u00e9.xml", "x y.xml"])
        if name in files: continue
        mp = {}
        if rng.random() < .4:
            t, mp = place(b.decode("latin-1"), rng)
            b = t.encode("latin-1")
        files[name] = b
        names.append(name)
        for s, eb in ents.items():
            if "/" in s or "\0" in s or len(s) > 100: continue
            for w in {where, where + "sub/"} if mp else {where}:
                if rng.random() < .93 and w + s not in files: files[w + s] = eb
        if rng.random() < .03: files.pop(name)
    for nm in list(files):
        parts = nm.split("/")
        for k in range(1, len(parts)): files.setdefault("/".join(parts[:k]), None)
    if rng.random() < .03:
        files["dd"] = None; names.append("dd")
    files["o"] = None
    argv = options(rng, enc, ns)
    x = rng.random()
    if x < .12 and names and isinstance(files.get(names[0]), bytes):
        stdin = files[names[0]]; names = []
    return {"argv": argv + names, "files": files, "stdin": stdin}

# directories that exist besides
def all_files(files):
    out = dict(files)
    dirs = {""} | {n for n, b in files.items() if b is None}
    for n in dirs:
        p = n + "/" if n else ""
        for s in ("", ".", "..", "./", "../"): out.setdefault(p + s, None)
        for s in [f for f in files if f.startswith(p) and "/" not in f[len(p):]]:
            for k in range(1, 5): out.setdefault(p + "./" * k + s[len(p):], files[s])
    out.pop("", None)
    out["/"] = None
    return out

ERR = re.compile(r"(.*?): (No such file or directory|Not a directory|File name too long|not a regular file|Is a directory)\n", re.S)
LINE = re.compile(r"(.*?):(\d+):(\d+): ([^\n]*)\n", re.S)

def cps(s): return [ord(c) for c in s]

def run_one(args):
    binary, x, top = args
    w = tempfile.mkdtemp(dir=top)
    try:
        for n, b in sorted(x["files"].items()):
            f = os.path.join(w, n)
            if b is None: os.makedirs(f, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, "wb") as fh: fh.write(b)
        try:
            p = subprocess.run(["xmlwf"] + x["argv"], executable=binary, cwd=w, input=x["stdin"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return {"crash": "timeout"}
        out = p.stdout.decode("utf-8", "surrogateescape"); err = p.stderr.decode("utf-8", "surrogateescape")
        if p.returncode < 0 or p.returncode > 2: return {"crash": "status %d" % p.returncode, "msg": err[-500:]}
        lines, k = [], 0
        while k < len(out):
            m = LINE.match(out, k)
            if m and (m.group(1) in x["argv"] or "\n" not in m.group(1)):
                lines.append(["e", cps(m.group(1)), [int(m.group(2)), int(m.group(3))], cps(m.group(4))]); k = m.end()
            else:
                z = out.find("\n", k)
                z = len(out) if z < 0 else z
                lines.append(["t", cps(out[k:z])]); k = z + 1
        usage = 1 if err.startswith("usage: ") else 0
        es, k = [], 0
        while not usage and k < len(err):
            m = ERR.match(err, k)
            if not m: es.append(cps(err[k:])); break
            msg = m.group(2) if m.group(2) in ("not a regular file", "Is a directory") else "No such file or directory"
            es.append(cps(m.group(1) + ": " + msg)); k = m.end()
        outs = []
        for r, _, fs in os.walk(w):
            for f in fs:
                n = os.path.relpath(os.path.join(r, f), w)
                if n not in x["files"]:
                    with open(os.path.join(r, f), "rb") as fh: outs.append([cps(n), cps(fh.read().decode("utf-8", "surrogateescape"))])
        return {"rc": p.returncode, "usage": usage, "lines": lines, "err": es, "out": outs}
    finally:
        shutil.rmtree(w, ignore_errors=True)

def run_all(xs, binary, top):
    with ThreadPoolExecutor(8) as ex: return list(ex.map(run_one, [(binary, x, top) for x in xs]))

def traced(x, r):
    return {"argv": [cps(a) for a in x["argv"]], "stdin": list(x["stdin"]),
            "files": [{"n": cps(n), "k": 0 if b is not None else 1, "b": list(b or b"")} for n, b in all_files(x["files"]).items()], **r}

def validate(ts):
    """verdicts ("" or a text) and statistics"""
    tmp = tempfile.mkdtemp(prefix="wf.")
    try:
        f = os.path.join(tmp, "t.ndjson")
        v = [None] * len(ts); todo = list(range(len(ts))); st = {"states": 0, "transitions": 0}
        lines = [json.dumps(t, separators=(",", ":")) + "\n" for t in ts]
        for attempt in range(20):
            with open(f, "w") as fh: fh.writelines(lines[i] for i in todo)
            rc, out = tlc.run_tlc("TraceWf", env={"TRACE": f})
            for m in re.finditer(r'^"(OK|BAD) (\d+)(.*)"$', out, re.M):
                v[todo[int(m.group(2)) - 1]] = "" if m.group(1) == "OK" else m.group(3).strip().replace('\\"', '"')
            m = tlc.STATS.findall(out)
            if m: st["transitions"] += int(m[-1][0]); st["states"] += int(m[-1][1])
            if rc == 0 and all(x is not None for x in v): return v, st
            ids = re.findall(r"^(?:/\\ )?id = (\d+)", out, re.M)
            if rc != 75 or "Attempted to" not in out or not ids: break
            v[todo[int(ids[-1]) - 1]] = "a recorded value of another kind than the expected one"
            todo = [i for i in todo if v[i] is None]
            if not todo: return v, st
        raise RuntimeError("TLC failed (rc %d):\n%s" % (rc, (lambda k: out[max(0, k - 200):k + 3000])(out.find("Error:"))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def pack(x): return {"argv": x["argv"], "files": {n: None if b is None else list(b) for n, b in x["files"].items()}, "stdin": list(x["stdin"])}
def unpack(x): return {"argv": x["argv"], "files": {n: None if b is None else bytes(b) for n, b in x["files"].items()}, "stdin": bytes(x["stdin"])}

def judge(xs, build, stats):
    """[(index, text)] of the runs that are not as specified"""
    binary = os.path.join(build, "shadow", "target", "debug", "xmlwf")
    top = os.path.join(build, "wf.%d" % os.getpid())
    os.makedirs(top, exist_ok=True)
    t = time.time()
    try: rs = run_all(xs, binary, top)
    finally: shutil.rmtree(top, ignore_errors=True)
    stats["impl_s"] += time.time() - t
    bad, ts, where = [], [], []
    for i, (x, r) in enumerate(zip(xs, rs)):
        if "crash" in r: bad.append((i, "xmlwf did not return: %s %s" % (r["crash"], r.get("msg", "").replace("\n", " ")[:300])))
        else: ts.append(traced(x, r)); where.append(i)
    probes = []
    for k, corrupt in enumerate(CORRUPT):
        for t_ in ts:
            c = corrupt(json.loads(json.dumps(t_)))
            if c is not None: probes.append(c); break
    t = time.time()
    v, st = validate(ts + probes) if ts else ([], {"states": 0, "transitions": 0})
    stats["tlc_s"] += time.time() - t
    stats["states"] += st["states"]; stats["transitions"] += st["transitions"]
    for i, y in zip(where, v):
        if y: bad.append((i, y))
        else: stats["accepted"] += 1
    if any(y == "" for y in v[len(ts):]): raise RuntimeError("self check: a corrupted recording was accepted")
    stats["probes_rejected"] += len(probes)
    stats["runs"] += len(xs); stats["ops"] += sum(max(1, len(x["argv"])) for x in xs)
    return sorted(bad)

def _rc(t): t["rc"] = 2 - t["rc"]; return t
def _line(t):
    for l in t["lines"]:
        if l[0] == "e" and l[2]: l[3] = l[3] + [33]; return t
def _file(t):
    for o in t["out"]:
        if len(o[1]) > 3 and not any(78 in a for a in t["argv"]): o[1][2] = 63; return t
def _nofile(t):
    if t["out"]: t["out"] = t["out"][1:]; return t
CORRUPT = [_rc, _line, _file, _nofile]

def readable(x):
    return {"argv": x["argv"], "files": {n: b.decode("utf-8", "backslashreplace")[:300] for n, b in x["files"].items() if b is not None}, "stdin": x["stdin"].decode("utf-8", "backslashreplace")[:200]}
