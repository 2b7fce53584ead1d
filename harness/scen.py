"""Scenarios: for each property, the runs that decide it.

A scenario yields *groups*: {"runs": [...], "bases": [...], "sym": bool, "why": text}.  Every run is recorded and
judged by TLC against the specification (Trace.tla) under the run's mask.  The group violates the property when
  - it has no bases and is not symmetric: some run is rejected;
  - it has bases: some run is rejected although every base is accepted (so what is wrong is what distinguishes the run);
  - it is symmetric: some runs are accepted and some rejected.
"""
import random
from gen import *

def A(s): return list(s.encode("utf-8", "surrogatepass"))
def U(s): return s.encode("utf-8", "surrogatepass")

CONTENT = ["se", "ee", "cd", "co", "pi", "cs", "ce"]
NSK = ["ns", "ne"]
DECLS = ["sd", "ed", "el", "al", "en", "ue", "no", "xd"]

def direct(*runs): return {"runs": list(runs), "bases": [], "sym": False}
def versus(bases, runs): return {"runs": list(runs), "bases": list(bases), "sym": False}
def alike(*runs): return {"runs": list(runs), "bases": [], "sym": True}

def case(cfg, ops, **mask):
    return {"cfg": cfg, "ops": ops, "mask": mask}

def some_doc(rng, valid=.5, near=.3, **kn):
    """(generator, text): well formed, slightly damaged, or wild"""
    x = rng.random()
    if x < valid + near:
        g = Good(rng, **kn)
        d = g.document()
        if rng.random() < .05: d = shapes(rng, g.k["ns"])
        if rng.random() < BIG: g.infl = growth(rng); d = grow(d, g.infl)
        if x >= valid:
            for _ in range(rng.choice([1, 1, 2])): d = g.mutate(d)
        return g, d
    g = Gen(rng, bad=rng.choice([0, .02, .06]), **kn)
    d = g.document()
    if rng.random() < BIG: g.infl = growth(rng); d = grow(d, g.infl)
    return g, d

BIG = .08

def shapes(rng, ns=False):
    """well-formed documents whose point is a number: of open elements, of siblings, of attributes, of declarations, of groups"""
    n = rng.choice([3, 7, 15, 16, 17, 20, 31, 32, 33, 34, 50])
    def nm(i): return rng.choice("abcde") + (rng.choice("zy") * rng.choice(LENS[:22]) if rng.random() < .3 else str(i % 7))
    k = rng.randrange(12)
    if k == 0:      # nested
        pre = "p:" if ns else ""
        names = [(pre if rng.random() < .6 else "") + nm(i) for i in range(n)]
        o = "<r%s>" % (" xmlns:p='%s'" % ("u" * rng.choice(LENS[:22])) if ns else "")
        for x in names: o += "<" + x + rng.choice(["", "", " x='1'", " xmlns:p='v%s'" % ("w" * rng.choice(LENS[:20])) if ns else ""]) + ">" + rng.choice(["", "t", "\n"])
        for x in reversed(names): o += "</" + x + ">" + rng.choice(["", "t", "\n"])
        return o + "</r>"
    if k == 1:      # siblings of all sizes: the records of closed elements are used again
        o = "<r%s>" % (" xmlns:p='u:1'" if ns else "")
        for i in range(n):
            x = nm(i); y = ("p:" if ns and rng.random() < .7 else "") + nm(i)
            if rng.random() < .2: o += "t"
            a = " xmlns:p='%s'" % ("u" * rng.choice(LENS[:20])) if ns and rng.random() < .4 else ""
            o += rng.choice(["<%s%s/>" % (y, a), "<%s%s>t</%s>" % (y, a, y), "<%s%s><%s/></%s>" % (y, a, x, y), "<%s%s><%s>t</%s></%s>" % (y, a, x, x, y)])
        return o + "</r>"
    if k == 2:      # many attributes
        return "<r><b %s/><c %s>t</c></r>" % (" ".join("n%d='%d'" % (i, i) for i in range(n)), " ".join("n%d='%s'" % (i, "v" * rng.choice([0, 1, 30])) for i in range(rng.randint(0, 2 * n))))
    if k == 3:      # many attributes with defaults
        return "<!DOCTYPE r [" + "".join("<!ATTLIST %s n%d %s>" % (rng.choice("rb"), i, rng.choice(["CDATA 'd%d'" % i, "NMTOKEN ' d '", "CDATA #IMPLIED", "ID #REQUIRED" if i == 3 else "CDATA ''"])) for i in range(n)) + "]><r n1='x'><b n2='y' n%d='z'/><b/></r>" % (n + 1)
    if k == 4:      # many general entities
        ns_ = ["e%d%s" % (i, "z" * rng.choice([0, 0, 0, 20])) for i in range(n * 3)]
        use = [rng.choice(ns_) for _ in range(6)]
        return "<!DOCTYPE r [" + "".join("<!ENTITY %s '%s'>" % (e, rng.choice(["t", "<b/>", "v" * 40, "&#38;amp;"])) for e in ns_) + "]><r>" + "".join("&%s;" % e for e in use) + "</r>"
    if k == 5:      # nested groups
        s = rng.choice("|,")
        return "<!DOCTYPE r [<!ELEMENT r " + "(a%s" % s * (n - 1) + "(b" + ")" + rng.choice(["", "*"]) + "".join(rng.choice([")", ")?", ")+"]) for _ in range(n - 1)) + "><!ELEMENT b (%s)>" % rng.choice("|,").join("c%d" % i for i in range(n)) + "]><r/>"
    if k == 6:      # a long chain of entities
        return "<!DOCTYPE r [<!ENTITY e0 '%s'>" % rng.choice(["t", "<b/>", ""]) + "".join("<!ENTITY e%d '%s'>" % (i, rng.choice(["&e%d;", "x&e%d;", "<b>&e%d;</b>", "&e%d;y"]) % (i - 1)) for i in range(1, n)) + "]><r>&e%d;&e%d;</r>" % (n - 1, n // 2)
    if k == 7:      # many elements with attribute lists, many notations
        return "<!DOCTYPE r [" + "".join(rng.choice(["<!ATTLIST b%d x CDATA 'd'>" % i, "<!NOTATION n%d SYSTEM 's%d'>" % (i, i), "<!ELEMENT b%d ANY>" % i, "<!ENTITY %% p%d 'v'>" % i]) for i in range(2 * n)) + "]><r>" + "".join("<b%d/>" % i for i in range(0, 2 * n, 3)) + "</r>"
    if k == 8 and ns:      # many prefixes
        return "<r %s>%s</r>" % (" ".join("xmlns:p%d='u:%d'" % (i, i // 2) for i in range(n)), "".join("<p%d:b%s/>" % (i, " p%d:x='1'" % (n - 1 - i) if rng.random() < .5 else "") for i in range(n)))
    if k == 9:      # a long value
        return "<!DOCTYPE r [<!ATTLIST r x %s 'd%s'><!ENTITY e '%s'>]><r y='%s' z='&e;'>&e;</r>" % (rng.choice(["CDATA", "NMTOKENS"]), "  d" * n, "v" * rng.choice([30, 500, 1023, 1024, 1025]), rng.choice(["t ", "\n", "&#65;", "\u20ac"]) * rng.choice([n, 340]))
    if k == 10:     # long comments, PIs, CDATA sections, literals
        w = lambda: rng.choice(["x", "x\n", "\r\n", "\u00e9"]) * rng.choice([n, 60, 520])
        return "<!--%s--><?p %s?><!DOCTYPE r PUBLIC 'p%s' 's%s' [<!NOTATION n PUBLIC 'q%s'><!--%s--><?q %s?>]><r><!--%s--><?p %s?><![CDATA[%s]]></r><!--%s-->" % (w(), w(), " p" * n, "s" * n * 9, "\n" * n, w(), w(), w(), w(), w(), w())
    return "<r>" + "".join(rng.choice(["<b/>", "t", "<b>t</b>", "&amp;", "<!--c-->", "<![CDATA[x]]>", "\n"]) for _ in range(3 * n)) + "</r>"

def ents_for(rng, g, modes=None, wild=.2, ret0=.04, create0=.04):
    """external entities s1..s4"""
    out = []
    if isinstance(g, Good): ts = g.mkents()
    else: ts = {"s1": g.extsubset(), "s2": g.extsubset(), "s3": g.extparsed(), "s4": g.extparsed()}
    for s in ("s1", "s2", "s3", "s4"):
        if rng.random() < .07: continue
        t = grow(ts[s], getattr(g, "infl", None))
        if rng.random() < wild * .5: t = g.mutate(t)
        b = encode(t, "utf-8")
        enc = None
        x = rng.random()
        if x < .08: b = b"\xef\xbb\xbf" + b
        elif x < .14 and "encoding" not in t: b = b"\xff\xfe" + encode(t, "utf-16le")
        ops = chunks(rng, b, modes and rng.choice(modes))
        e = dict(sys=C(s), create=0 if rng.random() < create0 else 1, ops=ops, ret=0 if rng.random() < ret0 else 1)
        if rng.random() < .1: e["base"] = C("b2")
        out.append(e)
    return out

def base_cfg(rng, g, hs=None, **kw):
    ns = -1
    if g.k["ns"]: ns = rng.choice([33, 33, 10, 124])
    elif rng.random() < .1: ns = 33
    c = dict(h=list(hs or ALL), ns=ns, triplet=rng.choice([0, 0, 1]), pe=rng.choice([0, 1, 2]), base=rng.choice([None, C("base")]),
             foreign=1 if rng.random() < .08 else 0, stret=0 if rng.random() < .05 else 1)
    c.update(kw)
    return c

def enc_doc(rng, d, plain=.7):
    """bytes and protocol encoding for the text"""
    x = rng.random()
    if x < plain: return encode(d, "utf-8"), None
    k = rng.choice(["utf-16le", "utf-16be", "latin-1", "bom8", "le", "be", "utf-8"])
    if k == "bom8": return b"\xef\xbb\xbf" + encode(d, "utf-8"), None
    if k == "utf-8": return encode(d, "utf-8"), C("utf-8")
    if k == "latin-1":
        b = encode(d, k)
        return (b, C("iso-8859-1")) if b is not None else (encode(d, "utf-8"), None)
    if k in ("le", "be"): return encode(d, "utf-16" + k), C("utf-16" + k)
    return {"utf-16le": b"\xff\xfe", "utf-16be": b"\xfe\xff"}[k] + encode(d, k), None

def damage(rng, b):
    b = bytearray(b)
    for _ in range(rng.randint(1, 2)):
        if b: b[rng.randrange(len(b))] = rng.choice([rng.randrange(256), 0xff, 0xc0, 0xe0, 0xf4, 0x80, 0, 0x3c, 0x26, 0x5d])
    return bytes(b)

# ------------------------------------------------------------------------------------------------
def rechunk(rng, ents, mode=None):
    out = []
    for e in ents:
        e = dict(e)
        b = b"".join(bytes(o[1]) for o in e["ops"])
        e["ops"] = chunks(rng, b, mode)
        out.append(e)
    return out

def c01(rng):
    g, d = some_doc(rng, .5, .3)
    b, enc = enc_doc(rng, d)
    if rng.random() < .08: b = damage(rng, b)
    hs = rng.choice([ALL, ALL, ALL + ["df"], ["df"], ["dx"], CONTENT])
    ents = ents_for(rng, g, ["one"])
    cfg = base_cfg(rng, g, hs, enc=enc, ents=ents)
    m = dict(res=3, pos=0)
    runs = [case(cfg, chunks(rng, b, "one"), **m)]
    for mode in ("bytes", "pbytes", "rand", "mix"):
        cm = rng.choice([None, mode])
        runs.append(case(dict(cfg, ents=rechunk(rng, ents, cm)), chunks(rng, b, mode), **m))
    return alike(*runs)

def c02(rng):
    g, d = some_doc(rng, .25, .5)
    b, enc = enc_doc(rng, d, .9)
    if rng.random() < .06: b = damage(rng, b)
    cfg = base_cfg(rng, g, ALL, pe=0, foreign=0, stret=1, enc=enc)
    return direct(case(cfg, chunks(rng, b, rng.choice(["one", "one", "one", "rand", "bytes"])), kinds=["-"], res=1, more=1))

def c03(rng):
    g = Good(rng, ns=False, dtd=rng.choice([0, .5]), size=8)
    d = g.document()
    if rng.random() < .05: d = shapes(rng)
    if rng.random() < BIG: d = grow(d, growth(rng))
    b, enc = enc_doc(rng, d, .8)
    hs = rng.choice([ALL, CONTENT, CONTENT + ["df"], ALL + ["dx"], ["se", "ee", "cd"]])
    cfg = base_cfg(rng, g, hs, ns=-1, pe=0, foreign=0, stret=1, enc=enc)
    return direct(case(cfg, chunks(rng, b, rng.choice(["one", "one", "rand"])), kinds=CONTENT, names=1, res=0))

def longtext(rng):
    """texts longer than the conversion buffer"""
    n = rng.choice([1020, 1023, 1024, 1025, 2047, 2048, 2049, 700])
    c = rng.choice(["x", "\u00e9", "\u20ac", "\U0001f600"])
    t = rng.choice(["", "y", "yy", "yyy"]) + c * (n // len(c.encode())) + rng.choice(["", "z", "\u00e9", "\n", "]"])
    return t

def c03long(rng):
    t = longtext(rng)
    d = rng.choice(["<a>%s</a>", "<a><![CDATA[%s]]></a>", "<a><!--%s--></a>", "<a><?p %s?></a>", "<a x='%s'/>", "<!DOCTYPE a [<!ENTITY e '%s'>]><a>&e;</a>", "<a>x<b/>%s</a>"]) % t
    enc = rng.choice(["utf-8", "utf-16le", "utf-16be", "latin-1", "unk1"])
    b = encode(d, enc)
    cfg = dict(h=ALL, ns=-1)
    if b is None: enc = "utf-8"; b = encode(d, enc)
    if enc == "latin-1": cfg["enc"] = C("iso-8859-1")
    elif enc == "unk1":
        mp, cv, _ = unkmap(rng, "single")
        cfg["enc"] = C("my"); cfg["unk"] = [dict(name=C("my"), map=mp, conv=cv)]
    elif enc != "utf-8": b = {"utf-16le": b"\xff\xfe", "utf-16be": b"\xfe\xff"}[enc] + b
    return direct(case(cfg, chunks(rng, b, rng.choice(["one", "rand"])), kinds=CONTENT, names=1, res=0))

# --- API life cycle
MISUSE = [["call", "setenc", C("utf-8")], ["call", "setenc", None], ["call", "setpe", 2], ["call", "foreign", 1], ["call", "triplet", 1], ["resume"],
          ["getbuf", -1], ["getbuf", 0], ["getbuf", 5], ["rawparse", -1, 0], ["rawparse", 3, 0], ["rawpbuf", -1, 0], ["rawpbuf", -5, 1], ["q"],
          ["parse", [], 0], ["pbuf", [], 0], ["call", "getbase"], ["call", "base", C("n")]]
WHILESUSP = MISUSE + [["parse", A("x"), 0], ["parse", A("x"), 1], ["pbuf", A("x"), 0], ["parse", [], 1], ["stop", 1], ["rawpbuf", 0, 0]]
AFTEREND = MISUSE + [["parse", A("x"), 0], ["parse", A("<a/>"), 1], ["pbuf", A("x"), 1], ["parse", [], 1], ["resume"], ["stop", 0], ["stop", 1], ["rawpbuf", 0, 1]]
SIMPLE = ["<a>x<b/>y</a>", "<a><b>t</b><!--c--><?p d?></a>", "<!DOCTYPE a [<!ENTITY e 'v<b/>w'>]><a>&e;z<c/></a>", "<?xml version='1.0'?><a x='1'>\n<b/>\n</a>\n",
          "<!DOCTYPE a SYSTEM 's1' [<!ELEMENT a ANY>%p;]><a/>", "<a><![CDATA[x\ny]]>z</a><?q?>", "<!DOCTYPE a [<!ENTITY x SYSTEM 's3'>]><a>1&x;2</a>", "<a>", "<a></b>", "<a/>x"]

def c04(rng):
    d = rng.choice(SIMPLE)
    b = A(d)
    ents = [dict(sys=C("s1"), create=1, ops=[["parse", A("<!ENTITY f 'q'>"), 1]], ret=1), dict(sys=C("s3"), create=1, ops=[["parse", A("in<d/>side"), 1]], ret=1)]
    cfg = dict(h=ALL, ns=rng.choice([-1, 33]), pe=rng.choice([0, 2]), ents=ents)
    base = case(cfg, [["parse", b, 1]], res=2)
    ops, react = [], []
    susp = rng.random() < .6
    ks = ["se", "ee", "cd", "co", "pi", "sd", "ed", "en", "el", "xd", "er"]
    if susp:
        for _ in range(rng.randint(1, 3)):
            react.append([rng.choice(ks), rng.randint(1, 3), ["stop", rng.choice([1, 1, 1, 0])]])
            if rng.random() < .3: react.append([react[-1][0], react[-1][1], ["stop", rng.choice([1, 0])]])
    for _ in range(rng.randint(0, 3)):
        a = rng.choice([["call", "setenc", C("utf-8")], ["call", "setpe", 1], ["call", "foreign", 1], ["call", "triplet", 1], ["call", "getbase"], ["call", "resume"]])
        if a[1] == "resume" and susp: continue
        react.append([rng.choice(ks), rng.randint(1, 3), a])
    for o in chunks(rng, bytes(b), rng.choice(["one", "rand", "mix", "bytes"])):
        if rng.random() < .15: ops.append(rng.choice(MISUSE))
        ops.append(o)
        if rng.random() < .4: ops.append(rng.choice(WHILESUSP if susp and rng.random() < .5 else MISUSE))
        if susp: ops.append(["resume"] if rng.random() < .5 else ["resumeall"])
        if susp and rng.random() < .3: ops.append(rng.choice(MISUSE))
        if susp: ops.append(["resumeall"])
    for _ in range(rng.randint(0, 3)): ops.append(rng.choice(AFTEREND))
    ops = fix_ops(ops)
    return versus([base], [case(dict(cfg, react=react), ops, res=2)])

def fix_ops(ops):
    """leave out calls whose effect is not documented: stopping a parser that has not begun, then using it"""
    out, begun = [], False
    for o in ops:
        if o[0] in ("parse", "pbuf", "rawparse", "rawpbuf"): begun = True
        if o[0] == "stop" and not begun: continue
        out.append(o)
    return out

def stops(rng, cfg, kind, n=None):
    ks = [k for k in cfg["h"] if k not in ("df", "dx", "el2")] + (["df"] if "df" in cfg["h"] or "dx" in cfg["h"] else [])
    w = [k for k in ks if k in CONTENT + NSK + ["sd", "ed", "en", "el", "al", "df", "er"]] * 3 + ks
    return [[rng.choice(w), rng.choice([1, 1, 2, 2, 3, 4, 5, 7]), ["stop", kind]] for _ in range(n or rng.randint(1, 4))]

def c05(rng):
    g, d = some_doc(rng, .7, .2)
    b, enc = enc_doc(rng, d, .85)
    hs = rng.choice([ALL, ALL, ALL, ALL + ["df"], ["df"], ["dx"], CONTENT])
    ents = ents_for(rng, g, ["one", "rand"])
    cfg = base_cfg(rng, g, hs, enc=enc, ents=ents)
    m = dict(res=3, pos=0)
    bases = [case(cfg, chunks(rng, b, "one"), **m)]
    runs = []
    rents = [dict(e, ops=[x for o in e["ops"] for x in (o, ["resumeall"])]) for e in ents]
    for mode in ("one", "one", rng.choice(["rand", "bytes", "mix"])):
        o = chunks(rng, b, mode)
        if mode != "one": bases.append(case(cfg, o, **m))
        c = dict(cfg, react=stops(rng, cfg, 1), ents=rents)
        if rng.random() < .15:      # suspend at every event of some kinds
            ks = rng.sample(hs, min(len(hs), 2))
            c["react"] = [["df" if k == "dx" else k, i, ["stop", 1]] for k in ks for i in range(1, 40)]
        runs.append(case(c, [x for y in o for x in (y, ["resumeall"])], **m))
    return versus(bases, runs)

def c06(rng):
    x = rng.random()
    if x < .55:
        g, d = some_doc(rng, .8, .1)
        b, enc = enc_doc(rng, d, .9)
        hs = rng.choice([ALL, ALL, ALL + ["df"], ["df"]])
        ents = ents_for(rng, g, ["one", "rand"])
        cfg = base_cfg(rng, g, hs, enc=enc, ents=ents)
        o = chunks(rng, b, rng.choice(["one", "one", "rand", "bytes"]))
        base = case(cfg, o, res=2, pos=0)
        react = stops(rng, cfg, 0, 1)
        if rng.random() < .2: react[0][2] = ["stopdepth", 0, rng.randint(0, 1)]
        tail = [rng.choice(AFTEREND) for _ in range(rng.randint(0, 3))]
        return versus([base], [case(dict(cfg, react=react), o + tail, res=2, pos=0)])
    if x < .8:          # after an error
        g, d = some_doc(rng, .0, .8)
        cfg = base_cfg(rng, g, ALL + ["df"], pe=0)
        o = chunks(rng, encode(d, "utf-8"), rng.choice(["one", "rand"]))
        tail = [rng.choice(AFTEREND[:-6] + [["parse", A("<b/>"), 0], ["parse", A("</a>"), 1], ["pbuf", A("<!--x-->"), 1], ["parse", [], 1]]) for _ in range(rng.randint(1, 4))]
        return versus([case(cfg, o, res=2, pos=0)], [case(cfg, o + tail, res=2, pos=0)])
    if x < .9:          # an error found while resuming, and calls after it
        g, d = some_doc(rng, .0, .8)
        if rng.random() < .4: d = rng.choice(["<a><b/></a>x", "<a><b>t</c></a>", "<a><b/>&nope;</a>", "<a><b/><c></a>", "<a><b/>", "<a>t<b/>\x01</a>", "<!DOCTYPE a [<!ENTITY e '<b/><c>'>]><a>&e;</a>", "<!DOCTYPE a [<!ELEMENT a ANY><!FOO>]><a/>",
                                              "<a><b/></a><c/>", "<a><b x='1' x='2'/></a>", "<a><b/><c x='1' x='2'/></a>", "<a><b/>&#0;</a>", "<a><b/><![CDATA[x\x01]]></a>", "<a><?p d?><?xml d?></a>"])
        cfg = base_cfg(rng, g, ALL + ["df"] if rng.random() < .3 else ALL, pe=0)
        o = [y for z in chunks(rng, encode(d, "utf-8"), rng.choice(["one", "one", "rand", "bytes"])) for y in (z, ["resumeall"])]
        cfg["react"] = stops(rng, dict(cfg, h=[k for k in CONTENT + ["sd", "el"]]), 1, rng.choice([1, 1, 2, 3]))
        for r in cfg["react"]: r[1] = rng.choice([1, 1, 2])
        tail = [rng.choice(AFTEREND + [["parse", A("<b/>"), 0], ["parse", A("</a>"), 1], ["pbuf", A("<!--x-->"), 1], ["parse", [], 1], ["resume"]]) for _ in range(rng.randint(1, 4))]
        return versus([case(cfg, o, res=2, pos=0)], [case(cfg, o + tail, res=2, pos=0)])
    g, d = some_doc(rng, 1, 0)          # after the end
    cfg = base_cfg(rng, g, ALL + ["df"], pe=0)
    o = chunks(rng, encode(d, "utf-8"), rng.choice(["one", "rand", "emptyfin"]))
    tail = [rng.choice(AFTEREND + [["parse", A("<b/>"), 0], ["pbuf", A("<!--x-->"), 1]]) for _ in range(rng.randint(1, 4))]
    return versus([case(cfg, o, res=2, pos=0)], [case(cfg, o + tail, res=2, pos=0)])

def c07(rng):
    kn = dict(ns=True, dtd=rng.choice([0, 0, .6]), ext=False)
    x = rng.random()
    if x < .45: g = Good(rng, **kn); d = g.document()
    elif x < .6: g = Good(rng, **kn); d = g.mutate(g.document())
    else: g = Gen(rng, bad=0, size=4, **kn); d = nsdoc(rng)
    if rng.random() < .05: d = shapes(rng, True)
    if rng.random() < .15: d = grow(d, growth(rng))
    cfg = base_cfg(rng, g, rng.choice([ALL, ["se", "ee", "ns", "ne"], ["se", "ee"], ["ns", "ne", "se"]]), pe=0, foreign=0, stret=1, triplet=rng.choice([0, 1]),
                   ns=rng.choice([33, 33, 10, 124, -1]))
    return direct(case(cfg, chunks(rng, encode(d, "utf-8"), rng.choice(["one", "one", "rand"])), kinds=["se", "ee", "ns", "ne"], res=1))

def nsdoc(rng):
    """small documents dense in declarations, shadowing, undeclaring and collisions"""
    uris = ["u:1", "u:2", "u:1", "u", "", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespac", "http://www.w3.org/2000/xmlns/x", "u:1&#32;", "&#117;:1", "x" * 30]
    w = [8, 8, 8, 4, 3, .6, .6, .4, .4, .5, 1, 1]
    pre = ["", "p", "q", "r", "xml", "xmlns", "xmlx", "P"]
    wp = [6, 8, 8, 3, .5, .3, .3, 1]
    def uri(): return rng.choices(uris, w)[0]
    def pf(): return rng.choices(pre, wp)[0]
    def qn():
        p = pf()
        return (p + ":" if p else "") + rng.choice(["a", "b", "c"])
    dtd = ""
    if rng.random() < .4:
        dtd = "<!DOCTYPE a ["
        for _ in range(rng.randint(1, 4)):
            el = qn()
            n = rng.choice(["xmlns", "xmlns:p", "xmlns:q", qn(), qn()])
            dtd += "<!ATTLIST %s %s %s %s>" % (el, n, rng.choice(["CDATA", "NMTOKEN", "ID"]), rng.choice(["#IMPLIED", "'%s'" % uri(), "'%s'" % uri(), "#FIXED '%s'" % uri()]))
        dtd += "]>"
    def el(d):
        n = qn()
        at = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < .55:
                p = pf()
                at.append(("xmlns:" + p if p else "xmlns", uri()))
            else: at.append((qn(), rng.choice(["", "v"])))
        if rng.random() < .9:      # mostly distinct names
            at = list(dict(at).items())
        o = "<" + n + "".join(" %s='%s'" % x for x in at)
        kids = "".join(el(d + 1) for _ in range(rng.choice([0, 1, 1, 2]))) if d < 3 else ""
        return o + "/>" if not kids and rng.random() < .7 else o + ">" + kids + "</" + n + ">"
    if rng.random() < .7: 
        # declare what is usually used on the root
        return dtd + "<a xmlns:p='u:1' xmlns:q='%s' xmlns:r='u:3' xmlns:P='u:4' xmlns:xmlx='u:5'>" % rng.choice(["u:1", "u:2"]) + el(0) + el(0) + "</a>"
    return dtd + el(0)

def manyatts(rng):
    """tags with many attributes (the attribute arrays and the hash of expanded names grow)"""
    n = rng.choice([5, 8, 9, 12, 17, 24, 33])
    ps = ["p", "q", "r"]
    names = []
    for i in range(n): names.append(rng.choice(["", "p:", "q:", "r:"]) + "n%d" % rng.randrange(n * 2))
    names = list(dict.fromkeys(names))
    if rng.random() < .3: names.insert(rng.randrange(len(names)), rng.choice(names))
    same = rng.random() < .3
    d = "<a xmlns:p='u:1' xmlns:q='%s' xmlns:r='u:3'><b %s/><p:c %s></p:c></a>" % ("u:1" if same else "u:2", " ".join("%s='%d'" % (x, i) for i, x in enumerate(names)),
                                                                               " ".join("%s='%d'" % (x, i) for i, x in enumerate(names[:rng.randint(0, n)])))
    return d

def c07many(rng):
    d = manyatts(rng)
    cfg = dict(h=ALL, ns=rng.choice([33, 33, -1]), triplet=rng.choice([0, 1]))
    return direct(case(cfg, [["parse", A(d), 1]], kinds=["se", "ee", "ns", "ne"], res=1))

def c08(rng):
    x = rng.random()
    if x < .25:
        g = Good(rng, dtd=.9, ns=rng.random() < .2, size=4); d = g.document(); ns = 33 if g.k["ns"] else -1
    else: d = attdoc(rng); ns = rng.choice([-1, -1, 33])
    if rng.random() < .03: d = shapes(rng)
    if rng.random() < BIG: d = grow(d, growth(rng))
    cfg = dict(h=rng.choice([ALL, ["se"], ["se", "ee", "cd"]]), ns=ns, pe=0)
    b, enc = enc_doc(rng, d, .85)
    cfg["enc"] = enc
    return direct(case(cfg, chunks(rng, b, rng.choice(["one", "one", "rand"])), kinds=["se"], res=1))

def attdoc(rng):
    ents = "<!ENTITY e 'v'><!ENTITY s ' x  y '><!ENTITY n '&#10;a&#32;&#9;'><!ENTITY l '\r\n'><!ENTITY lt2 '&#38;#60;'><!ENTITY d '&e;&s;'><!ENTITY em ''>"
    if rng.random() < .1: ents += rng.choice(["<!ENTITY bad '<'>", "<!ENTITY r '&r;'>", "<!ENTITY x SYSTEM 's'>", "<!ENTITY u SYSTEM 's' NDATA n>", "<!ENTITY m '&nope;'>"])
    def val():
        o = ""
        for _ in range(rng.randint(0, 5)):
            o += rng.choices(["a", " ", "  ", "\n", "\t", "\r", "\r\n", "&#32;", "&#10;", "&#9;", "&#13;", "&e;", "&s;", "&n;", "&l;", "&d;", "&em;", "&amp;", "&lt;", "&lt2;", "\u00e9", "\u20ac", "&#x20AC;", "'", '"', "]", ">", "&quot;", "&#65;"],
                             [6, 6, 2, 2, 2, 2, 2, 3, 2, 2, 2, 3, 3, 2, 2, 2, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1])[0]
        if rng.random() < .04: o += rng.choice(["<", "&", "&nope;", "&bad;", "&r;", "&x;", "&u;", "&m;", "&#0;", "\x01", "&e"])
        q = rng.choice("'\"")
        return q + o.replace(q, "&#39;" if q == "'" else "&#34;") + q
    names = ["x", "y", "z", "id", "w", "xy"]
    dtd = ents
    for _ in range(rng.randint(0, 5)):
        dtd += "<!ATTLIST %s %s %s %s>" % (rng.choice(["a", "a", "b", "c"]), rng.choice(names), rng.choice(["CDATA", "CDATA", "ID", "NMTOKEN", "NMTOKENS", "IDREFS", "(v|w)", "NOTATION (n)", "ENTITY"]),
                                         rng.choice(["#IMPLIED", "#REQUIRED", val(), val(), "#FIXED " + val()]))
        if rng.random() < .15: dtd += rng.choice(["<!--c-->", "<?p?>", "<!ENTITY e 'second'>", "%pe;"])
    def el(d):
        n = rng.choice(["a", "b", "c"])
        ats = [(x, val()) for x in rng.sample(names, rng.choice([0, 1, 1, 2, 3, 4]))]
        if rng.random() < .05 and ats: ats.append((ats[0][0], val()))
        o = "<" + n + "".join(rng.choice([" ", "\n", "  "]) + x + rng.choice(["=", " = ", "=", "\t="]) + v for x, v in ats) + rng.choice(["", " ", "\r\n"])
        if d > 1 or rng.random() < .4: return o + "/>"
        return o + ">" + "".join(el(d + 1) for _ in range(rng.randint(0, 2))) + "</" + n + ">"
    sa = rng.choice(["", "", "<?xml version='1.0' standalone='yes'?>"])
    return sa + "<!DOCTYPE a [" + dtd + "]>" + el(0)

def c09(rng):
    d = entdoc(rng)
    if rng.random() < .02: d = shapes(rng)
    mp = growth(rng) if rng.random() < BIG else None
    d = grow(d, mp)
    cfg = dict(h=rng.choice([ALL, ALL, ALL + ["dx"], ALL + ["df"], CONTENT, [h for h in ALL if h != "sk"], [h for h in ALL if h != "er"]]), ns=rng.choice([-1, -1, 33]), pe=rng.choice([0, 0, 1, 2]),
               ents=[dict(sys=C("s"), create=1, ops=[["parse", A(grow(rng.choice(["<i/>", "x&e0;y", "&e1;", "t", "<i>", "&x;"]), mp)), 1]], ret=1)])
    ent0 = [dict(sys=C("d"), create=rng.choice([0, 1]), ops=[["parse", A(grow(rng.choice(["<!ENTITY e1 'ext'>", "<!ENTITY e9 'late'>", ""]), mp)), 1]], ret=1)]
    cfg["ents"] += ent0
    return direct(case(cfg, chunks(rng, encode(d, "utf-8"), rng.choice(["one", "one", "rand"])), kinds=["se", "ee", "cd", "sk", "er", "co", "pi", "cs", "ce"], res=1))

def entdoc(rng):
    """arbitrary graphs of entities"""
    n = rng.randint(1, 5)
    def frag(i, inatt=False):
        o = ""
        for _ in range(rng.randint(0, 3)):
            x = rng.random()
            if x < .4: o += "&e%d;" % (rng.randrange(max(1, i)) if rng.random() < .85 else rng.randrange(n + 2))
            elif x < .65: o += rng.choice(["t", "\r", "&#13;", "&#38;", "&#60;", "&lt;", "]", "&amp;", "\n", "&#38;#60;", "&#x41;", "\u20ac"])
            elif x < .9 and not inatt: o += rng.choice(["<b/>", "<b>x</b>", "<!--c-->", "<?p d?>", "<![CDATA[<&>]]>", "<b>&e0;</b>", "<b x=\"&e0;\"/>", "<c y=\"1\">", "</c>", "<![CDATA[", "]]>", "<b", "<!--"] if rng.random() < .3 else ["<b/>", "<b>x</b>", "<!--c-->", "<?p d?>", "<![CDATA[<&>]]>", "<b>&e0;</b>"])
            elif x < .93: o += rng.choice(["&x;", "&u;", "&nope;"])
        return o
    dtd = ""
    order = list(range(n))
    if rng.random() < .2: rng.shuffle(order)
    for i in order:
        dtd += "<!ENTITY e%d '%s'>" % (i, frag(i).replace("'", "&#39;"))
        if rng.random() < .08: dtd += "<!ENTITY e%d 'dup'>" % i
    if rng.random() < .4: dtd += "<!ENTITY x SYSTEM 's'>"
    if rng.random() < .3: dtd += "<!NOTATION n SYSTEM 'n'><!ENTITY u SYSTEM 'v' NDATA n>"
    if rng.random() < .25: dtd = rng.choice(["%p;", "<!ENTITY % p ''>%p;", "<!ENTITY % q SYSTEM 'd'>%q;", "<!ENTITY % p '<!ENTITY e1 \"pe\">'>%p;"]) + dtd
    if rng.random() < .1: dtd += "<!ENTITY lt '&#38;#60;'><!ENTITY amp '&#38;#38;'>"
    sa = rng.choice(["", "", "<?xml version='1.0' standalone='yes'?>", "<?xml version='1.0' standalone='no'?>"])
    ex = rng.choice(["", "", "", " SYSTEM 'd'"])
    body = ""
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if x < .6: body += "&e%d;" % rng.randrange(n + (1 if rng.random() < .1 else 0))
        elif x < .75: body += "<k z='%s'/>" % frag(n, True).replace("<", "")
        elif x < .85: body += rng.choice(["&x;", "&u;", "&nope;", "&e9;"])
        else: body += rng.choice(["<m>", "</m>", "t", "<m/>"]) if rng.random() < .3 else "<m>&e0;</m>"
    att = " w='&e0;'" if rng.random() < .2 else ""
    return sa + "<!DOCTYPE a" + ex + " [" + dtd + "]><a" + att + ">" + body + "</a>"

def c10(rng):
    x = rng.random()
    if x < .5: g = Good(rng, dtd=1, size=2, depth=2); d = g.document()
    else: g = Gen(rng, dtd=1, bad=0, size=1, depth=2, ext=True); d = "<!DOCTYPE a " + (g.extid() if rng.random() < .3 else "") + "[" + g.subset(rng.randint(1, 6)) + "]><a/>"
    if rng.random() < .03: d = shapes(rng)
    if rng.random() < BIG: g.infl = growth(rng); d = grow(d, g.infl)
    hs = rng.choice([ALL, ALL, ALL, ALL + ["df"], DECLS, [h for h in ALL if h != "ue"], [h for h in ALL if rng.random() < .7]])
    cfg = base_cfg(rng, g, hs, ents=ents_for(rng, g, ["one", "one", "rand"], wild=.05), foreign=0, stret=1)
    b, enc = enc_doc(rng, d, .85)
    cfg["enc"] = enc
    return direct(case(cfg, chunks(rng, b, rng.choice(["one", "one", "rand"])), kinds=DECLS + ["pi", "co"], res=0))

def c11(rng):
    x = rng.random()
    if x < .3:
        g = Good(rng, dtd=1, size=3, depth=2); d = g.document()
        cfg = base_cfg(rng, g, ents=ents_for(rng, g))
    elif x < .45:
        g = Gen(rng, dtd=1, bad=.01, size=3, depth=2); d = g.document()
        cfg = base_cfg(rng, g, ents=ents_for(rng, g))
    elif x < .55: d, cfg = sadoc(rng)
    elif x < .65: d, cfg = valdoc(rng)
    else:
        d, cfg = extdoc(rng)
        if rng.random() < BIG: d, cfg = extdoc(rng, growth(rng))
    cfg["h"] = rng.choice([ALL, ALL, ALL, ALL + ["df"], [h for h in ALL if h != "st"], [h for h in ALL if h != "sk"], [h for h in ALL if h != "er"]])
    return direct(case(cfg, chunks(rng, encode(d, "utf-8"), rng.choice(["one", "one", "rand"])), kinds=["er", "sk", "st", "cx", "cr", "cf", "en", "al", "el", "ue", "no", "sd", "ed", "se", "ee", "cd", "ns", "ne", "xd"], res=1))

def sadoc(rng):
    """small documents on which the rules about what has not been read decide: the standalone declaration, the external subset,
    references to parameter entities, and entities not declared"""
    sa = rng.choice(["", "<?xml version='1.0'?>", "<?xml version='1.0' standalone='no'?>", "<?xml version='1.0' standalone='yes'?>", "<?xml version='1.0' standalone='yes'?>"])
    ext = rng.choice(["", "", " SYSTEM 'p1'", " PUBLIC 'pub' 'p1'"])
    undef = rng.choice(["&un;", "&un;", "&late;", "&e;"])
    pd = rng.choice(["", "<!ENTITY % p ''>", "<!ENTITY % p '<!ENTITY late \"L\">'>", "<!ENTITY % p SYSTEM 'p2'>", "<!ENTITY % p SYSTEM 'p2'>"])
    bits = [pd, "<!ENTITY x SYSTEM 'g1'>", rng.choice(["%p;", "%p;", "", "%zz;"]), rng.choice(["<!ENTITY e 'E'>", "<!ENTITY e '%s'>" % "&un;", ""]), rng.choice(["<!ENTITY i 'i%si'>" % undef, ""]),
            rng.choice(["", "<!ATTLIST a d CDATA 'D'>", "<!ATTLIST a d CDATA '%s'>" % undef, "<!ELEMENT a ANY>", "<!NOTATION n SYSTEM 'n'>", "<!ENTITY u SYSTEM 'u' NDATA n>", "<!--c-->", "<?q?>"])]
    if rng.random() < .3: rng.shuffle(bits)
    sub = " [" + "".join(bits) + "]" if rng.random() < .9 else ""
    body = "".join(rng.choice([undef, undef, "&x;", "&x;", "&i;", "&e;", "t", "<b y='%s'/>" % undef, "<b y='&i;'/>", "<b/>"]) for _ in range(rng.randint(1, 3)))
    d = sa + "<!DOCTYPE a" + ext + sub + ">" + rng.choice(["", "", "<?q?>"]) + "<a%s>" % rng.choice(["", "", " y='%s'" % undef, " y='&i;'"]) + body + "</a>"
    def piece(): return rng.choice(["", "", "<!ENTITY late 'L'>", "<!ENTITY un 'U'>", "%zz;", "<!ENTITY % zz '<!ENTITY un \"Z\">'>%zz;", "<!ATTLIST a m CDATA 'M'>", "<!ATTLIST a m CDATA '%s'>" % undef, "<!ENTITY % q SYSTEM 'p2'>", "%q;",
                                    "<!ELEMENT b ANY>", "<!ENTITY k 'K%zz;'>", "<!ENTITY k 'K%p;'>", "%p;", "<![%zz;[<!ENTITY un 'U'>]]>", "<![INCLUDE[<!ENTITY un 'U'>]]>", "<!ENTITY x SYSTEM 'g1'>"])
    ents = []
    for n in ("p1", "p2"):
        if rng.random() < .93:
            ents.append(dict(sys=C(n), create=0 if rng.random() < .15 else 1, ret=0 if rng.random() < .05 else 1, ops=chunks(rng, encode("".join(piece() for _ in range(rng.randint(0, 3))), "utf-8"), rng.choice(["one", "one", "rand"]))))
    if rng.random() < .95:
        t = "".join(rng.choice([undef, undef, "&e;", "&i;", "t", "<b/>", "<b y='%s'/>" % undef, "<b y='&i;'/>", "&late;"]) for _ in range(rng.randint(0, 3)))
        ents.append(dict(sys=C("g1"), create=0 if rng.random() < .1 else 1, ret=0 if rng.random() < .05 else 1, ops=chunks(rng, encode(t, "utf-8"), rng.choice(["one", "one", "rand"]))))
    cfg = dict(ns=rng.choice([-1, -1, -1, 33]), pe=rng.choice([0, 1, 1, 2, 2]), foreign=rng.choice([0, 0, 0, 0, 1]), base=None, stret=rng.choice([1, 1, 1, 0]), ents=ents)
    if cfg["foreign"] and ents and rng.random() < .6: ents[0]["sys"] = [-1]
    return d, cfg

def c11val(rng):
    d, cfg = valdoc(rng)
    cfg["h"] = ALL
    return direct(case(cfg, chunks(rng, encode(d, "utf-8"), rng.choice(["one", "one", "rand"])), kinds=["er", "sk", "st", "cx", "cr", "cf", "en", "al", "el", "ue", "no", "sd", "ed", "se", "ee", "cd", "ns", "ne", "xd"], res=1))

def valdoc(rng):
    """entity values that include external parameter entities: tiny pieces, empty ones, byte order marks, encodings"""
    def text(): return rng.choice(["", "", "v", " ", "\r\n", "<i/>", "\u20ac", "%q2;", "%q3;", "x%q2;y", "&#65;", "&e;", "<!--c-->", "'", '"', "%zz;", "&", "%", "]]>", "<", "<i"]) if rng.random() < .9 else rng.choice(["<?p q?>", "x" * 40, "<!ENTITY z 'q'>", "<?xml version='1.0'?>"])
    ents = []
    for n in ("q1", "q2", "q3"):
        if rng.random() < .05: continue
        t = rng.choice(["", "", "", "<?xml encoding='utf-8'?>", "<?xml version='1.0' encoding='utf-8'?>", "<?xml encoding='iso-8859-1'?>"]) + "".join(text() for _ in range(rng.randint(0, 2)))
        if "iso" in t: t = t.replace("\u20ac", "\u00e9"); b = t.encode("latin-1")
        elif "xml enc" not in t and "xml ver" not in t and rng.random() < .2: b = b"\xff\xfe" + encode(t, "utf-16le")
        else: b = rng.choice([b"", b"", b"", b"\xef\xbb\xbf"]) + encode(t, "utf-8")
        ops = chunks(rng, b, rng.choice(["one", "one", "rand", "bytes"]))
        y = rng.random()
        if y < .1: ops = [["parse", [], 0]] + ops
        elif y < .2 and ops[-1][2]: ops = ops[:-1] + [ops[-1][:2] + [0], ["parse", [], 1]]
        elif y < .25: ops = ops[:-1] + [ops[-1][:2] + [0]]
        ents.append(dict(sys=C(n), create=0 if rng.random() < .03 else 1, ret=0 if rng.random() < .03 else 1, ops=ops))
    decl = "".join("<!ENTITY %% %s %s>" % (n, "SYSTEM '%s'" % rng.choice(["q1", "q2", "q3", n, n]) if rng.random() < .85 else rng.choice(["''", "'pv'", "'%q3;'"])) for n in ("q1", "q2", "q3") if rng.random() < .95)
    vals = "".join("<!ENTITY %s '%s'>" % (rng.choice("efg"), rng.choice(["%q1;", "a%q1;b", "%q2;%q1;", "%q1;%q1;", "&#37;q1;", "a%q3;", "%q2;b", "%zz;", "&e;%q1;"])) for _ in range(rng.randint(1, 3)))
    p1 = decl + vals + rng.choice(["", "", "%q1;", "<!ENTITY g 'last'>"])
    ents.insert(0, dict(sys=C("p1"), create=1, ret=1, ops=chunks(rng, encode(p1, "utf-8"), rng.choice(["one", "one", "rand"]))))
    d = rng.choice(["", "", "", "<?xml version='1.0' standalone='yes'?>"]) + "<!DOCTYPE a SYSTEM 'p1'" + rng.choice(["", "", " [" + decl + "]", " [<!ENTITY e 'int'>]"]) + "><a>" + "".join(rng.choice(["&e;", "&f;", "&g;", "<b q='&e;'/>", "t"]) for _ in range(rng.randint(0, 3))) + "</a>"
    return d, dict(ns=rng.choice([-1, -1, 33]), pe=rng.choice([1, 2, 2, 2]), foreign=0, base=rng.choice([None, C("b")]), stret=1, ents=ents)

def extdoc(rng, mp=None):
    """documents made of external pieces, PEs and standalone rules"""
    sa = rng.choice(["", "", "<?xml version='1.0' standalone='yes'?>", "<?xml version='1.0' standalone='no'?>"])
    def pedecl(n, names):
        x = rng.random()
        if x < .4: v = "'%s'" % decls(1, inner=True)
        elif x < .8: v = "SYSTEM '%s'" % rng.choice(["p1", "p2", "p3"])
        else: v = "'%s'" % rng.choice(["", " ", "<!ENTITY e \"pe\">", "&#37;p2;", "ANY", "CDATA", "INCLUDE", "IGNORE", "x"])
        return "<!ENTITY % " + n + " " + v + ">"
    def decls(k, inner=False, ext=False):
        o = ""
        for _ in range(rng.randint(0, k + 2)):
            x = rng.random()
            q = '"' if inner else "'"
            if x < .25 and not inner: o += pedecl(rng.choice(["a1", "a2", "a3"]), None)
            elif x < .45 and not inner: o += "%" + rng.choice(["a1", "a2", "a3", "zz" if rng.random() < .3 else "a1"]) + ";"
            elif x < .6: o += "<!ENTITY %s %s%s%s>" % (rng.choice(["e", "f", "g"]), q, rng.choice(["v", "<i/>", "&#38;f;", "", "w%a1;" if ext and not inner else "w", "%a2;x" if ext and not inner else "y"]), q)
            elif x < .68: o += "<!ENTITY %s SYSTEM %s%s%s>" % (rng.choice(["x", "y"]), q, rng.choice(["g1", "g2"]), q)
            elif x < .78: o += "<!ATTLIST a %s CDATA %sd%s>" % (rng.choice(["m", "n", "xmlns:p"]), q, q)
            elif x < .84: o += "<!ELEMENT %s %s>" % (rng.choice(["a", "b"]), rng.choice(["ANY", "EMPTY", "(b)", "%a1;" if ext else "ANY", "(b|%a2;)" if ext else "(b)"]))
            elif x < .9 and ext and not inner: o += "<![%s[%s]]>" % (rng.choice(["INCLUDE", "IGNORE", "%a1;", "%a2;"]), decls(0))
            elif x < .93: o += rng.choice(["<!--c-->", "<?p?>", " "])
            elif x < .96: o += rng.choice(["<!NOTATION n SYSTEM 'n'>".replace("'", q), "<!ENTITY u SYSTEM 'v' NDATA n>".replace("'", q)])
            elif rng.random() < .25: o += rng.choice(["x", "]", "<a/>", "<!ENTITY", "%zz", "]]>", "&e;"])
        return o
    ext = rng.choice(["", " SYSTEM 'p1'", " SYSTEM 'p2'", " PUBLIC 'pub' 'p1'"])
    sub = rng.choice(["", " [" + decls(2) + "]", " [" + decls(3) + "]"])
    body = "".join(rng.choice(["&e;", "&f;", "&g;", "&x;", "&y;", "t", "<b/>", "<b>&x;</b>", "<b xmlns:p='u'>&y;</b>", "<b q='&e;'/>", "&u;" if rng.random() < .3 else "t"]) for _ in range(rng.randint(0, 4)))
    d = sa + "<!DOCTYPE a" + ext + sub + ">" + "<a>" + body + "</a>"
    if rng.random() < .05: d = sa + "<a>" + body + "</a>"
    d = grow(d, mp)
    def td(): return rng.choice(["", "", "", "<?xml encoding='utf-8'?>", "<?xml version='1.0' encoding='utf-8'?>", "<?xml version='1.0'?>" if rng.random() < .3 else ""])
    ents = []
    for s in ("p1", "p2", "p3"):
        if rng.random() < .06: continue
        ents.append(dict(sys=C(s), create=0 if rng.random() < .08 else 1, ret=0 if rng.random() < .05 else 1,
                         ops=chunks(rng, encode(grow(td() + decls(3, ext=True), mp), "utf-8"), rng.choice(["one", "one", "rand", "bytes"]))))
    for s in ("g1", "g2"):
        if rng.random() < .06: continue
        t = td() + "".join(rng.choice(["&e;", "&f;", "&x;", "&y;", "t", "<b/>", "<b>s</b>", "<p:c/>", "<!--c-->"]) for _ in range(rng.randint(0, 3)))
        if rng.random() < .08: t += rng.choice(["<b>", "</b>", "</a>", "<", "&", "]]>", "<![CDATA[", "\r", "]"])
        ents.append(dict(sys=C(s), create=0 if rng.random() < .08 else 1, ret=0 if rng.random() < .05 else 1,
                         ops=chunks(rng, encode(grow(t, mp), "utf-8"), rng.choice(["one", "one", "rand", "bytes"]))))
    for e in ents:
        if rng.random() < .1: e["base"] = C("cb")
        if rng.random() < .06: e["ops"] = e["ops"][:-1] or [["parse", [], 0]]
    cfg = dict(ns=rng.choice([-1, -1, 33]), pe=rng.choice([0, 1, 2, 2]), foreign=rng.choice([0, 0, 0, 1]), base=rng.choice([None, C("b")]), stret=rng.choice([1, 1, 1, 0]), ents=ents)
    if cfg["foreign"] and rng.random() < .5:
        f = [e for e in ents if e["sys"] == C("p2")]
        if f: f[0]["sys"] = [-1]      # the foreign DTD has no system id
    return d, cfg

# --- encodings
def c12(rng):
    ns = rng.random() < .3
    x = rng.random()
    g = Good(rng, ns=ns, dtd=.4, ext=False, size=5)
    d = g.document() if x < .6 else g.mutate(g.document()) if x < .85 else Gen(rng, ns=ns, bad=.03, dtd=.4).document()
    while d.startswith("<?xml") and "encoding" in d.split("?>")[0]: 
        g = Good(rng, ns=ns, dtd=.4, ext=False, size=5); d = g.document()
    if rng.random() < .05 and not d.startswith("<?xml"): d = shapes(rng, ns)
    if rng.random() < BIG: d = grow(d, growth(rng))
    if rng.random() < .4: d = "".join(c for c in d if ord(c) < 0x10000)
    if rng.random() < .3: d = "".join(c for c in d if ord(c) < 128)
    elif rng.random() < .3: d = "".join(c for c in d if ord(c) < 256)
    cfg = dict(h=rng.choice([ALL, ALL + ["df"], CONTENT]), ns=33 if ns else -1, pe=0)
    m = dict(res=1, pos=0)
    runs = [case(cfg, [["parse", A(d), 1]], **m)]
    def add(b, **k):
        if b is not None: runs.append(case(dict(cfg, **k), chunks(rng, b, rng.choice(["one", "rand", "bytes"])), **m))
    def withdecl(name):
        if d.startswith("<?xml"): return None
        return "<?xml version='1.0' encoding='%s'?>" % name + d
    pick = rng.sample(["le", "be", "leproto", "beproto", "u16proto", "latin", "latindecl", "ascii", "asciidecl", "unk1", "unk1decl", "unk2", "bom8", "u8decl", "ledecl"], 5)
    for k in pick:
        try: _enc12(k, d, add, withdecl, rng)
        except UnicodeEncodeError: pass
    # (declared ones are judged alone: they have an event of their own)
    return alike(*runs)

def _enc12(k, d, add, withdecl, rng):
    e16 = lambda t, x: t.encode("utf-16-" + x, "surrogatepass")
    if k == "le": add(b"\xff\xfe" + e16(d, "le"))
    elif k == "be": add(b"\xfe\xff" + e16(d, "be"))
    elif k == "leproto": add(e16(d, "le"), enc=C("UTF-16LE"))
    elif k == "beproto": add(e16(d, "be"), enc=C("utf-16be"))
    elif k == "u16proto": add(rng.choice([b"\xff\xfe" + e16(d, "le"), b"\xfe\xff" + e16(d, "be"), e16(d, "be")]), enc=C("UTF-16"))
    elif k == "latin": add(encode(d, "latin-1"), enc=C("ISO-8859-1"))
    elif k == "ascii": add(encode(d, "ascii"), enc=C("US-ASCII"))
    elif k == "bom8": add(b"\xef\xbb\xbf" + encode(d, "utf-8"))
    elif k in ("latindecl", "asciidecl", "u8decl"):
        n, e = {"latindecl": ("iso-8859-1", "latin-1"), "asciidecl": ("us-ascii", "ascii"), "u8decl": ("UTF-8", "utf-8")}[k]
        t = withdecl(n)
        if t is not None: add(encode(t, e))
    elif k == "ledecl":
        t = withdecl("utf-16")
        if t is not None: add(b"\xff\xfe" + e16(t, "le"))
    else:
        kind = k[:4]
        mp, cv, _ = unkmap(rng, "single" if kind == "unk1" else "two")
        u = [dict(name=C("my"), map=mp, conv=cv)]
        if k == "unk1decl":
            t = withdecl("my")
            if t is not None: add(encode(t, "unk1"), unk=u)
        else: add(encode(d, kind), enc=C("my"), unk=u)

ENCNAMES = ["utf-8", "UTF-8", "Utf-16", "utf-16le", "UTF-16BE", "iso-8859-1", "ISO-8859-1", "us-ascii", "US-ASCII", "my", "bad", "none", "x" * 127, "x" * 128, "latin1", "utf8", "u", "utf-16x"]
def c12ann(rng):
    """announcements: protocol, byte-order mark, declaration, in agreement or not"""
    proto = rng.choice([None, None, None] + ENCNAMES)
    decl = rng.choice([None, None] + ENCNAMES)
    body = rng.choice(["<a/>", "<a>\u00e9</a>", "<a>x</a>", "<!--\u00e9--><a/>", "<\u00e9/>"])
    t = ("<?xml version='1.0' encoding='%s'?>" % decl if decl else rng.choice(["", "<?xml version='1.0'?>"])) + body
    real = rng.choice(["utf-8", "utf-16le", "utf-16be", "latin-1"])
    b = encode(t, real)
    b = rng.choice([b"", b"", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff"] + ([b"\xff\xfe"] if real == "utf-16le" else [b"\xfe\xff"] if real == "utf-16be" else [b""])) + b
    mp = list(range(128)) + [0x80 + i for i in range(128)]
    bad = list(mp)
    k = rng.randrange(4)
    if k == 0: bad[65] = 66
    elif k == 1: bad[200] = -5
    elif k == 2: bad[200] = -2
    else: bad[200] = 0x10000
    two = list(range(128)) + [-1] * 64 + [-2] * 64
    cfg = dict(h=rng.choice([ALL, ALL + ["df"], [h for h in ALL if h != "uk"]]), ns=rng.choice([-1, 33]), enc=C(proto) if proto else None,
               unk=[dict(name=C("my"), map=rng.choice([mp, two]), conv=rng.choice([0, 1])), dict(name=C("bad"), map=bad, conv=0)])
    ops = chunks(rng, b, rng.choice(["one", "one", "rand", "bytes"]))
    if rng.random() < .15: ops = [["call", "setenc", C(rng.choice(ENCNAMES))]] + ops
    return direct(case(cfg, ops, res=1, pos=0))

def c13(rng):
    g, d = some_doc(rng, .55, .3)
    b, enc = enc_doc(rng, d, .6)
    hs = rng.choice([ALL, ALL, ALL + ["df"], ALL + ["dx"], ["df"], CONTENT])
    ents = ents_for(rng, g, ["one", "rand"])
    cfg = base_cfg(rng, g, hs, enc=enc, ents=ents, pos=rng.choice([1, 1, 1, 0]), rpos=1)
    o = chunks(rng, b)
    if rng.random() < .25:
        cfg["react"] = stops(rng, cfg, 1, rng.randint(1, 2))
        o = [x for y in o for x in (y, ["resumeall"])]
    if rng.random() < .15:
        ks = [k for k in cfg["h"] if k in CONTENT]
        if ks: cfg.setdefault("react", []).extend([rng.choice(ks), rng.randint(1, 3), ["ctx"]] for _ in range(2))
    if rng.random() < .1: cfg["rpos"] = 0
    return direct(case(cfg, o, res=3, pos=1))

def c14(rng):
    g1, d1 = some_doc(rng, .5, .3)
    g2, d2 = some_doc(rng, .7, .2, ns=g1.k["ns"])
    b1, e1 = enc_doc(rng, d1, .8)
    b2, e2 = enc_doc(rng, d2, .8)
    hs = rng.choice([ALL, ALL, ALL + ["df"], ALL + ["dx"], [h for h in ALL if h != "uk"]])
    en1, en2 = ents_for(rng, g1, ["one"]), ents_for(rng, g2, ["one"])
    ents = []
    for e in en1 + en2:      # one table serves both documents
        if not any(x["sys"] == e["sys"] for x in ents): ents.append(e)
    cfg = base_cfg(rng, g1, hs, enc=e1, ents=ents, pos=1)
    h = chunks(rng, b1, rng.choice(["one", "rand"]))
    react = []
    x = rng.random()
    if x < .3: react = stops(rng, cfg, 1, 1)          # reset while suspended
    elif x < .4: react = stops(rng, cfg, 0, 1)
    elif x < .55: h = h[:rng.randint(0, len(h))]
    elif x < .65: react = [[rng.choice([k for k in cfg["h"] if k not in ("dx",)]), rng.randint(1, 3), rng.choice([["seth", rng.choice(ALL + ["df", "dx"]), rng.choice([0, 1])], ["base", C("other")]])] for _ in range(2)]
    if x < .3 and rng.random() < .4: h.append(["resume"])
    if x >= .55 and x < .6: h.append(["call", "setenc", C("utf-16")])
    if rng.random() < .1: h += [["getbuf", 100]]
    if rng.random() < .15: h += [["reset", None]] + chunks(rng, encode("<q>x", "utf-8"), "one")[:1]
    two = chunks(rng, b2, rng.choice(["one", "rand", "bytes"]))
    m = dict(res=3, pos=2)
    return versus([case(dict(cfg, enc=e2), two, **m), case(dict(cfg, react=react), h, **m)],
                  [case(dict(cfg, react=react), h + [["reset", e2]] + two, **m)])

# --- characters
def c15_groups(rng, tier):
    """deterministic sweeps (returned all together)"""
    gs = []
    m = dict(kinds=["se", "cd"], names=1, res=1)
    cfg = dict(h=["se", "cd"], ns=-1)
    def legal(c): return c in (9, 10, 13) or 32 <= c < 0xd800 or 0xe000 <= c < 0xfffe or 0x10000 <= c < 0x110000
    quick = tier == "quick"
    # 1. content: every code point; legal ones in blocks, illegal ones alone
    def doc(text, enc):
        d = "<a>%s</a>" % text
        if enc == "utf-8": return d.encode("utf-8", "surrogatepass"), None
        if enc == "utf-16le": return b"\xff\xfe" + d.encode("utf-16-le", "surrogatepass"), None
        if enc == "utf-16be": return b"\xfe\xff" + d.encode("utf-16-be", "surrogatepass"), None
        return d.encode("latin-1"), C("iso-8859-1")
    skip = {0x3c, 0x26, 0x5d, 0x3e}
    step = 256
    for enc in ("utf-8", "utf-16le", "utf-16be"):
        blocks = list(range(0, 0x10000, step)) + (list(range(0x10000, 0x110000, 8192)) if quick else list(range(0x10000, 0x110000, step)))
        for a in blocks:
            cs = [c for c in range(a, a + step) if legal(c) and c not in skip]
            if cs:
                b, pe = doc("".join(map(chr, cs)), enc)
                gs.append(direct(case(dict(cfg, enc=pe), [["parse", list(b), 1]], **m)))
        ill = [c for c in range(0x20) if not legal(c)] + [0xfffe, 0xffff, 0xd800, 0xdbff, 0xdc00, 0xdfff]
        ill += rng.sample(range(0xd800, 0xe000), 40 if quick else 2048)
        ill += [0x1fffe, 0x10ffff, 0x1ffff]
        for c in ill:
            b, pe = doc(chr(c), enc)
            gs.append(direct(case(dict(cfg, enc=pe), [["parse", list(b), 1]], **m)))
            b, pe = doc("x" + chr(c) + "y", enc)
            gs.append(direct(case(dict(cfg, enc=pe), chunks(rng, b, "bytes"), **m)))
    for c in range(256):
        if c not in skip:
            gs.append(direct(case(dict(cfg, enc=C("iso-8859-1")), [["parse", A("<a>") + [c] + A("</a>"), 1]], **m)))
            gs.append(direct(case(dict(cfg, enc=C("us-ascii")), [["parse", A("<a>") + [c] + A("</a>"), 1]], **m)))
    # 2. names: every BMP character as first and as further character, in each encoding
    import nameset
    for enc in ("utf-8", "utf-16be", "utf-16le"):
        for first in (True, False):
            ok = nameset.start() if first else nameset.name()
            for a in range(0, len(ok), 200):
                t = "<a>" + "".join("<%s/>" % (chr(c) if first else "a" + chr(c)) for c in ok[a:a + 200]) + "</a>"
                b = t.encode("utf-8") if enc == "utf-8" else (b"\xfe\xff" + t.encode("utf-16-be") if enc == "utf-16be" else b"\xff\xfe" + t.encode("utf-16-le"))
                gs.append(direct(case(cfg, [["parse", list(b), 1]], **m)))
            s = set(ok)
            no = [c for c in range(0x80, 0x10000) if c not in s and not 0xd800 <= c < 0xe000]
            edge = [c for c in no if c - 1 in s or c + 1 in s]
            pick = edge + rng.sample(no, 120 if quick else len(no) if enc == "utf-8" else 3000)
            if quick and enc != "utf-8": pick = rng.sample(edge, min(len(edge), 100)) + rng.sample(no, 60)
            for c in pick + list(range(1, 0x80)):
                if c in s: continue
                t = "<%s/>" % ((chr(c) + "a") if first else "a" + chr(c) + "b")
                b = t.encode("utf-8") if enc == "utf-8" else (b"\xfe\xff" + t.encode("utf-16-be") if enc == "utf-16be" else b"\xff\xfe" + t.encode("utf-16-le"))
                gs.append(direct(case(cfg, [["parse", list(b), 1]], **m)))
    for c in range(0x80, 0x100):
        for t in ([c], [97, c]):
            gs.append(direct(case(dict(cfg, enc=C("iso-8859-1")), [["parse", [60] + t + A("/>"), 1]], **m)))
    # names outside content: attributes, entities, nmtokens, PI targets, declarations
    sample = rng.sample(nameset.name(), 60) + [0xb7, 0x300, 0x2160, 0xd7, 0xf7, 0x2c1, 0x3d7, 0xe5d, 0x20ac, 0x10000]
    for c in sample:
        for t in ("<a %s='1'/>", "<?%s d?><a/>", "<!DOCTYPE %s><a/>", "<!DOCTYPE a [<!ENTITY %s 'x'>]><a>&%s;</a>", "<!DOCTYPE a [<!ELEMENT %s ANY>]><a/>", "<!DOCTYPE a [<!ATTLIST a b (%s) #IMPLIED>]><a/>",
                  "<!DOCTYPE a [<!ATTLIST a %s CDATA 'd'>]><a/>", "<!DOCTYPE a [<!NOTATION %s SYSTEM 's'>]><a/>", "<a>&%s;</a>", "<!DOCTYPE a [<!ELEMENT a (%s)>]><a/>", "<!DOCTYPE a [<!ENTITY %% %s 'x'> %%%s;]><a/>"):
            for n in ("x" + chr(c), chr(c) + "x"):
                d = t.replace("%s", n).replace("%%", "%")
                gs.append(direct(case(dict(h=ALL, ns=rng.choice([-1, 33])), [["parse", A(d), 1]], kinds=["-"], res=1)))
    # 3. byte sequences in UTF-8 content and names
    lead = range(0x80, 0x100)
    def b8(seq, ctx):
        pre, post = ctx
        return direct(case(cfg, [["parse", A(pre) + list(seq) + A(post), 1]], **m))
    ctxs = [("<a>", "</a>"), ("<a", "/>"), ("<a>x", "yz</a>"), ("<", "/>"), ("<a x='", "'/>"), ("<!--", "--><a/>"), ("<a><![CDATA[", "]]></a>")]
    for l in lead:
        seconds = [0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0x41, 0x3c]
        for s in seconds:
            gs.append(b8([l, s], ctxs[0]))
            if not quick or rng.random() < .3: gs.append(b8([l, s], rng.choice(ctxs)))
            for t in rng.sample([0x7f, 0x80, 0xbe, 0xbf, 0xc0, 0x41, 0x9f, 0xa0], 2 if quick else 8):
                gs.append(b8([l, s, t], ctxs[0] if rng.random() < .6 else rng.choice(ctxs)))
                if l >= 0xe0:
                    for u in rng.sample([0x7f, 0x80, 0xbe, 0xbf, 0xc0, 0x41], 1 if quick else 6):
                        gs.append(b8([l, s, t, u], ctxs[0] if rng.random() < .6 else rng.choice(ctxs)))
        gs.append(b8([l], ctxs[0])); gs.append(b8([l], ("<a>", "")))
    for l in (0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf1, 0xc1, 0xc2, 0xf5):
        for s in range(0x80, 0xc0):
            for tail in ([0x80, 0x80], [0xbf, 0xbf], [0xbf, 0xbe]):
                gs.append(b8([l, s] + tail[:1 if l < 0xf0 else 2], ctxs[0]))
                gs.append(b8([97, l, s] + tail[:1 if l < 0xf0 else 2], ctxs[3]))
    # 4. character references
    refs = list(range(0, 0x21)) + [0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x1ffff, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000041, 65536 * 65536 * 65536 + 65]
    refs += rng.sample(range(0x110000), 200 if quick else 3000)
    for c in refs:
        for f in ("&#%d;", "&#x%x;", "&#x%X;", "&#x000%x;", "&#00%d;"):
            if rng.random() < (.5 if quick else 1) or c < 0x21 or c > 0xfffff:
                r = f % c
                gs.append(direct(case(cfg, [["parse", A("<a>%s</a>" % r), 1]], **m)))
                if rng.random() < .3: gs.append(direct(case(dict(h=ALL, ns=-1), [["parse", A("<a x='%s'/>" % r), 1]], kinds=["se"], res=1)))
                if rng.random() < .3: gs.append(direct(case(dict(h=ALL, ns=-1), [["parse", A("<!DOCTYPE a [<!ENTITY e '%s'>]><a/>" % r), 1]], kinds=["en"], res=1)))
    return gs

def c16(rng):
    x = rng.random()
    if x < .12:
        d, cfg = rng.choice([valdoc, valdoc, extdoc, sadoc])(rng)
        cfg["h"] = rng.choice([ALL, ALL, ALL + ["df"], [h for h in ALL if h != "er"]])
        b = encode(d, "utf-8")
        if rng.random() < .2: b = damage(rng, b)
        for e in cfg["ents"]:
            if rng.random() < .15: e["ops"] = chunks(rng, damage(rng, bytes(v for o in e["ops"] if o[0] in ("parse", "pbuf") for v in o[1])))
        return direct(case(cfg, chunks(rng, b), res=0, kinds=["-"]))
    if x < .2:
        b = encode(rng.choice([attdoc, entdoc, nsdoc])(rng), "utf-8")
        if rng.random() < .3: b = damage(rng, b)
        return direct(case(dict(h=ALL, ns=rng.choice([-1, 33, 33]), pe=rng.choice([0, 2]), ents=[]), chunks(rng, b), res=0, kinds=["-"]))
    g, d = some_doc(rng, .35, .3)
    b, enc = enc_doc(rng, d, .6)
    if rng.random() < .35: b = damage(rng, b)
    if rng.random() < .05: b = bytes(rng.choice([0x3c, 0x61, 0x3e, 0x2f, 0x26, 0x3b, 0x21, 0x5b, 0x5d, 0x22, 0x27, 0x3d, 0x20, 0x0d, 0x0a, 0x25, 0x3f, 0x2d, 0x28, 0x29, 0x7c, 0xc3, 0xa9, 0, 0xff]) for _ in range(rng.randint(1, 40)))
    hs = rng.choice([ALL, ALL, ALL + ["df"], ALL + ["dx"], ["df"], None])
    if hs is None: hs = [h for h in ALL + ["df"] if rng.random() < .5]
    ents = ents_for(rng, g, None, .4, .1, .1)
    cfg = base_cfg(rng, g, hs, enc=enc, ents=ents, pos=rng.choice([0, 1]), stret=rng.choice([1, 1, 0]))
    ops = chunks(rng, b)
    if rng.random() < .6:
        rs = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(hs) if hs else "se"
            k = "df" if k == "dx" else k
            a = rng.choice([["stop", 1], ["stop", 1], ["stop", 0], ["dc"], ["seth", rng.choice(ALL + ["df", "dx", "el2"]), rng.choice([0, 0, 1])], ["ctx"], ["base", C("nb")], ["base", None],
                            ["call", "setenc", C("utf-8")], ["call", "setpe", 1], ["call", "getbase"], ["call", "foreign", 1], ["stopdepth", rng.choice([0, 1]), 1]])
            rs.append([k, rng.randint(1, 5), a])
        cfg["react"] = rs
        ops = [x for o in ops for x in ((o, ["resumeall"]) if rng.random() < .9 else (o,))]
        for e in ents: e["ops"] = [x for o in e["ops"] for x in (o, ["resumeall"])]
    for _ in range(rng.choice([0, 0, 1, 2])): ops.insert(rng.randint(0, len(ops)), rng.choice(WHILESUSP[:-3]))
    if rng.random() < .15: ops = ops + [["reset", None]] + chunks(rng, encode(g.document(), "utf-8"))
    return direct(case(cfg, fix_ops(ops), res=0, kinds=["-"]))

def c17(rng):
    g, d = some_doc(rng, .7, .2)
    b, enc = enc_doc(rng, d, .8)
    x = rng.random()
    if x < .4: hs = [rng.choice(["df", "dx"])]
    elif x < .7: hs = [h for h in ALL if rng.random() < .5] + [rng.choice(["df", "dx"])]
    else: hs = ALL + [rng.choice(["df", "dx"])]
    ents = ents_for(rng, g, ["one"]) if rng.random() < .3 else []
    cfg = base_cfg(rng, g, hs, enc=enc, ents=ents)
    bare = dict(cfg, h=[h for h in hs if h in ("er", "st", "uk")])
    o = chunks(rng, b, rng.choice(["one", "one", "rand", "bytes"]))
    react = []
    if rng.random() < .4:
        ks = [h for h in hs if h not in ("dx", "df")]
        react = [[rng.choice(ks), rng.randint(1, 4), ["dc"]] for _ in range(rng.randint(1, 3))] if ks else []
    if rng.random() < .15: react.append(["df", rng.randint(1, 6), ["seth", rng.choice(["df", "dx"]), rng.choice([0, 1])]])
    if rng.random() < .15:
        ks = [h for h in hs if h in CONTENT]
        if ks: react.append([rng.choice(ks), rng.randint(1, 4), ["seth", rng.choice(["df", "dx"]), rng.choice([1, 1, 0])]])
    # bases: the verdict of the document, and the calls of the other handlers, are as they should be
    return versus([case(bare, o, kinds=["-"], res=1), case(dict(cfg, h=[h for h in hs if h not in ("df", "dx")]), o, res=1, pos=0)], [case(dict(cfg, react=react), o, kinds=["df"], res=0, pos=0)])

def c17long(rng):
    t = longtext(rng)
    d = rng.choice(["<a>%s</a>", "<a><![CDATA[%s]]></a>", "<!--%s--><a/>", "<?p %s?><a/>", "<a x='%s'/>", "<a>x<b/>%s</a>"]) % t
    enc = rng.choice(["utf-8", "utf-16le", "utf-16be"])
    b = encode(d, enc)
    if enc != "utf-8": b = {"utf-16le": b"\xff\xfe", "utf-16be": b"\xfe\xff"}[enc] + b
    h = rng.choice([["df"], ["dx"], ["cd", "df"]])
    cfg = dict(h=h, ns=-1)
    react = []
    if rng.random() < .5: react = [[rng.choice(["df", "cd"]), rng.randint(1, 4), rng.choice([["seth", "cd", 0], ["seth", "df", 0], ["dc"], ["stop", 1]])]]
    o = chunks(rng, b, rng.choice(["one", "rand"]))
    return versus([case(cfg, o, kinds=["-"], res=1)], [case(dict(cfg, react=react), [x for y in o for x in (y, ["resumeall"])], kinds=["df", "cd"], res=0)])

def c18(rng):
    g, d = some_doc(rng, .8, .1)
    b, enc = enc_doc(rng, d, .9)
    ents = ents_for(rng, g, ["one"])
    keep = ["er", "st", "uk", "sk"]
    cfg = base_cfg(rng, g, ALL, enc=enc, ents=ents)
    o = chunks(rng, b, rng.choice(["one", "one", "rand"]))
    m = dict(res=1, pos=0, kinds=[k for k in ALL])
    bases = [case(cfg, o, **m)]
    runs = []
    for _ in range(2):
        sub = [h for h in ALL if h in keep or rng.random() < .5]
        if rng.random() < .3: sub = [h for h in ALL if h != rng.choice(ALL) or h in keep]
        runs.append(case(dict(cfg, h=sub), o, **m))
    for _ in range(2):
        react = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .5:      # a handler that clears or changes another (or itself)
                k = rng.choice(CONTENT + DECLS + NSK)
                react.append([k, rng.choice([1, 1, 2, 3]), ["seth", rng.choice(CONTENT + NSK + DECLS + ["el2"]), rng.choice([0, 0, 1])]])
            else: react.append([rng.choice(CONTENT + DECLS + NSK + ["er", "sk", "st"]), rng.choice([1, 1, 2, 3]), ["seth", rng.choice(ALL), rng.choice([0, 0, 1])]])
        ops = list(o)
        if rng.random() < .4: ops.insert(rng.randint(0, len(ops)), ["seth", rng.choice(ALL), rng.choice([0, 1])])
        runs.append(case(dict(cfg, react=react, h=rng.choice([ALL, [h for h in ALL if rng.random() < .8]])), ops, **m))
    return versus(bases, runs)
