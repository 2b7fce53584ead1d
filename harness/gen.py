"""Random documents, configurations and API histories (the environment of the specification)."""
import random, re

def C(s): return [ord(c) for c in s]

NAMES = ["a", "b", "c", "d", "ab", "e1", "x-y", "\u00e9l", "\u0e01", "\u4e00z", "_u", "a.b"]
NSNAMES = ["p:a", "q:b", "p:b", "r:c", ":a", "a:", "p:q:r", "xml:lang", "xmlns:p", "p:\u00e9"]
ENTS = ["e", "f", "g", "h", "u", "x", "lt2", "ext", "bin", "rec"]
PES = ["p", "q", "r", "s", "px", "py", "un"]
URIS = ["u:1", "u:2", "", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", "u", "u:1 ", "x'y"]
TEXTS = ["x", "hello", " ", "\n", "\r", "\r\n", "\n\r", "\t", "]", "]]", "]]]", "]]>", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;",
         "\u00e9", "\u20ac", "\U0001f600", "\ud7ff", "\ue000", "\ufffd", "&#65;", "&#x41;", "&#10;", "&#13;", "&#x20AC;", "&#x1F600;", ">", "'", '"',
         "&#32;", "&#9;", "a b  c", "  ", "-", "--", "?", "\u0085", "\u2028", "\x7f"]
BADTEXTS = ["&#0;", "&#xD800;", "&#xFFFF;", "&#x110000;", "&#;", "&#x;", "&nope;", "&", "&a", "<", "\x01", "\ufffe", "\uffff", "&#99999999;",
            "&a b;", "&#6 5;", "<!", "<?", "<![CDATA", "]]>", "</", "<a ", "<?xml ?>", "<!DOCTYPE a>", "%p;", "&#x1F600", "\x0b", "&%;", "<%p;", "<a/", "&#xg;"]

class Gen:
    def __init__(self, rng, **kn):
        self.r = rng
        self.k = dict(ns=rng.random() < .4, dtd=.55, bad=.04, depth=3, ext=True, size=6)
        self.k.update(kn)
        self.depth = 0
        self.exts = {}        # sysid -> text
        self.nochild = False

    def p(self, x): return self.r.random() < x
    def ch(self, l): return self.r.choice(l)
    def name(self):
        if self.k["ns"] and self.p(.45): return self.ch(NSNAMES) if self.p(.5) else self.ch(["p:a", "q:b", "p:b", "r:c"])
        return self.ch(NAMES[:5]) if self.p(.8) else self.ch(NAMES)
    def S(self, opt=True):
        if opt and self.p(.7): return ""
        return self.ch([" ", " ", " ", "\n", "\t", "  ", "\r\n", " \r"])
    def S1(self): return self.S(False) or " "
    def bad(self): return self.p(self.k["bad"])

    def text(self, n=None):
        o = ""
        for _ in range(n if n is not None else self.r.randint(0, 4)):
            o += self.ch(BADTEXTS) if self.bad() else self.ch(TEXTS)
        return o
    def ref(self):
        return "&" + self.ch(ENTS) + ";"
    def quote(self, v):
        q = self.ch(["'", '"'])
        return q + v.replace(q, "&#39;" if q == "'" else "&#34;") + q
    def attval(self):
        o = ""
        for _ in range(self.r.randint(0, 4)):
            x = self.r.random()
            if x < .2 and self.k["dtd"] > 0: o += self.ref()
            elif x < .3: o += self.ch([" ", "\n", "\t", "\r\n", "\r", "  ", "&#32;", "&#10;", "&#9;", "&#13;"])
            else: o += self.text(1).replace("<", "") if not self.bad() else self.text(1)
        return self.quote(o)
    def attr(self):
        if self.k["ns"] and self.p(.35):
            n = self.ch(["xmlns", "xmlns:p", "xmlns:q", "xmlns:r", "xmlns:p", "xmlns:q"]) if not self.p(.06) else self.ch(["xmlns:xml", "xmlns:xmlns", "xmlns:", "xmlnsx", "xmln", "xmlns:p:q"])
            v = self.quote(self.ch(URIS[:3]) if self.p(.85) else self.ch(URIS))
        elif self.p(.05): n, v = "xml:" + self.ch(["lang", "space", "id"]), self.attval()
        else: n, v = self.name(), self.attval()
        if self.bad(): return self.ch([n, n + "=", n + "=x", n + " " + v, "=" + v, n + "==" + v, n + "=" + v + n + "=" + v, n + "=" + v[:-1]])
        return n + self.S() + "=" + self.S() + v
    def atts(self):
        o = ""
        for _ in range(self.ch([0, 0, 0, 1, 1, 2, 3])):
            o += (self.S1() if not self.bad() else "") + self.attr()
        return o
    def comment(self):
        return "<!--" + self.ch(["", "c", " - ", "x\r\ny", "<&>", "\u20ac", "a\rb"]) + (self.ch(["--", "-", "\x01"]) if self.bad() else "") + "-->"
    def pi(self):
        t = self.name().replace(":", "") or "t"
        if self.bad(): t = self.ch(["xml", "XML", "xMl", "", "1", "p:i", "xmlx"])
        return "<?" + t + self.ch(["", " ", " d", "\r\nd\re", "  ?", " x?y", "\t\u20ac"]) + "?>"
    def cdata(self):
        return "<![CDATA[" + self.ch(["", "x", "]", "]]", "\r\n", "\r", "<&>", "]] >", "\u20ac\n", "a\rb", "]]]", ">", "]>"]) + ("" if not self.bad() else self.ch(["]]", "\x01", "]]>x"])) + "]]>"
    def content(self, top=False):
        o = ""
        self.depth += 1
        for _ in range(self.r.randint(0, self.k["size"] if self.depth < 2 else 3)):
            x = self.r.random()
            if x < .35: o += self.text(self.r.randint(1, 3))
            elif x < .47 and self.k["dtd"] > 0: o += self.ref()
            elif x < .72 and self.depth < self.k["depth"]: o += self.element()
            elif x < .8: o += self.comment()
            elif x < .87: o += self.pi()
            elif x < .95: o += self.cdata()
            else: o += self.name()
        self.depth -= 1
        return o
    def element(self):
        n = self.name()
        a = self.atts()
        if self.p(.3): return "<" + n + a + self.S() + "/>"
        e = n if not self.bad() else self.name()
        return "<" + n + a + self.S() + ">" + self.content() + ("</" + e + self.S() + ">" if not self.bad() else self.ch(["", "</" + e, "</>", "</ " + e + ">", "<" + e + "/>"]))

    # ---- DTD
    def sysid(self): return self.ch(["s1", "s2", "s3", "s4"])
    def pubid(self):
        s = self.ch(["pub", "-//X//Y 1.0//EN", " a  b ", "", "x\ny", "ab", "x\ry", "\r\nx", "x\n\r", "\r", "a \r\n b", None, None])
        if s is None: s = "".join(self.ch([" ", "\n", "\r", "\r\n", "  ", "a", "B", "1", "-()+,./:=?;!*#@$_%"]) for _ in range(self.r.randint(0, 7)))
        return self.quote(s if not self.bad() else self.ch(["\u00e9", "a{b", "a\tb", "<"]))
    def extid(self, pubonly=False):
        if self.p(.35):
            return "PUBLIC" + self.S1() + self.pubid() + ("" if pubonly and self.p(.6) else self.S1() + self.quote(self.sysid()))
        return "SYSTEM" + self.S1() + self.quote(self.sysid())
    def entval(self):
        o = ""
        for _ in range(self.r.randint(0, 3)):
            x = self.r.random()
            if x < .25: o += self.ref()
            elif x < .35: o += self.ch(["&#60;", "&#38;", "&#x26;", "&#37;", "&#60;b/>", "&#38;#60;", "&#13;"])
            elif x < .5: self.depth += 1; o += self.element() if self.depth < 3 else ""; self.depth -= 1
            elif x < .58: o += self.ch([self.cdata, self.comment, self.pi])()
            elif x < .62: o += self.ch(["<b>", "</b>", "<![CDATA[", "]]>", "<b", "<!--", "%"])
            elif x < .7 and self.k.get("extsub"): o += "%" + self.ch(PES) + ";"
            else: o += self.text(1)
        return self.quote(o)
    def peval(self):
        # replacement text of a PE used between declarations or inside them
        x = self.r.random()
        if x < .55:
            self.depth += 1
            v = "".join(self.decl() for _ in range(self.r.randint(0, 2))) if self.depth < 3 else " "
            self.depth -= 1
        elif x < .75: v = self.ch(["EMPTY", "ANY", "(a|b)", "(a", "a|b", "#PCDATA", "CDATA", "INCLUDE", "IGNORE", "'v'", "a CDATA 'x'", "SYSTEM 's1'", "", " ", ">", "<!ELEMENT b", "(", ")", ",c"])
        else: v = self.text(1)
        v = v.replace("%", "&#37;") if not self.bad() else v
        return self.quote(v)
    def entity(self):
        pe = self.p(.3)
        n = self.ch(PES if pe else ENTS)
        if self.k["ns"] and self.p(.03): n = "p:" + n
        o = "<!ENTITY" + self.S1() + ("%" + self.S1() if pe else "") + n + self.S1()
        x = self.r.random()
        if x < .7: o += self.peval() if pe else self.entval()
        else:
            o += self.extid()
            if not pe and self.p(.25): o += self.S1() + "NDATA" + self.S1() + self.ch(["n", "m"])
        return o + self.S() + ">"
    def cp(self, d=0):
        q = self.ch(["", "", "?", "*", "+"])
        if d < 2 and self.p(.35):
            n = self.r.randint(1, 3)
            sep = self.ch([",", "|"])
            return "(" + self.S() + (self.S() + sep + self.S()).join(self.cp(d + 1) for _ in range(n)) + self.S() + ")" + q
        return self.name() + q
    def elementdecl(self):
        x = self.r.random()
        if x < .15: m = "EMPTY"
        elif x < .3: m = "ANY"
        elif x < .4: m = "(" + self.S() + "#PCDATA" + self.S() + ")" + self.ch(["", "*"])
        elif x < .55: m = "(#PCDATA" + "".join(self.S() + "|" + self.S() + self.name() for _ in range(self.r.randint(1, 2))) + ")*"
        else:
            m = self.cp()
            if not m.startswith("("): m = "(" + m + ")"
        if self.bad(): m = self.ch(["(a,b|c)", "()", "(a", "a", "(#PCDATA|a)", "((a)", "EMPTYX", "(a,)", "(#PCDATA,a)*", "(a)**"])
        return "<!ELEMENT" + self.S1() + self.name() + self.S1() + m + self.S() + ">"
    def attlist(self):
        o = "<!ATTLIST" + self.S1() + (self.name() if self.p(.5) else self.ch(["a", "b"]))
        for _ in range(self.ch([0, 1, 1, 1, 2, 3])):
            n = self.name()
            if self.k["ns"] and self.p(.25): n = self.ch(["xmlns", "xmlns:p", "xmlns:q"])
            t = self.ch(["CDATA", "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(a|b)", "( a | 1 )", "NOTATION (n|m)", "NOTATION(n)"])
            if t.startswith("NOTATION(") and not self.bad(): t = "NOTATION (n)"
            d = self.ch(["#IMPLIED", "#REQUIRED", "#FIXED " + self.attval(), self.attval(), self.attval(), self.attval()])
            if self.bad(): t = self.ch(["cdata", "(a,b)", "()", "NOTATION", "FOO"])
            if self.bad(): d = self.ch(["#FOO", "", "#FIXED", "#IMPLIED 'x'"])
            o += self.S1() + n + self.S1() + t + self.S1() + d
        return o + self.S() + ">"
    def notation(self):
        return "<!NOTATION" + self.S1() + self.ch(["n", "m"]) + self.S1() + self.extid(True) + self.S() + ">"
    def cond(self):
        x = self.ch(["INCLUDE", "IGNORE", "INCLUDE", "IGNORE", "%p;", "%q;"])
        if self.bad(): x = self.ch(["include", "INCLUDEX", "", "IGNORE IGNORE"])
        b = "".join(self.decl() for _ in range(self.r.randint(0, 2)))
        if x == "IGNORE" and self.p(.5): b = self.ch(["x<![y]]>z", "]", "]]", "<!", "<![[]]]]>", "\u20ac", "'", "<!x", "]] >", "\x01" if self.bad() else ""])
        return "<![" + self.S() + x + self.S() + "[" + b + "]]>"
    def decl(self):
        x = self.r.random()
        if self.bad(): return self.ch(["<!FOO>", "<!ELEMENT>", "<!ATTLIST>", "<!ENTITY>", "x", "<a/>", "<!ENTITY e>", "<!ENTITY % p 'x' NDATA n>", "]", "&e;", "<![", "<!ENTITY e PUBLIC 'x'>", "<!NOTATION n 'x'>", "<!ELEMENT a EMPTY", "%", "%;", "% p;"])
        if x < .36: return self.entity()
        if x < .5: return self.elementdecl()
        if x < .68: return self.attlist()
        if x < .73: return self.notation()
        if x < .78: return self.comment()
        if x < .82: return self.pi()
        if x < .9: return "%" + self.ch(PES) + ";"
        if x < .95 and self.k.get("extsub"): return self.cond()
        return self.S1()
    def subset(self, n=None):
        return "".join(self.decl() + (self.S() if self.p(.3) else "") for _ in range(n if n is not None else self.r.randint(0, 6)))
    def textdecl(self):
        return "<?xml" + (self.S1() + "version=" + self.quote("1.0") if self.p(.5) else "") + self.S1() + "encoding=" + self.quote(self.ch(["utf-8", "UTF-8", "utf-8", "us-ascii", "iso-8859-1", "utf-16", "foo"] if self.p(.15) else ["utf-8"])) + self.S() + "?>"
    def extsubset(self):
        old = self.k.get("extsub"); self.k["extsub"] = True
        o = self.textdecl() if self.p(.25) else ""
        o += self.subset()
        if self.p(.1): o += self.ch(["]", "]]>", "x", "<a/>", "'", "<!--", "<!E", "\r", " "])
        self.k["extsub"] = old
        return o
    def extparsed(self):
        return (self.textdecl() if self.p(.3) else "") + self.content() + (self.ch(["</a>", "<b>", "\r", "]", "]]", "<", "&", "<![CDATA[x", "<!--", "\ufeff"]) if self.p(.1) else "")
    def doctype(self):
        o = "<!DOCTYPE" + self.S1() + self.name()
        if self.p(.3): o += self.S1() + self.extid()
        if self.p(.85): o += self.S() + "[" + self.subset() + "]"
        return o + self.S() + ">"
    def xmldecl(self, enc=None):
        o = "<?xml" + self.S1() + "version" + self.S() + "=" + self.S() + self.quote(self.ch(["1.0", "1.0", "1.0", "1.1", "2"]))
        if enc or self.p(.3): o += self.S1() + "encoding" + self.S() + "=" + self.S() + self.quote(enc or self.ch(["utf-8", "UTF-8", "utf-8"]))
        if self.p(.4): o += self.S1() + "standalone" + self.S() + "=" + self.S() + self.quote(self.ch(["yes", "no"]))
        if self.bad(): o += self.ch([" x='y'", "x", " encoding='1'", " standalone='maybe'", " encoding=utf-8", " version='1.0'", "\u00e9", " ="])
        return o + self.S() + "?>"
    def misc(self):
        return "".join(self.ch([self.comment, self.pi, self.S1])() for _ in range(self.ch([0, 0, 0, 1, 2])))
    def document(self, enc=None):
        o = self.xmldecl(enc) if enc or self.p(.3) else ""
        o += self.misc()
        if self.p(self.k["dtd"]): o += self.doctype() + self.misc()
        o += self.element()
        o += self.misc()
        if self.bad(): o += self.ch(["x", "<b/>", "&amp;", "\x00", "<![CDATA[]]>", "<!DOCTYPE a>", "<?xml version='1.0'?>"])
        return o

    # ---- mutation of the text
    def mutate(self, t):
        n = len(t)
        if n == 0: return t
        x = self.r.random()
        i = self.r.randrange(n)
        if x < .2: return t[:i]
        if x < .45: return t[:i] + t[i + self.ch([1, 1, 1, 2, 5]):]
        if x < .65: return t[:i] + self.ch(["<", ">", "&", ";", "'", '"', "]", "[", "!", "-", "?", "/", "=", "%", "#", " ", "\r", "\n", "\x00", "\u00e9", ":", "|", ",", "(", ")", "*"]) + t[i:]
        if x < .8:
            j = min(n, i + self.r.randint(1, 12)); k = self.r.randrange(n)
            return t[:k] + t[i:j] + t[k:]
        if x < .9: return t[:i] + self.ch(["<", ">", "&", "'", "]", "-", "a", "\x01", "\u20ac", " "]) + t[i + 1:]
        j = min(n, i + self.r.randint(1, 12))
        return t[:i] + self.ch(BADTEXTS) + t[j:]

class Good(Gen):
    """Documents that are well formed (namespace-well-formed with ns) by construction: references only to what is
    declared, prefixes only where bound, attribute names unique."""
    def __init__(self, rng, **kn):
        Gen.__init__(self, rng, **kn)
        self.k["bad"] = 0
        self.bound = []               # prefixes in scope
        self.cont = []                # entities that may be referenced in content
        self.attr_ents = []           # ... in attribute values
        self.pes = []                 # parameter entities holding declarations
        self.decls = 0
        self.attdefs = {}             # names with declared defaults: kept apart to avoid accidental duplicates
        self.sys = []                 # external ids used, with their role
    def lname(self): return self.ch(NAMES[:5]) if self.p(.8) else self.ch(NAMES)
    def name(self):
        n = self.lname()
        if self.k["ns"] and self.bound and self.p(.5): return self.ch(self.bound) + ":" + n
        return n
    def text(self, n=None):
        o = "".join(self.ch(TEXTS) for _ in range(n if n is not None else self.r.randint(0, 4)))
        while "]]>" in o: o = o.replace("]]>", "]] >")
        return o
    def ref(self):
        return "&" + self.ch(self.cont) + ";" if self.cont else self.ch(["&amp;", "&#65;", "&lt;"])
    def attval(self):
        o = ""
        for _ in range(self.r.randint(0, 4)):
            x = self.r.random()
            if x < .25 and self.attr_ents: o += "&" + self.ch(self.attr_ents) + ";"
            elif x < .4: o += self.ch([" ", "\n", "\t", "\r\n", "\r", "  ", "&#32;", "&#10;", "&#9;", "&#13;"])
            else: o += self.text(1)
        return self.quote(o)
    def element(self):
        saved = list(self.bound)
        decl = []
        if self.k["ns"] and self.p(.4):
            for p in self.r.sample(["", "p", "q", "r"], self.r.randint(1, 2)):
                if p == "": decl.append(("xmlns", self.quote(self.ch(["u:1", "u:2", "", "u"]))))
                else:
                    # distinct URIs per prefix: expanded attribute names stay distinct
                    decl.append(("xmlns:" + p, self.quote({"p": "u:1", "q": "u:2", "r": "u:3"}[p])))
                    if p not in self.bound: self.bound.append(p)
        n = self.name()
        seen, at = set(), list(decl)
        for _ in range(self.ch([0, 0, 1, 1, 2, 3])):
            a = self.name() if not self.p(.06) else "xml:" + self.ch(["lang", "space"])
            if a not in seen: seen.add(a); at.append((a, self.attval()))
        self.r.shuffle(at)
        o = "<" + n + "".join(self.S1() + a + self.S() + "=" + self.S() + v for a, v in at) + self.S()
        if self.p(.3): o += "/>"
        else: o += ">" + self.content() + "</" + n + self.S() + ">"
        self.bound = saved
        return o
    def content(self, top=False):
        o = Gen.content(self)
        while "]]>" in o.replace("<![CDATA[", ""):     # text next to text may make up "]]>"
            i = 0; t = ""; ok = True
            while i < len(o):
                if o.startswith("<![CDATA[", i):
                    j = o.index("]]>", i) + 3; t += o[i:j]; i = j
                elif o.startswith("<!--", i):
                    j = o.index("-->", i) + 3; t += o[i:j]; i = j
                elif o.startswith("<?", i):
                    j = o.index("?>", i) + 2; t += o[i:j]; i = j
                elif o.startswith("]]>", i): t += "]] >"; i += 3
                else: t += o[i]; i += 1
            o = t
            break
        return o
    def comment(self): return "<!--" + self.ch(["", "c", " - ", "x\r\ny", "<&>", "\u20ac", "a\rb"]) + "-->"
    def entity(self):
        self.decls += 1
        pe = self.p(.3)
        x = self.r.random()
        if pe:
            n = "p%d" % self.decls
            if x < .75:
                self.depth += 1
                v = self.quote("".join(self.decl() for _ in range(self.r.randint(0, 2))).replace("%", "&#37;").replace("&", "&#38;") if self.depth < 3 else " ")
                self.depth -= 1
            else: v = "SYSTEM " + self.quote(self.ch(["s1", "s2"]))
            self.pes.append(n)
            return "<!ENTITY" + self.S1() + "%" + self.S1() + n + self.S1() + v + self.S() + ">"
        n = "e%d" % self.decls
        if x < .3:      # plain
            v = "".join(self.ch(TEXTS[:10] + TEXTS[12:]) for _ in range(self.r.randint(0, 3))).replace("]]>", "").replace("&lt;", "").replace("<", "")
            v = self.quote(v + ("&" + self.ch(self.attr_ents) + ";" if self.attr_ents and self.p(.4) else ""))
            later = [self.attr_ents, self.cont]
        elif x < .75:
            self.depth += 1
            v = self.content() if self.depth < 4 else "x"
            self.depth -= 1
            v = v.replace("%", "&#37;")
            v = self.quote(v); later = [self.cont]
        elif x < .9 and self.k["ext"]:
            v = "SYSTEM " + self.quote(self.ch(["s3", "s4"])); later = [self.cont]
        else:
            v = self.extid() + self.S1() + "NDATA" + self.S1() + "n"; later = []
        if not self.k.get("extsub"):
            for l in later: l.append(n)
        return "<!ENTITY" + self.S1() + n + self.S1() + v + self.S() + ">"
    def attlist(self):
        o = "<!ATTLIST" + self.S1() + self.lname()
        seen = set()
        for _ in range(self.ch([0, 1, 1, 1, 2, 3])):
            n = self.lname()
            if n in seen: continue
            seen.add(n)
            t = self.ch(["CDATA", "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(a|b)", "( a | 1 )", "NOTATION (n|m)"])
            d = self.ch(["#IMPLIED", "#REQUIRED", "#FIXED " + self.attval(), self.attval(), self.attval(), self.attval()])
            o += self.S1() + n + self.S1() + t + self.S1() + d
        return o + self.S() + ">"
    def decl(self):
        x = self.r.random()
        if x < .38: return self.entity()
        if x < .52: return self.elementdecl()
        if x < .72: return self.attlist()
        if x < .78: return self.notation()
        if x < .83: return self.comment()
        if x < .87: return self.pi()
        if x < .93 and self.pes and self.depth == 0: return "%" + self.ch(self.pes) + ";"
        if x < .96 and self.k.get("extsub"): return self.cond()
        return self.S1()
    def cond(self):
        if self.p(.5): return "<![" + self.S() + "IGNORE" + self.S() + "[" + self.ch(["", "x", "x<![y]]>z", "]", "]]", "<!", "<![[]]]]>", "\u20ac", "'", "<!x", "]] >"]) + "]]>"
        return "<![" + self.S() + "INCLUDE" + self.S() + "[" + "".join(self.decl() for _ in range(self.r.randint(0, 2))) + "]]>"
    def textdecl(self):
        return "<?xml" + (self.S1() + "version=" + self.quote("1.0") if self.p(.5) else "") + self.S1() + "encoding=" + self.quote("utf-8") + self.S() + "?>"
    def extsubset(self):
        old, dep = self.k.get("extsub"), self.depth
        self.k["extsub"] = True
        o = (self.textdecl() if self.p(.25) else "") + self.subset()
        self.k["extsub"] = old; self.depth = dep
        return o
    def extparsed(self):
        self.depth = 1
        o = (self.textdecl() if self.p(.3) else "") + self.content()
        self.depth = 0
        return o
    def doctype(self):
        o = "<!DOCTYPE" + self.S1() + self.lname()
        if self.p(.3): o += self.S1() + self.ch(["SYSTEM", 'PUBLIC "pub"']) + self.S1() + self.quote(self.ch(["s1", "s2"]))
        if self.p(.9): o += self.S() + "[" + self.subset() + "]"
        return o + self.S() + ">"
    def mkents(self):
        """texts for the external identifiers"""
        return {"s1": self.extsubset(), "s2": self.extsubset(), "s3": self.extparsed(), "s4": self.extparsed()}

# --- growing a text: the same names, literals and words, but long ones
GROW = ["a", "b", "c", "d", "ab", "e1", "p", "q", "r", "e", "f", "g", "h", "u", "ext", "hello", "pub", "n", "m", "e0", "e2", "e3", "a1", "a2", "a3", "v", "w", "y", "z", "id", "xy", "s3b", "p1x", "t", "k", "i"]
LENS = [7, 12, 20, 23, 24, 25, 26, 30, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 80, 100, 127, 128, 129, 180, 255, 257, 400]
def growth(rng):
    """word -> longer word"""
    ws = rng.sample(GROW[:14], rng.choice([1, 2, 3, 6])) + (rng.sample(GROW[14:], rng.choice([0, 1, 3])))
    pad = rng.choice(["z", "z", "zy", "\u00e9", "\u4e00", "z\u0e01"])
    mp = {w: w + (pad * 1200)[:rng.choice(LENS) if rng.random() < .93 else rng.choice([520, 1000, 1023, 1024, 1025])] for w in ws}
    if rng.random() < .5: mp["hello"] = "hello" + "x" * rng.choice(LENS + [1000, 1018, 1019, 1020, 1021, 1025])
    return mp
def grow(t, mp):
    if mp and len(t) > 40:      # (not beyond some kilobytes)
        for _ in range(8):
            o = _grow(t, mp)
            if len(o) <= 5000: return o
            for w in mp: mp[w] = mp[w][:max(len(w), len(mp[w]) * 2 // 3)]
    return _grow(t, mp)
def _grow(t, mp):
    return re.sub(r"(?<![\w#.\-])[a-z][a-z0-9]*(?![\w.\-])", lambda m: mp.get(m.group(0), m.group(0)), t) if mp else t

ALL = ["se", "ee", "cd", "pi", "co", "cs", "ce", "sd", "ed", "ue", "no", "ns", "ne", "st", "er", "sk", "el", "al", "en", "xd", "uk"]

def chunks(rng, b, mode=None, fin=True):
    """ops feeding the bytes b"""
    mode = mode or rng.choice(["one", "one", "bytes", "rand", "rand", "pbuf", "pbytes", "mix", "emptyfin"])
    n = len(b)
    f = 1 if fin else 0
    if mode == "one": return [["parse", list(b), f]]
    if mode == "pbuf": return [["pbuf", list(b), f]]
    if mode == "emptyfin": return [["parse", list(b), 0]] + ([["parse", [], 1]] if fin else [])
    if mode in ("bytes", "pbytes"):
        k = "parse" if mode == "bytes" else "pbuf"
        if n > 400:             # steps of a few bytes
            z = max(3, n * n // 100000)
            ops, a = [], 0
            while a < n:
                e = a + rng.randint(1, 2 * z); ops.append([k, list(b[a:e]), 0]); a = e
            return ops + ([["parse", [], 1]] if fin else [])
        return [[k, [x], 0] for x in b] + ([["parse", [], 1]] if fin else [])
    cuts = sorted(rng.randrange(n + 1) for _ in range(rng.randint(1, 6)))
    ops, a = [], 0
    for c in cuts + [n]:
        k = "parse" if mode == "rand" else rng.choice(["parse", "pbuf"])
        ops.append([k, list(b[a:c]), f if c == n and a != c or (c == n and False) else 0]); a = c
    if fin and ops[-1][2] == 0: ops.append([rng.choice(["parse", "pbuf"]) if mode != "rand" else "parse", [], 1])
    elif fin and [o for o in ops[:-1] if o[2] == 1]:
        for o in ops[:-1]: o[2] = 0
    return ops

def unkmap(rng, kind):
    """an application encoding: (map, conv, encoder)"""
    m = list(range(128)) + [-1] * 128
    if kind == "single":     # a permutation of some letters above 127
        hi = [0xe9, 0x20ac, 0xe01, 0x4e00, 0x85, 0x2028, 0xfffd, 0xb7, 0x300, 0xaa, 0xd7]
        for i, c in enumerate(hi): m[0xa0 + i] = c
        return m, 0, {c: bytes([0xa0 + i]) for i, c in enumerate(hi)}
    # two-byte: lead bytes 0x80..0xff, conv: ((p0 & 0x7f) << 8) | p1
    for i in range(128, 256): m[i] = -2
    return m, 1, None

def encode(text, enc):
    """text -> bytes, or None if it has characters the encoding lacks"""
    try:
        if enc == "utf-8": return text.encode("utf-8", "surrogatepass")
        if enc == "utf-16le": return text.encode("utf-16-le", "surrogatepass")
        if enc == "utf-16be": return text.encode("utf-16-be", "surrogatepass")
        if enc == "latin-1": return text.encode("latin-1")
        if enc == "ascii": return text.encode("ascii")
    except UnicodeEncodeError:
        return None
    if enc == "unk1":
        _, _, t = unkmap(random, "single")
        o = b""
        for c in text:
            if ord(c) < 128: o += bytes([ord(c)])
            elif ord(c) in t: o += t[ord(c)]
            else: return None
        return o
    if enc == "unk2":
        o = b""
        for c in text:
            x = ord(c)
            if x < 128: o += bytes([x])
            elif 128 <= x < 0x8000: o += bytes([0x80 | x >> 8, x & 0xff])
            else: return None
        return o
    raise ValueError(enc)
