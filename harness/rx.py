"""Drive the library under test (the C ABI of librexpat.so, built from /repo) and record traces.

A *case* is a JSON object {id, cfg, ops}; running it yields a *trace*: the same configuration and, per
operation, the events delivered to handlers (text coalesced), the result and the parser status.
Nothing here judges anything: the verdict is TLC's, on the specification (see spec/Trace.tla).

Strings handed to handlers are recorded as lists of code points; a NULL pointer is [-1]; bytes that are
not well-formed UTF-8 are recorded as [-2, bytes...], which no behaviour of the specification contains.
"""
import ctypes as C
import json, os, signal, sys

VOIDP, INT, CHARP, LONG, ULONG = C.c_void_p, C.c_int, C.c_char_p, C.c_long, C.c_ulong

class XML_Encoding(C.Structure):
    _fields_ = [("map", INT * 256), ("data", VOIDP),
                ("convert", C.c_void_p), ("release", C.c_void_p)]

class XML_Content(C.Structure):
    pass
XML_Content._fields_ = [("type", INT), ("quant", INT), ("name", CHARP),
                        ("numchildren", C.c_uint), ("children", C.POINTER(XML_Content))]

class XML_ParsingStatus(C.Structure):
    _fields_ = [("parsing", INT), ("finalBuffer", C.c_ubyte)]

PTR = C.POINTER(C.c_char)
F = C.CFUNCTYPE
T_START = F(None, VOIDP, CHARP, C.POINTER(CHARP))
T_END = F(None, VOIDP, CHARP)
T_TEXT = F(None, VOIDP, PTR, INT)
T_PI = F(None, VOIDP, CHARP, CHARP)
T_STR = F(None, VOIDP, CHARP)
T_VOID = F(None, VOIDP)
T_SDOC = F(None, VOIDP, CHARP, CHARP, CHARP, INT)
T_ENT = F(None, VOIDP, CHARP, INT, PTR, INT, CHARP, CHARP, CHARP, CHARP)
T_UENT = F(None, VOIDP, CHARP, CHARP, CHARP, CHARP, CHARP)
T_NOT = F(None, VOIDP, CHARP, CHARP, CHARP, CHARP)
T_NS = F(None, VOIDP, CHARP, CHARP)
T_RINT = F(INT, VOIDP)
T_XER = F(INT, VOIDP, CHARP, CHARP, CHARP, CHARP)
T_SKIP = F(None, VOIDP, CHARP, INT)
T_UENC = F(INT, VOIDP, CHARP, C.POINTER(XML_Encoding))
T_EL = F(None, VOIDP, CHARP, C.POINTER(XML_Content))
T_AL = F(None, VOIDP, CHARP, CHARP, CHARP, CHARP, INT)
T_XD = F(None, VOIDP, CHARP, CHARP, INT)
T_CONV = F(INT, VOIDP, C.POINTER(C.c_ubyte))

_lib = None
def lib(path=None):
    global _lib
    if _lib is None:
        L = C.CDLL(path or os.environ["RX_LIB"], mode=os.RTLD_NOW | os.RTLD_DEEPBIND)   # (python itself links libexpat)
        def sig(name, res, *args):
            f = getattr(L, name); f.restype = res; f.argtypes = list(args)
        P = VOIDP
        sig("XML_ParserCreate", P, CHARP); sig("XML_ParserCreateNS", P, CHARP, C.c_char)
        sig("XML_ParserCreate_MM", P, CHARP, VOIDP, CHARP)
        sig("XML_ParserReset", C.c_ubyte, P, CHARP); sig("XML_SetEncoding", INT, P, CHARP)
        sig("XML_ExternalEntityParserCreate", P, P, CHARP, CHARP); sig("XML_ParserFree", None, P)
        sig("XML_UseForeignDTD", INT, P, C.c_ubyte); sig("XML_SetReturnNSTriplet", None, P, INT)
        sig("XML_SetUserData", None, P, VOIDP); sig("XML_SetBase", INT, P, CHARP); sig("XML_GetBase", CHARP, P)
        sig("XML_UseParserAsHandlerArg", None, P)
        sig("XML_GetSpecifiedAttributeCount", INT, P); sig("XML_GetIdAttributeIndex", INT, P)
        sig("XML_SetParamEntityParsing", INT, P, INT); sig("XML_SetHashSalt", INT, P, ULONG)
        sig("XML_Parse", INT, P, VOIDP, INT, INT); sig("XML_ParseBuffer", INT, P, INT, INT)
        sig("XML_GetBuffer", VOIDP, P, INT); sig("XML_StopParser", INT, P, C.c_ubyte)
        sig("XML_ResumeParser", INT, P); sig("XML_GetParsingStatus", None, P, C.POINTER(XML_ParsingStatus))
        sig("XML_GetErrorCode", INT, P); sig("XML_GetCurrentByteIndex", LONG, P)
        sig("XML_GetCurrentByteCount", INT, P)
        sig("XML_GetInputContext", C.c_void_p, P, C.POINTER(INT), C.POINTER(INT))
        sig("XML_GetCurrentLineNumber", ULONG, P); sig("XML_GetCurrentColumnNumber", ULONG, P)
        sig("XML_FreeContentModel", None, P, C.POINTER(XML_Content)); sig("XML_DefaultCurrent", None, P)
        sig("XML_ErrorString", CHARP, INT); sig("XML_ExpatVersion", CHARP)
        for n in ("Element",): sig("XML_Set%sHandler" % n, None, P, VOIDP, VOIDP)
        for n in ("StartElement", "EndElement", "CharacterData", "ProcessingInstruction", "Comment",
                  "StartCdataSection", "EndCdataSection", "Default", "StartDoctypeDecl", "EndDoctypeDecl",
                  "UnparsedEntityDecl", "NotationDecl", "StartNamespaceDecl", "EndNamespaceDecl",
                  "NotStandalone", "ExternalEntityRef", "SkippedEntity", "ElementDecl", "AttlistDecl",
                  "EntityDecl", "XmlDecl"):
            sig("XML_Set%sHandler" % n, None, P, VOIDP)
        sig("XML_SetDefaultHandlerExpand", None, P, VOIDP)
        sig("XML_SetUnknownEncodingHandler", None, P, VOIDP, VOIDP)
        sig("XML_SetExternalEntityRefHandlerArg", None, P, VOIDP)
        _lib = L
    return _lib

NULL = [-1]
def cps(b):
    if b is None: return NULL
    try: return [ord(c) for c in b.decode("utf-8")]
    except UnicodeDecodeError: return [-2] + list(b)

def enc_arg(cp):
    """list of code points (or None) -> bytes for a C string argument"""
    if cp is None or cp == NULL: return None
    return "".join(map(chr, cp)).encode("utf-8", "surrogatepass")

TEXT = {"cd", "df"}
# handler names used in cfg.h / "seth" actions
SETTERS = {"se": "StartElement", "ee": "EndElement", "cd": "CharacterData", "pi": "ProcessingInstruction",
           "co": "Comment", "cs": "StartCdataSection", "ce": "EndCdataSection", "sd": "StartDoctypeDecl",
           "ed": "EndDoctypeDecl", "ue": "UnparsedEntityDecl", "no": "NotationDecl", "ns": "StartNamespaceDecl",
           "ne": "EndNamespaceDecl", "st": "NotStandalone", "er": "ExternalEntityRef", "sk": "SkippedEntity",
           "el": "ElementDecl", "al": "AttlistDecl", "en": "EntityDecl", "xd": "XmlDecl"}

class Session:
    def __init__(self, case):
        self.case = case
        self.cfg = case["cfg"]
        self.L = lib()
        self.ev = []          # events of the current operation
        self.txt = None       # [kind, codes-bytes, pos]
        self.count = {}       # callbacks per kind
        self.react = {}
        for r in self.cfg.get("react", []):
            self.react.setdefault((r[0], r[1]), []).append(r[2])
        self.stack = []       # parser handles, innermost last
        self.keep = []        # XML_Content models to free late
        self.wantpos = self.cfg.get("pos", 0)
        self.mk()

    # -- events
    def flush(self):
        if self.txt is not None:
            k, b, pos = self.txt
            self.txt = None
            e = [k, cps(bytes(b))]
            if self.wantpos: e.append(pos)
            self.ev.append(e)
    def pos(self, text=False):
        p, L = self.stack[-1], self.L
        r = [L.XML_GetCurrentLineNumber(p), L.XML_GetCurrentColumnNumber(p), L.XML_GetCurrentByteIndex(p)]
        if not text: r.append(L.XML_GetCurrentByteCount(p))
        return r
    def text(self, kind, b):
        if self.txt is not None and self.txt[0] == kind:
            self.txt[1].extend(b)
        else:
            self.flush()
            self.txt = [kind, bytearray(b), self.pos(True) if self.wantpos else None]
        self.did(kind)
    def emit(self, *e):
        self.flush()
        e = list(e)
        if self.wantpos: e.append(self.pos())
        self.ev.append(e)
        self.did(e[0])
    def note(self, *e):
        self.flush()
        self.ev.append(list(e))
    def did(self, kind):
        n = self.count[kind] = self.count.get(kind, 0) + 1
        for act in self.react.get((kind, n), ()):
            self.act(act)
    def act(self, a):
        L, p = self.L, self.stack[-1]
        k = a[0]
        if k == "stop":
            r = L.XML_StopParser(p, a[1])
            self.note("ac", "stop", r, L.XML_GetErrorCode(p), self.status(p))
        elif k == "stopdepth":      # stop the parser a[2] levels out
            q = self.stack[-1 - min(a[2], len(self.stack) - 1)]
            r = L.XML_StopParser(q, a[1])
            self.note("ac", "stop", r, L.XML_GetErrorCode(q), self.status(q))
        elif k == "seth":
            self.seth(p, a[1], a[2])
        elif k == "dc":
            L.XML_DefaultCurrent(p)
        elif k == "base":
            r = L.XML_SetBase(p, enc_arg(a[1]))
            self.note("ac", "base", r)
        elif k == "call":           # a misplaced API call inside a handler
            self.note("ac", a[1], self.misc(p, a[1], a[2:]), L.XML_GetErrorCode(p))
        elif k == "ctx":
            self.note("ac", "ctx", self.inputctx(p))
        else:
            raise ValueError(k)
    def misc(self, p, name, args):
        L = self.L
        if name == "setenc": return L.XML_SetEncoding(p, enc_arg(args[0]))
        if name == "foreign": return L.XML_UseForeignDTD(p, args[0])
        if name == "setpe": return L.XML_SetParamEntityParsing(p, args[0])
        if name == "resume": return L.XML_ResumeParser(p)
        if name == "salt": return L.XML_SetHashSalt(p, args[0])
        if name == "triplet": L.XML_SetReturnNSTriplet(p, args[0]); return 0
        if name == "base": return L.XML_SetBase(p, enc_arg(args[0]))
        if name == "getbase": return cps(L.XML_GetBase(p))
        raise ValueError(name)
    def inputctx(self, p):
        off, size = INT(-1), INT(-1)
        a = self.L.XML_GetInputContext(p, C.byref(off), C.byref(size))
        if not a: return NULL
        b = C.string_at(a, size.value)
        return list(b[off.value:off.value + 8])

    # -- handlers
    def mk(self):
        S = self
        def model(m):
            m = m.contents if hasattr(m, "contents") else m
            return [m.type, m.quant, cps(m.name), [model(m.children[i]) for i in range(m.numchildren)]]
        def se(u, n, a):
            at, i = [], 0
            while a[i] is not None:
                at.append([cps(a[i]), cps(a[i + 1])]); i += 2
            p = S.stack[-1]
            S.emit("se", cps(n), at, S.L.XML_GetSpecifiedAttributeCount(p), S.L.XML_GetIdAttributeIndex(p))
        def st(u):
            S.emit("st", S.cfg.get("stret", 1)); return S.cfg.get("stret", 1)
        def el(u, n, m):
            S.emit("el", cps(n), model(m)); S.L.XML_FreeContentModel(S.stack[-1], m)
        def en(u, n, pe, v, vl, base, sysid, pub, nota):
            val = cps(C.string_at(v, vl)) if v else NULL
            S.emit("en", cps(n), pe, val, cps(base), cps(sysid), cps(pub), cps(nota))
        self.T = {
            "se": T_START(se), "ee": T_END(lambda u, n: S.emit("ee", cps(n))),
            "cd": T_TEXT(lambda u, s, n: S.text("cd", C.string_at(s, n))),
            "pi": T_PI(lambda u, t, d: S.emit("pi", cps(t), cps(d))),
            "co": T_STR(lambda u, t: S.emit("co", cps(t))),
            "cs": T_VOID(lambda u: S.emit("cs")), "ce": T_VOID(lambda u: S.emit("ce")),
            "df": T_TEXT(lambda u, s, n: S.text("df", C.string_at(s, n))),
            "sd": T_SDOC(lambda u, n, s, p, i: S.emit("sd", cps(n), cps(s), cps(p), i)),
            "ed": T_VOID(lambda u: S.emit("ed")),
            "ue": T_UENT(lambda u, n, b, s, p, t: S.emit("ue", cps(n), cps(b), cps(s), cps(p), cps(t))),
            "no": T_NOT(lambda u, n, b, s, p: S.emit("no", cps(n), cps(b), cps(s), cps(p))),
            "ns": T_NS(lambda u, p, uri: S.emit("ns", cps(p), cps(uri))),
            "ne": T_STR(lambda u, p: S.emit("ne", cps(p))),
            "st": T_RINT(st), "er": T_XER(self.xer),
            "sk": T_SKIP(lambda u, n, pe: S.emit("sk", cps(n), pe)),
            "el": T_EL(el),
            "al": T_AL(lambda u, e, a, t, d, r: S.emit("al", cps(e), cps(a), cps(t), cps(d), r)),
            "en": T_ENT(en),
            "xd": T_XD(lambda u, v, e, s: S.emit("xd", cps(v), cps(e), s)),
            "uk": T_UENC(self.uenc),
        }
        self.convs = []
    def seth(self, p, name, on):
        L = self.L
        f = C.cast(self.T[name], VOIDP) if on and name in self.T else None
        if name == "df": L.XML_SetDefaultHandler(p, f)
        elif name == "dx": L.XML_SetDefaultHandlerExpand(p, C.cast(self.T["df"], VOIDP) if on else None)
        elif name == "uk": L.XML_SetUnknownEncodingHandler(p, f, None)
        elif name == "el2": L.XML_SetElementHandler(p, C.cast(self.T["se"], VOIDP) if on else None,
                                                    C.cast(self.T["ee"], VOIDP) if on else None)
        else: getattr(L, "XML_Set%sHandler" % SETTERS[name])(p, f)
    def uenc(self, u, name, info):
        nm = cps(name)
        spec = None
        for e in self.cfg.get("unk", []):
            if e["name"] == nm: spec = e
        self.emit("uk", nm)
        if spec is None: return 0
        for i in range(256): info.contents.map[i] = spec["map"][i]
        if spec.get("conv"):
            def conv(d, p):
                return ((p[0] & 0x7f) << 8) | p[1] if spec["conv"] == 1 else -1
            cb = T_CONV(conv); self.convs.append(cb)
            info.contents.convert = C.cast(cb, VOIDP)
        info.contents.release = None
        return 1
    def xer(self, parser, ctx, base, sysid, pub):
        c = NULL if ctx is None else sorted(cps(x) for x in ctx.split(b"\f"))
        self.emit("er", c, cps(base), cps(sysid), cps(pub))
        L = self.L
        ent = None
        for e in self.cfg.get("ents", []):
            if e["sys"] == cps(sysid): ent = e
        if ent is None: return 1
        if ent.get("create"):
            q = L.XML_ExternalEntityParserCreate(parser, ctx, enc_arg(ent.get("enc")))
            if not q:
                self.note("cx", 0); return ent["ret"]
            self.note("cx", 1)
            self.stack.append(q)
            for n, on in ent.get("seth", []): self.seth(q, n, on)
            if ent.get("base") is not None: L.XML_SetBase(q, enc_arg(ent["base"]))
            for op in ent["ops"]:
                r = self.op(q, op, child=True)
                for x in (r if op[0] == "resumeall" else [r]): self.note("cr", x)
                self.flush()
            self.flush()
            self.stack.pop()
            L.XML_ParserFree(q)
            self.note("cf")
        return ent["ret"]

    # -- operations
    def status(self, p):
        st = XML_ParsingStatus()
        self.L.XML_GetParsingStatus(p, C.byref(st))
        return [st.parsing, st.finalBuffer]
    def where(self, p):
        L = self.L
        return [L.XML_GetCurrentLineNumber(p), L.XML_GetCurrentColumnNumber(p), L.XML_GetCurrentByteIndex(p)]
    def result(self, p, r):
        self.flush()
        res = [r, self.L.XML_GetErrorCode(p), self.status(p)]
        if self.cfg.get("rpos", 1): res.append(self.where(p))
        return res
    def op(self, p, op, child=False):
        L, k = self.L, op[0]
        if k == "parse":
            b = bytes(op[1])
            buf = C.create_string_buffer(b, len(b)) if len(b) else None
            r = L.XML_Parse(p, C.cast(buf, VOIDP) if buf is not None else None, len(b), op[2])
            if buf is not None and self.cfg.get("scrub", 1): C.memset(buf, 0x3f, len(b))
        elif k == "pbuf":
            b = bytes(op[1])
            a = L.XML_GetBuffer(p, len(b) + (op[3] if len(op) > 3 else 0))
            if not a:
                return [-9] + self.result(p, 0)
            C.memmove(a, b, len(b))
            r = L.XML_ParseBuffer(p, len(b), op[2])
        elif k == "getbuf":
            r = 1 if L.XML_GetBuffer(p, op[1]) else 0
        elif k == "rawparse":       # (len given explicitly, NULL data allowed)
            r = L.XML_Parse(p, None, op[1], op[2])
        elif k == "rawpbuf":
            r = L.XML_ParseBuffer(p, op[1], op[2])
        elif k == "resume":
            r = L.XML_ResumeParser(p)
        elif k == "resumeall":      # resume until no longer suspended; all results
            rs = []
            for _ in range(1000):
                if self.status(p)[0] != 3: break
                rr = L.XML_ResumeParser(p)
                rs.append(self.result(p, rr))
            self.flush()
            return rs
        elif k == "stop":
            r = L.XML_StopParser(p, op[1])
        elif k == "reset":
            r = L.XML_ParserReset(p, enc_arg(op[1]))
            if r: self.setup(p); self.react = {}
        elif k == "rawreset":       # reset, handlers not re-registered
            r = L.XML_ParserReset(p, enc_arg(op[1]))
            if r: self.react = {}
        elif k == "seth":
            self.seth(p, op[1], op[2]); r = 1
        elif k == "setup":
            self.setup(p); r = 1
        elif k == "dc":
            L.XML_DefaultCurrent(p); r = 1
        elif k == "call":
            r = self.misc(p, op[1], op[2:])
            if op[1] == "getbase": self.note("ac", "getbase", r, L.XML_GetErrorCode(p)); r = 0
        elif k == "q":              # query only
            r = 0
        else:
            raise ValueError(k)
        return self.result(p, r)
    def setup(self, p):
        cfg, L = self.cfg, self.L
        for n in cfg.get("h", []): self.seth(p, n, 1)
        if cfg.get("triplet"): L.XML_SetReturnNSTriplet(p, 1)
        if cfg.get("foreign"): L.XML_UseForeignDTD(p, 1)
        if cfg.get("pe"): L.XML_SetParamEntityParsing(p, cfg["pe"])
        if cfg.get("base") is not None: L.XML_SetBase(p, enc_arg(cfg["base"]))
    def run(self):
        cfg, L = self.cfg, self.L
        e = enc_arg(cfg.get("enc"))
        ns = cfg.get("ns", -1)
        p = L.XML_ParserCreateNS(e, bytes([ns])) if ns >= 0 else L.XML_ParserCreate(e)
        self.stack = [p]
        self.setup(p)
        out = []
        for op in self.case["ops"]:
            self.ev = []
            r = self.op(p, op)
            self.flush()
            out.append({"ev": self.ev, "res": r})
        L.XML_ParserFree(p)
        return out

def run_case(case):
    return Session(case).run()

# ---------------------------------------------------------------------------------------------------
def _worker(cases, idxs, outf, errf, tmo):
    fd = os.open(errf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 2)
    out = open(outf, "w")
    for i in idxs:
        os.ftruncate(fd, 0); os.lseek(fd, 0, 0)
        out.write("> %d\n" % i); out.flush()
        signal.alarm(tmo)
        try:
            res = run_case(cases[i])
        except Exception as ex:                                   # harness error, not the library's
            import traceback; traceback.print_exc()
            out.write("! %d %s\n" % (i, json.dumps(repr(ex)))); out.flush(); os._exit(3)
        signal.alarm(0)
        out.write("< %d %s\n" % (i, json.dumps(res, separators=(",", ":"))))
    out.flush(); out.close()
    os._exit(0)

def _batch(args):
    cases, idxs, tmp, tmo = args
    res = {}
    todo = list(idxs)
    outf, errf = tmp + ".out", tmp + ".err"
    while todo:
        pid = os.fork()
        if pid == 0:
            try: _worker(cases, todo, outf, errf, tmo)
            finally: os._exit(4)
        _, st = os.waitpid(pid, 0)
        cur = None
        for line in open(outf):
            if line.endswith("\n") is False: break
            k, rest = line[0], line[2:]
            if k == ">": cur = int(rest)
            elif k == "<":
                i, j = rest.split(" ", 1); res[int(i)] = {"out": json.loads(j)}; cur = None
            elif k == "!":
                raise RuntimeError("harness error: " + rest + open(errf, errors="replace").read())
        if os.WIFSIGNALED(st):
            # the signal may have hit while results were still buffered: the case in flight is the culprit
            done = set(res)
            if cur is None:
                raise RuntimeError("worker died outside a case")
            sig = os.WTERMSIG(st)
            res[cur] = {"crash": signal.Signals(sig).name, "msg": open(errf, errors="replace").read()[-2000:]}
        elif os.WEXITSTATUS(st) != 0:
            raise RuntimeError("worker exit %d: %s" % (os.WEXITSTATUS(st), open(errf, errors="replace").read()[-3000:]))
        todo = [i for i in todo if i not in res]
    for f in (outf, errf):
        try: os.unlink(f)
        except OSError: pass
    return res

def run_cases(cases, tmpdir, jobs=8, tmo=20):
    """Run every case in worker processes; returns a list of {"out":..} or {"crash":..,"msg":..}."""
    from multiprocessing.pool import ThreadPool
    os.makedirs(tmpdir, exist_ok=True)
    n = len(cases)
    step = max(1, min(200, (n + jobs - 1) // jobs))
    parts = [list(range(a, min(n, a + step))) for a in range(0, n, step)]
    # fork from a single-threaded parent: one child process per job that forks its own workers
    results = [None] * n
    import tempfile
    pids = []
    for j in range(min(jobs, len(parts))):
        mine = parts[j::jobs]
        f = os.path.join(tmpdir, "res.%d.%d" % (os.getpid(), j))
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                r = {}
                for k, idx in enumerate(mine):
                    r.update(_batch((cases, idx, f + ".%d" % k, tmo)))
                with open(f, "w") as fh: json.dump(r, fh)
            except BaseException as ex:
                sys.stderr.write("harness: %r\n" % (ex,)); code = 5
            finally:
                sys.stderr.flush(); os._exit(code)
        pids.append((pid, f))
    bad = False
    for pid, f in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0: bad = True; continue
        for k, v in json.load(open(f)).items(): results[int(k)] = v
        os.unlink(f)
    if bad: raise RuntimeError("harness worker failed")
    assert all(r is not None for r in results)
    return results

if __name__ == "__main__":
    cases = [json.loads(l) for l in open(sys.argv[1])]
    for c, r in zip(cases, run_cases(cases, "/tmp/rx", jobs=1)):
        print(json.dumps(r))
