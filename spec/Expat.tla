--------------------------------- MODULE Expat ---------------------------------
(* The parser and its API as a deterministic state machine.                       *)
(*                                                                                *)
(* A state S is a record                                                          *)
(*   cf   the application: handlers set, reactions of its handlers, external      *)
(*        entities it can supply, encodings it knows (constant)                   *)
(*   p    the running parser (a record, see NewParser)                            *)
(*   stk  the parsers that are waiting for it (external entity parsers nest)      *)
(*   ev   the handler calls observed since the API call began                     *)
(*   tx   the last event is text that may still grow                              *)
(*   cnt  how often each handler has been called                                  *)
(*   ret  what the API call returned                                              *)
(* Step(S) processes one token with the parser's current processor; Op(S, op) is  *)
(* one API call.  Text positions are 1-based indices into the bytes supplied so   *)
(* far; 0 is a null pointer.                                                      *)
EXTENDS XmlRole, FiniteSets

NULL == <<-1>>
MaxPiece == 1024

\* XML_Error codes
E_NO_ELEMENTS == 3        E_SYNTAX == 2           E_INVALID_TOKEN == 4     E_UNCLOSED_TOKEN == 5
E_PARTIAL_CHAR == 6       E_TAG_MISMATCH == 7     E_DUPLICATE_ATTRIBUTE == 8
E_JUNK == 9               E_PARAM_ENTITY_REF == 10  E_UNDEFINED_ENTITY == 11 E_RECURSIVE == 12
E_ASYNC == 13             E_BAD_CHAR_REF == 14    E_BINARY_REF == 15       E_ATT_EXTERNAL == 16
E_MISPLACED_PI == 17      E_UNKNOWN_ENCODING == 18  E_INCORRECT_ENCODING == 19 E_UNCLOSED_CDATA == 20
E_EXTERNAL_HANDLING == 21 E_NOT_STANDALONE == 22  E_UNEXPECTED_STATE == 23 E_DECLARED_IN_PE == 24
E_CANT_CHANGE == 26       E_UNBOUND_PREFIX == 27  E_UNDECLARING_PREFIX == 28 E_INCOMPLETE_PE == 29
E_XML_DECL == 30          E_TEXT_DECL == 31       E_PUBLICID == 32         E_SUSPENDED == 33
E_NOT_SUSPENDED == 34     E_ABORTED == 35         E_FINISHED == 36         E_SUSPEND_PE == 37
E_RESERVED_XML == 38      E_RESERVED_XMLNS == 39  E_RESERVED_URI == 40     E_INVALID_ARGUMENT == 41
E_NO_MEMORY == 1

INIT == 0  PARSING == 1  FINI == 2  SUSP == 3

Has(s, h) == h \in s.p.h

XMLNAME == <<120, 109, 108>>
XMLNSNAME == <<120, 109, 108, 110, 115>>
XMLURI == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,88,77,76,47,49,57,57,56,47,110,97,109,101,115,112,97,99,101>>
XMLNSURI == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,48,47,120,109,108,110,115,47>>
HASH == <<35>>

NewDtd == [ge |-> <<>>, pe |-> <<>>, et |-> <<>>, keep |-> TRUE, hasPE |-> FALSE, sa |-> FALSE, peRead |-> FALSE,
           go |-> {}, po |-> {}, val |-> <<>>, inEl |-> FALSE, scaf |-> <<>>, sidx |-> <<>>]

\* entity tables are sequences in order of declaration
RECURSIVE Find(_, _, _)
Find(tab, n, i) == IF i > Len(tab) THEN 0 ELSE IF tab[i].n = n THEN i ELSE Find(tab, n, i + 1)
Entity(n, internal) == [n |-> n, txt |-> NULL, base |-> NULL, sys |-> NULL, pub |-> NULL, nota |-> NULL, int |-> internal]

NewParser(kind, ns, enc, h) ==
  [kind |-> kind, ns |-> ns, h |-> h, dx |-> TRUE, b |-> <<>>, n |-> 0, fin |-> FALSE, pos |-> 1,
   proc |-> CASE kind = "root" -> "prologInit" [] kind = "ge" -> "extInit" [] OTHER -> "extParInit",
   run |-> FALSE, rc |-> 0, parsing |-> INIT, err |-> 0, enc |-> Enc("utf8", ns >= 0), ini |-> FALSE, ix |-> "none",
   proto |-> enc, evp |-> 0, eve |-> 0, posp |-> 0, line |-> 1, col |-> 0, tl |-> 0, tags |-> <<>>, ents |-> <<>>,
   role |-> IF kind = "pe" THEN RoleInitExt ELSE RoleInit, d |-> NewDtd, bind |-> <<>>, trip |-> FALSE, base |-> NULL,
   foreign |-> FALSE, pe |-> 0, inEV |-> FALSE, nest |-> FALSE,
   dEnt |-> <<FALSE, NULL>>, dEl |-> NULL, dAtt |-> NULL, dType |-> NULL, dCd |-> FALSE, dId |-> FALSE,
   dtName |-> NULL, dtSys |-> NULL, dtPub |-> NULL, noName |-> NULL, noPub |-> NULL, gc |-> <<>>,
   nspec |-> 0, ididx |-> -1, wv |-> TRUE]

-------------------------------------------------------------------------------
(* Positions *)

\* bytes taken by the character at i as far as positions are concerned
PosWidth(e, b, i) ==
  CASE e.k = "utf8" -> (IF b[i] < 192 THEN 1 ELSE IF b[i] < 224 THEN 2 ELSE IF b[i] < 240 THEN 3 ELSE IF b[i] < 245 THEN 4 ELSE 1)
    [] e.k = "unk" -> (IF e.map[b[i] + 1] < -1 THEN -e.map[b[i] + 1] ELSE 1)
    [] OTHER -> 1

PosStep(e, b, j, q) ==      \* q: index, line, column
  LET m == Mb(e) i == q[1] line == q[2] col == q[3] IN
  IF i + m > j THEN q
  ELSE IF m = 2 THEN
    LET u == U16(e, b, i) IN
    IF u = 10 THEN <<i + 2, line + 1, 0>>
    ELSE IF u = 13 THEN <<IF i + 4 <= j /\ U16(e, b, i + 2) = 10 THEN i + 4 ELSE i + 2, line + 1, 0>>
    ELSE <<IF u >= 55296 /\ u <= 56319 THEN i + 4 ELSE i + 2, line, col + 1>>
  ELSE
    LET c == IF e.k = "unk" THEN e.map[b[i] + 1] ELSE b[i] IN
    IF c = 10 THEN <<i + 1, line + 1, 0>>
    ELSE IF c = 13 THEN <<IF i + 2 <= j /\ b[i + 1] = 10 THEN i + 2 ELSE i + 1, line + 1, 0>>
    ELSE <<i + PosWidth(e, b, i), line, col + 1>>
RECURSIVE PosLoop(_, _, _, _)
PosLoop(e, b, j, q) ==
  IF q[1] + Mb(e) > j THEN <<q[2], q[3]>> ELSE PosLoop(e, b, j, FoldLeft(LAMBDA r, k : PosStep(e, b, j, r), q, Iter32))
PosAdv(e, b, i, j, line, col) ==      \* from i up to (not including) j
  IF i < j /\ e.k \in {"utf8", "l1", "ascii"} /\ \A k \in i..(j - 1) : b[k] >= 32 /\ b[k] < 128 THEN <<line, col + (j - i)>>
  ELSE PosLoop(e, b, j, <<i, line, col>>)

UpdTo(q, to) ==
  LET lc == IF q.b = <<>> THEN <<q.line, q.col>> ELSE PosAdv(q.enc, q.b, q.posp, to, q.line, q.col) IN
  [q EXCEPT !.line = lc[1], !.col = lc[2], !.posp = to]
\* the queries XML_GetCurrentLineNumber/ColumnNumber bring the position up to the event
UpdEv(q) == IF q.evp # 0 /\ q.posp # 0 /\ q.evp >= q.posp THEN UpdTo(q, q.evp) ELSE q
Where(q) == <<q.line, q.col, IF q.evp = 0 THEN -1 ELSE q.evp - 1>>
ByteCount(q) == IF q.evp = 0 \/ q.eve = 0 THEN 0 ELSE q.eve - q.evp

-------------------------------------------------------------------------------
(* The text being parsed: the input bytes, or the replacement text of the internal *)
(* entity that is open innermost.                                                 *)

Inner(s) == s.p.ents # <<>>
Fr(s) == s.p.ents[Len(s.p.ents)]
LB(s) == IF Inner(s) THEN Fr(s).x ELSE s.p.b
LN(s) == IF Inner(s) THEN Len(Fr(s).x) ELSE s.p.n
LE(s) == IF Inner(s) THEN Cp(s.p.ns >= 0) ELSE s.p.enc
LI(s) == IF Inner(s) THEN Fr(s).pos ELSE s.p.pos
LMore(s) == ~Inner(s) /\ ~s.p.fin
LStl(s) == IF Inner(s) THEN Fr(s).stl ELSE IF s.p.kind = "ge" THEN 1 ELSE 0

SetPos(s, i) == IF Inner(s) THEN [s EXCEPT !.p.ents[Len(s.p.ents)].pos = i] ELSE [s EXCEPT !.p.pos = i]
SetEvp(s, i) == IF Inner(s) THEN [s EXCEPT !.p.ents[Len(s.p.ents)].evp = i] ELSE [s EXCEPT !.p.evp = i]
SetEve(s, i) == IF Inner(s) THEN [s EXCEPT !.p.ents[Len(s.p.ents)].eve = i] ELSE [s EXCEPT !.p.eve = i]
SetEv(s, i, j) == IF Inner(s) THEN [s EXCEPT !.p.ents[Len(s.p.ents)].evp = i, !.p.ents[Len(s.p.ents)].eve = j]
                  ELSE [s EXCEPT !.p.evp = i, !.p.eve = j]

Fail(s, code) == [s EXCEPT !.p.run = FALSE, !.p.rc = code]
FailAt(s, code, at) == Fail(SetEvp(s, at), code)
Halt(s) == Fail(s, 0)

-------------------------------------------------------------------------------
(* Handler calls *)

RECURSIVE React(_, _, _, _)
RECURSIVE RunOps(_, _, _)
RECURSIVE Run(_)
RECURSIVE DoOp(_, _)

Bump(s, k) == [s EXCEPT !.cnt[k] = @ + 1]
Reacts(s, k) == IF s.cf.react = <<>> THEN s ELSE React(s, k, s.cnt[k], 1)

\* what the handlers of xmlwf (cf.wf = 1) ask for, and those of the recorder
Place(cf, q) == IF cf.wf = 1 THEN Where(q) \o <<ByteCount(q), q.base>> ELSE Append(Where(q), ByteCount(q))
\* a handler call other than text
Emit(s, e) ==
  LET q == IF s.cf.pos = 1 THEN UpdEv(s.p) ELSE s.p
      e2 == IF s.cf.pos = 1 THEN Append(e, Place(s.cf, q)) ELSE e
  IN Reacts([s EXCEPT !.p = q, !.ev = Append(s.ev, e2), !.tx = FALSE, !.cnt[e[1]] = @ + 1], e[1])

\* what the application notes for itself
Note(s, e) == [s EXCEPT !.ev = Append(s.ev, e), !.tx = FALSE]

\* a call of the character data or default handler
EmitText(s, k, t) ==
  LET l == Len(s.ev) IN
  IF s.tx /\ l > 0 /\ s.ev[l][1] = k /\ s.cf.wf = 0
  THEN Reacts([s EXCEPT !.ev[l][2] = @ \o t, !.cnt[k] = @ + 1], k)
  ELSE LET q == IF s.cf.pos = 1 THEN UpdEv(s.p) ELSE s.p
           e == IF s.cf.pos = 1 THEN <<k, t, IF s.cf.wf = 1 THEN Place(s.cf, q) ELSE Where(q)>> ELSE <<k, t>>
       IN Reacts([s EXCEPT !.p = q, !.ev = Append(s.ev, e), !.tx = TRUE, !.cnt[k] = @ + 1], k)

\* end (exclusive) of the longest run of whole characters in i..j-1 that takes at most room UTF-8 bytes
PieceStep(e, b, j, q) ==      \* q: index, room left (none: -1)
  LET i == q[1] IN
  IF i >= j \/ q[2] < 0 THEN q
  ELSE LET c == K(e, b, j - 1, i) IN
    IF c < 0 THEN <<j, q[2]>>       \* (an incomplete character at the end is dropped)
    ELSE IF Utf8Len(c) > q[2] THEN <<i, -1>>
    ELSE <<i + Wd(e, b, i, c), q[2] - Utf8Len(c)>>
RECURSIVE PieceLoop(_, _, _, _)
PieceLoop(e, b, j, q) ==
  IF q[1] >= j \/ q[2] < 0 THEN q[1] ELSE PieceLoop(e, b, j, FoldLeft(LAMBDA r, k : PieceStep(e, b, j, r), q, Iter32))
PieceEnd(e, b, i, j, room) == PieceLoop(e, b, j, <<i, room>>)

\* the default handler gets the text i..j-1 (if the handler is set)
RECURSIVE RDPieces(_, _, _, _, _)
RDPieces(s, e, b, i, j) ==
  LET k == PieceEnd(e, b, i, j, MaxPiece)
      s1 == [s EXCEPT !.p.eve = k]
      s2 == IF Has(s1, "df") THEN EmitText(s1, "df", Decode(e, b, i, k)) ELSE s1
      s3 == [s2 EXCEPT !.p.evp = k]
  IN IF k < j THEN RDPieces(s3, e, b, k, j) ELSE s3
RD(s, i, j) ==
  IF ~Has(s, "df") THEN s
  ELSE LET e == LE(s) IN
       IF MustConvert(e) THEN RDPieces(s, e, LB(s), i, j)
       ELSE EmitText(s, "df", Decode(e, LB(s), i, j))

\* character data i..j-1
RECURSIVE CDPieces(_, _, _, _, _)
CDPieces(s, e, b, i, j) ==
  LET k == PieceEnd(e, b, i, j, MaxPiece)
      s1 == EmitText([s EXCEPT !.p.eve = k], "cd", Decode(e, b, i, k))
  IN IF k >= j THEN s1
     ELSE LET s2 == [s1 EXCEPT !.p.evp = k] IN
          IF Has(s2, "cd") THEN CDPieces(s2, e, b, k, j) ELSE RD(s2, k, j)
CharData(s, i, j) ==
  IF Has(s, "cd") THEN
    LET e == LE(s) IN
    IF MustConvert(e) THEN CDPieces(s, e, LB(s), i, j) ELSE EmitText(s, "cd", Decode(e, LB(s), i, j))
  ELSE RD(s, i, j)

\* one character that stands for the markup i..j-1
CharFor(s, c, i, j) == IF Has(s, "cd") THEN EmitText(s, "cd", <<c>>) ELSE RD(s, i, j)

ReportPI(s, i, j) ==
  IF Has(s, "pi") THEN
    LET e == LE(s) b == LB(s) m == Mb(e)
        t == NameEnd(e, b, j - 1, i + 2 * m)
        d == SkipSp(e, b, j - 1, t)
    IN Emit(s, <<"pi", Decode(e, b, i + 2 * m, t), NormLines(Decode(e, b, d, j - 2 * m))>>)
  ELSE RD(s, i, j)
ReportComment(s, i, j) ==
  IF Has(s, "co") THEN
    LET e == LE(s) b == LB(s) m == Mb(e) IN
    Emit(s, <<"co", NormLines(Decode(e, b, i + 4 * m, j - 3 * m))>>)
  ELSE RD(s, i, j)

-------------------------------------------------------------------------------
(* What handlers do besides looking at the event (cf.react) *)

StopParser(q, resumable) ==      \* <<parser, status>>
  CASE q.parsing = SUSP -> IF resumable # 0 THEN <<[q EXCEPT !.err = E_SUSPENDED], 0>> ELSE <<[q EXCEPT !.parsing = FINI], 1>>
    [] q.parsing = FINI -> <<[q EXCEPT !.err = E_FINISHED], 0>>
    [] OTHER -> IF resumable # 0
                THEN IF q.kind = "pe" THEN <<[q EXCEPT !.err = E_SUSPEND_PE], 0>> ELSE <<[q EXCEPT !.parsing = SUSP], 1>>
                ELSE <<[q EXCEPT !.parsing = FINI], 1>>

Status(q) == <<q.parsing, IF q.fin THEN 1 ELSE 0>>

SetHandler(q, name, on) ==
  CASE name = "df" -> [q EXCEPT !.h = IF on = 1 THEN @ \cup {"df"} ELSE @ \ {"df"}, !.dx = FALSE]
    [] name = "dx" -> [q EXCEPT !.h = IF on = 1 THEN @ \cup {"df"} ELSE @ \ {"df"}, !.dx = TRUE]
    [] name = "el2" -> [q EXCEPT !.h = IF on = 1 THEN @ \cup {"se", "ee"} ELSE @ \ {"se", "ee"}]
    [] OTHER -> [q EXCEPT !.h = IF on = 1 THEN @ \cup {name} ELSE @ \ {name}]

DefaultCurrent(s) ==
  IF ~Has(s, "df") THEN s
  ELSE IF Inner(s) THEN RD(s, Fr(s).evp, Fr(s).eve) ELSE RD(s, s.p.evp, s.p.eve)

Busy(q) == q.parsing \in {PARSING, SUSP}
\* API calls that only set something: <<parser, result>>
Misc(q, name, arg) ==
  CASE name = "setenc" -> (IF Busy(q) THEN <<q, 0>> ELSE <<[q EXCEPT !.proto = arg], 1>>)
    [] name = "foreign" -> (IF Busy(q) THEN <<q, E_CANT_CHANGE>> ELSE <<[q EXCEPT !.foreign = (arg # 0)], 0>>)
    [] name = "setpe" -> (IF Busy(q) THEN <<q, 0>> ELSE <<[q EXCEPT !.pe = arg], 1>>)
    [] name = "triplet" -> (IF Busy(q) THEN <<q, 0>> ELSE <<[q EXCEPT !.trip = (arg # 0)], 0>>)
    [] name = "base" -> <<[q EXCEPT !.base = arg], 1>>
    [] name = "getbase" -> <<q, q.base>>
    [] name = "resume" -> (IF q.parsing = SUSP THEN <<q, -99>> ELSE <<[q EXCEPT !.err = E_NOT_SUSPENDED], 0>>)

\* XML_GetInputContext: the bytes from the event on (the first eight)
InputCtx(q) == IF q.evp = 0 \/ q.n = 0 THEN NULL ELSE SubSeq(q.b, q.evp, IF q.evp + 7 <= q.n THEN q.evp + 7 ELSE q.n)

Act(s, a) ==
  LET k == a[1] IN
  CASE k = "stop" ->
         LET r == StopParser(s.p, a[2]) IN
         Note([s EXCEPT !.p = r[1]], <<"ac", "stop", r[2], r[1].err, Status(r[1])>>)
    [] k = "stopdepth" ->
         LET l == Len(s.stk) dep == IF a[3] > l THEN l ELSE a[3] IN
         IF dep = 0 THEN
           LET r == StopParser(s.p, a[2]) IN
           Note([s EXCEPT !.p = r[1]], <<"ac", "stop", r[2], r[1].err, Status(r[1])>>)
         ELSE
           LET r == StopParser(s.stk[l - dep + 1], a[2]) IN
           Note([s EXCEPT !.stk[l - dep + 1] = r[1]], <<"ac", "stop", r[2], r[1].err, Status(r[1])>>)
    [] k = "seth" -> [s EXCEPT !.p = SetHandler(s.p, a[2], a[3])]
    [] k = "dc" -> DefaultCurrent(s)
    [] k = "base" -> Note([s EXCEPT !.p.base = a[2]], <<"ac", "base", 1>>)
    [] k = "call" -> LET r == Misc(s.p, a[2], IF Len(a) > 2 THEN a[3] ELSE 0) IN
                     Note([s EXCEPT !.p = r[1]], <<"ac", a[2], r[2], r[1].err>>)
    [] k = "ctx" -> Note(s, <<"ac", "ctx", InputCtx(s.p)>>)

React(s, k, n, i) ==
  IF i > Len(s.cf.react) THEN s
  ELSE LET r == s.cf.react[i] IN
       React(IF r[1] = k /\ r[2] \in {n, 0} THEN Act(s, r[3]) ELSE s, k, n, i + 1)

\* the not-standalone handler: <<state, accepted>>
NotStandaloneOk(s) == ~Has(s, "st") \/ s.cf.stret # 0
CallSt(s) == IF Has(s, "st") THEN Emit(s, <<"st", s.cf.stret>>) ELSE s

\* sequences of numbers in dictionary order
RECURSIVE SeqLT(_, _, _)
SeqLT(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE SeqLT(a, b, i + 1)
SortNames(st) == SetToSortSeq(st, LAMBDA a, b : SeqLT(a, b, 1))

\* the context handed to the external entity handler: bindings in force and open entities
Context(s, extra) ==
  LET q == s.p IN
  SortNames({q.bind[i][1] \o <<61>> \o q.bind[i][2] : i \in {j \in 1..Len(q.bind) : q.bind[j][2] # NULL}}
            \cup q.d.go \cup extra)

RECURSIVE FindEnt(_, _, _)
FindEnt(ents, sys, i) == IF i > Len(ents) THEN 0 ELSE IF ents[i].sys = sys THEN i ELSE FindEnt(ents, sys, i + 1)

\* a system identifier relative to a base, as xmlwf takes it: behind the last '/' of the base
RECURSIVE LastSlash(_, _)
LastSlash(t, i) == IF i = 0 THEN 0 ELSE IF t[i] = 47 THEN i ELSE LastSlash(t, i - 1)
Resolve(base, sys) ==
  IF base = NULL \/ (sys # <<>> /\ sys[1] = 47) THEN sys ELSE SubSeq(base, 1, LastSlash(base, Len(base))) \o sys

RECURSIVE SetAll(_, _, _)
SetAll(q, hs, i) == IF i > Len(hs) THEN q ELSE SetAll(SetHandler(q, hs[i][1], hs[i][2]), hs, i + 1)

\* the parser XML_ExternalEntityParserCreate makes; names: entities open by the context
Child(q, isPE, enc, names) ==
  LET c == NewParser(IF isPE THEN "pe" ELSE "ge", q.ns, enc, q.h \ {"sd", "ed"}) IN
  [c EXCEPT !.dx = q.dx, !.trip = q.trip, !.pe = q.pe, !.inEV = q.inEV,
            !.d = IF isPE THEN q.d
                  ELSE [q.d EXCEPT !.go = {x \in names : Find(q.d.ge, x, 1) # 0}, !.po = {}, !.val = <<>>,
                                   !.inEl = FALSE, !.scaf = <<>>, !.sidx = <<>>],
            !.bind = IF isPE THEN <<>> ELSE SelectSeq(q.bind, LAMBDA x : x[2] # NULL)]

\* the external entity reference handler is called; ret = what it returns
CallER(s, isPE, extra, base, sys, pub) ==
  LET s1 == Emit(s, <<"er", IF isPE THEN NULL ELSE Context(s, extra), base, sys, pub>>)
      key == IF s.cf.wf = 1 THEN Resolve(base, sys) ELSE sys
      x == FindEnt(s.cf.ents, key, 1)
  IN IF x = 0 THEN (IF s.cf.wf = 1 THEN [Note(s1, <<"cm", key>>) EXCEPT !.ret = 0] ELSE [s1 EXCEPT !.ret = 1])
     ELSE LET ent == s.cf.ents[x] IN
       IF ent.create = 0 THEN [(IF s.cf.wf = 1 THEN Note(s1, <<"cm", key>>) ELSE s1) EXCEPT !.ret = ent.ret]
       ELSE LET c0 == Child(s1.p, isPE, ent.enc, s.p.d.go \cup extra)
                c1 == SetAll(c0, ent.seth, 1)
                c2 == IF s.cf.wf = 1 THEN [c1 EXCEPT !.base = key] ELSE IF ent.base = NULL THEN c1 ELSE [c1 EXCEPT !.base = ent.base]
                s2 == Note([s1 EXCEPT !.p = c2, !.stk = Append(s1.stk, s1.p)], <<"cx", 1>>)
                s3 == RunOps(s2, ent.ops, 1)
                par == s3.stk[Len(s3.stk)]
                s4 == [s3 EXCEPT !.p = IF isPE THEN [par EXCEPT !.d = s3.p.d] ELSE par,
                                 !.stk = SubSeq(s3.stk, 1, Len(s3.stk) - 1)]
            IN [Note(s4, <<"cf">>) EXCEPT !.ret = IF s.cf.wf = 1 THEN (IF s3.ret = 0 THEN 0 ELSE 1) ELSE ent.ret]

RunOps(s, ops, i) ==
  IF i > Len(ops) THEN s
  ELSE LET s1 == DoOp([s EXCEPT !.ret = 0], ops[i])
           rs == IF ops[i][1] = "resumeall" THEN s1.ret ELSE <<s1.ret>>
           s2 == [s1 EXCEPT !.ev = @ \o [j \in 1..Len(rs) |-> <<"cr", rs[j]>>], !.tx = FALSE]
       IN IF s.cf.wf = 1
          THEN LET s3 == [s2 EXCEPT !.ev[Len(s2.ev)] = Append(@, s2.p.base)] IN
               IF s1.ret[1] = 0 THEN [s3 EXCEPT !.ret = 0] ELSE IF i = Len(ops) THEN [s3 EXCEPT !.ret = 1] ELSE RunOps(s3, ops, i + 1)
          ELSE RunOps(s2, ops, i + 1)

-------------------------------------------------------------------------------
(* Encodings *)

EncByIx(ix, ns) ==
  Enc(CASE ix \in {"none", "utf-8"} -> "utf8" [] ix = "iso-8859-1" -> "l1" [] ix = "us-ascii" -> "ascii"
        [] ix \in {"utf-16", "utf-16be"} -> "u16be" [] OTHER -> "u16le", ns)

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
KnownEnc(name) ==          \* canonical name of a built-in encoding, "" if none
  LET l == [i \in 1..Len(name) |-> Lower(name[i])] IN
  CASE l = <<105,115,111,45,56,56,53,57,45,49>> -> "iso-8859-1"
    [] l = <<117,115,45,97,115,99,105,105>> -> "us-ascii"
    [] l = <<117,116,102,45,56>> -> "utf-8"
    [] l = <<117,116,102,45,49,54>> -> "utf-16"
    [] l = <<117,116,102,45,49,54,98,101>> -> "utf-16be"
    [] l = <<117,116,102,45,49,54,108,101>> -> "utf-16le"
    [] OTHER -> ""

\* ASCII characters an application encoding may map elsewhere
FreeAscii(i) == i = 127 \/ i \in {36, 64, 92, 94, 96, 123, 125, 126} \/ (i < 32 /\ i \notin {9, 10, 13})
UnkOk(u) ==
  \A i \in 1..256 :
    LET c == u.map[i] IN
    /\ (i <= 128 /\ ~FreeAscii(i - 1)) => c = i - 1
    /\ c < -1 => c >= -4 /\ u.conv # 0
    /\ (c >= 0 /\ c < 128 /\ ~FreeAscii(c)) => c = i - 1
    /\ c <= 65535

RECURSIVE FindUnk(_, _, _)
FindUnk(us, n, i) == IF i > Len(us) THEN 0 ELSE IF us[i].name = n THEN i ELSE FindUnk(us, n, i + 1)

\* the unknown encoding handler: state with the new encoding, or ret = 0
AskEncoding(s, name) ==
  IF ~Has(s, "uk") THEN [s EXCEPT !.ret = 0]
  ELSE LET s1 == Emit(s, <<"uk", name>>) x == FindUnk(s.cf.unk, name, 1) IN
       IF x = 0 THEN [s1 EXCEPT !.ret = 0]
       ELSE LET u == s.cf.unk[x] IN
         IF UnkOk(u) THEN [s1 EXCEPT !.ret = 1, !.p.ini = FALSE,
                                     !.p.enc = [k |-> "unk", ns |-> s.p.ns >= 0, map |-> u.map, conv |-> u.conv]]
         ELSE [s1 EXCEPT !.ret = 0]

\* start with the encoding the application named, or with detection
InitEncoding(s) ==
  LET q == s.p IN
  IF q.proto = NULL THEN [s EXCEPT !.p.ini = TRUE, !.p.ix = "none", !.ret = 1]
  ELSE LET k == KnownEnc(q.proto) IN
       IF k # "" THEN [s EXCEPT !.p.ini = TRUE, !.p.ix = k, !.ret = 1]
       ELSE AskEncoding(s, q.proto)

\* encoding detection at the first token: [k: encoding ("" undecided), t: token (GO: tokenize), n]
Detect(q, content) ==
  LET i == q.pos b == q.b n == q.n ix == q.ix
      D(k, t, nx) == [k |-> k, t |-> t, n |-> nx]
      Deflt == D(EncByIx(ix, TRUE).k, "GO", 0)
      U16s == {"utf-16", "utf-16be", "utf-16le"}
  IN IF i > n THEN D("", "NONE", i)
     ELSE IF i = n THEN
       IF ix \in U16s THEN D("", "PARTIAL", 0)
       ELSE IF b[i] \in {254, 255, 239} /\ ~(ix = "iso-8859-1" /\ content) THEN D("", "PARTIAL", 0)
       ELSE IF b[i] \in {0, 60} THEN D("", "PARTIAL", 0)
       ELSE Deflt
     ELSE LET x == b[i] y == b[i+1] IN
       IF x = 254 /\ y = 255 THEN (IF ix = "iso-8859-1" /\ content THEN Deflt ELSE D("u16be", "BOM", i + 2))
       ELSE IF x = 60 /\ y = 0 THEN (IF ix \in {"utf-16be", "utf-16"} /\ content THEN Deflt ELSE D("u16le", "GO", 0))
       ELSE IF x = 255 /\ y = 254 THEN (IF ix = "iso-8859-1" /\ content THEN Deflt ELSE D("u16le", "BOM", i + 2))
       ELSE IF x = 239 /\ y = 187 THEN
         (IF content /\ ix \in U16s \cup {"iso-8859-1"} THEN Deflt
          ELSE IF i + 1 = n THEN D("", "PARTIAL", 0)
          ELSE IF b[i+2] = 191 THEN D("utf8", "BOM", i + 3)
          ELSE Deflt)
       ELSE IF x = 0 THEN (IF content /\ ix = "utf-16le" THEN Deflt ELSE D("u16be", "GO", 0))
       ELSE IF y = 0 /\ ~content THEN D("u16le", "GO", 0)
       ELSE Deflt

\* next token of the innermost text: [s, t, n]; detection may settle the encoding
Tok(s, content) ==
  IF ~Inner(s) /\ s.p.ini THEN
    LET d == Detect(s.p, content)
        s1 == IF d.k = "" THEN s ELSE [s EXCEPT !.p.ini = FALSE, !.p.enc = Enc(d.k, s.p.ns >= 0)]
    IN IF d.t # "GO" THEN [s |-> s1, t |-> d.t, n |-> d.n]
       ELSE LET k == IF content THEN ContentTok(s1.p.enc, s1.p.b, s1.p.n, s1.p.pos)
                     ELSE PrologTok(s1.p.enc, s1.p.b, s1.p.n, s1.p.pos)
            IN [s |-> s1, t |-> k.t, n |-> k.n]
  ELSE LET k == IF content THEN ContentTok(LE(s), LB(s), LN(s), LI(s)) ELSE PrologTok(LE(s), LB(s), LN(s), LI(s))
       IN [s |-> s, t |-> k.t, n |-> k.n]

-------------------------------------------------------------------------------
(* XML and text declarations *)

\* ASCII character at i of b[..n]: -1 if none
Asc(e, b, n, i) == LET c == K(e, b, n, i) IN IF c >= 0 /\ c < 128 THEN c ELSE -1
RECURSIVE SkipA(_, _, _, _)
SkipA(e, b, n, i) == IF Sp(Asc(e, b, n, i)) THEN SkipA(e, b, n, i + Mb(e)) ELSE i
RECURSIVE NameA(_, _, _, _)
NameA(e, b, n, i) ==
  LET c == Asc(e, b, n, i) IN IF c = -1 \/ c = 61 \/ Sp(c) THEN i ELSE NameA(e, b, n, i + Mb(e))
RECURSIVE ValA(_, _, _, _, _)
ValA(e, b, n, i, q) ==
  LET c == Asc(e, b, n, i) IN
  IF c = q THEN i
  ELSE IF (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ Dig(c) \/ c \in {46, 45, 95} THEN ValA(e, b, n, i + Mb(e), q)
  ELSE -i
\* one pseudo-attribute from i on: ok (FALSE: malformed at "at"), none, nm (text), ns (where the name begins),
\* v..w-1 (the value), nx (after the closing quote)
PA(e, b, n, i) ==
  LET m == Mb(e)
      R(ok, none, at, nm, ns, v, w, nx) == [ok |-> ok, none |-> none, at |-> at, nm |-> nm, ns |-> ns, v |-> v, w |-> w, nx |-> nx]
      Bad(at) == R(FALSE, TRUE, at, <<>>, 0, 0, 0, 0)
  IN IF i > n THEN R(TRUE, TRUE, 0, <<>>, 0, 0, 0, i)
     ELSE IF ~Sp(Asc(e, b, n, i)) THEN Bad(i)
     ELSE LET a == SkipA(e, b, n, i) IN
       IF a > n THEN R(TRUE, TRUE, 0, <<>>, 0, 0, 0, i)
       ELSE LET z == NameA(e, b, n, a) c == Asc(e, b, n, z) IN
         IF c = -1 THEN Bad(z)
         ELSE LET q == SkipA(e, b, n, z) IN
           IF Asc(e, b, n, q) # 61 THEN Bad(q)
           ELSE IF q = a THEN Bad(q)
           ELSE LET o == SkipA(e, b, n, q + m) oc == Asc(e, b, n, o) IN
             IF oc \notin {34, 39} THEN Bad(o)
             ELSE LET w == ValA(e, b, n, o + m, oc) IN
               IF w < 0 THEN Bad(-w)
               ELSE R(TRUE, FALSE, 0, Decode(e, b, a, z), a, o + m, w, w + m)

KW_version == <<118, 101, 114, 115, 105, 111, 110>>
KW_encoding == <<101, 110, 99, 111, 100, 105, 110, 103>>
KW_standalone == <<115, 116, 97, 110, 100, 97, 108, 111, 110, 101>>
KW_yes == <<121, 101, 115>>
KW_no == <<110, 111>>

\* "<?xml ...?>" at i..j-1: [ok, at, ver, enc, encAt, sa]
ParseDecl(text, e, b, i, j) ==
  LET m == Mb(e) n == j - 2 * m - 1
      R(ok, at, ver, en, enAt, sa) == [ok |-> ok, at |-> at, ver |-> ver, enc |-> en, encAt |-> enAt, sa |-> sa]
      Bad(at) == R(FALSE, at, NULL, NULL, 0, -1)
      Alone(a, ver, en, enAt) ==     \* standalone must be what is left
        IF a.nm # KW_standalone \/ text THEN Bad(a.ns)
        ELSE LET v == Decode(e, b, a.v, a.w) z == SkipA(e, b, n, a.nx) IN
          IF v # KW_yes /\ v # KW_no THEN Bad(a.v)
          ELSE IF z <= n THEN Bad(z)
          ELSE R(TRUE, 0, ver, en, enAt, IF v = KW_yes THEN 1 ELSE 0)
      AfterVersion(a, ver) ==
        IF a.nm = KW_encoding THEN
          LET c == Asc(e, b, n, a.v) en == Decode(e, b, a.v, a.w) IN
          IF ~((c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)) THEN Bad(a.v)
          ELSE LET a2 == PA(e, b, n, a.nx) IN
            IF ~a2.ok THEN Bad(a2.at)
            ELSE IF a2.none THEN R(TRUE, 0, ver, en, a.v, -1)
            ELSE Alone(a2, ver, en, a.v)
        ELSE Alone(a, ver, NULL, 0)
      a1 == PA(e, b, n, i + 5 * m)
  IN IF ~a1.ok THEN Bad(a1.at)
     ELSE IF a1.none THEN Bad(i + 5 * m)
     ELSE IF a1.nm # KW_version THEN (IF ~text THEN Bad(a1.ns) ELSE AfterVersion(a1, NULL))
     ELSE LET ver == Decode(e, b, a1.v, a1.w) a2 == PA(e, b, n, a1.nx) IN
       IF ~a2.ok THEN Bad(a2.at)
       ELSE IF a2.none THEN (IF text THEN Bad(a1.nx) ELSE R(TRUE, 0, ver, NULL, 0, -1))
       ELSE AfterVersion(a2, ver)

\* the XML (or text) declaration at i..j-1; on failure the parser stops
XmlDecl(s, text, i, j) ==
  LET x == ParseDecl(text, s.p.enc, s.p.b, i, j) IN
  IF ~x.ok THEN Fail([s EXCEPT !.p.evp = x.at], IF text THEN E_TEXT_DECL ELSE E_XML_DECL)
  ELSE
    LET s1 == IF ~text /\ x.sa = 1
              THEN [s EXCEPT !.p.d.sa = TRUE, !.p.pe = IF @ = 1 THEN 0 ELSE @] ELSE s
        s2 == IF Has(s1, "xd") THEN Emit(s1, <<"xd", x.ver, x.enc, x.sa>>) ELSE RD(s1, i, j)
    IN IF s.p.proto # NULL \/ x.enc = NULL THEN s2
       ELSE
         LET known == IF Len(x.enc) > 127 THEN "" ELSE KnownEnc(x.enc)
             cur == s2.p.enc
         IN IF known # "" THEN
              LET ne == IF known = "utf-16" /\ Mb(cur) = 2 THEN cur ELSE EncByIx(known, s.p.ns >= 0) IN
              IF Mb(ne) # Mb(cur) \/ (Mb(ne) = 2 /\ ne # cur)
              THEN Fail([s2 EXCEPT !.p.evp = x.encAt], E_INCORRECT_ENCODING)
              ELSE [s2 EXCEPT !.p.enc = ne]
            ELSE LET s3 == AskEncoding(s2, x.enc) IN
              IF s3.ret = 0 THEN Fail([s3 EXCEPT !.p.evp = x.encAt], E_UNKNOWN_ENCODING) ELSE s3

-------------------------------------------------------------------------------
(* Attribute values *)

AV(err, at, v) == [err |-> err, at |-> at, v |-> v]
AvBreak(isCd, acc) == ~isCd /\ (acc = <<>> \/ acc[Len(acc)] = 32)

\* literal text i..n of b; chk: undeclared entities are errors; int: inside an entity's text; go: open entities
RECURSIVE AttAppend(_, _, _, _, _, _, _, _, _, _)
AttAppend(d, chk, go, int, isCd, e, b, i, n, acc) ==
  LET k == ValueTok(e, b, n, i, FALSE) m == Mb(e)
      More(j, a) == AttAppend(d, chk, go, int, isCd, e, b, j, n, a)
      At(j) == IF int THEN 0 ELSE j
  IN CASE k.t = "NONE" -> AV(0, 0, acc)
       [] k.t = "INVALID" -> AV(E_INVALID_TOKEN, At(k.n), acc)
       [] k.t = "PARTIAL" -> AV(E_INVALID_TOKEN, At(i), acc)
       [] k.t = "CHAR_REF" ->
            LET c == CharRefNumber(e, b, i) IN
            IF c < 0 THEN AV(E_BAD_CHAR_REF, At(i), acc)
            ELSE IF c = 32 /\ AvBreak(isCd, acc) THEN More(k.n, acc)
            ELSE More(k.n, Append(acc, c))
       [] k.t = "DATA_CHARS" -> More(k.n, acc \o Decode(e, b, i, k.n))
       [] k.t \in {"TRAILING_CR", "ATTRIBUTE_VALUE_S", "DATA_NEWLINE"} ->
            More(k.n, IF AvBreak(isCd, acc) THEN acc ELSE Append(acc, 32))
       [] k.t = "ENTITY_REF" ->
            LET name == Decode(e, b, i + m, k.n - m) pre == Predefined(name) x == Find(d.ge, name, 1) IN
            IF pre # 0 THEN More(k.n, Append(acc, pre))
            ELSE IF chk /\ x = 0 THEN AV(E_UNDEFINED_ENTITY, 0, acc)
            ELSE IF chk /\ ~d.ge[x].int THEN AV(E_DECLARED_IN_PE, 0, acc)
            ELSE IF x = 0 THEN More(k.n, acc)
            ELSE LET en == d.ge[x] IN
              IF name \in go THEN AV(E_RECURSIVE, At(i), acc)
              ELSE IF en.nota # NULL THEN AV(E_BINARY_REF, At(i), acc)
              ELSE IF en.txt = NULL THEN AV(E_ATT_EXTERNAL, At(i), acc)
              ELSE LET r == AttAppend(d, chk, go \cup {name}, TRUE, isCd, Cp(e.ns), en.txt, 1, Len(en.txt), acc) IN
                   IF r.err # 0 THEN r ELSE More(k.n, r.v)
       [] OTHER -> AV(E_UNEXPECTED_STATE, At(i), acc)

Chop(v) == IF v # <<>> /\ v[Len(v)] = 32 THEN SubSeq(v, 1, Len(v) - 1) ELSE v
AttValueOf(s, chk, isCd, i, n) ==
  LET r == AttAppend(s.p.d, chk, s.p.d.go, Inner(s), isCd, LE(s), LB(s), i, n, <<>>) IN
  IF r.err # 0 \/ isCd THEN r ELSE [r EXCEPT !.v = Chop(@)]

\* must an entity referenced in content have been declared?
MustBeDeclared(d) == ~d.hasPE \/ d.sa

-------------------------------------------------------------------------------
(* Namespaces and start tags *)

RECURSIVE BindIx(_, _, _)
BindIx(bs, pre, i) == IF i > Len(bs) THEN 0 ELSE IF bs[i][1] = pre THEN i ELSE BindIx(bs, pre, i + 1)
Bound(q, pre) == LET x == BindIx(q.bind, pre, 1) IN IF x = 0 THEN NULL ELSE q.bind[x][2]
SetBind(q, pre, uri) ==
  LET x == BindIx(q.bind, pre, 1) IN
  IF x = 0 THEN [q EXCEPT !.bind = Append(@, <<pre, uri>>)] ELSE [q EXCEPT !.bind[x] = <<pre, uri>>]

PrefixOf(name) == LET c == ColonAt(name, 1) IN IF c = 0 THEN NULL ELSE SubSeq(name, 1, c - 1)
LocalOf(name) == SubSeq(name, ColonAt(name, 1) + 1, Len(name))
StartsWith(a, x) == Len(a) >= Len(x) /\ SubSeq(a, 1, Len(x)) = x
\* in namespace mode: is this attribute a declaration, and of which prefix (<<>>: default)?
IsDecl(q, name) == q.ns >= 0 /\ (name = XMLNSNAME \/ StartsWith(name, XMLNSNAME \o <<58>>))
DeclPrefix(name) == IF name = XMLNSNAME THEN <<>> ELSE SubSeq(name, 7, Len(name))
AttPrefix(q, name) == IF q.ns < 0 THEN NULL ELSE PrefixOf(name)

BindError(pre, uri) ==
  IF uri = <<>> /\ pre # <<>> THEN E_UNDECLARING_PREFIX
  ELSE IF pre = XMLNSNAME THEN E_RESERVED_XMLNS
  ELSE IF (pre = XMLNAME) # (uri = XMLURI) THEN (IF pre = XMLNAME THEN E_RESERVED_XML ELSE E_RESERVED_URI)
  ELSE IF uri = XMLNSURI THEN E_RESERVED_URI
  ELSE 0

\* t: the tag being put together: [err, at, out, seen, binds, npx]
\* out: attributes <<name, value, prefixed>>; binds: <<prefix, previous binding>>
AddBinding(st, t, pre, uri) ==        \* <<state, t>>
  LET er == BindError(pre, uri) IN
  IF er # 0 THEN <<st, [t EXCEPT !.err = er]>>
  ELSE LET new == IF uri = <<>> THEN NULL ELSE uri
           s1 == [st EXCEPT !.p = SetBind(st.p, pre, new)]
           s2 == IF Has(s1, "ns")
                 THEN Emit(s1, <<"ns", IF pre = <<>> THEN NULL ELSE pre, new>>) ELSE s1
       IN <<s2, [t EXCEPT !.binds = Append(@, <<pre, Bound(st.p, pre)>>)]>>

AddAtt(st, t, name, v) ==
  IF IsDecl(st.p, name) THEN AddBinding(st, [t EXCEPT !.seen = @ \cup {name}], DeclPrefix(name), v)
  ELSE LET px == AttPrefix(st.p, name) # NULL IN
       <<st, [t EXCEPT !.seen = @ \cup {name}, !.out = Append(@, <<name, v, px>>)]>>

RECURSIVE QNameEnd(_, _, _, _)
QNameEnd(e, b, n, i) ==
  LET j == NameEnd(e, b, n, i) IN IF K(e, b, n, j) = 58 THEN QNameEnd(e, b, n, j + Mb(e)) ELSE j

RECURSIVE FindAtt(_, _, _)
FindAtt(as, n, i) == IF i > Len(as) THEN 0 ELSE IF as[i].n = n THEN i ELSE FindAtt(as, n, i + 1)
ElemAtts(d, el) == LET x == Find(d.et, el, 1) IN IF x = 0 THEN <<>> ELSE d.et[x].atts

\* attributes given in the tag: from i (behind a name) to the end of the tag
RECURSIVE TagAtts(_, _, _, _, _, _, _)
TagAtts(st, t, e, b, i, n, decl) ==
  LET m == Mb(e) a == SkipSp(e, b, n, i) c == K(e, b, n, a) IN
  IF t.err # 0 \/ c < 0 \/ c = 62 \/ c = 47 THEN <<st, t>>
  ELSE
    LET z == QNameEnd(e, b, n, a)
        name == Decode(e, b, a, z)
        q == SkipSp(e, b, n, SkipSp(e, b, n, z) + m)
        v == AttValue(e, b, n, q + m, K(e, b, n, q)).n
    IN IF name \in t.seen THEN <<st, [t EXCEPT !.err = E_DUPLICATE_ATTRIBUTE, !.at = IF Inner(st) THEN 0 ELSE a]>>
       ELSE LET x == FindAtt(decl, name, 1)
                r == AttValueOf(st, MustBeDeclared(st.p.d), x = 0 \/ decl[IF x = 0 THEN 1 ELSE x].cd, q + m, v - 1)
            IN IF r.err # 0 THEN <<st, [t EXCEPT !.err = r.err, !.at = r.at]>>
               ELSE LET y == AddAtt(st, t, name, r.v) IN TagAtts(y[1], y[2], e, b, v + m, n, decl)

RECURSIVE DefAtts(_, _, _, _)
DefAtts(st, t, decl, i) ==
  IF t.err # 0 \/ i > Len(decl) THEN <<st, t>>
  ELSE IF decl[i].v = NULL \/ decl[i].n \in t.seen THEN DefAtts(st, t, decl, i + 1)
  ELSE LET y == AddAtt(st, t, decl[i].n, decl[i].v) IN DefAtts(y[1], y[2], decl, i + 1)

SepOf(q) == IF q.ns > 0 THEN <<q.ns>> ELSE <<>>
Expanded(q, uri, pre, local) ==
  uri \o SepOf(q) \o local \o (IF q.trip /\ q.ns > 0 /\ pre # <<>> THEN <<q.ns>> \o pre ELSE <<>>)

\* expand the names of prefixed attributes, in order
RECURSIVE ExpandAtts(_, _, _, _)
ExpandAtts(q, t, i, names) ==
  IF t.err # 0 \/ i > Len(t.out) THEN t
  ELSE LET a == t.out[i] IN
    IF ~a[3] THEN ExpandAtts(q, t, i + 1, names)
    ELSE LET pre == PrefixOf(a[1]) uri == Bound(q, pre) IN
      IF uri = NULL THEN [t EXCEPT !.err = E_UNBOUND_PREFIX]
      ELSE LET un == uri \o SepOf(q) \o LocalOf(a[1]) IN
        IF un \in names THEN [t EXCEPT !.err = E_DUPLICATE_ATTRIBUTE]
        ELSE ExpandAtts(q, [t EXCEPT !.out[i] = <<Expanded(q, uri, pre, LocalOf(a[1])), a[2], a[3]>>], i + 1, names \cup {un})

\* the element's own name: [err, nm]
ElemName(q, name) ==
  IF q.ns < 0 THEN [err |-> 0, nm |-> name]
  ELSE LET pre == PrefixOf(name) IN
    IF pre # NULL THEN
      LET uri == Bound(q, pre) IN
      IF uri = NULL THEN [err |-> E_UNBOUND_PREFIX, nm |-> name]
      ELSE [err |-> 0, nm |-> Expanded(q, uri, pre, LocalOf(name))]
    ELSE LET uri == Bound(q, <<>>) IN
      IF uri = NULL THEN [err |-> 0, nm |-> name] ELSE [err |-> 0, nm |-> Expanded(q, uri, <<>>, name)]

RECURSIVE IxOf(_, _, _)
IxOf(out, n, i) == IF i > Len(out) THEN -1 ELSE IF out[i][1] = n THEN 2 * (i - 1) ELSE IxOf(out, n, i + 1)

\* start tag (or empty element) name..end: <<state, t, name>>
StartTag(s, name, i, j) ==
  LET e == LE(s) b == LB(s)
      x == Find(s.p.d.et, name, 1)
      decl == IF x = 0 THEN <<>> ELSE s.p.d.et[x].atts
      idn == IF x = 0 THEN NULL ELSE s.p.d.et[x].id
      t0 == [err |-> 0, at |-> 0, out |-> <<>>, seen |-> {}, binds |-> <<>>]
      r1 == TagAtts(s, t0, e, b, QNameEnd(e, b, j - 1, i + Mb(e)), j - 1, decl)
  IN IF r1[2].err # 0 THEN <<r1[1], r1[2], name>>
     ELSE
       LET ns1 == 2 * Len(r1[2].out)
           ix == IF idn = NULL \/ idn \notin r1[2].seen THEN -1
                 ELSE LET k == IxOf(r1[2].out, idn, 1) IN IF k = -1 THEN r1[1].p.ididx ELSE k
           s2 == [r1[1] EXCEPT !.p.nspec = ns1, !.p.ididx = ix]
           r2 == DefAtts(s2, r1[2], decl, 1)
       IN IF r2[2].err # 0 THEN <<r2[1], r2[2], name>>
          ELSE LET t3 == ExpandAtts(r2[1].p, r2[2], 1, {})
                   en == ElemName(r2[1].p, name)
               IN IF t3.err # 0 THEN <<r2[1], t3, name>>
                  ELSE <<r2[1], [t3 EXCEPT !.err = en.err], en.nm>>

AttPairs(out) == [i \in 1..Len(out) |-> <<out[i][1], out[i][2]>>]

\* undo the bindings of an element, last one first
RECURSIVE Unbind(_, _)
Unbind(s, binds) ==
  IF binds = <<>> THEN s
  ELSE LET x == binds[Len(binds)]
           s1 == IF Has(s, "ne") THEN Emit(s, <<"ne", IF x[1] = <<>> THEN NULL ELSE x[1]>>) ELSE s
       IN Unbind([s1 EXCEPT !.p = SetBind(s1.p, x[1], x[2])], SubSeq(binds, 1, Len(binds) - 1))

-------------------------------------------------------------------------------
(* Content *)

\* suspended while internal entities are open: the enclosing texts count as being behind the reference
SuspendEnts(s) ==
  LET es == s.p.ents n == Len(es) IN
  IF n = 0 THEN s
  ELSE LET s1 == [s EXCEPT !.p.ents = [i \in 1..n |-> IF i < n /\ ~es[i+1].pe THEN [es[i] EXCEPT !.evp = es[i].pos] ELSE es[i]]]
       IN IF es[1].pe THEN s1 ELSE [s1 EXCEPT !.p.evp = s1.p.pos]

\* a token of content (or of a CDATA section) is done
Next(s, nx) ==
  LET s1 == SetEvp(SetPos(s, nx), nx) IN
  CASE s1.p.parsing = SUSP -> Halt(SuspendEnts(s1))
    [] s1.p.parsing = FINI -> Fail(s1, E_ABORTED)
    [] OTHER -> s1

Push(s, en, isPE, btw) ==
  LET f == [n |-> en.n, x |-> en.txt, pos |-> 1, stl |-> s.p.tl, btw |-> btw, pe |-> isPE, evp |-> 0, eve |-> 0, cd |-> FALSE] IN
  [s EXCEPT !.p.ents = Append(@, f), !.p.d.go = IF isPE THEN @ ELSE @ \cup {en.n}, !.p.d.po = IF isPE THEN @ \cup {en.n} ELSE @]
\* the innermost entity is finished
Pop(s) ==
  LET f == Fr(s) s1 == [s EXCEPT !.p.ents = SubSeq(@, 1, Len(@) - 1),
                                 !.p.d.go = IF f.pe THEN @ ELSE @ \ {f.n}, !.p.d.po = IF f.pe THEN @ \ {f.n} ELSE @]
  IN IF f.pe THEN s1 ELSE SetEvp(s1, LI(s1))

ContentRef(s, i, nx) ==
  LET e == LE(s) b == LB(s) m == Mb(e)
      name == Decode(e, b, i + m, nx - m) pre == Predefined(name) d == s.p.d x == Find(d.ge, name, 1)
  IN IF pre # 0 THEN Next(CharFor(s, pre, i, nx), nx)
     ELSE IF MustBeDeclared(d) /\ x = 0 THEN Fail(s, E_UNDEFINED_ENTITY)
     ELSE IF MustBeDeclared(d) /\ ~d.ge[x].int THEN Fail(s, E_DECLARED_IN_PE)
     ELSE IF x = 0 THEN Next(IF Has(s, "sk") THEN Emit(s, <<"sk", name, 0>>) ELSE RD(s, i, nx), nx)
     ELSE LET en == d.ge[x] IN
       IF name \in d.go THEN Fail(s, E_RECURSIVE)
       ELSE IF en.nota # NULL THEN Fail(s, E_BINARY_REF)
       ELSE IF en.txt # NULL THEN
         IF ~s.p.dx THEN Next(IF Has(s, "sk") THEN Emit(s, <<"sk", name, 0>>) ELSE RD(s, i, nx), nx)
         ELSE Push(SetPos(s, nx), en, FALSE, FALSE)
       ELSE IF Has(s, "er") THEN
         LET s1 == CallER(s, FALSE, {name}, en.base, en.sys, en.pub) IN
         IF s1.ret = 0 THEN Fail(s1, E_EXTERNAL_HANDLING) ELSE Next(s1, nx)
       ELSE Next(RD(s, i, nx), nx)

ContentStart(s, i, nx) ==
  LET e == LE(s) b == LB(s) m == Mb(e)
      z == QNameEnd(e, b, nx - 1, i + m)
      name == Decode(e, b, i + m, z)
      r == StartTag([s EXCEPT !.p.tl = @ + 1], name, i, nx)
      t == r[2]
      s1 == IF t.at # 0 THEN [r[1] EXCEPT !.p.evp = t.at] ELSE r[1]
  IN IF t.err # 0 THEN Fail(s1, t.err)
     ELSE LET s2 == IF Has(s1, "se") THEN Emit(s1, <<"se", r[3], AttPairs(t.out), s1.p.nspec, s1.p.ididx>>) ELSE RD(s1, i, nx)
          IN Next([s2 EXCEPT !.p.tags = Append(@, [raw |-> SubSeq(b, i + m, z - 1), nm |-> r[3], binds |-> t.binds])], nx)

\* the root element has ended
RootDone(s, nx) ==
  IF s.p.tl = 0 /\ s.p.parsing # FINI
  THEN IF s.p.parsing = SUSP THEN Next([s EXCEPT !.p.proc = "epilog"], nx)
       ELSE [SetPos(s, nx) EXCEPT !.p.proc = "epilog", !.p.evp = nx]
  ELSE Next(s, nx)

ContentEmpty(s, i, nx) ==
  LET e == LE(s) b == LB(s) m == Mb(e)
      name == Decode(e, b, i + m, QNameEnd(e, b, nx - 1, i + m))
      r == StartTag(s, name, i, nx)
      t == r[2]
      s1 == IF t.at # 0 THEN [r[1] EXCEPT !.p.evp = t.at] ELSE r[1]
  IN IF t.err # 0 THEN Fail(Unbind(s1, t.binds), t.err)
     ELSE LET started == Has(s1, "se")
              s2 == IF started THEN Emit(s1, <<"se", r[3], AttPairs(t.out), s1.p.nspec, s1.p.ididx>>) ELSE s1
              ended == Has(s2, "ee")
              s3 == IF ended THEN Emit(IF started THEN SetEvp(s2, IF Inner(s2) THEN Fr(s2).eve ELSE s2.p.eve) ELSE s2, <<"ee", r[3]>>)
                    ELSE s2
              s4 == IF ~started /\ ~ended THEN RD(s3, i, nx) ELSE s3
          IN RootDone(Unbind(s4, t.binds), nx)

ContentEnd(s, i, nx) ==
  IF s.p.tl = LStl(s) THEN Fail(s, E_ASYNC)
  ELSE
    LET e == LE(s) b == LB(s) m == Mb(e)
        raw == SubSeq(b, i + 2 * m, QNameEnd(e, b, nx - 1, i + 2 * m) - 1)
        tag == s.p.tags[Len(s.p.tags)]
        s0 == [s EXCEPT !.p.tags = SubSeq(@, 1, Len(@) - 1)]
    IN IF raw # tag.raw THEN FailAt(s0, E_TAG_MISMATCH, i + 2 * m)
       ELSE LET s1 == [s0 EXCEPT !.p.tl = @ - 1]
                s2 == IF Has(s1, "ee") THEN Emit(s1, <<"ee", tag.nm>>) ELSE RD(s1, i, nx)
            IN RootDone(Unbind(s2, tag.binds), nx)

\* the text ends with "\r", "]" or "]]": only known to be data when nothing follows
Trailing(s, i, brackets) ==
  LET end == LN(s) + 1
      s1 == IF brackets THEN CharData(s, i, end) ELSE CharFor(s, 10, i, end)
      bad(code) == Fail(IF brackets THEN SetEvp(s1, end) ELSE s1, code)
  IN IF s1.p.parsing = FINI THEN Fail(s1, E_ABORTED)
     ELSE IF LStl(s1) = 0 THEN bad(E_NO_ELEMENTS)
     ELSE IF s1.p.tl # LStl(s1) THEN bad(E_ASYNC)
     ELSE LET s2 == SetPos(s1, end) IN
          IF ~Inner(s2) THEN Halt(s2)
          ELSE IF s2.p.parsing = SUSP THEN Halt(SuspendEnts(s2)) ELSE s2

EnterCdata(s, nx) ==
  LET s1 == SetEvp(SetPos(s, nx), nx) IN
  IF Inner(s1) THEN [s1 EXCEPT !.p.ents[Len(s1.p.ents)].cd = TRUE] ELSE [s1 EXCEPT !.p.proc = "cdata", !.p.nest = TRUE]

ContentStep(s0) ==
  LET i == LI(s0)
      k == Tok(SetEvp(s0, i), TRUE)
      nx == IF k.n = 0 THEN i ELSE k.n
      s == SetEve(k.s, nx)
      more == LMore(s)
      tok == k.t
  IN CASE tok = "DATA_CHARS" -> Next(CharData(s, i, nx), nx)
       [] tok = "DATA_NEWLINE" -> Next(CharFor(s, 10, i, nx), nx)
       [] tok \in {"START_TAG_NO_ATTS", "START_TAG_WITH_ATTS"} -> ContentStart(s, i, nx)
       [] tok = "END_TAG" -> ContentEnd(s, i, nx)
       [] tok \in {"EMPTY_ELEMENT_NO_ATTS", "EMPTY_ELEMENT_WITH_ATTS"} -> ContentEmpty(s, i, nx)
       [] tok = "ENTITY_REF" -> ContentRef(s, i, nx)
       [] tok = "CHAR_REF" ->
            LET c == CharRefNumber(LE(s), LB(s), i) IN
            IF c < 0 THEN Fail(s, E_BAD_CHAR_REF) ELSE Next(CharFor(s, c, i, nx), nx)
       [] tok = "PI" -> Next(ReportPI(s, i, nx), nx)
       [] tok = "COMMENT" -> Next(ReportComment(s, i, nx), nx)
       [] tok = "CDATA_SECT_OPEN" ->
            LET s1 == IF Has(s, "cs") THEN Emit(s, <<"cs">>) ELSE RD(s, i, nx) IN
            IF s1.p.parsing = FINI THEN Fail(s1, E_ABORTED) ELSE EnterCdata(s1, nx)
       [] tok = "XML_DECL" -> Fail(s, E_MISPLACED_PI)
       [] tok = "INVALID" -> FailAt(s, E_INVALID_TOKEN, nx)
       [] more /\ tok \in {"NONE", "PARTIAL", "PARTIAL_CHAR", "TRAILING_CR", "TRAILING_RSQB"} -> Halt(s)
       [] tok = "PARTIAL" -> Fail(s, E_UNCLOSED_TOKEN)
       [] tok = "PARTIAL_CHAR" -> Fail(s, E_PARTIAL_CHAR)
       [] tok = "TRAILING_CR" -> Trailing(SetEve(s, LN(s) + 1), i, FALSE)
       [] tok = "TRAILING_RSQB" -> Trailing(SetEve(s, LN(s) + 1), i, TRUE)
       [] tok = "NONE" ->
            IF LStl(s) = 0 THEN Fail(s, E_NO_ELEMENTS)
            ELSE IF s.p.tl # LStl(s) THEN Fail(s, E_ASYNC)
            ELSE IF Inner(s) THEN Pop(s) ELSE Halt(s)
       [] OTHER -> Next(RD(s, i, nx), nx)

CdataStep(s0) ==
  LET i == LI(s0)
      k == CdataTok(LE(s0), LB(s0), LN(s0), i)
      s == SetEv(s0, i, k.n)
      more == LMore(s)
  IN CASE k.t = "DATA_CHARS" -> Next(CharData(s, i, k.n), k.n)
       [] k.t = "DATA_NEWLINE" -> Next(CharFor(s, 10, i, k.n), k.n)
       [] k.t = "CDATA_SECT_CLOSE" ->
            LET s1 == IF Has(s, "ce") THEN Emit(s, <<"ce">>) ELSE RD(s, i, k.n)
                s2 == SetPos(s1, k.n)
            IN IF s1.p.parsing = FINI THEN Fail(s1, E_ABORTED)
               ELSE IF Inner(s2) THEN Next([s2 EXCEPT !.p.ents[Len(s2.p.ents)].cd = FALSE], k.n)
               ELSE LET s3 == [s2 EXCEPT !.p.proc = IF @ = "cdata" THEN "content" ELSE @] IN
                    \* a section begun in an earlier call: the parser looks at one more token before it stops
                    IF s.p.nest THEN Next(s3, k.n) ELSE SetEvp(s3, k.n)
       [] k.t = "INVALID" -> FailAt(s, E_INVALID_TOKEN, k.n)
       [] more -> Halt(s)
       [] k.t = "PARTIAL_CHAR" -> Fail(s, E_PARTIAL_CHAR)
       [] OTHER -> Fail(s, E_UNCLOSED_CDATA)

EpilogStep(s0) ==
  LET i == s0.p.pos
      k == PrologTok(s0.p.enc, s0.p.b, s0.p.n, i)
      s == SetEv(s0, i, k.n)
  IN CASE k.t = "PROLOG_S_NEG" ->
            LET s1 == RD(s, i, k.n) IN
            IF s1.p.parsing = FINI THEN Fail(s1, E_ABORTED) ELSE Halt([s1 EXCEPT !.p.pos = k.n])
       [] k.t = "NONE" -> Halt(s)
       [] k.t = "PROLOG_S" -> Next(RD(s, i, k.n), k.n)
       [] k.t = "PI" -> Next(ReportPI(s, i, k.n), k.n)
       [] k.t = "COMMENT" -> Next(ReportComment(s, i, k.n), k.n)
       [] k.t = "INVALID" -> FailAt(s, E_INVALID_TOKEN, k.n)
       [] k.t \in {"PARTIAL", "PARTIAL_CHAR"} ->
            IF ~s.p.fin THEN Halt(s) ELSE Fail(s, IF k.t = "PARTIAL" THEN E_UNCLOSED_TOKEN ELSE E_PARTIAL_CHAR)
       [] OTHER -> Fail(s, E_JUNK)

-------------------------------------------------------------------------------
(* Entity values *)

Open(s, en, isPE) == [s EXCEPT !.p.d.po = IF isPE THEN @ \cup {en.n} ELSE @, !.p.d.go = IF isPE THEN @ ELSE @ \cup {en.n}]
Shut(s, en, isPE) == [s EXCEPT !.p.d.po = IF isPE THEN @ \ {en.n} ELSE @, !.p.d.go = IF isPE THEN @ ELSE @ \ {en.n}]
Val(s, t) == [s EXCEPT !.p.d.val = @ \o t]

\* append the value literal i..n of b to p.d.val; ret = 0 or the error.  int: b is an entity's text
RECURSIVE StoreFrom(_, _, _, _, _, _)
StoreFrom(s, int, e, b, i, n) ==
  LET k == ValueTok(e, b, n, i, TRUE) m == Mb(e)
      End(st, code, at) == [st EXCEPT !.ret = code, !.p.evp = IF int \/ at = 0 THEN @ ELSE at]
      More(st, j) == StoreFrom(st, int, e, b, j, n)
  IN CASE k.t = "NONE" -> End(s, 0, 0)
       [] k.t = "INVALID" -> End(s, E_INVALID_TOKEN, k.n)
       [] k.t = "PARTIAL" -> End(s, E_INVALID_TOKEN, i)
       [] k.t = "DATA_CHARS" -> More(Val(s, Decode(e, b, i, k.n)), k.n)
       [] k.t = "ENTITY_REF" -> More(Val(s, Decode(e, b, i, k.n)), k.n)
       [] k.t \in {"TRAILING_CR", "DATA_NEWLINE"} -> More(Val(s, <<10>>), k.n)
       [] k.t = "CHAR_REF" ->
            LET c == CharRefNumber(e, b, i) IN
            IF c < 0 THEN End(s, E_BAD_CHAR_REF, i) ELSE More(Val(s, <<c>>), k.n)
       [] k.t = "PARAM_ENTITY_REF" ->
            IF ~(s.p.kind = "pe" \/ int) THEN End(s, E_PARAM_ENTITY_REF, i)
            ELSE LET name == Decode(e, b, i + m, k.n - m) x == Find(s.p.d.pe, name, 1) IN
              IF x = 0 THEN End([s EXCEPT !.p.d.keep = s.p.d.sa], 0, 0)      \* the rest of the value is not read
              ELSE IF name \in s.p.d.po THEN End(s, E_RECURSIVE, i)
              ELSE LET en == s.p.d.pe[x] IN
                IF en.sys # NULL THEN
                  IF ~Has(s, "er") THEN More([s EXCEPT !.p.d.keep = s.p.d.sa], k.n)
                  ELSE LET s1 == CallER(Open([s EXCEPT !.p.d.peRead = FALSE], en, TRUE), TRUE, {}, en.base, en.sys, en.pub)
                           s2 == Shut(s1, en, TRUE)
                       IN IF s1.ret = 0 THEN End(s2, E_EXTERNAL_HANDLING, 0)
                          ELSE More(IF s2.p.d.peRead THEN s2 ELSE [s2 EXCEPT !.p.d.keep = s2.p.d.sa], k.n)
                ELSE LET t == IF en.txt = NULL THEN <<>> ELSE en.txt
                         s1 == StoreFrom(Open(s, en, TRUE), TRUE, Cp(e.ns), t, 1, Len(t))
                         s2 == Shut(s1, en, TRUE)
                     IN IF s1.ret # 0 THEN s2 ELSE More(s2, k.n)
       [] OTHER -> End(s, E_UNEXPECTED_STATE, i)
StoreVal(s, int, e, b, i, n) ==
  LET s1 == StoreFrom([s EXCEPT !.p.inEV = TRUE], int, e, b, i, n) IN [s1 EXCEPT !.p.inEV = s.p.inEV]

-------------------------------------------------------------------------------
(* Prolog and external subset *)

\* content models are built in p.d.scaf: nodes [t, q, n, par]; p.d.sidx: open groups
Node(t, q, n, par) == [t |-> t, q |-> q, n |-> n, par |-> par]
TopGroup(d) == d.sidx[Len(d.sidx)]
AddNode(d, t, q, n) ==
  [d EXCEPT !.scaf = Append(@, Node(t, q, n, IF d.sidx = <<>> THEN 0 ELSE TopGroup(d)))]
RECURSIVE Model(_, _)
Model(scaf, i) ==
  LET kids == SetToSortSeq({j \in 1..Len(scaf) : scaf[j].par = i}, <) IN
  <<scaf[i].t, scaf[i].q, scaf[i].n, [k \in 1..Len(kids) |-> Model(scaf, kids[k])]>>

RECURSIVE PubBad(_, _, _, _)
PubBad(e, b, i, n) ==       \* first character of the literal i..n that a public id may not have
  IF i > n THEN 0
  ELSE LET c == K(e, b, n, i) IN
       IF c >= 0 /\ PubidChar(c) THEN PubBad(e, b, i + Wd(e, b, i, c), n) ELSE i

EntTab(d, isPE) == IF isPE THEN d.pe ELSE d.ge
\* change the entity being declared
UpdEnt(s, F(_)) ==
  LET isPE == s.p.dEnt[1] n == s.p.dEnt[2] x == IF n = NULL THEN 0 ELSE Find(EntTab(s.p.d, isPE), n, 1) IN
  IF x = 0 THEN s
  ELSE IF isPE THEN [s EXCEPT !.p.d.pe[x] = F(@)] ELSE [s EXCEPT !.p.d.ge[x] = F(@)]
DeclEnt(s) ==
  LET isPE == s.p.dEnt[1] n == s.p.dEnt[2] x == IF n = NULL THEN 0 ELSE Find(EntTab(s.p.d, isPE), n, 1) IN
  IF x = 0 THEN [Entity(<<>>, FALSE) EXCEPT !.n = NULL] ELSE EntTab(s.p.d, isPE)[x]
NoEnt == <<FALSE, NULL>>
Ext(s) == IF Find(s.p.d.pe, HASH, 1) # 0 THEN s ELSE [s EXCEPT !.p.d.pe = Append(@, Entity(HASH, FALSE))]
ExtEnt(s) == s.p.d.pe[Find(s.p.d.pe, HASH, 1)]

DefineAtt(d, el, n, cd, isId, v, isXmlns) ==
  LET x == Find(d.et, el, 1)
      d1 == IF x = 0 THEN [d EXCEPT !.et = Append(@, [n |-> el, atts |-> <<>>, id |-> NULL])] ELSE d
      y == IF x = 0 THEN Len(d1.et) ELSE x
  IN IF (v # NULL \/ isId) /\ FindAtt(d1.et[y].atts, n, 1) # 0 THEN d1
     ELSE [d1 EXCEPT !.et[y].atts = Append(@, [n |-> n, cd |-> cd, v |-> v]),
                     !.et[y].id = IF isId /\ @ = NULL /\ ~isXmlns THEN n ELSE @]

Refuses(s) == Has(s, "st") /\ s.cf.stret = 0
\* the not-standalone handler is asked: on refusal the parser stops
AskSt(s) == LET s1 == CallSt(s) IN IF Refuses(s) THEN Fail(s1, E_NOT_STANDALONE) ELSE s1

\* read the external subset (or foreign DTD) at the end of the DOCTYPE or before the root element
ReadSubset(s0, base, hadRefs) ==
  LET s == Ext(s0)
      s1 == IF base THEN [s EXCEPT !.p.d.pe[Find(s.p.d.pe, HASH, 1)].base = s.p.base] ELSE s
      en == ExtEnt(s1)
      s2 == CallER([s1 EXCEPT !.p.d.peRead = FALSE], TRUE, {}, en.base, en.sys, en.pub)
  IN IF s2.ret = 0 THEN Fail(s2, E_EXTERNAL_HANDLING)
     ELSE IF s2.p.d.peRead THEN (IF s2.p.d.sa THEN s2 ELSE AskSt(s2))
     ELSE IF s2.p.dtSys = NULL THEN [s2 EXCEPT !.p.d.hasPE = hadRefs] ELSE s2

AttTypeName(role) ==
  CASE role = "ATTRIBUTE_TYPE_CDATA" -> KW_CDATA [] role = "ATTRIBUTE_TYPE_ID" -> KW_ID
    [] role = "ATTRIBUTE_TYPE_IDREF" -> KW_IDREF [] role = "ATTRIBUTE_TYPE_IDREFS" -> KW_IDREFS
    [] role = "ATTRIBUTE_TYPE_ENTITY" -> KW_ENTITY [] role = "ATTRIBUTE_TYPE_ENTITIES" -> KW_ENTITIES
    [] role = "ATTRIBUTE_TYPE_NMTOKEN" -> KW_NMTOKEN [] OTHER -> KW_NMTOKENS
QuantOf(role) ==
  CASE role \in {"CONTENT_ELEMENT_OPT", "GROUP_CLOSE_OPT"} -> 1
    [] role \in {"CONTENT_ELEMENT_REP", "GROUP_CLOSE_REP"} -> 2
    [] role \in {"CONTENT_ELEMENT_PLUS", "GROUP_CLOSE_PLUS"} -> 3
    [] OTHER -> 0

Gc(q, l) == IF l >= 1 /\ l <= Len(q.gc) THEN q.gc[l] ELSE 0
RECURSIVE SetGc(_, _, _)
SetGc(gc, l, v) == IF l < 1 THEN gc ELSE IF l > Len(gc) THEN SetGc(Append(gc, 0), l, v) ELSE [gc EXCEPT ![l] = v]

\* results of role actions: H(s, TRUE): the token goes to the default handler; a stopped s is final
H(s, hd) == [s |-> s, hd |-> hd, go |-> FALSE]
Go(s) == [s |-> s, hd |-> FALSE, go |-> TRUE]       \* continues elsewhere, without the common end

IgnoreFrom(s0, i) ==        \* the body of an IGNORE section from i on
  LET e == LE(s0) b == LB(s0) n == LN(s0)
      k == IF i > n THEN T("NONE", i) ELSE IgnoreTok(e, b, EndOf(e, n, i), i, 0)
      s == SetEv(s0, i, k.n)
  IN CASE k.t = "IGNORE_SECT" ->
            LET s1 == SetPos(RD(s, i, k.n), k.n) IN
            IF s1.p.parsing = FINI THEN Fail(s1, E_ABORTED)
            ELSE IF s1.p.proc = "ignore" THEN [s1 EXCEPT !.p.proc = "prolog"] ELSE s1
       [] k.t = "INVALID" -> FailAt(s, E_INVALID_TOKEN, k.n)
       [] LMore(s) -> Halt([SetPos(s, i) EXCEPT !.p.proc = "ignore"])
       [] k.t = "PARTIAL_CHAR" -> Fail(s, E_PARTIAL_CHAR)
       [] OTHER -> Fail(s, E_SYNTAX)

\* a parameter entity is referenced and known
UsePE(s, en, role, nx) ==
  IF en.n \in s.p.d.po THEN H(Fail(s, E_RECURSIVE), FALSE)
  ELSE IF en.txt # NULL THEN Go(Push(SetPos(s, nx), en, TRUE, role = "PARAM_ENTITY_REF"))
  ELSE IF Has(s, "er") THEN
    LET s1 == CallER(Open([s EXCEPT !.p.d.peRead = FALSE], en, TRUE), TRUE, {}, en.base, en.sys, en.pub)
        s2 == Shut(s1, en, TRUE)
    IN IF s1.ret = 0 THEN H(Fail(s2, E_EXTERNAL_HANDLING), FALSE)
       ELSE IF ~s2.p.d.peRead THEN H([s2 EXCEPT !.p.d.keep = s2.p.d.sa], FALSE)
       ELSE H(IF s2.p.d.sa THEN s2 ELSE AskSt(s2), FALSE)
  ELSE H([s EXCEPT !.p.d.keep = s.p.d.sa], TRUE)

\* what a token in a role does
RoleAction(s, role, tok, i, nx) ==
  LET e == LE(s) b == LB(s) m == Mb(e) d == s.p.d
      txt == Decode(e, b, i, nx)                        \* the token's text
      Lit == Decode(e, b, i + m, nx - m)                \* a literal's or reference's
      keep == d.keep
      Same == H(s, TRUE)
      Quiet(cond) == H(s, ~cond)
      declared == s.p.dEnt[2] # NULL
  IN
  CASE role = "XML_DECL" -> H(XmlDecl(s, FALSE, i, nx), FALSE)
    [] role = "TEXT_DECL" -> H(XmlDecl(s, TRUE, i, nx), FALSE)
    \* --- DOCTYPE
    [] role = "DOCTYPE_NAME" ->
         IF Has(s, "sd") THEN H([s EXCEPT !.p.dtName = txt, !.p.dtPub = NULL, !.p.dtSys = NULL], FALSE)
         ELSE H([s EXCEPT !.p.dtSys = NULL], TRUE)
    [] role = "DOCTYPE_INTERNAL_SUBSET" ->
         IF Has(s, "sd") THEN H([Emit(s, <<"sd", s.p.dtName, s.p.dtSys, s.p.dtPub, 1>>) EXCEPT !.p.dtName = NULL], FALSE) ELSE Same
    [] role = "DOCTYPE_PUBLIC_ID" ->
         LET bad == PubBad(e, b, i + m, nx - m - 1)
             s1 == Ext([s EXCEPT !.p.foreign = FALSE, !.p.dEnt = <<TRUE, HASH>>, !.p.d.hasPE = TRUE])
             sd == Has(s, "sd")
             s2 == IF sd THEN [s1 EXCEPT !.p.dtPub = NormPub(Lit)] ELSE s1
         IN IF bad # 0 THEN H(FailAt(s1, E_PUBLICID, bad), FALSE)
            ELSE H(IF keep THEN UpdEnt(s2, LAMBDA x : [x EXCEPT !.pub = NormPub(Lit)]) ELSE s2, ~sd)
    [] role = "DOCTYPE_SYSTEM_ID" ->
         LET sd == Has(s, "sd")
             s1 == [s EXCEPT !.p.foreign = FALSE, !.p.d.hasPE = TRUE, !.p.dtSys = IF sd THEN Lit ELSE HASH]
             s2 == IF ~d.sa /\ s.p.pe = 0 THEN AskSt(s1) ELSE s1
             s3 == IF s2.p.dEnt[2] = NULL
                   THEN LET x == [Ext(s2) EXCEPT !.p.dEnt = <<TRUE, HASH>>] IN UpdEnt(x, LAMBDA y : [y EXCEPT !.pub = NULL]) ELSE s2
         IN IF ~(~d.sa /\ s.p.pe = 0 /\ Refuses(s1))
            THEN H(IF s3.p.d.keep THEN UpdEnt(s3, LAMBDA x : [x EXCEPT !.sys = Lit, !.base = s3.p.base]) ELSE s3, ~sd)
            ELSE H(s2, FALSE)
    [] role = "DOCTYPE_CLOSE" ->
         IF Inner(s) THEN H(Fail(s, E_INVALID_TOKEN), FALSE)
         ELSE
           LET named == s.p.dtName # NULL
               s1 == IF named /\ Has(s, "sd") THEN Emit(s, <<"sd", s.p.dtName, s.p.dtSys, s.p.dtPub, 0>>) ELSE s
               had == s1.p.d.hasPE
               s2 == IF s1.p.dtSys # NULL \/ s1.p.foreign
                     THEN LET x == [s1 EXCEPT !.p.d.hasPE = TRUE] IN
                          IF x.p.pe # 0 /\ Has(x, "er") THEN ReadSubset(x, x.p.foreign, had) ELSE x
                     ELSE s1
               refused == s2.p.run = FALSE
               s3 == [s2 EXCEPT !.p.foreign = FALSE]
           IN IF refused THEN H(s2, FALSE)
              ELSE IF Has(s3, "ed") THEN H(Emit(s3, <<"ed">>), FALSE) ELSE H(s3, ~named)
    [] role = "INSTANCE_START" ->
         LET had == d.hasPE
             s1 == IF s.p.foreign
                   THEN LET x == [s EXCEPT !.p.d.hasPE = TRUE] IN
                        IF x.p.pe # 0 /\ Has(x, "er") THEN ReadSubset([x EXCEPT !.p.dtSys = NULL], TRUE, had) ELSE x
                   ELSE s
             s2 == [SetPos(s1, i) EXCEPT !.p.proc = "content"]
         IN IF s1.p.run = FALSE THEN H(s1, FALSE)
            ELSE CASE s2.p.parsing = SUSP -> Go(Halt(s2))
                   [] s2.p.parsing = FINI -> Go(Fail(s2, E_ABORTED))
                   [] OTHER -> Go(s2)
    \* --- attribute lists
    [] role = "ATTLIST_ELEMENT_NAME" -> H([s EXCEPT !.p.dEl = txt], ~(keep /\ Has(s, "al")))
    [] role = "ATTRIBUTE_NAME" ->
         H([s EXCEPT !.p.dAtt = txt, !.p.dCd = FALSE, !.p.dType = NULL, !.p.dId = FALSE], ~(keep /\ Has(s, "al")))
    [] role \in {"ATTRIBUTE_TYPE_CDATA", "ATTRIBUTE_TYPE_ID", "ATTRIBUTE_TYPE_IDREF", "ATTRIBUTE_TYPE_IDREFS", "ATTRIBUTE_TYPE_ENTITY",
                 "ATTRIBUTE_TYPE_ENTITIES", "ATTRIBUTE_TYPE_NMTOKEN", "ATTRIBUTE_TYPE_NMTOKENS"} ->
         H([s EXCEPT !.p.dType = AttTypeName(role), !.p.dCd = IF role = "ATTRIBUTE_TYPE_CDATA" THEN TRUE ELSE @,
                     !.p.dId = IF role = "ATTRIBUTE_TYPE_ID" THEN TRUE ELSE @], ~(keep /\ Has(s, "al")))
    [] role \in {"ATTRIBUTE_ENUM_VALUE", "ATTRIBUTE_NOTATION_VALUE"} ->
         IF keep /\ Has(s, "al")
         THEN H([s EXCEPT !.p.dType = (IF @ # NULL THEN @ \o <<124>>
                                       ELSE IF role = "ATTRIBUTE_NOTATION_VALUE" THEN KW_NOTATION \o <<40>> ELSE <<40>>) \o txt], FALSE)
         ELSE Same
    [] role \in {"IMPLIED_ATTRIBUTE_VALUE", "REQUIRED_ATTRIBUTE_VALUE", "DEFAULT_ATTRIBUTE_VALUE", "FIXED_ATTRIBUTE_VALUE"} ->
         IF ~keep THEN Same
         ELSE
           LET withV == role \in {"DEFAULT_ATTRIBUTE_VALUE", "FIXED_ATTRIBUTE_VALUE"}
               chk == s.p.role.docEnt /\ (IF d.sa THEN ~Inner(s) ELSE ~d.hasPE)
               r == IF withV THEN AttValueOf(s, chk, s.p.dCd, i + m, nx - m - 1) ELSE AV(0, 0, NULL)
               s0 == IF r.at # 0 THEN [s EXCEPT !.p.evp = r.at] ELSE s
               s1 == [s EXCEPT !.p.d = DefineAtt(d, s.p.dEl, s.p.dAtt, s.p.dCd, ~withV /\ s.p.dId, r.v, IsDecl(s.p, s.p.dAtt))]
               ty == s.p.dType
               ty2 == IF ty = NULL THEN NULL
                      ELSE IF ty[1] = 40 \/ (Len(ty) > 1 /\ ty[1] = 78 /\ ty[2] = 79) THEN ty \o <<41>> ELSE ty
           IN IF r.err # 0 THEN H(Fail(s0, r.err), FALSE)
              ELSE IF Has(s, "al") /\ ty # NULL
              THEN H(Emit(SetEve([s1 EXCEPT !.p.dType = ty2], i), <<"al", s.p.dEl, s.p.dAtt, ty2, r.v,
                          IF role \in {"REQUIRED_ATTRIBUTE_VALUE", "FIXED_ATTRIBUTE_VALUE"} THEN 1 ELSE 0>>), FALSE)
              ELSE H(s1, TRUE)
    \* --- entities
    [] role = "GENERAL_ENTITY_NAME" ->
         IF Predefined(txt) # 0 \/ ~keep THEN H([s EXCEPT !.p.dEnt = NoEnt], TRUE)
         ELSE IF Find(d.ge, txt, 1) # 0 THEN H([s EXCEPT !.p.dEnt = NoEnt], TRUE)
         ELSE H([s EXCEPT !.p.dEnt = <<FALSE, txt>>, !.p.d.ge = Append(@, Entity(txt, s.p.kind = "root" /\ ~Inner(s)))], ~Has(s, "en"))
    [] role = "PARAM_ENTITY_NAME" ->
         IF ~keep \/ Find(d.pe, txt, 1) # 0 THEN H([s EXCEPT !.p.dEnt = NoEnt], TRUE)
         ELSE H([s EXCEPT !.p.dEnt = <<TRUE, txt>>, !.p.d.pe = Append(@, Entity(txt, s.p.kind = "root" /\ ~Inner(s)))], ~Has(s, "en"))
    [] role = "ENTITY_VALUE" ->
         IF ~keep THEN Same
         ELSE
           LET s1 == StoreVal(s, Inner(s), e, b, i + m, nx - m - 1)
               err == s1.ret v == s1.p.d.val
               s2 == [s1 EXCEPT !.p.d.val = <<>>]
               s3 == UpdEnt(s2, LAMBDA x : [x EXCEPT !.txt = v])
               en == DeclEnt(s3)
               said == declared /\ Has(s3, "en")
               s4 == IF said THEN Emit(SetEve(s3, i), <<"en", en.n, IF s3.p.dEnt[1] THEN 1 ELSE 0, v, s3.p.base, NULL, NULL, NULL>>) ELSE s3
           IN IF err # 0 THEN H(Fail(s4, err), FALSE) ELSE H(s4, ~said)
    [] role = "ENTITY_PUBLIC_ID" ->
         LET bad == PubBad(e, b, i + m, nx - m - 1) IN
         IF bad # 0 THEN H(FailAt(s, E_PUBLICID, bad), FALSE)
         ELSE IF keep /\ declared THEN H(UpdEnt(s, LAMBDA x : [x EXCEPT !.pub = NormPub(Lit)]), ~Has(s, "en")) ELSE Same
    [] role = "ENTITY_SYSTEM_ID" ->
         IF keep /\ declared THEN H(UpdEnt(s, LAMBDA x : [x EXCEPT !.sys = Lit, !.base = s.p.base]), ~Has(s, "en")) ELSE Same
    [] role = "ENTITY_COMPLETE" ->
         IF keep /\ declared /\ Has(s, "en")
         THEN LET en == DeclEnt(s) IN
              H(Emit(SetEve(s, i), <<"en", en.n, IF s.p.dEnt[1] THEN 1 ELSE 0, NULL, en.base, en.sys, en.pub, NULL>>), FALSE)
         ELSE Same
    [] role = "ENTITY_NOTATION_NAME" ->
         IF ~(keep /\ declared) THEN Same
         ELSE LET s1 == UpdEnt(s, LAMBDA x : [x EXCEPT !.nota = txt]) en == DeclEnt(s1) IN
           IF Has(s, "ue") THEN H(Emit(SetEve(s1, i), <<"ue", en.n, en.base, en.sys, en.pub, txt>>), FALSE)
           ELSE IF Has(s, "en") THEN H(Emit(SetEve(s1, i), <<"en", en.n, 0, NULL, en.base, en.sys, en.pub, txt>>), FALSE)
           ELSE H(s1, TRUE)
    \* --- notations
    [] role = "NOTATION_NAME" ->
         IF Has(s, "no") THEN H([s EXCEPT !.p.noName = txt, !.p.noPub = NULL], FALSE) ELSE H([s EXCEPT !.p.noName = NULL, !.p.noPub = NULL], TRUE)
    [] role = "NOTATION_PUBLIC_ID" ->
         LET bad == PubBad(e, b, i + m, nx - m - 1) IN
         IF bad # 0 THEN H(FailAt(s, E_PUBLICID, bad), FALSE)
         ELSE IF s.p.noName # NULL THEN H([s EXCEPT !.p.noPub = NormPub(Lit)], FALSE) ELSE Same
    [] role = "NOTATION_SYSTEM_ID" ->
         IF s.p.noName # NULL /\ Has(s, "no") THEN H(Emit(SetEve(s, i), <<"no", s.p.noName, s.p.base, Lit, s.p.noPub>>), FALSE) ELSE Same
    [] role = "NOTATION_NO_SYSTEM_ID" ->
         IF s.p.noPub # NULL /\ Has(s, "no") THEN H(Emit(SetEve(s, i), <<"no", s.p.noName, s.p.base, NULL, s.p.noPub>>), FALSE) ELSE Same
    \* --- element declarations
    [] role = "ELEMENT_NAME" ->
         IF Has(s, "el") THEN H([s EXCEPT !.p.dEl = txt, !.p.d.scaf = <<>>, !.p.d.sidx = <<>>, !.p.d.inEl = TRUE], FALSE) ELSE Same
    [] role \in {"CONTENT_ANY", "CONTENT_EMPTY"} ->
         IF ~d.inEl THEN Same
         ELSE IF Has(s, "el")
         THEN H([Emit(SetEve(s, i), <<"el", s.p.dEl, <<IF role = "CONTENT_ANY" THEN 2 ELSE 1, 0, NULL, <<>>>>>>) EXCEPT !.p.d.inEl = FALSE], FALSE)
         ELSE H([s EXCEPT !.p.d.inEl = FALSE], TRUE)
    [] role = "GROUP_OPEN" ->
         LET s1 == [s EXCEPT !.p.gc = SetGc(@, s.p.role.level, 0)] IN
         IF ~d.inEl THEN H(s1, TRUE)
         ELSE LET d1 == AddNode(d, 6, 0, NULL) IN
              H([s1 EXCEPT !.p.d = [d1 EXCEPT !.sidx = Append(@, Len(d1.scaf))]], ~Has(s, "el"))
    [] role = "GROUP_SEQUENCE" ->
         IF Gc(s.p, s.p.role.level) = 124 THEN H(Fail(s, E_SYNTAX), FALSE)
         ELSE H([s EXCEPT !.p.gc = SetGc(@, s.p.role.level, 44)], ~(d.inEl /\ Has(s, "el")))
    [] role = "GROUP_CHOICE" ->
         LET g == Gc(s.p, s.p.role.level) s1 == [s EXCEPT !.p.gc = SetGc(@, s.p.role.level, 124)] IN
         IF g = 44 THEN H(Fail(s, E_SYNTAX), FALSE)
         ELSE IF d.inEl /\ g = 0 /\ d.sidx = <<>> THEN H(Fail(s, E_INCOMPLETE_PE), FALSE)
         ELSE H(IF d.inEl /\ g = 0 THEN [s1 EXCEPT !.p.d.scaf[TopGroup(d)].t = IF @ = 3 THEN 3 ELSE 5] ELSE s1, ~(d.inEl /\ Has(s, "el")))
    [] role = "CONTENT_PCDATA" ->
         IF ~d.inEl THEN Same
         ELSE IF d.sidx = <<>> THEN H(Fail(s, E_INCOMPLETE_PE), FALSE)
         ELSE H([s EXCEPT !.p.d.scaf[TopGroup(d)].t = 3], ~Has(s, "el"))
    [] role \in {"CONTENT_ELEMENT", "CONTENT_ELEMENT_OPT", "CONTENT_ELEMENT_REP", "CONTENT_ELEMENT_PLUS"} ->
         IF ~d.inEl THEN Same
         ELSE LET name == IF role = "CONTENT_ELEMENT" THEN txt ELSE Decode(e, b, i, nx - m) IN
              H([s EXCEPT !.p.d = AddNode(d, 4, QuantOf(role), name)], ~Has(s, "el"))
    [] role \in {"GROUP_CLOSE", "GROUP_CLOSE_OPT", "GROUP_CLOSE_REP", "GROUP_CLOSE_PLUS"} ->
         IF ~d.inEl THEN Same
         ELSE IF d.sidx = <<>> THEN H(Fail(s, E_INCOMPLETE_PE), FALSE)
         ELSE LET top == TopGroup(d)
                  d1 == [d EXCEPT !.scaf[top].q = QuantOf(role), !.sidx = SubSeq(@, 1, Len(@) - 1)]
                  s1 == [s EXCEPT !.p.d = d1]
              IN IF d1.sidx # <<>> THEN H(s1, ~Has(s, "el"))
                 ELSE IF Has(s, "el")
                 THEN H([Emit(SetEve(s1, i), <<"el", s.p.dEl, Model(d1.scaf, 1)>>) EXCEPT !.p.d.inEl = FALSE], FALSE)
                 ELSE H([s1 EXCEPT !.p.d.inEl = FALSE], TRUE)
    \* --- the rest
    [] role = "ERROR" ->
         H(Fail(s, CASE tok = "PARAM_ENTITY_REF" -> E_PARAM_ENTITY_REF [] tok = "XML_DECL" -> E_MISPLACED_PI [] OTHER -> E_SYNTAX), FALSE)
    [] role = "IGNORE_SECT" ->
         LET s1 == RD(s, i, nx) IN
         IF s1.p.parsing = FINI THEN H(Fail(s1, E_ABORTED), FALSE) ELSE Go(IgnoreFrom(s1, nx))
    [] role \in {"PARAM_ENTITY_REF", "INNER_PARAM_ENTITY_REF"} ->
         LET s1 == [s EXCEPT !.p.d.hasPE = TRUE] x == Find(d.pe, Lit, 1) IN
         IF s.p.pe = 0 THEN
           LET s2 == [s1 EXCEPT !.p.d.keep = d.sa] IN H(IF d.sa THEN s2 ELSE AskSt(s2), TRUE)
         ELSE IF s.p.role.docEnt /\ d.sa /\ ~Inner(s) /\ x = 0 THEN H(Fail(s1, E_UNDEFINED_ENTITY), FALSE)
         ELSE IF s.p.role.docEnt /\ d.sa /\ ~Inner(s) /\ ~d.pe[x].int THEN H(Fail(s1, E_DECLARED_IN_PE), FALSE)
         ELSE IF x = 0 THEN
           LET s2 == [s1 EXCEPT !.p.d.keep = d.sa] IN
           IF role = "PARAM_ENTITY_REF" /\ Has(s, "sk") THEN H(Emit(s2, <<"sk", Lit, 1>>), FALSE) ELSE H(s2, TRUE)
         ELSE UsePE(s1, d.pe[x], role, nx)
    [] role = "PI" -> H(ReportPI(s, i, nx), FALSE)
    [] role = "COMMENT" -> H(ReportComment(s, i, nx), FALSE)
    [] role = "NONE" -> H(s, tok # "BOM")
    [] role = "DOCTYPE_NONE" -> Quiet(Has(s, "sd"))
    [] role = "ENTITY_NONE" -> Quiet(keep /\ Has(s, "en"))
    [] role = "NOTATION_NONE" -> Quiet(Has(s, "no"))
    [] role = "ATTLIST_NONE" -> Quiet(keep /\ Has(s, "al"))
    [] role = "ELEMENT_NONE" -> Quiet(Has(s, "el"))

Positive(t) ==
  CASE t = "PROLOG_S_NEG" -> "PROLOG_S" [] t = "NAME_NEG" -> "NAME" [] t = "NMTOKEN_NEG" -> "NMTOKEN"
    [] t = "PREFIXED_NAME_NEG" -> "PREFIXED_NAME" [] t = "LITERAL_NEG" -> "LITERAL" [] t = "POUND_NAME_NEG" -> "POUND_NAME"
    [] t = "CLOSE_BRACKET_NEG" -> "CLOSE_BRACKET" [] t = "CLOSE_PAREN_NEG" -> "CLOSE_PAREN"
    [] OTHER -> t
Negative(t) == Positive(t) # t

RoleText(e, b, tok, i, nx) ==
  CASE tok = "DECL_OPEN" -> Decode(e, b, i + 2 * Mb(e), nx)
    [] tok = "POUND_NAME" -> Decode(e, b, i + Mb(e), nx)
    [] tok = "NAME" -> Decode(e, b, i, nx)
    [] OTHER -> <<>>

\* after a prolog token
PrologNext(s, nx) ==
  LET s1 == SetPos(s, nx) IN
  CASE s1.p.parsing = SUSP -> Halt(s1)
    [] s1.p.parsing = FINI -> Fail(s1, E_ABORTED)
    [] OTHER -> s1

PrologStep(s0) ==
  LET i == LI(s0)
      k == Tok(SetEvp(s0, i), FALSE)
      s == SetEve(k.s, IF k.n = 0 THEN i ELSE k.n)
      more == LMore(s)
      t0 == k.t
  IN IF t0 = "INVALID" THEN FailAt(s, E_INVALID_TOKEN, k.n)
     ELSE IF more /\ (t0 \in {"NONE", "PARTIAL", "PARTIAL_CHAR"} \/ Negative(t0)) THEN Halt(s)
     ELSE IF t0 = "PARTIAL" THEN Fail(s, E_UNCLOSED_TOKEN)
     ELSE IF t0 = "PARTIAL_CHAR" THEN Fail(s, E_PARTIAL_CHAR)
     ELSE IF t0 = "NONE" THEN
       IF Inner(s) /\ ~Fr(s).btw THEN Pop(s)
       ELSE IF Inner(s) \/ s.p.kind = "pe" THEN
         LET r == RoleOf(s.p.role, "NONE", <<>>) s1 == [s EXCEPT !.p.role = r.r] IN
         IF r.role = "ERROR" THEN Fail(s1, E_INCOMPLETE_PE) ELSE IF Inner(s1) THEN Pop(s1) ELSE Halt(s1)
       ELSE Fail(s, E_NO_ELEMENTS)
     ELSE
       LET tok == Positive(t0)
           nx == IF Negative(t0) THEN LN(s) + 1 ELSE k.n
           r == RoleOf(s.p.role, tok, RoleText(LE(s), LB(s), tok, i, nx))
           a == RoleAction([s EXCEPT !.p.role = r.r], r.role, tok, i, nx)
       IN IF ~a.s.p.run THEN a.s
          ELSE IF a.go THEN (IF r.role = "IGNORE_SECT" THEN PrologNext(a.s, LI(a.s)) ELSE a.s)
          ELSE PrologNext(IF a.hd THEN RD(a.s, i, nx) ELSE a.s, nx)

IgnoreStep(s) == IgnoreFrom(s, s.p.pos)

-------------------------------------------------------------------------------
(* The beginnings of the kinds of entities *)

PrologInitStep(s) ==
  LET s1 == InitEncoding(s) IN IF s1.ret = 0 THEN Fail(s1, E_UNKNOWN_ENCODING) ELSE [s1 EXCEPT !.p.proc = "prolog"]

ExtInitStep(s) ==
  LET s1 == InitEncoding(s) IN IF s1.ret = 0 THEN Fail(s1, E_UNKNOWN_ENCODING) ELSE [s1 EXCEPT !.p.proc = "extInit2"]

ExtInit2Step(s) ==
  LET k == Tok(s, TRUE) i == s.p.pos s1 == k.s IN
  CASE k.t = "BOM" ->
         IF k.n > s1.p.n /\ ~s1.p.fin THEN Halt([s1 EXCEPT !.p.pos = k.n])
         ELSE [s1 EXCEPT !.p.pos = k.n, !.p.proc = "extInit3"]
    [] k.t \in {"PARTIAL", "PARTIAL_CHAR"} ->
         IF ~s1.p.fin THEN Halt(s1)
         ELSE Fail([s1 EXCEPT !.p.evp = i], IF k.t = "PARTIAL" THEN E_UNCLOSED_TOKEN ELSE E_PARTIAL_CHAR)
    [] OTHER -> [s1 EXCEPT !.p.proc = "extInit3"]

ExtInit3Step(s0) ==
  LET i == s0.p.pos
      k == Tok([s0 EXCEPT !.p.evp = i], TRUE)
      s == [k.s EXCEPT !.p.eve = IF k.n = 0 THEN i ELSE k.n]
      Content(st) == [st EXCEPT !.p.proc = "content", !.p.tl = 1]
  IN CASE k.t = "XML_DECL" ->
            LET s1 == XmlDecl(s, TRUE, i, k.n) s2 == Content([s1 EXCEPT !.p.pos = k.n]) IN
            IF ~s1.p.run THEN s1
            ELSE CASE s2.p.parsing = SUSP -> Halt(s2) [] s2.p.parsing = FINI -> Fail(s2, E_ABORTED) [] OTHER -> s2
       [] k.t \in {"PARTIAL", "PARTIAL_CHAR", "NONE"} /\ ~s.p.fin -> Halt(s)
       [] k.t = "PARTIAL" -> Fail(s, E_UNCLOSED_TOKEN)
       [] k.t = "PARTIAL_CHAR" -> Fail(s, E_PARTIAL_CHAR)
       [] OTHER -> Content(s)

ExtParInitStep(s) ==
  LET s1 == InitEncoding(s) IN
  IF s1.ret = 0 THEN Fail(s1, E_UNKNOWN_ENCODING)
  ELSE [s1 EXCEPT !.p.d.peRead = TRUE, !.p.proc = IF s1.p.inEV THEN "entValInit" ELSE "extPar"]

LowTok(t) == t \in {"NONE", "PARTIAL", "PARTIAL_CHAR", "INVALID"} \/ Negative(t)
EndCode(t) == CASE t = "INVALID" -> E_INVALID_TOKEN [] t = "PARTIAL" -> E_UNCLOSED_TOKEN [] t = "PARTIAL_CHAR" -> E_PARTIAL_CHAR [] OTHER -> 0

ExtParStep(s) ==
  LET k == Tok(s, FALSE) s1 == k.s IN
  IF LowTok(k.t) THEN
    IF ~s1.p.fin /\ k.t # "INVALID" THEN Halt(s1)
    ELSE IF EndCode(k.t) # 0 THEN Fail(s1, EndCode(k.t))
    ELSE [s1 EXCEPT !.p.proc = "prolog"]
  ELSE [s1 EXCEPT !.p.proc = "prolog", !.p.pos = IF k.t = "BOM" THEN k.n ELSE @]

\* an external parameter entity inside an entity value: all of it is looked at, then it is the value.
\* decl: may a text declaration still come?  from: where the value begins; i: next token
RECURSIVE ValueScan(_, _, _, _)
ValueScan(s0, decl, from, i) ==
  LET k == Tok([s0 EXCEPT !.p.pos = i, !.p.evp = IF decl THEN i ELSE @], FALSE)
      s == IF decl THEN [k.s EXCEPT !.p.eve = IF k.n = 0 THEN i ELSE k.n] ELSE k.s
      Keep(st) == [st EXCEPT !.p.pos = from]
  IN IF LowTok(k.t) THEN
       IF ~s.p.fin /\ k.t # "INVALID" THEN Halt(Keep(s))
       ELSE IF EndCode(k.t) # 0 THEN Fail(Keep(s), EndCode(k.t))
       ELSE LET s1 == StoreVal(Keep(s), FALSE, s.p.enc, s.p.b, from, s.p.n) IN
            IF s1.ret # 0 THEN Fail(s1, s1.ret) ELSE Halt(s1)
     ELSE IF k.t = "INSTANCE_START" THEN Fail(s, E_SYNTAX)
     ELSE IF ~decl THEN ValueScan(s, decl, from, k.n)
     ELSE IF k.t = "XML_DECL" /\ i = from THEN
       LET s1 == XmlDecl(s, TRUE, i, k.n) IN
       IF ~s1.p.run THEN s1
       ELSE IF s1.p.parsing = FINI THEN Fail(s1, E_ABORTED)
       ELSE [s1 EXCEPT !.p.pos = k.n, !.p.proc = "entVal"]
     ELSE IF k.t = "BOM" THEN
       IF k.n > s.p.n /\ ~s.p.fin THEN Halt([s EXCEPT !.p.pos = k.n])
       ELSE ValueScan(s, decl, k.n, k.n)
     ELSE ValueScan(s, decl, from, k.n)

-------------------------------------------------------------------------------
(* Steps, API calls *)

Step(s) ==
  IF s.p.proc = "error" THEN Fail(s, s.p.err)
  ELSE IF Inner(s) THEN (IF Fr(s).pe THEN PrologStep(s) ELSE IF Fr(s).cd THEN CdataStep(s) ELSE ContentStep(s))
  ELSE CASE s.p.proc = "prologInit" -> PrologInitStep(s)
         [] s.p.proc = "prolog" -> PrologStep(s)
         [] s.p.proc = "content" -> ContentStep(s)
         [] s.p.proc = "cdata" -> CdataStep(s)
         [] s.p.proc = "epilog" -> EpilogStep(s)
         [] s.p.proc = "ignore" -> IgnoreStep(s)
         [] s.p.proc = "extInit" -> ExtInitStep(s)
         [] s.p.proc = "extInit2" -> ExtInit2Step(s)
         [] s.p.proc = "extInit3" -> ExtInit3Step(s)
         [] s.p.proc = "extParInit" -> ExtParInitStep(s)
         [] s.p.proc = "extPar" -> ExtParStep(s)
         [] s.p.proc = "entValInit" -> ValueScan(s, TRUE, s.p.pos, s.p.pos)
         [] s.p.proc = "entVal" -> ValueScan(s, FALSE, s.p.pos, s.p.pos)

Run(s) == IF s.p.run THEN Run(FoldLeft(LAMBDA r, k : IF r.p.run THEN Step(r) ELSE r, s, Iter32)) ELSE s

\* the processor runs: what the parse call makes of it.  len0: XML_Parse without data
Process(s, fin, len0, resumed) ==
  LET sticky == s.p.proc = "error"
      s1 == [s EXCEPT !.p.run = TRUE, !.p.nest = FALSE, !.p.wv = ~sticky]
      s2 == Run(s1)
      q == s2.p
      q1 == [q EXCEPT !.err = q.rc]
  IN IF q.rc # 0 THEN [s2 EXCEPT !.p = [q1 EXCEPT !.eve = q.evp, !.proc = "error"], !.ret = 0]
     ELSE CASE q.parsing = SUSP -> [s2 EXCEPT !.p = UpdTo(q1, q.pos), !.ret = 2]
            [] q.parsing = FINI -> [s2 EXCEPT !.p = IF len0 THEN q1 ELSE UpdTo(q1, q.pos), !.ret = 1]
            [] fin -> [s2 EXCEPT !.p = [q1 EXCEPT !.parsing = FINI], !.ret = 1]
            [] OTHER -> [s2 EXCEPT !.p = UpdTo(q1, q.pos), !.ret = 1]

Refused(s, code) == [s EXCEPT !.p.err = code, !.ret = 0]
Begin(s) ==      \* parsing begins
  IF s.p.parsing = INIT /\ s.p.kind = "root" /\ s.p.ns >= 0 THEN [s EXCEPT !.p = SetBind(s.p, XMLNAME, XMLURI)] ELSE s

ParseData(s, bytes, fin, buffer) ==
  CASE s.p.parsing = SUSP -> Refused(s, E_SUSPENDED)
    [] s.p.parsing = FINI -> Refused(s, E_FINISHED)
    [] OTHER ->
         LET s1 == [Begin(s) EXCEPT !.p.parsing = PARSING, !.p.fin = (fin # 0)] IN
         IF bytes = <<>> /\ ~buffer THEN
           IF fin = 0 THEN [s1 EXCEPT !.ret = 1]
           ELSE Process([s1 EXCEPT !.p.posp = s1.p.pos], TRUE, TRUE, FALSE)
         ELSE Process([s1 EXCEPT !.p.posp = s1.p.pos, !.p.b = @ \o bytes, !.p.n = @ + Len(bytes)], fin # 0, FALSE, FALSE)

ResumeIt(s) ==
  IF s.p.parsing # SUSP THEN Refused(s, E_NOT_SUSPENDED)
  ELSE Process([s EXCEPT !.p.parsing = PARSING], s.p.fin, FALSE, TRUE)

\* the application's set-up of a parser
Setup(cf, q0) ==
  LET q == SetAll(q0, [i \in 1..Len(cf.h) |-> <<cf.h[i], 1>>], 1) IN
  [q EXCEPT !.trip = IF cf.triplet = 1 /\ ~Busy(q) THEN TRUE ELSE @,
            !.foreign = IF cf.foreign = 1 /\ ~Busy(q) THEN TRUE ELSE @,
            !.pe = IF cf.pe # 0 /\ ~Busy(q) THEN cf.pe ELSE @,
            !.base = IF cf.base # NULL THEN cf.base ELSE @]

ResetIt(q, enc) == [NewParser("root", q.ns, enc, q.h \cap {"uk"}) EXCEPT !.fin = q.fin]      \* (the final-buffer flag stays)

\* what is reported of the state after a call; asking for the position is a call of its own
Report(s, r) ==
  IF s.cf.rpos = 1 /\ (s.cf.wf = 0 \/ r = 0)
  THEN LET q == UpdEv(s.p) IN [s EXCEPT !.p = q, !.ret = <<r, q.err, Status(q), IF q.wv THEN Where(q) ELSE <<>>>>]
  ELSE [s EXCEPT !.ret = <<r, s.p.err, Status(s.p)>>]

RECURSIVE ResumeAll(_, _)
ResumeAll(s, acc) ==
  IF s.p.parsing # SUSP THEN [s EXCEPT !.ret = acc]
  ELSE LET s1 == ResumeIt(s) s2 == Report(s1, s1.ret) IN ResumeAll([s2 EXCEPT !.tx = FALSE], Append(acc, s2.ret))

DoOp(s, op) ==
  LET k == op[1]
      R(st) == Report(st, st.ret)
      Lose(st) == [st EXCEPT !.p.wv = FALSE]       \* a new buffer: the event's position may be gone
  IN
  CASE k = "parse" -> R(ParseData(s, op[2], op[3], FALSE))
    [] k = "pbuf" ->
         IF s.p.parsing \in {SUSP, FINI}
         THEN LET s1 == Report(Refused(s, IF s.p.parsing = SUSP THEN E_SUSPENDED ELSE E_FINISHED), 0) IN
              [s1 EXCEPT !.ret = <<-9>> \o @]            \* XML_GetBuffer refuses
         ELSE R(ParseData(s, op[2], op[3], TRUE))
    [] k = "rawparse" ->         \* XML_Parse with a null pointer
         IF op[2] # 0 THEN R(Refused(s, E_INVALID_ARGUMENT)) ELSE R(ParseData(s, <<>>, op[3], FALSE))
    [] k = "rawpbuf" ->
         IF op[2] < 0 THEN R(Refused(s, E_INVALID_ARGUMENT)) ELSE R(ParseData(s, <<>>, op[3], TRUE))
    [] k = "getbuf" ->
         R(CASE op[2] < 0 -> Refused(s, E_NO_MEMORY)
             [] s.p.parsing = SUSP -> Refused(s, E_SUSPENDED)
             [] s.p.parsing = FINI -> Refused(s, E_FINISHED)
             [] OTHER -> Lose([s EXCEPT !.ret = 1]))
    [] k = "resume" -> R(ResumeIt(s))
    [] k = "resumeall" -> ResumeAll(s, <<>>)
    [] k = "stop" -> LET r == StopParser(s.p, op[2]) IN R([s EXCEPT !.p = r[1], !.ret = r[2]])
    [] k \in {"reset", "rawreset"} ->       \* (the application's handlers no longer react after a reset)
         IF s.p.kind # "root" THEN R([s EXCEPT !.ret = 0])
         ELSE LET q == ResetIt(s.p, op[2]) IN R([s EXCEPT !.cf.react = <<>>, !.p = IF k = "reset" THEN Setup(s.cf, q) ELSE q, !.ret = 1])
    [] k = "seth" -> R([s EXCEPT !.p = SetHandler(s.p, op[2], op[3]), !.ret = 1])
    [] k = "setup" -> R([s EXCEPT !.p = Setup(s.cf, s.p), !.ret = 1])
    [] k = "dc" -> R([DefaultCurrent(s) EXCEPT !.ret = 1])
    [] k = "call" ->
         LET r == Misc(s.p, op[2], IF Len(op) > 2 THEN op[3] ELSE 0) IN
         IF op[2] = "getbase" THEN R([Note(s, <<"ac", "getbase", r[2], s.p.err>>) EXCEPT !.ret = 0])
         ELSE R([s EXCEPT !.p = r[1], !.ret = r[2]])
    [] k = "q" -> R([s EXCEPT !.ret = 0])

Kinds == {"se", "ee", "cd", "pi", "co", "cs", "ce", "df", "sd", "ed", "ue", "no", "ns", "ne", "st", "er", "sk",
          "el", "al", "en", "xd", "uk"}

Start(cf) ==
  [cf |-> cf, p |-> Setup(cf, NewParser("root", cf.ns, cf.enc, {})), stk |-> <<>>, ev |-> <<>>, tx |-> FALSE,
   cnt |-> [k \in Kinds |-> 0], ret |-> 0]
===============================================================================
