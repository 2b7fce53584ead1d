--------------------------------- MODULE Xmlwf ---------------------------------
(* The command line tool: its options, what it prints, its exit status and the      *)
(* files it writes, as functions of the arguments, the files and the input it is    *)
(* given.  The document itself is parsed by the machine of module Expat, with the   *)
(* handlers xmlwf sets; the output forms are folds over the events.                 *)
EXTENDS Expat

\* strings of the specification as sequences of character numbers
CHARS == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord == [c \in {SubSeq(CHARS, i, i) : i \in 1..Len(CHARS)} |-> 31 + (CHOOSE i \in 1..Len(CHARS) : SubSeq(CHARS, i, i) = c)]
Tx(str) == [i \in 1..Len(str) |-> Ord[SubSeq(str, i, i)]]
NL == <<10>>
RECURSIVE Num(_)
Num(n) == IF n < 0 THEN <<45>> \o Num(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Append(Num(n \div 10), 48 + (n % 10))

Messages ==
  <<"out of memory", "syntax error", "no element found", "not well-formed (invalid token)", "unclosed token", "partial character",
    "mismatched tag", "duplicate attribute", "junk after document element", "illegal parameter entity reference",
    "undefined entity", "recursive entity reference", "asynchronous entity", "reference to invalid character number",
    "reference to binary entity", "reference to external entity in attribute", "XML or text declaration not at start of entity",
    "unknown encoding", "encoding specified in XML declaration is incorrect", "unclosed CDATA section",
    "error in processing external entity reference", "document is not standalone",
    "unexpected parser state - please send a bug report", "entity declared in parameter entity",
    "requested feature requires XML_DTD support in Expat", "cannot change setting once parsing has begun", "unbound prefix",
    "must not undeclare prefix", "incomplete markup in parameter entity", "XML declaration not well-formed",
    "text declaration not well-formed", "illegal character(s) in public id", "parser suspended", "parser not suspended",
    "parsing aborted", "parsing finished", "cannot suspend in external parameter entity",
    "reserved prefix (xml) must not be undeclared or bound to another namespace name",
    "reserved prefix (xmlns) must not be declared or undeclared",
    "prefix must not be bound to one of the reserved namespace names", "invalid argument">>

-------------------------------------------------------------------------------
(* The command line.  st: "run" go on with the files from index i; "usage" (and     *)
(* exit status rc); "version"                                                      *)

O0 == [map |-> TRUE, ext |-> FALSE, pe |-> 0, std |-> FALSE, ns |-> FALSE, win |-> FALSE, type |-> "", nota |-> FALSE,
       dir |-> NULL, enc |-> NULL]
CharAt(arg, j) == IF j + 1 <= Len(arg) THEN arg[j + 1] ELSE 0       \* (j counts from 0)

RECURSIVE Args(_, _, _, _)
Args(argv, i, j, o) ==      \* argument i, option letter j in it (0: a new argument)
  IF i > Len(argv) THEN [st |-> "run", i |-> i, o |-> o, rc |-> 0]
  ELSE IF j = 0 /\ CharAt(argv[i], 0) # 45 THEN [st |-> "run", i |-> i, o |-> o, rc |-> 0]
  ELSE IF j = 0 /\ argv[i] = <<45, 45>> THEN [st |-> "run", i |-> i + 1, o |-> o, rc |-> 0]
  ELSE
    LET jj == IF j = 0 THEN 1 ELSE j
        c == CharAt(argv[i], jj)
        On(o2) == Args(argv, i, jj + 1, o2)
        own == CharAt(argv[i], jj + 1) # 0                   \* the option's argument is in the same word
        val == IF own THEN SubSeq(argv[i], jj + 2, Len(argv[i])) ELSE argv[i + 1]
        nxt == IF own THEN i + 1 ELSE i + 2
        Usage(rc) == [st |-> "usage", i |-> i, o |-> o, rc |-> rc]
    IN CASE c = 114 -> On([o EXCEPT !.map = FALSE])
         [] c = 115 -> On([o EXCEPT !.std = TRUE])
         [] c = 110 -> On([o EXCEPT !.ns = TRUE])
         [] c = 112 -> On([o EXCEPT !.pe = 2, !.ext = TRUE])
         [] c = 120 -> On([o EXCEPT !.ext = TRUE])
         [] c = 119 -> On([o EXCEPT !.win = TRUE])
         [] c = 109 -> On([o EXCEPT !.type = "m"])
         [] c = 99 -> On([o EXCEPT !.type = "c", !.ns = FALSE])
         [] c = 116 -> On([o EXCEPT !.type = "t"])
         [] c = 78 -> On([o EXCEPT !.nota = TRUE])
         [] c \in {100, 101} ->
              IF ~own /\ i + 1 > Len(argv) THEN Usage(2)
              ELSE IF c = 100 THEN Args(argv, nxt, 0, [o EXCEPT !.dir = val]) ELSE Args(argv, nxt, 0, [o EXCEPT !.enc = val])
         [] c = 104 -> Usage(0)
         [] c = 118 -> [st |-> "version", i |-> i, o |-> o, rc |-> 0]
         [] c = 0 /\ jj > 1 -> Args(argv, i + 1, 0, o)
         [] OTHER -> Usage(2)

-------------------------------------------------------------------------------
(* Output forms *)

EscChar(c) ==
  CASE c = 38 -> Tx("&amp;") [] c = 60 -> Tx("&lt;") [] c = 62 -> Tx("&gt;") [] c = 34 -> Tx("&quot;")
    [] c \in {9, 10, 13} -> Tx("&#") \o Num(c) \o Tx(";")
    [] OTHER -> <<c>>
Esc(t) ==
  IF \A i \in 1..Len(t) : t[i] \notin {38, 60, 62, 34, 9, 10, 13} THEN t
  ELSE FoldLeft(LAMBDA acc, c : acc \o EscChar(c), <<>>, t)

\* a name with its namespace: uri \1 local
SepAt(n) == LET at == {i \in 1..Len(n) : n[i] = 1} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A k \in at : k <= i
FirstSep(n) == LET at == {i \in 1..Len(n) : n[i] = 1} IN IF at = {} THEN Len(n) + 1 ELSE CHOOSE i \in at : \A k \in at : k >= i
Local(n) == SubSeq(n, SepAt(n) + 1, Len(n))
AttVal(v) == Tx("=\"") \o Esc(SubSeq(v, 1, FirstSep(v) - 1)) \o Tx("\"")

Sorted(atts) == SortSeq(atts, LAMBDA a, b : SeqLT(a[1], b[1], 1))

\* <name att="value" ...>, attributes in the order of their names
StartTagText(name, atts) ==
  LET a == Sorted(atts) IN
  Tx("<") \o name \o FoldLeft(LAMBDA acc, x : acc \o Tx(" ") \o x[1] \o AttVal(x[2]), <<>>, a) \o Tx(">")

\* the same with names resolved: prefixes n1, n2, ... declared where they are used
Prefix(k) == Tx("n") \o Num(k)
StartTagNS(name, atts) ==
  LET a == Sorted(atts)
      el == IF SepAt(name) > 0 THEN Tx("n1:") \o Local(name) \o Tx(" xmlns:n1") \o AttVal(name) ELSE name
      Put(q, x) ==       \* q: text, next prefix
        IF SepAt(x[1]) > 0
        THEN <<q[1] \o Tx(" ") \o Prefix(q[2]) \o Tx(":") \o Local(x[1]) \o AttVal(x[2]) \o Tx(" xmlns:") \o Prefix(q[2]) \o AttVal(x[1]), q[2] + 1>>
        ELSE <<q[1] \o Tx(" ") \o x[1] \o AttVal(x[2]), q[2]>>
      r == FoldLeft(Put, <<<<>>, IF SepAt(name) > 0 THEN 2 ELSE 1>>, a)
  IN Tx("<") \o el \o r[1] \o Tx(">")
EndTagNS(name) == Tx("</") \o (IF SepAt(name) > 0 THEN Tx("n1:") \o Local(name) ELSE name) \o Tx(">")

Bytes(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* the order of notations compares bytes as signed numbers, the end of the name being 0
SignedKey(n) ==
  LET u == FoldLeft(LAMBDA acc, c : acc \o Bytes(c), <<>>, n) IN
  [i \in 1..(Len(u) + 1) |-> IF i > Len(u) THEN 0 ELSE IF u[i] >= 128 THEN u[i] - 256 ELSE u[i]]

Quoted(t) == Tx("'") \o t \o Tx("'")
NotationText(x) ==       \* <<name, system id, public id>>
  Tx("<!NOTATION ") \o x[1]
  \o (IF x[3] # NULL THEN Tx(" PUBLIC ") \o Quoted(x[3]) \o (IF x[2] # NULL THEN Tx(" ") \o Quoted(x[2]) ELSE <<>>)
      ELSE IF x[2] # NULL THEN Tx(" SYSTEM ") \o Quoted(x[2]) ELSE <<>>)
  \o Tx(">") \o NL
DoctypeText(name, nots) ==
  LET l == SortSeq(nots, LAMBDA a, b : SeqLT(SignedKey(a[1]), SignedKey(b[1]), 1)) IN
  Tx("<!DOCTYPE ") \o name \o Tx(" [") \o NL \o FoldLeft(LAMBDA acc, x : acc \o NotationText(x), <<>>, l) \o Tx("]>") \o NL

\* canonical form.  w: text written, doctype name, notations seen (dup: two of one name, whose order is open)
Canonical(o, w, e) ==
  CASE e[1] = "se" -> [w EXCEPT !.t = @ \o IF o.ns THEN StartTagNS(e[2], e[3]) ELSE StartTagText(e[2], e[3])]
    [] e[1] = "ee" -> [w EXCEPT !.t = @ \o IF o.ns THEN EndTagNS(e[2]) ELSE Tx("</") \o e[2] \o Tx(">")]
    [] e[1] = "cd" -> [w EXCEPT !.t = @ \o Esc(e[2])]
    [] e[1] = "pi" -> [w EXCEPT !.t = @ \o Tx("<?") \o e[2] \o Tx(" ") \o e[3] \o Tx("?>")]
    [] e[1] = "sd" -> [w EXCEPT !.dt = e[2]]
    [] e[1] = "no" -> [w EXCEPT !.nots = <<<<e[2], e[4], e[5]>>>> \o @, !.dup = @ \/ \E i \in 1..Len(w.nots) : w.nots[i][1] = e[2]]
    [] e[1] = "ed" -> [w EXCEPT !.t = @ \o IF w.nots = <<>> THEN <<>> ELSE DoctypeText(w.dt, w.nots), !.nots = <<>>]
    [] OTHER -> w

\* a copy of the document
Copied(w, e) == IF e[1] = "df" THEN [w EXCEPT !.t = @ \o e[2]] ELSE w

\* the meta form
Attr(n, v) == Tx(" ") \o Tx(n) \o Tx("=\"") \o v \o Tx("\"")
Loc(pl) == (IF pl[5] # NULL THEN Attr("uri", pl[5]) ELSE <<>>)
           \o Attr("byte", Num(pl[3])) \o Attr("nbytes", Num(pl[4])) \o Attr("line", Num(pl[1])) \o Attr("col", Num(pl[2]))
MetaAtt(e, i) ==
  Tx("<attribute") \o Attr("name", e[3][i][1]) \o Attr("value", Esc(e[3][i][2]))
  \o (IF 2 * (i - 1) >= e[4] THEN Tx(" defaulted=\"yes\"") ELSE IF 2 * (i - 1) = e[5] THEN Tx(" id=\"yes\"") ELSE <<>>)
  \o Tx("/>") \o NL
OrNot(n, v) == IF v = NULL THEN <<>> ELSE Attr(n, v)
MetaText(e) ==
  LET loc == Loc(e[Len(e)]) End == Tx("/>") \o NL IN
  CASE e[1] = "se" -> Tx("<starttag") \o Attr("name", e[2]) \o loc
         \o (IF e[3] = <<>> THEN End
             ELSE Tx(">") \o NL \o FoldLeft(LAMBDA acc, i : acc \o MetaAtt(e, i), <<>>, [i \in 1..Len(e[3]) |-> i]) \o Tx("</starttag>") \o NL)
    [] e[1] = "ee" -> Tx("<endtag") \o Attr("name", e[2]) \o loc \o End
    [] e[1] = "pi" -> Tx("<pi") \o Attr("target", e[2]) \o Attr("data", Esc(e[3])) \o loc \o End
    [] e[1] = "co" -> Tx("<comment") \o Attr("data", Esc(e[2])) \o loc \o End
    [] e[1] = "cs" -> Tx("<startcdata") \o loc \o End
    [] e[1] = "ce" -> Tx("<endcdata") \o loc \o End
    [] e[1] = "cd" -> Tx("<chars") \o Attr("str", Esc(e[2])) \o loc \o End
    [] e[1] = "sd" -> Tx("<startdoctype") \o Attr("name", e[2]) \o loc \o End
    [] e[1] = "ed" -> Tx("<enddoctype") \o loc \o End
    [] e[1] = "no" -> Tx("<notation") \o Attr("name", e[2]) \o OrNot("public", e[5])
                      \o (IF e[4] = NULL THEN <<>> ELSE Attr("system", Esc(e[4]))) \o loc \o End
    [] e[1] = "en" ->
         IF e[4] # NULL THEN Tx("<entity") \o Attr("name", e[2]) \o loc \o Tx(">") \o Esc(e[4]) \o Tx("</entity/>") \o NL
         ELSE Tx("<entity") \o Attr("name", e[2]) \o OrNot("public", e[7]) \o Attr("system", Esc(e[6])) \o OrNot("notation", e[8]) \o loc \o End
    [] e[1] = "ns" -> Tx("<startns") \o OrNot("prefix", e[2]) \o (IF e[3] = NULL THEN <<>> ELSE Attr("ns", Esc(e[3]))) \o End
    [] e[1] = "ne" -> Tx("<endns") \o OrNot("prefix", e[2]) \o End
    [] OTHER -> <<>>
Meta(w, e) == [w EXCEPT !.t = @ \o MetaText(e)]

Written(o, evs) ==
  LET w0 == [t |-> <<>>, dt |-> <<>>, nots |-> <<>>, dup |-> FALSE] IN
  CASE o.type = "m" -> (LET w == FoldLeft(Meta, w0, evs) IN [w EXCEPT !.t = Tx("<document>") \o NL \o @ \o Tx("</document>") \o NL])
    [] o.type = "c" -> FoldLeft(Copied, w0, evs)
    [] OTHER -> FoldLeft(LAMBDA w, e : Canonical(o, w, e), w0, evs)

-------------------------------------------------------------------------------
(* One file *)

RECURSIVE Pieces(_, _)
ReadSize == 8192
Pieces(b, i) ==
  IF i > Len(b) THEN <<<<"pbuf", <<>>, 1>>>>
  ELSE LET j == IF i + ReadSize - 1 < Len(b) THEN i + ReadSize - 1 ELSE Len(b) IN <<<<"pbuf", SubSeq(b, i, j), 0>>>> \o Pieces(b, j + 1)
Calls(map, b) == IF map THEN <<<<"parse", b, 1>>>> ELSE Pieces(b, 1)

\* f: [n name, k 0: a file, 1: a directory, b bytes]
EntOf(map, f) ==
  [sys |-> f.n, create |-> IF f.k = 0 THEN 1 ELSE 0, enc |-> NULL, seth |-> <<>>, base |-> NULL,
   ops |-> IF f.k = 0 THEN Calls(map, f.b) ELSE <<>>, ret |-> 0]

Writes(o) == o.dir # NULL /\ o.type # "t"
HandlersOf(o) ==
  (IF o.type = "t" THEN <<"se", "ee", "cd", "pi">>
   ELSE IF o.dir = NULL THEN <<>>
   ELSE IF o.type = "m" THEN <<"se", "ee", "pi", "co", "cs", "ce", "cd", "sd", "ed", "en", "no", "ns", "ne">>
   ELSE IF o.type = "c" THEN <<"df", "se", "ee", "cd", "pi">>
   ELSE <<"se", "ee", "cd", "pi">> \o (IF o.nota THEN <<"sd", "ed", "no">> ELSE <<>>))
  \o (IF o.std THEN <<"st">> ELSE <<>>) \o (IF o.ext THEN <<"er">> ELSE <<>>) \o (IF o.win THEN <<"uk">> ELSE <<>>)

CfgOf(o, map, name, files) ==
  [h |-> HandlersOf(o), ns |-> IF o.ns THEN 1 ELSE -1, enc |-> o.enc, triplet |-> 0, foreign |-> 0, pe |-> o.pe, base |-> name,
   stret |-> 0, ents |-> [i \in 1..Len(files) |-> EntOf(map, files[i])], unk |-> <<>>,
   react |-> IF Writes(o) /\ o.type = "c" THEN [i \in 1..4 |-> <<<<"se", "ee", "cd", "pi">>[i], 0, <<"dc">>>>] ELSE <<>>,
   pos |-> IF Writes(o) /\ o.type = "m" THEN 1 ELSE 0, rpos |-> 1, wf |-> 1]

ErrLine(name, res) == <<"e", name, IF res[4] = <<>> THEN <<>> ELSE <<res[4][1], res[4][2]>>, Tx(Messages[res[2]])>>
\* the errors of external entities, in the order in which they are found
ChildErrors(evs) ==
  LET e == SelectSeq(evs, LAMBDA x : x[1] = "cr" /\ x[2][1] = 0) IN [i \in 1..Len(e) |-> ErrLine(e[i][3], e[i][2])]

STDIN == Tx("STDIN")
FileOf(files, name) == LET at == {i \in 1..Len(files) : files[i].n = name} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
NoFile(map, files, name) ==
  LET x == FileOf(files, name) IN
  name \o Tx(IF x = 0 THEN ": No such file or directory" ELSE IF map THEN ": not a regular file" ELSE ": Is a directory")
Missing(map, files, evs) ==
  LET e == SelectSeq(evs, LAMBDA x : x[1] = "cm") IN [i \in 1..Len(e) |-> NoFile(map, files, e[i][2])]

RECURSIVE Calling(_, _, _)
Calling(s, ops, i) ==       \* until a call fails
  IF i > Len(ops) THEN s
  ELSE LET s1 == DoOp([s EXCEPT !.tx = FALSE, !.ret = 0], ops[i]) IN IF s1.ret[1] = 0 THEN s1 ELSE Calling(s1, ops, i + 1)

\* what processing one file gives: [ok, lines printed, lines on stderr, output, dup]
OneFile(o, files, stdin, name) ==
  LET isIn == name = NULL
      map == o.map /\ ~isIn
      x == IF isIn THEN 0 ELSE FileOf(files, name)
  IN IF ~isIn /\ (x = 0 \/ files[x].k = 1)
     THEN [ok |-> FALSE, lines |-> <<>>, err |-> <<NoFile(map, files, name)>>, t |-> <<>>, dup |-> FALSE]
     ELSE LET s == Calling(Start(CfgOf(o, map, name, files)), Calls(map, IF isIn THEN stdin ELSE files[x].b), 1)
              ok == s.ret[1] # 0
              w == IF ok /\ Writes(o) THEN Written(o, s.ev) ELSE [t |-> <<>>, dup |-> FALSE]
          IN [ok |-> ok, lines |-> ChildErrors(s.ev) \o (IF ok THEN <<>> ELSE <<ErrLine(IF isIn THEN STDIN ELSE name, s.ret)>>),
              err |-> Missing(map, files, s.ev), t |-> w.t, dup |-> w.dup]

BaseName(name) == SubSeq(name, LastSlash(name, Len(name)) + 1, Len(name))
OutName(o, name) == o.dir \o Tx("/") \o (IF name = NULL THEN STDIN ELSE BaseName(name))

\* the whole run.  r: [rc, usage, lines, err, out: <<name, text, dup>>...]
R0 == [rc |-> 0, usage |-> 0, lines |-> <<>>, err |-> <<>>, out |-> <<>>]
Without(out, n) == SelectSeq(out, LAMBDA x : x[1] # n)
AddFile(r, o, files, stdin, name) ==
  IF Writes(o) /\ (FileOf(files, o.dir) = 0 \/ files[FileOf(files, o.dir)].k = 0)
  THEN [r EXCEPT !.rc = 1, !.err = Append(@, OutName(o, name) \o Tx(": No such file or directory"))]
  ELSE LET f == OneFile(o, files, stdin, name)
           out == IF Writes(o) THEN Without(r.out, OutName(o, name)) ELSE r.out
       IN [r EXCEPT !.rc = IF f.ok THEN 0 ELSE 2, !.lines = @ \o f.lines, !.err = @ \o f.err,
                    !.out = IF Writes(o) /\ f.ok THEN Append(out, <<OutName(o, name), f.t, f.dup>>) ELSE out]
===============================================================================
