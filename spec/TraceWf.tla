-------------------------------- MODULE TraceWf --------------------------------
(* Recorded runs of xmlwf: one state per file processed.                           *)
EXTENDS Xmlwf, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES id, k, r
vars == <<id, k, r>>

Cmd(x) == Args(x.argv, 1, 0, O0)
\* the files to process; none given: the standard input
Todo(x) == LET c == Cmd(x) IN IF c.i > Len(x.argv) THEN <<NULL>> ELSE SubSeq(x.argv, c.i, Len(x.argv))

SameLine(a, b) ==
  IF a[1] # b[1] THEN FALSE
  ELSE IF a[1] = "e" THEN a[2] = b[2] /\ (a[3] = <<>> \/ a[3] = b[3]) /\ a[4] = b[4]
  ELSE a = b
SameLines(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameLine(a[i], b[i])
FileNamed(out, n) == LET at == {i \in 1..Len(out) : out[i][1] = n} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
SameOut(a, b) ==
  /\ {a[i][1] : i \in 1..Len(a)} = {b[i][1] : i \in 1..Len(b)}
  /\ \A i \in 1..Len(a) : a[i][3] \/ a[i][2] = b[FileNamed(b, a[i][1])][2]

Features == "sizeof(XML_Char)=1, sizeof(XML_LChar)=1, XML_DTD, XML_CONTEXT_BYTES=1024, XML_NS"
Finished(x, q) ==      \* "" or what differs
  IF q.rc # x.rc THEN "exit status expected " \o ToString(q.rc) \o " recorded " \o ToString(x.rc)
  ELSE IF q.usage # x.usage THEN "usage message expected " \o ToString(q.usage) \o " recorded " \o ToString(x.usage)
  ELSE IF ~SameLines(q.lines, x.lines) THEN "output expected " \o ToJson(q.lines) \o " recorded " \o ToJson(x.lines)
  ELSE IF q.usage = 0 /\ q.err # x.err THEN "error output expected " \o ToJson(q.err) \o " recorded " \o ToJson(x.err)
  ELSE IF ~SameOut(q.out, x.out) THEN "files expected " \o ToJson(q.out) \o " recorded " \o ToJson(x.out)
  ELSE ""
Verdict(x, q) == LET j == Finished(x, q) IN PrintT(IF j = "" THEN "OK " \o ToString(id) ELSE "BAD " \o ToString(id) \o " " \o j)

WfInit == id \in 1..Len(Runs) /\ k = 0 /\ r = R0

Command ==
  /\ k = 0
  /\ id' = id
  /\ LET x == Runs[id] c == Cmd(x) IN
     CASE c.st = "run" -> k' = 1 /\ r' = r
       [] c.st = "usage" -> k' = -1 /\ r' = [r EXCEPT !.rc = c.rc, !.usage = 1] /\ Verdict(x, r')
       [] c.st = "version" -> k' = -1 /\ r' = [r EXCEPT !.lines = <<<<"t", Tx("xmlwf using expat_2.2.9")>>, <<"t", Tx(Features)>>>>] /\ Verdict(x, r')

ProcessOne ==
  /\ k > 0
  /\ id' = id
  /\ LET x == Runs[id] c == Cmd(x) todo == Todo(x) IN
     /\ r' = AddFile(r, c.o, x.files, x.stdin, todo[k])
     /\ IF r'.rc # 0 \/ k = Len(todo) THEN k' = -1 /\ Verdict(x, r') ELSE k' = k + 1

WfNext == Command \/ ProcessOne
WfSpec == WfInit /\ [][WfNext]_vars
View == <<id, k>>
===============================================================================
