--------------------------------- MODULE Trace ---------------------------------
(* Trace validation.  Each line of the file named by the environment variable     *)
(* TRACE is one run recorded from the library: its configuration, the API calls    *)
(* made, and what was observed in each.  The run is a behaviour of Expat iff every *)
(* API call can be matched by a transition; a run that cannot be matched ends in a *)
(* BAD line with the first difference.                                             *)
EXTENDS Expat, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES id, k, s
vars == <<id, k, s>>

TraceInit == id \in 1..Len(Runs) /\ k = 0 /\ s = <<>>

-------------------------------------------------------------------------------
(* What is compared.  A run carries a mask m:                                      *)
(*   kinds  the kinds of events compared (none given: all)                         *)
(*   names  1: of start tags only the name is compared                             *)
(*   res    of a call's results: 0 nothing, 1 return value and error code,         *)
(*          2 also the parsing status, 3 also the position                         *)
(*   pos    0: the positions at events are not compared; 1: only the positions are, *)
(*          where the events agree; 2: both                                        *)
(*   more   1: a call that fails must not have made more handler calls             *)
Text(x) == x[1] \in {"cd", "df"}

\* adjacent text of one kind becomes one event
RECURSIVE Join(_, _, _)
Join(ev, i, acc) ==
  IF i > Len(ev) THEN acc
  ELSE LET x == ev[i] l == Len(acc) IN
    IF Text(x) /\ l > 0 /\ acc[l][1] = x[1] THEN Join(ev, i + 1, [acc EXCEPT ![l][2] = @ \o x[2]])
    ELSE Join(ev, i + 1, Append(acc, x))

Notes == {"ac", "cx", "cr", "cf"}
\* of a result, what is compared
PartOf(x, res) ==
  LET n == IF Len(x) > 0 /\ x[1] = -9 THEN 1 ELSE 0        \* (no buffer)
  IN SubSeq(x, 1, IF res >= 3 THEN Len(x) ELSE IF res = 2 THEN n + 3 ELSE IF res = 1 THEN n + 2 ELSE 0)
Depos(x, cf) == IF cf.pos = 1 /\ x[1] \notin Notes THEN SubSeq(x, 1, Len(x) - 1) ELSE x
Cut(x, m) ==
  IF x[1] = "se" /\ m.names = 1 THEN <<"se", x[2]>>
  ELSE IF x[1] = "cr" THEN <<"cr", PartOf(x[2], m.res)>>
  ELSE x

Kept(ev, m) ==
  LET ks == {m.kinds[i] : i \in 1..Len(m.kinds)} IN
  IF ks = {} THEN ev ELSE SelectSeq(ev, LAMBDA x : x[1] \in ks)
\* the events without positions
Plain(ev, m, cf) ==
  LET a == Kept(ev, m) IN Join([i \in 1..Len(a) |-> Cut(Depos(a[i], cf), m)], 1, <<>>)
\* only the positions
Places(ev, m, cf) ==
  LET a == SelectSeq(Kept(ev, m), LAMBDA x : x[1] \notin Notes) IN [i \in 1..Len(a) |-> <<a[i][1], a[i][Len(a[i])]>>]

\* the model does not know every position: it then accepts the one recorded
Wheres(mod, rec) ==
  IF Len(mod) > 0 /\ Len(mod) = Len(rec) /\ ToString(mod[Len(mod)]) = "<<>>" THEN [mod EXCEPT ![Len(mod)] = rec[Len(rec)]] ELSE mod
SameCr(a, b) == Wheres(a, b) = b          \* the results of a child parser, as a note

RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, i) ==
  IF i > Len(a) \/ i > Len(b) THEN i
  ELSE IF a[i] = b[i] \/ (a[i][1] = "cr" /\ b[i][1] = "cr" /\ SameCr(a[i][2], b[i][2])) THEN FirstDiff(a, b, i + 1) ELSE i
Get(a, i) == IF i <= Len(a) THEN a[i] ELSE <<"(nothing)">>

SameRes(op, mod, rec, res) ==
  IF res = 0 THEN TRUE
  ELSE IF op[1] = "resumeall"
  THEN Len(mod) = Len(rec) /\ \A i \in 1..Len(mod) : PartOf(Wheres(mod[i], rec[i]), res) = PartOf(rec[i], res)
  ELSE PartOf(Wheres(mod, rec), res) = PartOf(rec, res)

Differ(what, d, a, b) ==
  what \o " " \o ToString(d) \o " expected " \o ToJson(Get(a, d)) \o " recorded " \o ToJson(Get(b, d))

Count(ev) == Cardinality({i \in 1..Len(ev) : ~Text(ev[i]) /\ ev[i][1] \notin Notes})

Judge(run, op, st, rec) ==      \* "" or what differs; "-": events differ where only positions are compared
  LET m == run.mask
      a == Plain(st.ev, m, run.cfg) b == Plain(rec.ev, m, run.cfg)
      d == FirstDiff(a, b, 1)
      same == d > Len(a) /\ d > Len(b)
      pa == Places(st.ev, m, run.cfg) pb == Places(rec.ev, m, run.cfg)
      pd == FirstDiff(pa, pb, 1)
      failed == op[1] # "resumeall" /\ Len(rec.res) > 0 /\ rec.res[1] = 0
  IN IF m.pos # 1 /\ ~same THEN Differ("event", d, a, b)
     ELSE IF m.pos = 1 /\ ~same THEN "-"
     ELSE IF m.pos > 0 /\ run.cfg.pos = 1 /\ pa # pb THEN Differ("position of event", pd, pa, pb)
     ELSE IF ~SameRes(op, st.ret, rec.res, m.res)
          THEN IF m.pos = 1 /\ ~SameRes(op, st.ret, rec.res, 2) THEN "-"
               ELSE "result expected " \o ToJson(st.ret) \o " recorded " \o ToJson(rec.res)
     ELSE IF m.more = 1 /\ failed /\ Count(rec.ev) > Count(st.ev) THEN "handler calls behind the error"
     ELSE ""

StepOp ==
  /\ k > 0
  /\ k <= Len(Runs[id].ops)
  /\ LET op == Runs[id].ops[k]
         st == DoOp([s EXCEPT !.ev = <<>>, !.tx = FALSE, !.ret = 0], op)
         j == Judge(Runs[id], op, st, Runs[id].out[k])
     IN IF j = ""
        THEN /\ s' = st
             /\ k' = k + 1
             /\ (k < Len(Runs[id].ops) \/ PrintT("OK " \o ToString(id)))
        ELSE /\ s' = <<>>
             /\ k' = -1
             /\ PrintT((IF j = "-" THEN "OTHER " ELSE "BAD ") \o ToString(id) \o " op " \o ToString(k) \o ": " \o j)
  /\ id' = id

Begins ==
  /\ k = 0
  /\ k' = 1
  /\ s' = Start(Runs[id].cfg)
  /\ id' = id
  /\ (Len(Runs[id].ops) > 0 \/ PrintT("OK " \o ToString(id)))

TraceNext == Begins \/ StepOp
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<id, k>>
===============================================================================
