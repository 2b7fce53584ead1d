-------------------------------- MODULE XmlTok --------------------------------
(* Encodings (bytes -> characters) and the tokenizers: for a byte sequence, a     *)
(* start index and the index of the last byte available, which token begins there *)
(* and where it ends.  Everything is deterministic and total.                     *)
(*                                                                                *)
(* An encoding is a record [k, ns, map, conv]:                                    *)
(*   k = "utf8" | "l1" | "ascii" | "u16le" | "u16be" | "unk" | "cp"               *)
(*   ns: with namespace processing ':' is not a name character but a separator    *)
(*   map, conv: for "unk", the application's byte map / converter kind            *)
(* "cp" is the parser's internal text (replacement text of internal entities):    *)
(* one code point per element, carriage returns being ordinary white space.       *)
EXTENDS XmlChars, TLC, SequencesExt, FiniteSetsExt

\* results of K below a character: nothing left / too few bytes / not a character
END == -3
PARTC == -1
BAD == -2

Enc(k, ns) == [k |-> k, ns |-> ns, map |-> <<>>, conv |-> 0]
Cp(ns) == Enc("cp", ns)

Cont(x) == x >= 128 /\ x <= 191

KUtf8(b, n, i) ==
  LET x == b[i] IN
  IF x < 128 THEN (IF x >= 32 \/ x = 10 \/ x = 13 \/ x = 9 THEN x ELSE BAD)
  ELSE IF x < 192 \/ x > 244 THEN BAD
  ELSE IF x < 224 THEN
    IF i + 1 > n THEN PARTC
    ELSE IF x < 194 \/ ~Cont(b[i+1]) THEN BAD
    ELSE (x - 192) * 64 + (b[i+1] - 128)
  ELSE IF x < 240 THEN
    IF i + 2 > n THEN PARTC
    ELSE IF ~Cont(b[i+1]) \/ ~Cont(b[i+2]) THEN BAD
    ELSE LET c == (x - 224) * 4096 + (b[i+1] - 128) * 64 + (b[i+2] - 128) IN
         IF c < 2048 \/ ~IsChar(c) THEN BAD ELSE c
  ELSE
    IF i + 3 > n THEN PARTC
    ELSE IF ~Cont(b[i+1]) \/ ~Cont(b[i+2]) \/ ~Cont(b[i+3]) THEN BAD
    ELSE LET c == (x - 240) * 262144 + (b[i+1] - 128) * 4096 + (b[i+2] - 128) * 64 + (b[i+3] - 128) IN
         IF c < 65536 \/ c > 1114111 THEN BAD ELSE c

U16(e, b, i) == IF e.k = "u16le" THEN b[i] + 256 * b[i+1] ELSE 256 * b[i] + b[i+1]
K16(e, b, n, i) ==
  IF i + 1 > n THEN END
  ELSE LET u == U16(e, b, i) IN
    IF u >= 55296 /\ u <= 56319 THEN
      IF i + 3 > n THEN PARTC
      ELSE LET v == U16(e, b, i+2) IN
           IF v >= 56320 /\ v <= 57343 THEN 65536 + (u - 55296) * 1024 + (v - 56320) ELSE BAD
    ELSE IF IsChar(u) THEN u ELSE BAD

KUnk(e, b, n, i) ==
  LET m == e.map[b[i] + 1] IN
  IF m >= 0 THEN (IF m <= 65535 /\ IsChar(m) THEN m ELSE BAD)
  ELSE IF m = -1 THEN BAD
  ELSE IF i + (-m) - 1 > n THEN PARTC
  ELSE LET c == IF e.conv = 1 THEN (b[i] % 128) * 256 + b[i+1] ELSE -1 IN
       IF c >= 0 /\ IsChar(c) THEN c ELSE BAD

\* the character that begins at byte i of b[1..n]
K(e, b, n, i) ==
  IF i > n THEN END
  ELSE CASE e.k = "utf8" -> KUtf8(b, n, i)
         [] e.k = "cp" -> b[i]
         [] e.k \in {"u16le", "u16be"} -> K16(e, b, n, i)
         [] e.k = "l1" -> (IF IsChar(b[i]) THEN b[i] ELSE BAD)
         [] e.k = "ascii" -> (IF b[i] < 128 /\ IsChar(b[i]) THEN b[i] ELSE BAD)
         [] e.k = "unk" -> KUnk(e, b, n, i)

\* bytes per character: the least, and of the character c at i
Mb(e) == IF e.k \in {"u16le", "u16be"} THEN 2 ELSE 1
Wd(e, b, i, c) ==
  CASE e.k = "utf8" -> Utf8Len(c)
    [] e.k \in {"u16le", "u16be"} -> (IF c >= 65536 THEN 4 ELSE 2)
    [] e.k = "unk" -> (IF e.map[b[i] + 1] >= 0 THEN 1 ELSE -e.map[b[i] + 1])
    [] OTHER -> 1

\* does handing text to the application convert it (piece by piece) in this encoding?
MustConvert(e) == e.k \notin {"utf8", "ascii", "cp"}

NS(e, c) == IF c = 58 THEN ~e.ns ELSE c > 0 /\ NameStart(c)
NC(e, c) == IF c = 58 THEN ~e.ns ELSE c > 0 /\ NameChar(c)
Sp(c) == c = 32 \/ c = 10 \/ c = 9 \/ c = 13
IsCR(e, c) == c = 13 /\ e.k # "cp"
Dig(c) == c >= 48 /\ c <= 57
Hex(c) == Dig(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)

T(t, nx) == [t |-> t, n |-> nx]
Part == T("PARTIAL", 0)
\* what a scanner answers where it wants a name character (or a character) and sees c at i
NoName(c, i) == IF c = END THEN Part ELSE IF c = PARTC THEN T("PARTIAL_CHAR", 0) ELSE T("INVALID", i)
\* where the switch has no case for multi-byte characters, even an incomplete one is invalid
NoChar(c, i) == IF c = END THEN Part ELSE T("INVALID", i)

\* Letters and digits mean the same in every state of every scanner below, so that long runs of them are passed
\* over at once: PassPlain is the index i itself or a later one, with only ASCII letters and digits before it.
PlainBytes == (48..57) \cup (65..90) \cup (97..122)
RECURSIVE SkipW(_, _, _, _)
SkipW(b, n, i, w) ==
  LET hi == IF i + w - 1 < n THEN i + w - 1 ELSE n
      W == {k \in i..hi : b[k] \notin PlainBytes}
  IN IF W # {} THEN Min(W) ELSE IF hi = n THEN n + 1 ELSE SkipW(b, n, hi + 1, IF w < 1000 THEN 8 * w ELSE w)
PassPlain(e, b, n, i) ==
  IF i > n \/ e.k \notin {"utf8", "l1", "ascii", "cp"} THEN i
  ELSE IF b[i] \notin PlainBytes THEN i ELSE SkipW(b, n, i, 8)

Iter32 == [k \in 1..32 |-> k]

\* the same for characters outside ASCII too, where any of them is taken
PassChar(e, b, n, i) ==
  IF i > n THEN i
  ELSE LET c == K(e, b, n, i) IN IF c >= 128 \/ c \in PlainBytes THEN i + Wd(e, b, i, c) ELSE i
RECURSIVE PassText(_, _, _, _)
PassText(e, b, n, i) ==
  LET j == PassPlain(e, b, n, i)
      k == PassChar(e, b, n, j)
  IN IF k = j THEN j ELSE PassText(e, b, n, FoldLeft(LAMBDA r, x : PassChar(e, b, n, r), k, Iter32))

\* first index at or after i which does not hold a name character
PassName(e, b, n, i) == LET c == K(e, b, n, i) IN IF NC(e, c) THEN i + Wd(e, b, i, c) ELSE i
RECURSIVE NameEnd(_, _, _, _)
NameEnd(e, b, n, i0) ==
  LET i == PassName(e, b, n, PassPlain(e, b, n, i0))
      j == PassName(e, b, n, i)
  IN IF j = i THEN i ELSE NameEnd(e, b, n, FoldLeft(LAMBDA r, x : PassName(e, b, n, r), j, Iter32))

RECURSIVE SkipSp(_, _, _, _)
SkipSp(e, b, n, i) == IF Sp(K(e, b, n, i)) THEN SkipSp(e, b, n, i + Mb(e)) ELSE i

-------------------------------------------------------------------------------
(* References, comments, processing instructions *)

RECURSIVE DigRun(_, _, _, _, _)
DigRun(e, b, n, i, hex) ==
  LET c == K(e, b, n, i) IN
  IF c = END THEN Part
  ELSE IF (IF hex THEN Hex(c) ELSE Dig(c)) THEN DigRun(e, b, n, i + Mb(e), hex)
  ELSE IF c = 59 THEN T("CHAR_REF", i + Mb(e))
  ELSE T("INVALID", i)

\* i: after "&#"
ScanCharRef(e, b, n, i) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF c = END THEN Part
  ELSE IF c = 120 THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN Part ELSE IF Hex(d) THEN DigRun(e, b, n, i + 2 * m, TRUE) ELSE T("INVALID", i + m)
  ELSE IF Dig(c) THEN DigRun(e, b, n, i + m, FALSE)
  ELSE T("INVALID", i)

\* i: after "&"
ScanRef(e, b, n, i) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF NS(e, c) THEN
    LET j == NameEnd(e, b, n, i) d == K(e, b, n, j) IN
    IF d = 59 THEN T("ENTITY_REF", j + m) ELSE NoName(d, j)
  ELSE IF c = 35 THEN ScanCharRef(e, b, n, i + m)
  ELSE NoName(c, i)

RECURSIVE CommentBody(_, _, _, _)
CommentBody(e, b, n, i) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF c < 0 THEN NoName(c, i)
  ELSE IF c = 45 THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN Part
    ELSE IF d = 45 THEN
      LET f == K(e, b, n, i + 2 * m) IN
      IF f = END THEN Part ELSE IF f = 62 THEN T("COMMENT", i + 3 * m) ELSE T("INVALID", i + 2 * m)
    ELSE CommentBody(e, b, n, i + m)
  ELSE CommentBody(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)))

\* i: after "<!-"
ScanComment(e, b, n, i) ==
  LET c == K(e, b, n, i) IN
  IF c = END THEN Part ELSE IF c = 45 THEN CommentBody(e, b, n, i + Mb(e)) ELSE T("INVALID", i)

RECURSIVE PiBody(_, _, _, _, _)
PiBody(e, b, n, i, tok) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF c < 0 THEN NoName(c, i)
  ELSE IF c = 63 THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN Part ELSE IF d = 62 THEN T(tok, i + 2 * m) ELSE PiBody(e, b, n, i + m, tok)
  ELSE PiBody(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)), tok)

\* PI target s..t-1: "xml" exactly is a declaration, other cases of it are reserved
PiTarget(e, b, s, t) ==
  LET m == Mb(e) IN
  IF t - s # 3 * m THEN "PI"
  ELSE LET x == K(e, b, t - 1, s) y == K(e, b, t - 1, s + m) z == K(e, b, t - 1, s + 2 * m) IN
    IF x \in {120, 88} /\ y \in {109, 77} /\ z \in {108, 76}
    THEN (IF x = 120 /\ y = 109 /\ z = 108 THEN "XML_DECL" ELSE "BAD") ELSE "PI"

\* i: after "<?"
ScanPi(e, b, n, i) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF ~NS(e, c) THEN NoName(c, i)
  ELSE LET j == NameEnd(e, b, n, i) d == K(e, b, n, j) tok == PiTarget(e, b, i, j) IN
    IF Sp(d) THEN (IF tok = "BAD" THEN T("INVALID", j) ELSE PiBody(e, b, n, j + m, tok))
    ELSE IF d = 63 THEN
      IF tok = "BAD" THEN T("INVALID", j)
      ELSE LET f == K(e, b, n, j + m) IN
        IF f = END THEN Part ELSE IF f = 62 THEN T(tok, j + 2 * m) ELSE T("INVALID", j + m)
    ELSE NoName(d, j)

-------------------------------------------------------------------------------
(* Tags *)

RECURSIVE EndTagTail(_, _, _, _)
EndTagTail(e, b, n, i) ==      \* after white space in an end tag
  LET c == K(e, b, n, i) IN
  IF Sp(c) THEN EndTagTail(e, b, n, i + Mb(e))
  ELSE IF c = 62 THEN T("END_TAG", i + Mb(e)) ELSE NoChar(c, i)

RECURSIVE EndTagName(_, _, _, _)
EndTagName(e, b, n, i) ==
  LET j == NameEnd(e, b, n, i) d == K(e, b, n, j) m == Mb(e) IN
  IF Sp(d) THEN EndTagTail(e, b, n, j + m)
  ELSE IF d = 62 THEN T("END_TAG", j + m)
  ELSE IF d = 58 THEN EndTagName(e, b, n, j + m)     \* (only with e.ns)
  ELSE NoName(d, j)

ScanEndTag(e, b, n, i) ==
  LET c == K(e, b, n, i) IN
  IF NS(e, c) THEN EndTagName(e, b, n, i + Wd(e, b, i, c)) ELSE NoName(c, i)

\* attribute value: from i (after the opening quote q) to its closing quote;
\* result t = "OK" with n = index of the closing quote
RECURSIVE AttValue(_, _, _, _, _)
AttValue(e, b, n, i, q) ==
  LET c == K(e, b, n, i) IN
  IF c < 0 THEN NoName(c, i)
  ELSE IF c = q THEN T("OK", i)
  ELSE IF c = 38 THEN
    LET r == ScanRef(e, b, n, i + Mb(e)) IN
    IF r.t \in {"ENTITY_REF", "CHAR_REF"} THEN AttValue(e, b, n, r.n, q) ELSE r
  ELSE IF c = 60 THEN T("INVALID", i)
  ELSE AttValue(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)), q)

RECURSIVE ScanAtts(_, _, _, _, _)
RECURSIVE AfterValue(_, _, _, _)
\* the end of a tag, at '/' or '>'
TagEnd(e, b, n, i, c, withAtts) ==
  LET m == Mb(e) IN
  IF c = 62 THEN T(IF withAtts THEN "START_TAG_WITH_ATTS" ELSE "START_TAG_NO_ATTS", i + m)
  ELSE LET d == K(e, b, n, i + m) IN
       IF d = END THEN Part
       ELSE IF d = 62 THEN T(IF withAtts THEN "EMPTY_ELEMENT_WITH_ATTS" ELSE "EMPTY_ELEMENT_NO_ATTS", i + 2 * m)
       ELSE T("INVALID", i + m)

\* i: inside an attribute name (its first character is behind); colon: ':' seen
ScanAtts(e, b, n, i, colon) ==
  LET m == Mb(e) j == NameEnd(e, b, n, i) d == K(e, b, n, j) IN
  IF d = 58 THEN           \* (only with e.ns)
    IF colon THEN T("INVALID", j)
    ELSE LET c == K(e, b, n, j + m) IN
         IF NS(e, c) THEN ScanAtts(e, b, n, j + m + Wd(e, b, j + m, c), TRUE) ELSE NoName(c, j + m)
  ELSE IF ~(Sp(d) \/ d = 61) THEN NoName(d, j)
  ELSE LET q == SkipSp(e, b, n, j) eq == K(e, b, n, q) IN
    IF eq # 61 THEN NoChar(eq, q)
    ELSE LET o == SkipSp(e, b, n, q + m) oc == K(e, b, n, o) IN
      IF oc \notin {34, 39} THEN NoChar(oc, o)
      ELSE LET v == AttValue(e, b, n, o + m, oc) IN
        IF v.t # "OK" THEN v
        ELSE LET a == v.n + m c == K(e, b, n, a) IN
             IF Sp(c) THEN AfterValue(e, b, n, a + m)
             ELSE IF c = 47 \/ c = 62 THEN TagEnd(e, b, n, a, c, TRUE)
             ELSE NoChar(c, a)

AfterValue(e, b, n, i) ==
  LET c == K(e, b, n, i) IN
  IF Sp(c) THEN AfterValue(e, b, n, i + Mb(e))
  ELSE IF c = 47 \/ c = 62 THEN TagEnd(e, b, n, i, c, TRUE)
  ELSE IF NS(e, c) THEN ScanAtts(e, b, n, i + Wd(e, b, i, c), FALSE)
  ELSE NoName(c, i)

\* after white space behind the element name
RECURSIVE TagSp(_, _, _, _)
TagSp(e, b, n, i) ==
  LET c == K(e, b, n, i) IN
  IF Sp(c) THEN TagSp(e, b, n, i + Mb(e))
  ELSE IF c = 47 \/ c = 62 THEN TagEnd(e, b, n, i, c, FALSE)
  ELSE IF NS(e, c) THEN ScanAtts(e, b, n, i + Wd(e, b, i, c), FALSE)
  ELSE NoName(c, i)

RECURSIVE TagName(_, _, _, _, _)
TagName(e, b, n, i, colon) ==
  LET m == Mb(e) j == NameEnd(e, b, n, i) d == K(e, b, n, j) IN
  IF d = 58 THEN
    IF colon THEN T("INVALID", j)
    ELSE LET c == K(e, b, n, j + m) IN
         IF NS(e, c) THEN TagName(e, b, n, j + m + Wd(e, b, j + m, c), TRUE) ELSE NoName(c, j + m)
  ELSE IF Sp(d) THEN TagSp(e, b, n, j + m)
  ELSE IF d = 47 \/ d = 62 THEN TagEnd(e, b, n, j, d, FALSE)
  ELSE NoName(d, j)

CDATA_LSQB == <<67, 68, 65, 84, 65, 91>>
RECURSIVE MatchAscii(_, _, _, _, _)
MatchAscii(e, b, n, i, s) ==
  IF s = <<>> THEN T("CDATA_SECT_OPEN", i)
  ELSE IF K(e, b, n, i) = s[1] THEN MatchAscii(e, b, n, i + Mb(e), Tail(s)) ELSE T("INVALID", i)

\* i: after '<'
ScanLt(e, b, n, i) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF NS(e, c) THEN TagName(e, b, n, i + Wd(e, b, i, c), FALSE)
  ELSE IF c = 33 THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN Part
    ELSE IF d = 45 THEN ScanComment(e, b, n, i + 2 * m)
    ELSE IF d = 91 THEN
      IF i + 8 * m - 1 > n THEN Part ELSE MatchAscii(e, b, n, i + 2 * m, CDATA_LSQB)
    ELSE T("INVALID", i + m)
  ELSE IF c = 63 THEN ScanPi(e, b, n, i + m)
  ELSE IF c = 47 THEN ScanEndTag(e, b, n, i + m)
  ELSE NoName(c, i)

-------------------------------------------------------------------------------
(* Content *)

\* 16-bit text ends at a whole unit
EndOf(e, n, i) == IF Mb(e) = 1 THEN n ELSE i + ((n - i + 1) \div 2) * 2 - 1

RECURSIVE DataRun(_, _, _, _)
DataRun(e, b, n, i) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF c < 0 \/ c = 38 \/ c = 60 \/ IsCR(e, c) \/ c = 10 THEN T("DATA_CHARS", i)
  ELSE IF c = 93 THEN
    LET d == K(e, b, n, i + m) IN
    IF i + 2 * m - 1 > n THEN T("DATA_CHARS", i)
    ELSE IF d # 93 THEN DataRun(e, b, n, i + m)
    ELSE IF i + 3 * m - 1 > n THEN T("DATA_CHARS", i)
    ELSE IF K(e, b, n, i + 2 * m) # 62 THEN DataRun(e, b, n, i + m)
    ELSE T("INVALID", i + 2 * m)
  ELSE DataRun(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)))

ContentTok(e, b, n0, i) ==
  IF i > n0 THEN T("NONE", i)
  ELSE LET m == Mb(e) n == EndOf(e, n0, i) c == K(e, b, n, i) IN
    IF c = END THEN Part
    ELSE IF c = 60 THEN ScanLt(e, b, n, i + m)
    ELSE IF c = 38 THEN ScanRef(e, b, n, i + m)
    ELSE IF IsCR(e, c) THEN
      LET d == K(e, b, n, i + m) IN
      IF d = END THEN T("TRAILING_CR", i) ELSE T("DATA_NEWLINE", IF d = 10 THEN i + 2 * m ELSE i + m)
    ELSE IF c = 10 THEN T("DATA_NEWLINE", i + m)
    ELSE IF c < 0 THEN NoName(c, i)
    ELSE IF c = 93 THEN
      LET d == K(e, b, n, i + m) IN
      IF d = END THEN T("TRAILING_RSQB", i)
      ELSE IF d # 93 THEN DataRun(e, b, n, i + m)
      ELSE LET f == K(e, b, n, i + 2 * m) IN
        IF f = END THEN T("TRAILING_RSQB", i)
        ELSE IF f = 62 THEN T("INVALID", i + 2 * m)
        ELSE DataRun(e, b, n, i + m)
    ELSE DataRun(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)))

RECURSIVE CdataRun(_, _, _, _)
CdataRun(e, b, n, i) ==
  LET c == K(e, b, n, i) IN
  IF c < 0 \/ c = 93 \/ IsCR(e, c) \/ c = 10 THEN T("DATA_CHARS", i)
  ELSE CdataRun(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)))

CdataTok(e, b, n0, i) ==
  IF i > n0 THEN T("NONE", i)
  ELSE LET m == Mb(e) n == EndOf(e, n0, i) c == K(e, b, n, i) IN
    IF c = END THEN Part
    ELSE IF c = 93 THEN
      LET d == K(e, b, n, i + m) IN
      IF d = END THEN Part
      ELSE IF d # 93 THEN CdataRun(e, b, n, i + m)
      ELSE LET f == K(e, b, n, i + 2 * m) IN
        IF f = END THEN Part
        ELSE IF f = 62 THEN T("CDATA_SECT_CLOSE", i + 3 * m)
        ELSE CdataRun(e, b, n, i + m)
    ELSE IF IsCR(e, c) THEN
      LET d == K(e, b, n, i + m) IN
      IF d = END THEN Part ELSE T("DATA_NEWLINE", IF d = 10 THEN i + 2 * m ELSE i + m)
    ELSE IF c = 10 THEN T("DATA_NEWLINE", i + m)
    ELSE IF c < 0 THEN NoName(c, i)
    ELSE CdataRun(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)))

-------------------------------------------------------------------------------
(* Prolog *)

\* NMSTRT and HEX byte types: the letters a declaration keyword may consist of
DeclLetter(e, b, i, c) ==
  \/ c > 0 /\ c < 128 /\ NS(e, c)
  \/ /\ c >= 128 /\ NS(e, c)
     /\ \/ e.k = "l1"
        \/ e.k \in {"u16le", "u16be"} /\ c < 256
        \/ e.k = "unk" /\ e.map[b[i] + 1] >= 0

RECURSIVE DeclWord(_, _, _, _)
DeclWord(e, b, n, i) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF c = END THEN Part
  ELSE IF c = 37 THEN
    LET d == K(e, b, n, i + m) IN
    IF i + 2 * m - 1 > n THEN Part
    ELSE IF Sp(d) \/ d = 37 THEN T("INVALID", i) ELSE T("DECL_OPEN", i)
  ELSE IF Sp(c) THEN T("DECL_OPEN", i)
  ELSE IF DeclLetter(e, b, i, c) THEN DeclWord(e, b, n, i + Wd(e, b, i, c))
  ELSE T("INVALID", i)

\* i: after "<!"
ScanDecl(e, b, n, i) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF c = END THEN Part
  ELSE IF c = 45 THEN ScanComment(e, b, n, i + m)
  ELSE IF c = 91 THEN T("COND_SECT_OPEN", i + m)
  ELSE IF DeclLetter(e, b, i, c) THEN DeclWord(e, b, n, i + Wd(e, b, i, c))
  ELSE T("INVALID", i)

RECURSIVE ScanLit(_, _, _, _, _)
ScanLit(e, b, n, i, q) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF c < 0 THEN NoName(c, i)
  ELSE IF c = q THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN T("LITERAL_NEG", i + m)
    ELSE IF Sp(d) \/ d \in {62, 37, 91} THEN T("LITERAL", i + m) ELSE T("INVALID", i + m)
  ELSE ScanLit(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)), q)

\* i: after '%'
ScanPercent(e, b, n, i) ==
  LET c == K(e, b, n, i) IN
  IF NS(e, c) THEN
    LET j == NameEnd(e, b, n, i) d == K(e, b, n, j) IN
    IF d = 59 THEN T("PARAM_ENTITY_REF", j + Mb(e)) ELSE NoName(d, j)
  ELSE IF Sp(c) \/ c = 37 THEN T("PERCENT", i)
  ELSE NoName(c, i)

ScanPoundName(e, b, n, i) ==
  LET c == K(e, b, n, i) IN
  IF NS(e, c) THEN
    LET j == NameEnd(e, b, n, i) d == K(e, b, n, j) IN
    IF d = END THEN T("POUND_NAME_NEG", j)
    ELSE IF Sp(d) \/ d \in {41, 62, 37, 124} THEN T("POUND_NAME", j)
    ELSE NoName(d, j)
  ELSE NoName(c, i)

RECURSIVE PrologName(_, _, _, _, _)
PrologName(e, b, n, i, tok) ==
  LET m == Mb(e) j == NameEnd(e, b, n, i) d == K(e, b, n, j) IN
  IF d = END THEN T(CASE tok = "NAME" -> "NAME_NEG" [] tok = "NMTOKEN" -> "NMTOKEN_NEG" [] OTHER -> "PREFIXED_NAME_NEG", j)
  ELSE IF Sp(d) \/ d \in {62, 41, 44, 124, 91, 37} THEN T(tok, j)
  ELSE IF d = 58 THEN     \* (only with e.ns)
    CASE tok = "NAME" ->
         LET c == K(e, b, n, j + m) IN
         IF c = END THEN Part
         ELSE IF NC(e, c) THEN PrologName(e, b, n, j + m + Wd(e, b, j + m, c), "PREFIXED_NAME")
         ELSE PrologName(e, b, n, j + m, "NMTOKEN")
      [] tok = "PREFIXED_NAME" -> PrologName(e, b, n, j + m, "NMTOKEN")
      [] OTHER -> PrologName(e, b, n, j + m, tok)
  ELSE IF d \in {43, 42, 63} THEN
    IF tok = "NMTOKEN" THEN T("INVALID", j)
    ELSE T(CASE d = 43 -> "NAME_PLUS" [] d = 42 -> "NAME_ASTERISK" [] OTHER -> "NAME_QUESTION", j + m)
  ELSE NoName(d, j)

\* white space: a carriage return that ends the buffer is left for later (it may begin CR LF)
RECURSIVE PrologSp(_, _, _, _)
PrologSp(e, b, n, i) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF c = END THEN T("PROLOG_S", i)
  ELSE IF IsCR(e, c) THEN (IF i + m - 1 = n THEN T("PROLOG_S", i) ELSE PrologSp(e, b, n, i + m))
  ELSE IF Sp(c) THEN PrologSp(e, b, n, i + m)
  ELSE T("PROLOG_S", i)

\* may the character at i (not an ASCII one) be the start of an element in the eyes of the tokenizer?
HighStart(e, b, n, i, c) ==
  CASE e.k = "utf8" -> b[i] >= 192 /\ b[i] <= 244
    [] e.k \in {"u16le", "u16be"} ->
         \/ c = PARTC \/ c >= 256 \/ (c > 0 /\ NS(e, c))
         \/ c = BAD /\ U16(e, b, i) >= 55296 /\ U16(e, b, i) <= 56319
    [] e.k = "unk" -> e.map[b[i] + 1] < -1 \/ (c > 0 /\ NS(e, c))
    [] e.k = "cp" -> c >= 128
    [] OTHER -> c > 0 /\ NS(e, c)

PrologTok(e, b, n0, i) ==
  IF i > n0 THEN T("NONE", i)
  ELSE LET m == Mb(e) n == EndOf(e, n0, i) c == K(e, b, n, i) IN
  IF c = END THEN Part
  ELSE IF c = 34 \/ c = 39 THEN ScanLit(e, b, n, i + m, c)
  ELSE IF c = 60 THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN Part
    ELSE IF d = 33 THEN ScanDecl(e, b, n, i + 2 * m)
    ELSE IF d = 63 THEN ScanPi(e, b, n, i + 2 * m)
    ELSE IF (d >= 0 /\ d < 128 /\ NS(e, d)) \/ ((d < 0 \/ d >= 128) /\ HighStart(e, b, n, i + m, d))
         THEN T("INSTANCE_START", i)
    ELSE T("INVALID", i + m)
  ELSE IF IsCR(e, c) THEN (IF i + m - 1 = n THEN T("PROLOG_S_NEG", n + 1) ELSE PrologSp(e, b, n, i + m))
  ELSE IF Sp(c) THEN PrologSp(e, b, n, i + m)
  ELSE IF c = 37 THEN ScanPercent(e, b, n, i + m)
  ELSE IF c = 44 THEN T("COMMA", i + m)
  ELSE IF c = 91 THEN T("OPEN_BRACKET", i + m)
  ELSE IF c = 93 THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN T("CLOSE_BRACKET_NEG", 0)
    ELSE IF d = 93 THEN
      IF i + 3 * m - 1 > n THEN Part
      ELSE IF K(e, b, n, i + 2 * m) = 62 THEN T("COND_SECT_CLOSE", i + 3 * m) ELSE T("CLOSE_BRACKET", i + m)
    ELSE T("CLOSE_BRACKET", i + m)
  ELSE IF c = 40 THEN T("OPEN_PAREN", i + m)
  ELSE IF c = 41 THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN T("CLOSE_PAREN_NEG", 0)
    ELSE IF d = 42 THEN T("CLOSE_PAREN_ASTERISK", i + 2 * m)
    ELSE IF d = 63 THEN T("CLOSE_PAREN_QUESTION", i + 2 * m)
    ELSE IF d = 43 THEN T("CLOSE_PAREN_PLUS", i + 2 * m)
    ELSE IF Sp(d) \/ d \in {62, 44, 124, 41} THEN T("CLOSE_PAREN", i + m)
    ELSE T("INVALID", i + m)
  ELSE IF c = 124 THEN T("OR", i + m)
  ELSE IF c = 62 THEN T("DECL_CLOSE", i + m)
  ELSE IF c = 35 THEN ScanPoundName(e, b, n, i + m)
  ELSE IF NS(e, c) THEN PrologName(e, b, n, i + Wd(e, b, i, c), "NAME")
  ELSE IF NC(e, c) \/ c = 58 THEN PrologName(e, b, n, i + Wd(e, b, i, c), "NMTOKEN")
  ELSE NoName(c, i)

-------------------------------------------------------------------------------
(* Literals *)

RECURSIVE ValueRun(_, _, _, _, _)
ValueRun(e, b, n, i, ent) ==
  LET c == K(e, b, n, i) IN
  IF c = END \/ c = 38 \/ c = 10 \/ IsCR(e, c) \/ (ent /\ c = 37) \/ (~ent /\ Sp(c)) THEN T("DATA_CHARS", i)
  ELSE IF ~ent /\ c = 60 THEN T("INVALID", i)
  ELSE IF c < 0 THEN ValueRun(e, b, n, i + Mb(e), ent)     \* (cannot happen in a scanned literal)
  ELSE ValueRun(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)), ent)

ValueTok(e, b, n, i, ent) ==
  IF i > n THEN T("NONE", i)
  ELSE LET m == Mb(e) c == K(e, b, n, i) IN
  IF c = END THEN Part
  ELSE IF c = 38 THEN ScanRef(e, b, n, i + m)
  ELSE IF ent /\ c = 37 THEN
    LET r == ScanPercent(e, b, n, i + m) IN IF r.t = "PERCENT" THEN T("INVALID", r.n) ELSE r
  ELSE IF c = 10 THEN T("DATA_NEWLINE", i + m)
  ELSE IF IsCR(e, c) THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN T("TRAILING_CR", i + m) ELSE T("DATA_NEWLINE", IF d = 10 THEN i + 2 * m ELSE i + m)
  ELSE IF ~ent /\ Sp(c) THEN T("ATTRIBUTE_VALUE_S", i + m)
  ELSE ValueRun(e, b, n, i, ent)

\* IGNORE section: up to its matching "]]>"
RECURSIVE IgnoreTok(_, _, _, _, _)
IgnoreTok(e, b, n, i, level) ==
  LET m == Mb(e) c == K(e, b, n, i) IN
  IF c < 0 THEN NoName(c, i)
  ELSE IF c = 60 THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN Part
    ELSE IF d # 33 THEN IgnoreTok(e, b, n, i + m, level)
    ELSE LET f == K(e, b, n, i + 2 * m) IN
      IF f = END THEN Part
      ELSE IF f = 91 THEN IgnoreTok(e, b, n, i + 3 * m, level + 1)
      ELSE IgnoreTok(e, b, n, i + 2 * m, level)
  ELSE IF c = 93 THEN
    LET d == K(e, b, n, i + m) IN
    IF d = END THEN Part
    ELSE IF d # 93 THEN IgnoreTok(e, b, n, i + m, level)
    ELSE LET f == K(e, b, n, i + 2 * m) IN
      IF f = END THEN Part
      ELSE IF f # 62 THEN IgnoreTok(e, b, n, i + m, level)
      ELSE IF level = 0 THEN T("IGNORE_SECT", i + 3 * m) ELSE IgnoreTok(e, b, n, i + 3 * m, level - 1)
  ELSE IgnoreTok(e, b, n, PassText(e, b, n, i + Wd(e, b, i, c)), level)

-------------------------------------------------------------------------------
(* Text *)

\* the characters of bytes i..j-1 (of valid text), line ends as they are
DecStep(e, b, j, q) ==
  IF q.i >= j THEN q
  ELSE LET c == K(e, b, j - 1, q.i) IN
    IF c < 0 THEN [q EXCEPT !.i = j] ELSE [i |-> q.i + Wd(e, b, q.i, c), a |-> Append(q.a, c)]
RECURSIVE DecodeAcc(_, _, _, _)
DecodeAcc(e, b, j, q) ==
  IF q.i >= j THEN q.a ELSE DecodeAcc(e, b, j, FoldLeft(LAMBDA r, k : DecStep(e, b, j, r), q, Iter32))
Decode(e, b, i, j) ==
  IF e.k = "cp" THEN SubSeq(b, i, j - 1)
  ELSE IF e.k \in {"utf8", "l1", "ascii"} /\ \A k \in i..(j - 1) : b[k] < 128 THEN SubSeq(b, i, j - 1)
  ELSE DecodeAcc(e, b, j, [i |-> i, a |-> <<>>])

\* CR LF and CR become LF
NormLines(s) ==
  IF \E i \in 1..Len(s) : s[i] = 13
  THEN FoldLeft(LAMBDA a, i : IF s[i] = 13 THEN Append(a, 10) ELSE IF s[i] = 10 /\ i > 1 /\ s[i - 1] = 13 THEN a ELSE Append(a, s[i]),
                <<>>, [i \in 1..Len(s) |-> i])
  ELSE s

\* number of a character reference in b[i..]: "&#..;"; -1 if no character
RECURSIVE RefAcc(_, _, _, _, _)
RefAcc(e, b, i, base, acc) ==
  LET c == K(e, b, Len(b), i) IN
  IF c = 59 THEN (IF IsChar(acc) THEN acc ELSE -1)
  ELSE IF acc >= 1114112 THEN -1
  ELSE LET d == IF Dig(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55 IN
       RefAcc(e, b, i + Mb(e), base, acc * base + d)
CharRefNumber(e, b, i) ==
  LET m == Mb(e) IN
  IF K(e, b, Len(b), i + 2 * m) = 120 THEN RefAcc(e, b, i + 3 * m, 16, 0) ELSE RefAcc(e, b, i + 2 * m, 10, 0)

Predefined(s) ==
  CASE s = <<108, 116>> -> 60
    [] s = <<103, 116>> -> 62
    [] s = <<97, 109, 112>> -> 38
    [] s = <<97, 112, 111, 115>> -> 39
    [] s = <<113, 117, 111, 116>> -> 34
    [] OTHER -> 0

PubidChar(c) ==
  \/ c \in {32, 13, 10}
  \/ (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ Dig(c)
  \/ c \in {45, 39, 40, 41, 43, 44, 46, 47, 58, 61, 63, 59, 33, 42, 35, 64, 36, 95, 37}

RECURSIVE NormPubAcc(_, _, _)
NormPubAcc(s, i, acc) ==
  IF i > Len(s) THEN (IF acc # <<>> /\ acc[Len(acc)] = 32 THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc)
  ELSE IF s[i] \in {32, 13, 10}
       THEN NormPubAcc(s, i + 1, IF acc # <<>> /\ acc[Len(acc)] # 32 THEN Append(acc, 32) ELSE acc)
  ELSE NormPubAcc(s, i + 1, Append(acc, s[i]))
NormPub(s) == NormPubAcc(s, 1, <<>>)

\* index of the first ':' in a name, 0 if none
RECURSIVE ColonAt(_, _)
ColonAt(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 58 THEN i ELSE ColonAt(s, i + 1)
===============================================================================
