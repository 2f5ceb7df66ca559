------------------------------ MODULE MapryText ------------------------------
(* Texts, decimal numbers and patterns.                                      *)
(*                                                                           *)
(* A text is a sequence of code points. A number is a record                 *)
(*   neg: its sign, i: limbs (base 10000) of the integral part, the most     *)
(*   significant first and without leading zero limbs, f: limbs of the       *)
(*   fraction without trailing zero limbs, fl: notation with a fraction.     *)
(* A pattern is a syntax tree (see lib/model.py).                            *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* Numbers *)

RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, j) ==
  IF j > Len(a) THEN (IF j > Len(b) THEN 0 ELSE -1)
  ELSE IF j > Len(b) THEN 1
  ELSE IF a[j] < b[j] THEN -1
  ELSE IF a[j] > b[j] THEN 1
  ELSE LexCmp(a, b, j + 1)

MagCmp(x, y) ==
  IF Len(x.i) < Len(y.i) THEN -1
  ELSE IF Len(x.i) > Len(y.i) THEN 1
  ELSE LET c == LexCmp(x.i, y.i, 1) IN
       IF c # 0 THEN c ELSE LexCmp(x.f, y.f, 1)

\* -1, 0, 1 as x is less than, equal to or greater than y.
NumCmp(x, y) ==
  IF x.neg /\ ~y.neg THEN -1
  ELSE IF ~x.neg /\ y.neg THEN 1
  ELSE IF x.neg THEN MagCmp(y, x)
  ELSE MagCmp(x, y)

NumEq(x, y) == x.neg = y.neg /\ x.i = y.i /\ x.f = y.f

\* 2^63 = 922 3372 0368 5477 5808, 2^53 = 9007 1992 5474 0992
TwoTo63 == <<922, 3372, 368, 5477, 5808>>
TwoTo53 == <<9007, 1992, 5474, 992>>

IsWhole(x) == x.f = <<>>
MagLt(x, limbs) == \/ Len(x.i) < Len(limbs)
                   \/ Len(x.i) = Len(limbs) /\ LexCmp(x.i, limbs, 1) < 0
FitsInt64(x) == IsWhole(x) /\ (MagLt(x, TwoTo63) \/ (x.neg /\ x.i = TwoTo63))
\* Whole numbers which a double may round into the 64-bit range.
Near63(x) == IsWhole(x) /\ Len(x.i) = 5 /\ SubSeq(x.i, 1, 3) = <<922, 3372, 368>>
Within53(x) == MagLt(x, TwoTo53) \/ x.i = TwoTo53

-----------------------------------------------------------------------------
(* Patterns: the ends (exclusive positions) of the matches of re in text     *)
(* starting at position i. ``nl`` says whether $ also matches before a final *)
(* line feed, as it does in Python.                                          *)

InRanges(c, r) == \E j \in 1..Len(r) : r[j][1] <= c /\ c <= r[j][2]

RECURSIVE Ends(_, _, _, _), CatEnds(_, _, _, _, _), RepEnds(_, _, _, _, _, _, _)

Ends(re, text, i, nl) ==
  CASE re.k = "chr" -> IF i <= Len(text) /\ text[i] = re.c THEN {i + 1} ELSE {}
    [] re.k = "any" -> IF i <= Len(text) /\ text[i] # 10 THEN {i + 1} ELSE {}
    [] re.k = "set" -> IF i <= Len(text) /\ (InRanges(text[i], re.r) # re.neg)
                       THEN {i + 1} ELSE {}
    [] re.k = "bol" -> IF i = 1 THEN {i} ELSE {}
    [] re.k = "eol" -> IF i = Len(text) + 1
                          \/ (nl /\ i = Len(text) /\ text[i] = 10)
                       THEN {i} ELSE {}
    [] re.k = "cat" -> CatEnds(re.e, 1, text, {i}, nl)
    [] re.k = "alt" -> UNION {Ends(re.e[j], text, i, nl) : j \in 1..Len(re.e)}
    [] re.k = "rep" -> RepEnds(re.e, re.lo, re.hi, text, {i}, 0, nl)

CatEnds(es, j, text, starts, nl) ==
  IF j > Len(es) \/ starts = {} THEN starts
  ELSE CatEnds(es, j + 1, text,
               UNION {Ends(es[j], text, s, nl) : s \in starts}, nl)

\* All ends after n, n + 1, ... repetitions, of which at least lo (and, unless
\* hi is -1, at most hi) count.
RepEnds(e, lo, hi, text, starts, n, nl) ==
  LET here == IF n >= lo THEN starts ELSE {}
      next == UNION {Ends(e, text, s, nl) : s \in starts}
  IN IF starts = {} \/ n = hi THEN here
     ELSE IF n >= lo /\ next \subseteq starts THEN here
     ELSE here \cup RepEnds(e, lo, hi, text, next, n + 1, nl)

\* Does the text match in the language? Python matches a prefix, Go searches
\* anywhere, C++ matches the whole text.
Matches(re, text, lang) ==
  CASE lang = "py" -> Ends(re, text, 1, TRUE) # {}
    [] lang = "go" -> \E i \in 1..(Len(text) + 1) : Ends(re, text, i, FALSE) # {}
    [] lang = "cpp" -> (Len(text) + 1) \in Ends(re, text, 1, FALSE)

\* The three languages agree on the pattern and the text.
MatchesAlike(re, text) ==
  /\ Matches(re, text, "py") = Matches(re, text, "go")
  /\ Matches(re, text, "go") = Matches(re, text, "cpp")
=============================================================================
