---------------------------- MODULE MapryDuration ----------------------------
(* ISO 8601 durations: which texts are durations, which duration they denote *)
(* and whether the languages can represent it.                               *)
(*                                                                           *)
(* Magnitudes are natural numbers of unbounded size, as limbs (base 10000)   *)
(* the LEAST significant first; a duration is counted in units of            *)
(* 10^(-4q) nanoseconds, where q is chosen so that the count is exact.       *)
EXTENDS MapryText

DigitC(c) == 48 <= c /\ c <= 57

RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

At(a, j) == IF j <= Len(a) THEN a[j] ELSE 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, j, carry) ==
  IF j > Len(a) /\ j > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == At(a, j) + At(b, j) + carry
       IN <<s % 10000>> \o AddFrom(a, b, j + 1, s \div 10000)
BAdd(a, b) == Trim(AddFrom(a, b, 1, 0))

RECURSIVE SubFrom(_, _, _, _)   \* requires a >= b
SubFrom(a, b, j, borrow) ==
  IF j > Len(a) THEN <<>>
  ELSE LET s == a[j] - At(b, j) - borrow
       IN IF s < 0 THEN <<s + 10000>> \o SubFrom(a, b, j + 1, 1)
          ELSE <<s>> \o SubFrom(a, b, j + 1, 0)
BSub(a, b) == Trim(SubFrom(a, b, 1, 0))

RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, n, j, carry) ==   \* a * n for a limb n
  IF j > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == a[j] * n + carry
       IN <<s % 10000>> \o ScaleFrom(a, n, j + 1, s \div 10000)
BScale(a, n) == Trim(ScaleFrom(a, n, 1, 0))

Zeros(n) == [j \in 1..n |-> 0]
BShift(a, n) == IF a = <<>> THEN a ELSE Zeros(n) \o a   \* a * 10000^n

RECURSIVE BMul(_, _)
BMul(a, b) == IF b = <<>> THEN <<>>
              ELSE BAdd(BScale(a, b[1]), BShift(BMul(a, SubSeq(b, 2, Len(b))), 1))

RECURSIVE BCmpAt(_, _, _)
BCmpAt(a, b, j) == IF j = 0 THEN 0
                   ELSE IF a[j] < b[j] THEN -1
                   ELSE IF a[j] > b[j] THEN 1 ELSE BCmpAt(a, b, j - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE BCmpAt(a, b, Len(a))
BLe(a, b) == BCmp(a, b) <= 0

Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]

\* The natural number written with the digits (code points) of s.
RECURSIVE OfDigits(_)
OfDigits(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET n == Min2(4, Len(s))
           tail == SubSeq(s, Len(s) - n + 1, Len(s))
           v == CASE n = 1 -> tail[1] - 48
                  [] n = 2 -> 10 * (tail[1] - 48) + tail[2] - 48
                  [] n = 3 -> 100 * (tail[1] - 48) + 10 * (tail[2] - 48) + tail[3] - 48
                  [] n = 4 -> 1000 * (tail[1] - 48) + 100 * (tail[2] - 48)
                              + 10 * (tail[3] - 48) + tail[4] - 48
       IN Trim(<<v>> \o OfDigits(SubSeq(s, 1, Len(s) - n)))

-----------------------------------------------------------------------------
\* Grammar: an optional sign, P, optional parts with Y, M, W, D, and optionally
\* T with optional parts with H, M, S, in this order; each part is a natural
\* number without leading zeros, optionally with a fraction.

\* Seconds per unit, by the place of the unit in the grammar.
UnitSeconds == << <<6952, 3155>>, <<9746, 262>>, <<4800, 60>>, <<6400, 8>>,
                  <<3600>>, <<60>>, <<1>> >>
Letters == <<89, 77, 87, 68, 72, 77, 83>>    \* Y M W D H M S
Billion == <<0, 0, 10>>

RECURSIVE EndOfDigits(_, _)
EndOfDigits(c, i) == IF i <= Len(c) /\ DigitC(c[i]) THEN EndOfDigits(c, i + 1) ELSE i

\* Parse n at i: [ok, w(hole digits), f(raction digits), p(osition after)].
ParseN(c, i) ==
  LET e == EndOfDigits(c, i)
      bad == [ok |-> FALSE, w |-> <<>>, f |-> <<>>, p |-> i]
  IN IF e = i \/ (c[i] = 48 /\ e > i + 1) THEN bad
     ELSE IF e <= Len(c) /\ c[e] = 46
     THEN LET g == EndOfDigits(c, e + 1) IN
          IF g = e + 1 THEN bad
          ELSE [ok |-> TRUE, w |-> SubSeq(c, i, e - 1), f |-> SubSeq(c, e + 1, g - 1), p |-> g]
     ELSE [ok |-> TRUE, w |-> SubSeq(c, i, e - 1), f |-> <<>>, p |-> e]

NotDuration == [ok |-> FALSE, neg |-> FALSE, parts |-> <<>>]

\* Parts from unit u on; t says whether T was seen.
RECURSIVE ParseParts(_, _, _, _)
ParseParts(c, i, u, parts) ==
  IF i = Len(c) + 1 THEN [ok |-> TRUE, neg |-> FALSE, parts |-> parts]
  ELSE IF c[i] = 84 /\ u <= 5 THEN ParseParts(c, i + 1, 6, parts)
  ELSE LET n == ParseN(c, i) IN
       IF ~n.ok \/ n.p > Len(c) THEN NotDuration
       ELSE LET us == {v \in 1..7 : /\ Letters[v] = c[n.p]
                                    /\ IF u <= 5 THEN v >= u /\ v <= 4
                                       ELSE v >= u - 1}
            IN IF us = {} THEN NotDuration
               ELSE LET v == CHOOSE v \in us : TRUE IN
                    ParseParts(c, n.p + 1, IF v <= 4 THEN v + 1 ELSE v + 2,
                               Append(parts, [u |-> v, w |-> n.w, f |-> n.f]))
\* u counts 1..5 before T (5: no unit left) and 6..9 after it.

ParseDuration(c) ==
  LET signed == c # <<>> /\ c[1] \in {43, 45}
      i == IF signed THEN 2 ELSE 1
  IN IF i > Len(c) THEN NotDuration
     ELSE IF c[i] # 80 THEN NotDuration
     ELSE LET r == ParseParts(c, i + 1, 1, <<>>) IN
          IF r.ok THEN [r EXCEPT !.neg = signed /\ c[1] = 45] ELSE r

\* Number of quadruples of digits needed for the fractions.
Q(parts) == LET n(j) == (Len(parts[j].f) + 3) \div 4
                RECURSIVE mx(_)
                mx(j) == IF j = 0 THEN 0 ELSE Max2(n(j), mx(j - 1))
            IN mx(Len(parts))

PadZeros(s, n) == s \o [j \in 1..(n - Len(s)) |-> 48]

PartCount(part, q) ==
  BMul(BMul(OfDigits(part.w \o PadZeros(part.f, 4 * q)), UnitSeconds[part.u]), Billion)

RECURSIVE SumParts(_, _, _)
SumParts(parts, q, j) ==
  IF j > Len(parts) THEN <<>>
  ELSE BAdd(PartCount(parts[j], q), SumParts(parts, q, j + 1))

\* Fraction digits of the seconds; only these are taken digit by digit.
SecondDigits(parts) ==
  IF \E j \in 1..Len(parts) : parts[j].u = 7
  THEN LET j == CHOOSE j \in 1..Len(parts) : parts[j].u = 7 IN Len(parts[j].f) ELSE 0

\* Computed in integer arithmetic by every language.
IsExact(parts) == \A j \in 1..Len(parts) :
                    parts[j].u >= 3 /\ (parts[j].u = 7 \/ parts[j].f = <<>>)

MaxInt64 == <<5807, 5477, 368, 3372, 922>>
DayNs == BMul(<<6400, 8>>, Billion)
\* 999999999 days and 10^9 days
PyMax == BMul(<<9999, 9999, 9>>, DayNs)
PyOver == BMul(<<0, 0, 10>>, DayNs)

\* Margin for rounding: some units of the granularity and 10^-12 of the value.
Slack(n, q, lang) ==
  BAdd(BShift(IF lang = "py" THEN <<3000>> ELSE <<10>>, q),
       IF Len(n) > 3 THEN SubSeq(n, 4, Len(n)) ELSE <<>>)

\* "yes", "no", or "may" where rounding decides or a library gives up.
DurationVerdict(c, lang) ==
  LET r == ParseDuration(c)
      q == Q(r.parts)
      n == SumParts(r.parts, q, 1)
      s == IF IsExact(r.parts) THEN <<>> ELSE Slack(n, q, lang)
      lo == BShift(IF lang = "py" THEN PyMax ELSE MaxInt64, q)
      hi == BShift(IF lang = "py" THEN PyOver ELSE MaxInt64, q)
  IN IF ~r.ok THEN "no"
     ELSE IF SecondDigits(r.parts) > (IF lang = "py" THEN 6 ELSE 9) THEN "no"
     ELSE IF BLe(BAdd(n, s), lo) THEN "yes"
     ELSE IF BLe(n, BAdd(hi, s)) THEN "may"
     ELSE "no"

\* The observed number of nanoseconds x (a number record) is the duration.
SameDuration(c, x, lang) ==
  LET r == ParseDuration(c)
      q == Q(r.parts)
      n == SumParts(r.parts, q, 1)
      m == BShift(Rev(x.i), q)
      diff == IF BLe(n, m) THEN BSub(m, n) ELSE BSub(n, m)
  IN /\ r.ok /\ x.f = <<>>
     /\ (n = <<>> \/ m = <<>> \/ x.neg = r.neg)
     /\ IF IsExact(r.parts) THEN diff = <<>> ELSE BLe(diff, Slack(n, q, lang))

\* The two texts denote the same duration exactly.
SameDurationText(a, b) ==
  LET x == ParseDuration(a)  y == ParseDuration(b)
      q == Max2(Q(x.parts), Q(y.parts))
      m == SumParts(x.parts, q, 1)  n == SumParts(y.parts, q, 1)
  IN x.ok /\ y.ok /\ m = n /\ (m = <<>> \/ x.neg = y.neg)

\* The written text denotes exactly the number of nanoseconds x.
WrittenDuration(c, x) ==
  LET r == ParseDuration(c)
      q == Q(r.parts)
  IN /\ r.ok /\ x.f = <<>>
     /\ SumParts(r.parts, q, 1) = BShift(Rev(x.i), q)
     /\ (x.i = <<>> \/ x.neg = r.neg)
=============================================================================
