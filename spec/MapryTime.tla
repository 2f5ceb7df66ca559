------------------------------ MODULE MapryTime ------------------------------
(* Date/time formats: which texts they accept and which point in time the    *)
(* texts denote.                                                             *)
(*                                                                           *)
(* A format is a sequence of tokens [d |-> directive letter or "", c |->     *)
(* code points of the literal text]. "yes": the text is exactly what is      *)
(* written for some point in time; "no": the text does not match the format  *)
(* under any reading; "may": a sloppy notation (missing padding, other case, *)
(* more blanks) which the libraries of the languages treat differently.      *)
EXTENDS MapryText

Digit(c) == 48 <= c /\ c <= 57
Blank(c) == c = 32 \/ (9 <= c /\ c <= 13)
Letter(c) == (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)
Lower(c) == IF 65 <= c /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF 97 <= c /\ c <= 122 THEN c - 32 ELSE c

Weekdays == << \* Monday first
  <<77,111,110,100,97,121>>, <<84,117,101,115,100,97,121>>,
  <<87,101,100,110,101,115,100,97,121>>, <<84,104,117,114,115,100,97,121>>,
  <<70,114,105,100,97,121>>, <<83,97,116,117,114,100,97,121>>,
  <<83,117,110,100,97,121>> >>
Months == <<
  <<74,97,110,117,97,114,121>>, <<70,101,98,114,117,97,114,121>>,
  <<77,97,114,99,104>>, <<65,112,114,105,108>>, <<77,97,121>>,
  <<74,117,110,101>>, <<74,117,108,121>>, <<65,117,103,117,115,116>>,
  <<83,101,112,116,101,109,98,101,114>>, <<79,99,116,111,98,101,114>>,
  <<78,111,118,101,109,98,101,114>>, <<68,101,99,101,109,98,101,114>> >>

IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* Days since 0000-03-01 (proleptic Gregorian); only differences matter.
DayNumber(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      mm == IF m <= 2 THEN m + 9 ELSE m - 3
  IN 365 * yy + yy \div 4 - yy \div 100 + yy \div 400 + (153 * mm + 2) \div 5 + d - 1
\* 2000-01-03 was a Monday. 1 is Monday.
Weekday(y, m, d) == ((DayNumber(y, m, d) - DayNumber(2000, 1, 3)) % 7) + 1

PrefixAt(c, i, word) ==
  /\ i + Len(word) - 1 <= Len(c)
  /\ \A j \in 1..Len(word) : c[i + j - 1] = word[j]

RECURSIVE NumAt(_, _, _)
NumAt(c, i, j) == IF j < i THEN 0 ELSE 10 * NumAt(c, i, j - 1) + (c[j] - 48)

DigitsAt(c, i, n) == i + n - 1 <= Len(c) /\ \A j \in i..(i + n - 1) : Digit(c[j])

-----------------------------------------------------------------------------
(* Exact notation: a deterministic parse into a record of components.        *)
(* 9999 marks a component the format does not determine.                     *)

None == 9999999
Nothing == [ok |-> TRUE, p |-> 1, y |-> None, m |-> None, d |-> None,
            H |-> None, I |-> None, pm |-> None, M |-> None, S |-> None,
            wd |-> None, z |-> None, odd |-> FALSE]
Fail == [Nothing EXCEPT !.ok = FALSE]

\* A component given twice must agree with itself.
Put(r, field, val, n) ==
  IF r[field] # None /\ r[field] # val THEN [Fail EXCEPT !.odd = TRUE]
  ELSE [r EXCEPT ![field] = val, !.p = r.p + n]

Fixed(r, c, n, lo, hi, field) ==
  IF DigitsAt(c, r.p, n) /\ NumAt(c, r.p, r.p + n - 1) \in lo..hi
  THEN Put(r, field, NumAt(c, r.p, r.p + n - 1), n) ELSE Fail

\* Space-padded (%e): two characters. If further digits follow, the libraries
\* of Go and C++ take the next one, too: such a text is odd.
Padded(r, c, lo, hi, field) ==
  IF r.p + 1 <= Len(c) /\ c[r.p] = 32 /\ Digit(c[r.p + 1]) /\ c[r.p + 1] - 48 \in lo..hi
  THEN LET q == Put(r, field, c[r.p + 1] - 48, 2) IN
       IF r.p + 2 <= Len(c) /\ Digit(c[r.p + 2]) THEN [q EXCEPT !.odd = TRUE] ELSE q
  ELSE IF DigitsAt(c, r.p, 2) /\ c[r.p] # 48
  THEN Fixed(r, c, 2, lo, hi, field) ELSE Fail

\* Unpadded (%l): as many digits as needed.
Unpadded(r, c, lo, hi, field) ==
  IF DigitsAt(c, r.p, 2) /\ c[r.p] # 48 /\ NumAt(c, r.p, r.p + 1) \in lo..hi
  THEN Put(r, field, NumAt(c, r.p, r.p + 1), 2)
  ELSE IF DigitsAt(c, r.p, 1) /\ c[r.p] - 48 \in lo..hi
  THEN LET q == Put(r, field, c[r.p] - 48, 1) IN
       IF r.p + 1 <= Len(c) /\ Digit(c[r.p + 1]) THEN [q EXCEPT !.odd = TRUE] ELSE q
  ELSE Fail

Named(r, c, names, abbreviated, field) ==
  LET word(j) == IF abbreviated THEN SubSeq(names[j], 1, 3) ELSE names[j]
      hits == {j \in 1..Len(names) : PrefixAt(c, r.p, word(j))}
  IN IF hits = {} THEN Fail
     ELSE LET j == CHOOSE j \in hits : TRUE IN Put(r, field, j, Len(word(j)))

Step(r, t, c) ==
  CASE t.d = "" -> IF PrefixAt(c, r.p, t.c) THEN [r EXCEPT !.p = r.p + Len(t.c)] ELSE Fail
    [] t.d = "%" -> IF PrefixAt(c, r.p, <<37>>) THEN [r EXCEPT !.p = r.p + 1] ELSE Fail
    [] t.d = "Y" -> Fixed(r, c, 4, 0, 9999, "y")
    [] t.d = "y" -> IF DigitsAt(c, r.p, 2)
                    THEN LET n == NumAt(c, r.p, r.p + 1) IN
                         Put(r, "y", IF n >= 69 THEN 1900 + n ELSE 2000 + n, 2)
                    ELSE Fail
    [] t.d = "m" -> Fixed(r, c, 2, 1, 12, "m")
    [] t.d = "d" -> Fixed(r, c, 2, 1, 31, "d")
    [] t.d = "e" -> Padded(r, c, 1, 31, "d")
    [] t.d = "H" -> Fixed(r, c, 2, 0, 23, "H")
    [] t.d = "I" -> Fixed(r, c, 2, 1, 12, "I")
    [] t.d = "l" -> Unpadded(r, c, 1, 12, "I")
    [] t.d = "M" -> Fixed(r, c, 2, 0, 59, "M")
    [] t.d = "S" -> Fixed(r, c, 2, 0, 59, "S")
    [] t.d = "a" -> Named(r, c, Weekdays, TRUE, "wd")
    [] t.d = "A" -> Named(r, c, Weekdays, FALSE, "wd")
    [] t.d = "b" -> Named(r, c, Months, TRUE, "m")
    [] t.d = "B" -> Named(r, c, Months, FALSE, "m")
    [] t.d = "p" -> IF PrefixAt(c, r.p, <<65, 77>>) THEN Put(r, "pm", 0, 2)
                    ELSE IF PrefixAt(c, r.p, <<80, 77>>) THEN Put(r, "pm", 1, 2) ELSE Fail
    [] t.d = "P" -> IF PrefixAt(c, r.p, <<97, 109>>) THEN Put(r, "pm", 0, 2)
                    ELSE IF PrefixAt(c, r.p, <<112, 109>>) THEN Put(r, "pm", 1, 2) ELSE Fail
    [] t.d = "z" -> IF r.p <= Len(c) /\ c[r.p] \in {43, 45} /\ DigitsAt(c, r.p + 1, 4)
                       /\ NumAt(c, r.p + 1, r.p + 2) <= 23
                       /\ NumAt(c, r.p + 3, r.p + 4) <= 59
                    THEN Put(r, "z",
                             (IF c[r.p] = 45 THEN -1 ELSE 1) *
                             (60 * NumAt(c, r.p + 1, r.p + 2) + NumAt(c, r.p + 3, r.p + 4)), 5)
                    ELSE Fail
    [] t.d = "Z" -> IF PrefixAt(c, r.p, <<85, 84, 67>>) THEN [r EXCEPT !.p = r.p + 3]
                    ELSE [Fail EXCEPT !.odd = TRUE]

RECURSIVE Steps(_, _, _, _)
Steps(r, fmt, j, c) ==
  IF j > Len(fmt) THEN (IF r.p = Len(c) + 1 THEN r ELSE Fail)
  ELSE LET q == Step(r, fmt[j], c) IN IF q.ok THEN Steps(q, fmt, j + 1, c) ELSE q

Exact(fmt, c) == Steps(Nothing, fmt, 1, c)

Has(fmt, ds) == \E j \in 1..Len(fmt) : fmt[j].d \in ds

\* The hour of the day, if the format determines it.
HourOf(r) == IF r.H # None THEN r.H
             ELSE IF r.I # None /\ r.pm # None THEN (r.I % 12) + 12 * r.pm
             ELSE None

\* Directives which the parsing library of a language does not know.
Foreign(lang) == IF lang = "date.h" THEN {"l", "P", "e", "z", "Z"} ELSE {}

\* date.h needs a complete date, and the meridian indicator after the hour (a
\* known finding).
Incomplete(fmt) ==
  LET at(ds) == {j \in 1..Len(fmt) : fmt[j].d \in ds}
      parts == {at({"Y", "y"}), at({"m", "b", "B"}), at({"d", "e"})}
  IN \/ \E p \in parts : p = {}
        /\ at({"Y", "y", "m", "b", "B", "d", "e", "a", "A"}) # {}
     \/ \E i \in at({"p", "P"}), j \in at({"I", "l"}) : i < j

\* Where the libraries legitimately differ although the notation is exact.
Murky(fmt, r) ==
  \/ r.odd
  \/ r.y # None /\ (r.y < 1900 \/ r.y > 9000)
  \/ r.I # None /\ r.pm = None
  \/ r.pm # None /\ r.I = None
  \/ r.H # None /\ r.I # None
  \/ r.d # None /\ r.m # None /\ r.y = None
  \/ r.d # None /\ r.m = None
  \/ r.wd # None /\ (r.y = None \/ r.m = None \/ r.d = None)
  \/ r.wd # None /\ r.y # None /\ r.m # None /\ r.d # None
     /\ r.d <= DaysIn(r.y, r.m) /\ r.wd # Weekday(r.y, r.m, r.d)
  \/ Has(fmt, {"Z"}) \/ (Has(fmt, {"Y", "y"}) /\ Has(fmt, {"Y"}) /\ Has(fmt, {"y"}))

RealDay(r) == r.y = None \/ r.m = None \/ r.d = None \/ r.d <= DaysIn(r.y, r.m)

-----------------------------------------------------------------------------
(* Sloppy notation: a superset of what the library of any language accepts.  *)

SkipBlanks(c, i) ==
  {j \in i..(Len(c) + 1) : \A n \in i..(j - 1) : Blank(c[n])}

NumEnds(c, i, width, lo, hi) ==
  UNION {{j + n : n \in {n \in 1..width : DigitsAt(c, j, n) /\ NumAt(c, j, j + n - 1) \in lo..hi}}
         : j \in SkipBlanks(c, i)}

LetterEnds(c, i) ==
  UNION {{n \in (j + 1)..(Len(c) + 1) : \A q \in j..(n - 1) : Letter(c[q])}
         : j \in SkipBlanks(c, i)}

RECURSIVE LitEnds(_, _, _, _)
LitEnds(c, i, lit, j) ==
  IF j > Len(lit) THEN {i}
  ELSE IF Blank(lit[j])
  THEN UNION {LitEnds(c, p, lit, j + 1) : p \in SkipBlanks(c, i)}
  ELSE UNION {IF p <= Len(c) /\ Lower(c[p]) = Lower(lit[j])
              THEN LitEnds(c, p + 1, lit, j + 1) ELSE {} : p \in SkipBlanks(c, i)}

SloppyEnds(t, c, i) ==
  CASE t.d = "" -> LitEnds(c, i, t.c, 1)
    [] t.d = "%" -> LitEnds(c, i, <<37>>, 1)
    [] t.d = "Y" -> NumEnds(c, i, 9, 0, 999999999)
                    \cup (UNION {IF p <= Len(c) /\ c[p] \in {43, 45}
                                 THEN NumEnds(c, p + 1, 9, 0, 999999999) ELSE {}
                                 : p \in SkipBlanks(c, i)})
    [] t.d = "y" -> NumEnds(c, i, 2, 0, 99)
    [] t.d = "m" -> NumEnds(c, i, 2, 1, 12)
    [] t.d \in {"d", "e"} -> NumEnds(c, i, 2, 1, 31)
    [] t.d = "H" -> NumEnds(c, i, 2, 0, 23)
    [] t.d = "count" -> NumEnds(c, i, 2, 0, 99)
    [] t.d \in {"I", "l"} -> NumEnds(c, i, 2, 1, 12)
    [] t.d = "M" -> NumEnds(c, i, 2, 0, 59)
    [] t.d = "S" -> LET e == NumEnds(c, i, 2, 0, 61) IN
                    e \cup UNION {IF p <= Len(c) /\ c[p] \in {44, 46}
                                  THEN NumEnds(c, p + 1, 9, 0, 999999999) ELSE {} : p \in e}
    [] t.d \in {"a", "A", "b", "B", "p", "P"} -> LetterEnds(c, i)
    [] t.d = "z" -> {j \in (i + 1)..(Len(c) + 1) :
                      \A n \in i..(j - 1) : Digit(c[n]) \/ Blank(c[n]) \/ c[n] \in {43, 45, 46, 58, 90, 122}}
    [] t.d = "Z" -> {j \in i..(Len(c) + 1) : TRUE}

RECURSIVE SloppySteps(_, _, _, _)
SloppySteps(starts, fmt, j, c) ==
  IF starts = {} \/ j > Len(fmt) THEN starts
  ELSE SloppySteps(UNION {SloppyEnds(fmt[j], c, i) : i \in starts}, fmt, j + 1, c)

SloppyMatch(fmt, c) ==
  \E i \in SloppySteps({1}, fmt, 1, c) :
     i = Len(c) + 1 \/ (\A n \in i..Len(c) : Blank(c[n]))

\* date.h does not look at what follows, and reads durations for times (known
\* findings).
SloppyStart(fmt, c) ==
  SloppySteps({1}, [j \in 1..Len(fmt) |-> IF fmt[j].d \in {"H", "M", "S"} THEN [fmt[j] EXCEPT !.d = "count"] ELSE fmt[j]], 1, c) # {}

-----------------------------------------------------------------------------

\* Is the text accepted for the format in the language?
TimeVerdict(fmt, c, lang) ==
  LET r == Exact(fmt, c) IN
  IF r.ok THEN
       IF Has(fmt, Foreign(lang)) \/ (lang = "date.h" /\ Incomplete(fmt)) THEN "may"
       ELSE IF Murky(fmt, r) THEN "may"
       ELSE IF ~RealDay(r) THEN (IF lang = "cpp" THEN "may" ELSE "no")
       ELSE "yes"
  ELSE IF SloppyMatch(fmt, c) \/ (lang = "date.h" /\ SloppyStart(fmt, c)) THEN "may" ELSE "no"

\* The observed point in time v = <<y, m, d, H, M, S, microseconds, offset in
\* minutes or 9999999>> has all the components which the text determines.
SameTime(fmt, c, v) ==
  LET r == Exact(fmt, c)
      same(a, b) == a = None \/ a = b
  IN /\ same(r.y, v[1]) /\ same(r.m, v[2]) /\ same(r.d, v[3])
     /\ same(HourOf(r), v[4]) /\ same(r.M, v[5]) /\ same(r.S, v[6])
     /\ v[7] = 0
     /\ (v[8] = None \/ same(r.z, v[8]))

\* Two exact notations denote the same point in time.
SameText(fmt, a, b) ==
  LET x == Exact(fmt, a)  y == Exact(fmt, b) IN
  /\ y.ok
  /\ <<x.y, x.m, x.d, x.H, x.I, x.pm, x.M, x.S, x.z>>
       = <<y.y, y.m, y.d, y.H, y.I, y.pm, y.M, y.S, y.z>>
=============================================================================
