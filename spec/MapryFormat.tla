----------------------------- MODULE MapryFormat -----------------------------
(* Which date/time formats a schema may contain, and for which of them code  *)
(* can be generated.                                                         *)
(*                                                                           *)
(* A format is a text. It consists of directives (a per cent sign and        *)
(* a letter, or two per cent signs) and literal text. Go does not know       *)
(* directives: the format is translated to a layout, in which Go looks for   *)
(* elements from left to right. The format is fine for Go exactly if Go      *)
(* finds the elements which stand for the directives and no others.          *)
EXTENDS Naturals, Sequences, FiniteSets, MapryJudge

IsLetter(c) == (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)
IsLower(c) == 97 <= c /\ c <= 122
IsDigit(c) == 48 <= c /\ c <= 57

-----------------------------------------------------------------------------
(* Tokens                                                                    *)

\* Sequence of [d |-> code point of the directive or 0, c |-> literal];
\* ok is FALSE if a per cent sign starts no directive.
RECURSIVE Lex(_, _, _, _)
Lex(f, i, toks, lit) ==
  LET flush == IF lit = <<>> THEN toks ELSE Append(toks, [d |-> 0, c |-> lit]) IN
  IF i > Len(f) THEN [ok |-> TRUE, toks |-> flush]
  ELSE IF f[i] # 37 THEN Lex(f, i + 1, toks, Append(lit, f[i]))
  ELSE IF i < Len(f) /\ (IsLetter(f[i + 1]) \/ f[i + 1] = 37)
  THEN Lex(f, i + 2, Append(flush, [d |-> f[i + 1], c |-> <<>>]), <<>>)
  ELSE [ok |-> FALSE, toks |-> <<>>]
Tokens(f) == Lex(f, 1, <<>>, <<>>)

\* %a %A %b %B %d %e %m %y %Y
OfDate == {97, 65, 98, 66, 100, 101, 109, 121, 89}
\* %H %I %l %M %p %P %S
OfTime == {72, 73, 108, 77, 112, 80, 83}
\* %z %Z %%
OfBoth == {122, 90, 37}

Admissible(kind) == CASE kind = "date" -> OfDate \cup OfBoth
                      [] kind = "time" -> OfTime \cup OfBoth
                      [] kind = "datetime" -> OfDate \cup OfTime \cup OfBoth

Directives(toks) == {toks[i].d : i \in 1..Len(toks)} \ {0}

\* May a schema contain the format?
WellFormed(kind, f) ==
  LET t == Tokens(f) IN
  /\ t.ok
  /\ Directives(t.toks) \subseteq Admissible(kind)
  /\ kind \in {"date", "time"} => t.toks # <<>>

-----------------------------------------------------------------------------
(* Go                                                                        *)

Jan == <<74, 97, 110>>
January == <<74, 97, 110, 117, 97, 114, 121>>
Mon == <<77, 111, 110>>
Monday == <<77, 111, 110, 100, 97, 121>>
MST == <<77, 83, 84>>
Y2006 == <<50, 48, 48, 54>>
PM == <<80, 77>>
pm == <<112, 109>>
Offset == <<45, 48, 55, 48, 48>> \* -0700

\* The element of a Go layout which stands for the directive.
ElementOf(d) ==
  CASE d = 97 -> Mon [] d = 65 -> Monday [] d = 98 -> Jan [] d = 66 -> January
    [] d = 100 -> <<48, 50>> [] d = 101 -> <<95, 50>> [] d = 109 -> <<48, 49>>
    [] d = 121 -> <<48, 54>> [] d = 89 -> Y2006 [] d = 72 -> <<49, 53>>
    [] d = 73 -> <<48, 51>> [] d = 108 -> <<51>> [] d = 77 -> <<48, 52>>
    [] d = 80 -> pm [] d = 112 -> PM [] d = 83 -> <<48, 53>>
    [] d = 122 -> Offset [] d = 90 -> MST [] d = 37 -> <<37>>

RECURSIVE LayoutFrom(_, _, _, _)
LayoutFrom(toks, i, layout, elements) ==
  IF i > Len(toks) THEN [layout |-> layout, elements |-> elements]
  ELSE IF toks[i].d = 0 THEN LayoutFrom(toks, i + 1, layout \o toks[i].c, elements)
  ELSE LET e == ElementOf(toks[i].d) IN
       LayoutFrom(toks, i + 1, layout \o e,
                  IF toks[i].d = 37 THEN elements
                  ELSE Append(elements, <<Len(layout) + 1, Len(layout) + Len(e)>>))
Layout(toks) == LayoutFrom(toks, 1, <<>>, <<>>)

At(l, i, word) == /\ i + Len(word) - 1 <= Len(l)
                  /\ \A j \in 1..Len(word) : l[i + j - 1] = word[j]
LowerAt(l, i) == i <= Len(l) /\ IsLower(l[i])
DigitAt(l, i) == i <= Len(l) /\ IsDigit(l[i])

\* The suffixes of the offset after the hours: 0000, :00:00, 00, :00, nothing
ZoneTails == <<<<48, 48, 48, 48>>, <<58, 48, 48, 58, 48, 48>>, <<48, 48>>, <<58, 48, 48>>, <<>>>>
ZoneAt(l, i) ==
  LET hits == {k \in 1..5 : At(l, i + 1, <<48, 55>> \o ZoneTails[k])} IN
  IF hits = {} THEN 0
  ELSE LET k == CHOOSE k \in hits : \A o \in hits : k <= o IN 3 + Len(ZoneTails[k])

\* Runs of one digit after a point or comma are a fraction of the second.
RECURSIVE RunLength(_, _)
RunLength(l, i) == IF i < Len(l) /\ l[i + 1] = l[i] THEN 1 + RunLength(l, i + 1) ELSE 1

\* Length of the element which Go recognizes at position i; 0 if none.
\* Second component: how many characters before it are literal.
ElementAt(l, i) ==
  CASE l[i] = 74 -> IF At(l, i, January) THEN 7
                    ELSE IF At(l, i, Jan) /\ ~LowerAt(l, i + 3) THEN 3 ELSE 0
    [] l[i] = 77 -> IF At(l, i, Monday) THEN 6
                    ELSE IF At(l, i, Mon) /\ ~LowerAt(l, i + 3) THEN 3
                    ELSE IF At(l, i, MST) THEN 3 ELSE 0
    [] l[i] = 48 -> IF DigitAt(l, i + 1) /\ l[i + 1] \in 49..54 THEN 2
                    ELSE IF At(l, i, <<48, 48, 50>>) THEN 3 ELSE 0
    [] l[i] = 49 -> IF At(l, i, <<49, 53>>) THEN 2 ELSE 1
    [] l[i] = 50 -> IF At(l, i, Y2006) THEN 4 ELSE 1
    [] l[i] = 95 -> IF At(l, i, <<95>> \o Y2006) THEN 0 \* the year follows
                    ELSE IF At(l, i, <<95, 50>>) THEN 2
                    ELSE IF At(l, i, <<95, 95, 50>>) THEN 3 ELSE 0
    [] l[i] \in {51, 52, 53} -> 1
    [] l[i] = 80 -> IF At(l, i, PM) THEN 2 ELSE 0
    [] l[i] = 112 -> IF At(l, i, pm) THEN 2 ELSE 0
    [] l[i] = 45 \/ l[i] = 90 -> ZoneAt(l, i)
    [] l[i] = 46 \/ l[i] = 44 ->
         IF i < Len(l) /\ l[i + 1] \in {48, 57} /\ ~DigitAt(l, i + 1 + RunLength(l, i + 1))
         THEN 1 + RunLength(l, i + 1) ELSE 0
    [] OTHER -> 0

RECURSIVE ElementsFrom(_, _)
ElementsFrom(l, i) ==
  IF i > Len(l) THEN <<>>
  ELSE LET n == ElementAt(l, i) IN
       IF n = 0 THEN ElementsFrom(l, i + 1)
       ELSE <<<<i, i + n - 1>>>> \o ElementsFrom(l, i + n)

\* Go reads digits after the seconds as their fraction even though there is
\* no fraction in the layout.
FractionAt(l, i) ==
  /\ At(l, i, <<48, 53>>) /\ i + 3 <= Len(l) /\ l[i + 2] \in {44, 46}
  /\ DigitAt(l, i + 3) \/ (At(l, i + 3, <<95, 50>>) /\ ~At(l, i + 3, <<95>> \o Y2006))

\* Go finds exactly what the format says.
ReadAlike(f) == LET l == Layout(Tokens(f).toks) IN
  /\ ElementsFrom(l.layout, 1) = l.elements
  /\ \A i \in 1..Len(l.layout) : ~FractionAt(l.layout, i)

Generated(kind, f, lang) == WellFormed(kind, f) /\ (lang = "go" => ReadAlike(f))

-----------------------------------------------------------------------------
(* The recorded verdicts: item.got[lang] tells whether code was generated,   *)
(* item.how[l] whether a refusal names the place of the format;              *)
(* item.elements (of a layout) is what the library of Go found.              *)

BadFormat(item) ==
  IF "layout" \in DOMAIN item
  THEN IF ElementsFrom(item.layout, 1) = item.elements THEN {} ELSE {"Go reads the layout otherwise"}
  ELSE {"wrongly " \o (IF item.got[l] THEN "accepted" ELSE "refused") \o " for " \o l :
        l \in {l \in DOMAIN item.got : item.got[l] # Generated(item.kind, item.f, l)}}
       \cup {"refused without its place for " \o l : l \in {l \in DOMAIN item.got : item.how[l] = "otherwise"}}

=============================================================================
