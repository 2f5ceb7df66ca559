------------------------------ MODULE MapryNames ------------------------------
(* How the names of a schema are spelled in the plural, as keys of a JSON     *)
(* object and as identifiers of the generated languages.                      *)
(*                                                                            *)
(* A name is a sequence of code points: words joined by underscores.          *)
EXTENDS Naturals, Sequences, FiniteSets

Underscore == 95
UpperC(c) == IF 97 <= c /\ c <= 122 THEN c - 32 ELSE c
LowerC(c) == IF 65 <= c /\ c <= 90 THEN c + 32 ELSE c
Lower(n) == [i \in 1..Len(n) |-> LowerC(n[i])]
Capital(w) == IF w = <<>> THEN w ELSE <<UpperC(w[1])>> \o Tail(w)

\* Names of composites begin with a capital letter, those of properties with
\* a letter; both end with a letter or digit.
LetterC(c) == (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)
DigitC(c) == 48 <= c /\ c <= 57
PropertyName(n) ==
  /\ n # <<>>
  /\ LetterC(n[1])
  /\ \A i \in 1..Len(n) : LetterC(n[i]) \/ DigitC(n[i]) \/ n[i] = Underscore
  /\ n[Len(n)] # Underscore
CompositeName(n) == PropertyName(n) /\ 65 <= n[1] /\ n[1] <= 90

-----------------------------------------------------------------------------
(* Words *)

RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(n, i, word, done) ==
  IF i > Len(n) THEN Append(done, word)
  ELSE IF n[i] = Underscore THEN WordsFrom(n, i + 1, <<>>, Append(done, word))
  ELSE WordsFrom(n, i + 1, Append(word, n[i]), done)
Words(n) == WordsFrom(n, 1, <<>>, <<>>)

RECURSIVE Join(_, _)
Join(ws, sep) == IF ws = <<>> THEN <<>>
                 ELSE IF Len(ws) = 1 THEN ws[1]
                 ELSE ws[1] \o sep \o Join(Tail(ws), sep)

-----------------------------------------------------------------------------
(* Plural *)

\* criterion minimum maximum matrix life focus
Irregular == {
  <<<<99, 114, 105, 116, 101, 114, 105, 111, 110>>, <<99, 114, 105, 116, 101, 114, 105, 97>>>>,
  <<<<109, 105, 110, 105, 109, 117, 109>>, <<109, 105, 110, 105, 109, 97>>>>,
  <<<<109, 97, 120, 105, 109, 117, 109>>, <<109, 97, 120, 105, 109, 97>>>>,
  <<<<109, 97, 116, 114, 105, 120>>, <<109, 97, 116, 114, 105, 99, 101, 115>>>>,
  <<<<108, 105, 102, 101>>, <<108, 105, 118, 101, 115>>>>,
  <<<<102, 111, 99, 117, 115>>, <<102, 111, 99, 105>>>>}
IrregularForms == Irregular \cup {<<Capital(p[1]), Capital(p[2])>> : p \in Irregular}

Y == 121
Vowels == {97, 101, 105, 111, 117}

PluralWord(w) ==
  LET hits == {p \in IrregularForms : p[1] = w}
      z == w[Len(w)]
  IN IF hits # {} THEN (CHOOSE p \in hits : TRUE)[2]
     ELSE IF z = Y /\ ~(Len(w) > 1 /\ w[Len(w) - 1] \in Vowels)
          THEN SubSeq(w, 1, Len(w) - 1) \o <<105, 101, 115>>
     ELSE IF z \in {120, 115} THEN w \o <<101, 115>>
     ELSE w \o <<115>>

\* Only the last word changes.
Plural(n) ==
  LET ws == Words(n) IN
  Join([i \in 1..Len(ws) |-> IF i = Len(ws) THEN PluralWord(ws[i]) ELSE ws[i]], <<Underscore>>)

RegistryKey(plural) == Lower(plural)

-----------------------------------------------------------------------------
(* Identifiers *)

Ucamel(n) == LET ws == Words(n) IN Join([i \in 1..Len(ws) |-> Capital(ws[i])], <<>>)
Camel(n) ==
  LET ws == Words(n) IN
  Join([i \in 1..Len(ws) |-> IF i = 1 THEN Lower(ws[i]) ELSE Capital(ws[i])], <<>>)

TypeName(lang, n) == Ucamel(n)
FieldName(lang, n) == IF lang = "go" THEN Ucamel(n) ELSE Lower(n)

-----------------------------------------------------------------------------
(* What holds of the definitions above for every name (checked with TLC for   *)
(* all names up to a length): every word is kept in order and in its          *)
(* spelling but for the capitals at its beginning, and the plural differs     *)
(* from the name.                                                             *)

NoUnderscore(n) == SelectSeq(n, LAMBDA c : c # Underscore)
Sound(n) ==
  /\ Lower(Ucamel(n)) = NoUnderscore(Lower(n))
  /\ Lower(Camel(n)) = NoUnderscore(Lower(n))
  /\ Join(Words(n), <<Underscore>>) = n
  /\ Plural(n) # n
  /\ PropertyName(n) => PropertyName(Plural(n)) /\ PropertyName(Ucamel(n))
  /\ CompositeName(n) => CompositeName(Plural(n)) /\ CompositeName(Ucamel(n))
  /\ Len(Words(Plural(n))) = Len(Words(n))
=============================================================================
