----------------------------- MODULE MaprySchema -----------------------------
(* Which descriptions of schemas are well-formed, and where the others are    *)
(* not.                                                                       *)
(*                                                                            *)
(* A description is a JSON value as in MapryValue. It is well-formed if it    *)
(* has the right shape (StructPlaces is empty) and makes sense (Defects is    *)
(* empty). The places are reference paths from the root "#".                  *)
EXTENDS MapryFormat, MapryNames, MapryText, TLC

CONSTANTS BadPatterns   \* texts which are no regular expressions

HasMember(v, n) == v.k = "obj" /\ \E j \in 1..Len(v.m) : v.m[j].n = n
Member(v, n) == v.m[CHOOSE j \in 1..Len(v.m) : v.m[j].n = n].v
MemberNames(v) == {v.m[j].n : j \in 1..Len(v.m)}
Items2(v, n) == IF HasMember(v, n) THEN Member(v, n).e ELSE <<>>
Place(ref, n) == ref \o "/" \o n
PlaceI(ref, n, i) == ref \o "/" \o n \o "/" \o ToString(i - 1)

-----------------------------------------------------------------------------
(* Texts *)

\* Starts with a small letter and ends with a full stop, on one line (which
\* may be ended).
Description(c) ==
  LET d == IF c # <<>> /\ c[Len(c)] = 10 THEN SubSeq(c, 1, Len(c) - 1) ELSE c IN
  /\ Len(d) >= 2
  /\ IsLower(d[1])
  /\ d[Len(d)] = 46
  /\ \A i \in 1..Len(d) : d[i] # 10

Word(w) == /\ w # <<>>
           /\ LetterC(w[1])
           /\ \A i \in 1..Len(w) : LetterC(w[i]) \/ DigitC(w[i]) \/ w[i] = 95

\* Words joined by separators of n equal characters.
RECURSIVE Dotted(_, _, _)
Dotted(c, sep, n) ==
  LET ats == {i \in 1..Len(c) : c[i] = sep} IN
  IF ats = {} THEN Word(c)
  ELSE LET i == CHOOSE i \in ats : \A o \in ats : i <= o IN
       /\ Word(SubSeq(c, 1, i - 1))
       /\ i + n - 1 < Len(c)
       /\ \A j \in i..(i + n - 1) : c[j] = sep
       /\ Dotted(SubSeq(c, i + n, Len(c)), sep, n)

Blank(c) == \A i \in 1..Len(c) : c[i] \in {9, 32}

TextOk(shape, v) ==
  CASE shape = "text" -> TRUE
    [] shape = "name" -> CompositeName(v.c)
    [] shape = "description" -> Description(v.c)
    [] shape = "namespace" -> Dotted(v.c, 58, 2)
    [] shape = "module" -> Dotted(v.c, 46, 1)
    [] shape = "package" -> Word(v.c)
    [] shape = "blank" -> Blank(v.c)
    [] shape = "blanks" -> Blank(v.c) /\ Len(v.c) > 0       \* blocks of Python are indented
    [] shape = "type" -> \E i \in 1..Len(v.c) : LetterC(v.c[i])
    [] shape = "cpp path" -> v.s \in {"std::filesystem::path", "boost::filesystem::path"}
    [] shape = "cpp optional" -> v.s \in {"boost::optional", "std::optional", "std::experimental::optional"}
    [] shape = "cpp library" -> v.s \in {"ctime", "date.h"}
    [] shape = "py path" -> v.s \in {"str", "pathlib.Path"}
    [] shape = "py zone" -> v.s \in {"str", "pytz.timezone"}

-----------------------------------------------------------------------------
(* Shape *)

Objects == [
  graph |-> [name |-> "name", description |-> "description", cpp |-> "cpp", go |-> "go", py |-> "py",
             classes |-> "classes", embeds |-> "embeds", properties |-> "properties"],
  cpp |-> [namespace |-> "namespace", path_as |-> "cpp path", optional_as |-> "cpp optional",
           datetime_library |-> "cpp library", indention |-> "blank"],
  go |-> [package |-> "package"],
  py |-> [module_name |-> "module", path_as |-> "py path", timezone_as |-> "py zone", indention |-> "blanks"],
  class |-> [name |-> "name", description |-> "description", plural |-> "name", id_pattern |-> "text",
             properties |-> "properties"],
  embed |-> [name |-> "name", description |-> "description", properties |-> "properties"],
  property |-> [description |-> "text", type |-> "type", json |-> "text", optional |-> "bool"]]

Required == [
  graph |-> {"name", "description"},
  cpp |-> {"namespace", "path_as", "optional_as", "datetime_library"},
  go |-> {"package"},
  py |-> {"module_name", "path_as", "timezone_as"},
  class |-> {"name", "description"},
  embed |-> {"name", "description"},
  property |-> {"type", "description"}]

RECURSIVE Struct(_, _, _)
Struct(shape, v, ref) ==
  IF shape \in DOMAIN Objects
  THEN IF v.k # "obj" THEN {ref}
       ELSE (IF Required[shape] \subseteq MemberNames(v) THEN {} ELSE {ref})
            \cup UNION {IF v.m[j].n \in DOMAIN Objects[shape]
                        THEN Struct(Objects[shape][v.m[j].n], v.m[j].v, Place(ref, v.m[j].n))
                        ELSE IF shape = "property" THEN {} ELSE {ref} : j \in 1..Len(v.m)}
  ELSE IF shape \in {"classes", "embeds"}
  THEN IF v.k # "arr" THEN {ref}
       ELSE UNION {Struct(IF shape = "classes" THEN "class" ELSE "embed", v.e[i], ref \o "/" \o ToString(i - 1)) : i \in 1..Len(v.e)}
  ELSE IF shape = "properties"
  THEN IF v.k # "obj" THEN {ref}
       ELSE UNION {Struct("property", v.m[j].v, Place(ref, v.m[j].n)) : j \in 1..Len(v.m)}
  ELSE IF shape = "bool"
  THEN IF v.k = "bool" THEN {} ELSE {ref}
  ELSE IF v.k = "str" /\ TextOk(shape, v) THEN {} ELSE {ref}

StructPlaces(doc) == Struct("graph", doc, "#")

-----------------------------------------------------------------------------
(* Types *)

Primitive == {"boolean", "integer", "float", "string", "path", "date", "time", "datetime",
              "time_zone", "duration", "array", "map"}

Bounds == {"minimum", "exclusive_minimum", "maximum", "exclusive_maximum"}
KeysOf(type) ==
  CASE type \in {"integer", "float"} -> Bounds
    [] type \in {"string", "path"} -> {"pattern"}
    [] type \in {"date", "time", "datetime"} -> {"format"}
    [] type = "array" -> {"values", "minimum_size", "maximum_size"}
    [] type = "map" -> {"values"}
    [] OTHER -> {}

IsInt(v) == v.k = "num" /\ ~v.fl
KindOk(type, key, v) ==
  CASE key = "description" -> v.k = "str"
    [] key \in {"minimum", "maximum"} -> IF type = "integer" THEN IsInt(v) ELSE v.k = "num"
    [] key \in {"exclusive_minimum", "exclusive_maximum"} -> v.k = "bool"
    [] key \in {"pattern", "format"} -> v.k = "str"
    [] key \in {"minimum_size", "maximum_size"} -> IsInt(v) /\ ~v.neg
    [] key = "values" -> v.k = "obj"

Flag(t, key) == HasMember(t, key) /\ Member(t, key).b

\* y = x + 1?
RECURSIVE Inc(_)
Inc(ls) == IF ls = <<>> THEN <<1>>
           ELSE IF ls[Len(ls)] < 9999 THEN [ls EXCEPT ![Len(ls)] = ls[Len(ls)] + 1]
           ELSE Append(Inc(SubSeq(ls, 1, Len(ls) - 1)), 0)
OneMore(x, y) ==
  IF x.neg THEN y.i # x.i /\ Inc(y.i) = x.i /\ (y.neg \/ y.i = <<>>)
  ELSE ~y.neg /\ Inc(x.i) = y.i

Satisfiable(type, t) ==
  LET a == Member(t, "minimum") b == Member(t, "maximum")
      xa == Flag(t, "exclusive_minimum") xb == Flag(t, "exclusive_maximum")
      c == NumCmp(a, b)
  IN /\ c <= 0
     /\ c = 0 => ~xa /\ ~xb
     /\ (type = "integer" /\ xa /\ xb) => ~OneMore(a, b)

\* Bounds which no float can represent: of 10^308 and more.
Unbounded(t) == {n \in {"minimum", "maximum"} : HasMember(t, n) /\ Len(Member(t, n).i) >= 78}

RECURSIVE TypePlaces(_, _, _, _, _)
\* top: the type of a property, ordered: the order of keys matters.
TypePlaces(t, ref, types, top, ordered) ==
  IF t.k # "obj" THEN {ref}
  ELSE
  LET order ==
        IF ~top \/ ~ordered THEN {}
        ELSE (IF t.m[1].n # "type" THEN {Place(ref, "type")} ELSE {})
             \cup (IF t.m[2].n # "description" THEN {Place(ref, "description")} ELSE {})
  IN order \cup
  IF ~HasMember(t, "type") THEN {ref}
  ELSE IF Member(t, "type").k # "str" \/ Member(t, "type").s \notin types THEN {Place(ref, "type")}
  ELSE
  LET type == Member(t, "type").s
      own == KeysOf(type)
      extra == IF \E n \in MemberNames(t) :
                    n \notin own \cup {"type", "description"} \cup (IF top THEN {"json", "optional"} ELSE {})
               THEN {ref} ELSE {}
      kinds == IF type \notin Primitive THEN {}
               ELSE {Place(ref, n) : n \in {n \in MemberNames(t) \cap (own \cup {"description"}) : ~KindOk(type, n, Member(t, n))}}
      noValues == IF "values" \in own /\ ~HasMember(t, "values") THEN {ref, ref \o "/"} ELSE {}
      logic ==
        IF kinds # {} THEN {}
        ELSE IF type = "float" /\ Unbounded(t) # {} THEN {Place(ref, n) : n \in Unbounded(t)}
        ELSE CASE type \in {"integer", "float"} ->
                    IF HasMember(t, "minimum") /\ HasMember(t, "maximum") /\ ~Satisfiable(type, t) THEN {ref} ELSE {}
               [] type \in {"string", "path"} ->
                    IF HasMember(t, "pattern") /\ Member(t, "pattern").s \in BadPatterns THEN {Place(ref, "pattern")} ELSE {}
               [] type \in {"date", "time", "datetime"} ->
                    IF HasMember(t, "format") /\ ~WellFormed(type, Member(t, "format").c) THEN {Place(ref, "format")} ELSE {}
               [] type = "array" ->
                    IF /\ HasMember(t, "minimum_size") /\ HasMember(t, "maximum_size")
                       /\ NumCmp(Member(t, "minimum_size"), Member(t, "maximum_size")) > 0
                    THEN {Place(ref, "minimum_size")} ELSE {}
               [] OTHER -> {}
      inner == IF "values" \in own /\ HasMember(t, "values")
               THEN TypePlaces(Member(t, "values"), Place(ref, "values"), types, FALSE, ordered) ELSE {}
  IN extra \cup kinds \cup noValues \cup logic \cup inner

-----------------------------------------------------------------------------
(* Sense: the groups of places, one for every defect. *)

Properties(c) == IF HasMember(c, "properties") THEN Member(c, "properties").m ELSE <<>>
JsonName(m) == IF HasMember(m.v, "json") THEN Member(m.v, "json").s ELSE m.n
NameOf(c) == Member(c, "name").s

PropertiesDefects(c, ref, types, ordered) ==
  LET ps == Properties(c)
      at(i) == ref \o "/properties/" \o ps[i].n
  IN {{at(i) \o "/json", at(j) \o "/json"} :
        <<i, j>> \in {p \in (1..Len(ps)) \X (1..Len(ps)) : p[1] < p[2] /\ JsonName(ps[p[1]]) = JsonName(ps[p[2]])}}
     \cup {{ref \o "/properties", at(i)} : i \in {i \in 1..Len(ps) : ~PropertyName(ps[i].c)}}
     \cup ({TypePlaces(ps[i].v, at(i), types, TRUE, ordered) : i \in 1..Len(ps)} \ {{}})

PluralOf(c) == IF HasMember(c, "plural") THEN Member(c, "plural").c ELSE Plural(Member(c, "name").c)

Defects(doc, ordered) ==
  LET cs == Items2(doc, "classes")
      es == Items2(doc, "embeds")
      names == [i \in 1..(Len(cs) + Len(es)) |-> IF i <= Len(cs) THEN NameOf(cs[i]) ELSE NameOf(es[i - Len(cs)])]
      where(i) == IF i <= Len(cs) THEN PlaceI("#", "classes", i) ELSE PlaceI("#", "embeds", i - Len(cs))
      types == Primitive \cup ({names[i] : i \in DOMAIN names} \ {NameOf(doc)})
      keys == [i \in 1..Len(cs) |-> RegistryKey(PluralOf(cs[i]))]
      first(i) == CHOOSE j \in 1..i : keys[j] = keys[i] /\ \A o \in 1..(j - 1) : keys[o] # keys[i]
      ps == Properties(doc)
      jsonCps(m) == IF HasMember(m.v, "json") THEN Member(m.v, "json").c ELSE m.c
  IN (IF ~ordered THEN {}
      ELSE (IF doc.m[1].n # "name" THEN {{"#/name"}} ELSE {})
           \cup (IF doc.m[2].n # "description" THEN {{"#/description"}} ELSE {}))
     \cup {{where(i) \o "/name"} : i \in {i \in DOMAIN names : names[i] = NameOf(doc) \/ \E j \in 1..(i - 1) : names[j] = names[i]}}
     \cup {{PlaceI("#", "classes", i) \o "/id_pattern"} :
             i \in {i \in 1..Len(cs) : HasMember(cs[i], "id_pattern") /\ Member(cs[i], "id_pattern").s \in BadPatterns}}
     \cup {{PlaceI("#", "classes", i) \o "/properties", PlaceI("#", "classes", i) \o "/properties/id"} :
             i \in {i \in 1..Len(cs) : \E j \in 1..Len(Properties(cs[i])) : Properties(cs[i])[j].n = "id"}}
     \cup {{PlaceI("#", "classes", i) \o "/plural"} :
             i \in {i \in 1..Len(cs) : NameOf(cs[first(i)]) # NameOf(cs[i])}}
     \cup {{Place("#", ps[i].n), "#/properties/" \o ps[i].n} :
             i \in {i \in 1..Len(ps) : \E j \in 1..Len(cs) : keys[j] = ps[i].c \/ keys[j] = jsonCps(ps[i])}}
     \cup PropertiesDefects(doc, "#", types, ordered)
     \cup UNION {PropertiesDefects(IF i <= Len(cs) THEN cs[i] ELSE es[i - Len(cs)], where(i), types, ordered) : i \in DOMAIN names}

WellFormedSchema(doc, ordered) == StructPlaces(doc) = {} /\ Defects(doc, ordered) = {}

-----------------------------------------------------------------------------
(* An item: a description, the places of the errors reported and what became  *)
(* of parsing it ("schema", "refused" or another exception).                  *)

BadSchema(item) ==
  LET struct == StructPlaces(item.doc)
      groups == IF struct # {} THEN {struct} ELSE Defects(item.doc, item.ordered)
      got == {item.refs[j] : j \in 1..Len(item.refs)}
  IN (IF item.crash = "" THEN {} ELSE {"exception " \o item.crash})
     \cup (IF item.crash # "" \/ (groups = {}) = (got = {}) THEN {}
           ELSE {IF groups = {} THEN "refused" ELSE "accepted in spite of " \o ToString(groups)})
     \cup (IF item.crash # "" \/ groups = {} \/ got = {} THEN {}
           ELSE IF got \subseteq UNION groups THEN {} ELSE {"untrue error at " \o ToString(got \ UNION groups)})
     \cup (IF item.crash # "" \/ groups = {} \/ got = {} THEN {}
           ELSE IF \A g \in groups : g \cap got # {} THEN {}
                ELSE {"no error at " \o ToString({g \in groups : g \cap got = {}})})
     \cup (IF item.parsed = (IF groups = {} THEN "schema" ELSE "refused") \/ item.crash # "" THEN {}
           ELSE {"parsing gives " \o item.parsed})
=============================================================================
