----------------------------- MODULE MapryValue -----------------------------
(* What generated code does with a JSON value, as relations.                 *)
(*                                                                           *)
(* A schema s is a record                                                    *)
(*   graph.props, corder (class names in order), classes[name].{key, props,  *)
(*   id_re}, embeds[name].props                                              *)
(* a property [name, json, opt, t] and a type [k |-> kind, ...].             *)
(* A JSON value is [k |-> "nul" | "bool" | "num" | "str" | "arr" | "obj",..].*)
(*                                                                           *)
(* Viol(...) is the set of violations of a document: the reference path, the *)
(* JSON name of the missing property (or "") and whether the violation is    *)
(* sure ("may" violations stem from notations which the specification leaves *)
(* open). The document must be accepted if there is no violation and must be *)
(* rejected if there is a sure one.                                          *)
EXTENDS MapryText, MapryTime, MapryDuration, TLC

CONSTANTS ValidZones, OpenZones

\* Members of a JSON object by name (names are unique).
HasKey(v, n) == \E j \in 1..Len(v.m) : v.m[j].n = n
Get(v, n) == v.m[CHOOSE j \in 1..Len(v.m) : v.m[j].n = n].v

Vio(r, p, sure) == [ref |-> r, prop |-> p, sure |-> sure]
Sure(r) == {Vio(r, "", TRUE)}
May(r) == {Vio(r, "", FALSE)}

\* A key as a part of a reference path.
KeyPart(m, lang) == IF lang = "py" THEN m.r ELSE m.n

\* Identifiers registered for the class in the document.
Ids(s, doc, cls) ==
  LET key == s.classes[cls].key IN
  IF HasKey(doc, key) /\ Get(doc, key).k = "obj"
  THEN LET m == Get(doc, key).m IN {m[j].n : j \in 1..Len(m)}
  ELSE {}

BoundOk(t, v) ==
  /\ ("min" \in DOMAIN t =>
        LET c == NumCmp(v, t.min) IN IF t.xmin THEN c > 0 ELSE c >= 0)
  /\ ("max" \in DOMAIN t =>
        LET c == NumCmp(v, t.max) IN IF t.xmax THEN c < 0 ELSE c <= 0)

IntegerViol(t, v, r, lang) ==
  CASE v.k = "bool" /\ lang = "py" -> May(r)
    [] v.k # "num" -> Sure(r)
    [] lang = "py" /\ v.fl -> Sure(r)
    [] lang # "py" /\ ~FitsInt64(v) -> IF Near63(v) THEN May(r) ELSE Sure(r)
    [] lang = "go" /\ ~Within53(v) -> May(r)
    [] OTHER -> IF BoundOk(t, v) THEN {} ELSE Sure(r)

FloatViol(t, v, r, lang) ==
  CASE v.k = "bool" /\ lang = "py" -> May(r)
    [] v.k # "num" -> Sure(r)
    [] OTHER -> IF BoundOk(t, v) THEN {} ELSE Sure(r)

TextViol(t, v, r, lang) ==
  CASE v.k # "str" -> Sure(r)
    [] "re" \in DOMAIN t -> IF Matches(t.re, v.c, lang) THEN {} ELSE Sure(r)
    [] OTHER -> {}

OfVerdict(verdict, r) ==
  CASE verdict = "yes" -> {} [] verdict = "no" -> Sure(r) [] OTHER -> May(r)

\* %z and %Z: only a datetime carries a zone.
ZoneLess(t) == t.k # "datetime" /\ Has(t.fmt, {"z", "Z"})

\* The library which reads points in time: in C++ either the C time library or
\* date.h.
Lib(s, lang) == IF lang = "cpp" /\ s.cpp.dt = "date.h" THEN "date.h" ELSE lang

MomentViol(t, v, r, lang) ==
  IF v.k # "str" THEN Sure(r)
  ELSE LET verdict == TimeVerdict(t.fmt, v.c, lang) IN
       IF verdict = "yes" /\ ZoneLess(t) THEN May(r) ELSE OfVerdict(verdict, r)

\* In C++ with the C time library and in Python with plain strings, a time
\* zone is any text.
ZoneViol(s, v, r, lang) ==
  CASE v.k # "str" -> Sure(r)
    [] v.s \in ValidZones -> {}
    [] lang = "py" /\ s.py.timezone_as = "str" -> {}
    [] lang = "cpp" /\ s.cpp.dt = "ctime" -> {}
    [] v.s \in OpenZones -> May(r)
    [] OTHER -> Sure(r)

RECURSIVE Viol(_, _, _, _, _, _), PropsViol(_, _, _, _, _, _)

\* Violations of the value v of type t at r within the document doc.
Viol(t, v, r, s, doc, lang) ==
  CASE t.k = "boolean" -> IF v.k = "bool" THEN {} ELSE Sure(r)
    [] t.k = "integer" -> IntegerViol(t, v, r, lang)
    [] t.k = "float" -> FloatViol(t, v, r, lang)
    [] t.k \in {"string", "path"} -> TextViol(t, v, r, lang)
    [] t.k \in {"date", "time", "datetime"} -> MomentViol(t, v, r, Lib(s, lang))
    [] t.k = "time_zone" -> ZoneViol(s, v, r, lang)
    [] t.k = "duration" ->
         IF v.k # "str" THEN Sure(r) ELSE OfVerdict(DurationVerdict(v.c, lang), r)
    [] t.k = "array" ->
         IF v.k # "arr" THEN Sure(r)
         ELSE IF \/ "min" \in DOMAIN t /\ Len(v.e) < t.min
                 \/ "max" \in DOMAIN t /\ Len(v.e) > t.max THEN Sure(r)
         ELSE UNION {Viol(t.v, v.e[j], r \o "/" \o ToString(j - 1), s, doc, lang)
                     : j \in 1..Len(v.e)}
    [] t.k = "map" ->
         IF v.k # "obj" THEN Sure(r)
         ELSE UNION {Viol(t.v, v.m[j].v, r \o "/" \o KeyPart(v.m[j], lang), s, doc, lang)
                     : j \in 1..Len(v.m)}
    [] t.k = "class" ->
         IF v.k # "str" THEN Sure(r)
         ELSE IF v.s \in Ids(s, doc, t.name) THEN {} ELSE Sure(r)
    [] t.k = "embed" -> PropsViol(s.embeds[t.name].props, v, r, s, doc, lang)

\* A null of an optional property counts as missing in Python only.
Missing(v, p, lang) ==
  \/ ~HasKey(v, p.json)
  \/ lang = "py" /\ Get(v, p.json).k = "nul"

PropsViol(props, v, r, s, doc, lang) ==
  IF v.k # "obj" THEN Sure(r)
  ELSE UNION {LET p == props[j] IN
              IF Missing(v, p, lang)
              THEN IF p.opt THEN {} ELSE {Vio(r, p.json, TRUE)}
              ELSE Viol(p.t, Get(v, p.json), r \o "/" \o p.json, s, doc, lang)
              : j \in 1..Len(props)}

-----------------------------------------------------------------------------
(* The graph: first all the registries (any violation there is final), then  *)
(* the instances and the properties.                                         *)

RegistryViol(s, doc, cls, r, lang) ==
  LET c == s.classes[cls] IN
  IF ~HasKey(doc, c.key) THEN {}
  ELSE LET v == Get(doc, c.key)  rr == r \o "/" \o c.key IN
       IF v.k = "nul" /\ lang = "py" THEN May(rr)
       ELSE IF v.k # "obj" THEN Sure(rr)
       ELSE IF "id_re" \in DOMAIN c
       THEN \* as many violations as identifiers which do not match
            {[Vio(rr, "", TRUE) EXCEPT !.prop = ""] : j \in
               {j \in 1..Len(v.m) : ~Matches(c.id_re, v.m[j].c, lang)}}
       ELSE {}

BadIds(s, doc, cls, lang) ==
  LET c == s.classes[cls] IN
  IF HasKey(doc, c.key) /\ Get(doc, c.key).k = "obj" /\ "id_re" \in DOMAIN c
  THEN LET v == Get(doc, c.key) IN
       Cardinality({j \in 1..Len(v.m) : ~Matches(c.id_re, v.m[j].c, lang)})
  ELSE 0

Classes(s) == {s.corder[j] : j \in 1..Len(s.corder)}

FirstPhase(s, doc, r, lang) ==
  IF doc.k # "obj" THEN Sure(r)
  ELSE UNION {RegistryViol(s, doc, cls, r, lang) : cls \in Classes(s)}

InstancesViol(s, doc, cls, r, lang) ==
  LET c == s.classes[cls] IN
  IF ~HasKey(doc, c.key) \/ Get(doc, c.key).k # "obj" THEN {}
  ELSE LET v == Get(doc, c.key) IN
       UNION {PropsViol(c.props, v.m[j].v,
                        r \o "/" \o c.key \o "/" \o KeyPart(v.m[j], lang), s, doc, lang)
              : j \in 1..Len(v.m)}

SecondPhase(s, doc, r, lang) ==
  PropsViol(s.graph.props, doc, r, s, doc, lang)
  \cup UNION {InstancesViol(s, doc, cls, r, lang) : cls \in Classes(s)}

SureOnes(vs) == {v \in vs : v.sure}

\* All violations of the deepest phase reached.
DocViol(s, doc, r, lang) ==
  LET first == FirstPhase(s, doc, r, lang) IN
  IF SureOnes(first) # {} THEN first
  ELSE first \cup SecondPhase(s, doc, r, lang)

\* The number of errors reported with an unlimited capacity is at least this.
RECURSIVE SumOver(_, _, _, _)
SumOver(s, doc, lang, j) ==
  IF j > Len(s.corder) THEN 0
  ELSE BadIds(s, doc, s.corder[j], lang) + SumOver(s, doc, lang, j + 1)

\* Identifiers of a class violate the pattern at one and the same reference.
ExtraIds(s, doc, lang) ==
  IF doc.k # "obj" THEN 0
  ELSE LET bad == SumOver(s, doc, lang, 1)
           hit == Cardinality({cls \in Classes(s) : BadIds(s, doc, cls, lang) > 0})
       IN bad - hit

\* A constraint-free reading: is the document within what all languages
\* represent alike? (no null, no whole number in float notation for integers,
\* integers within 53 bits, no boolean for a number, patterns which match
\* alike)
RECURSIVE Common(_, _, _), CommonProps(_, _, _)
Common(t, v, s) ==
  /\ v.k # "nul"
  /\ CASE t.k = "integer" -> /\ v.k # "bool"
                             /\ v.k = "num" => (Within53(v) /\ (v.fl => ~IsWhole(v)))
       [] t.k = "float" -> v.k # "bool"
       [] t.k \in {"string", "path"} ->
            ("re" \in DOMAIN t /\ v.k = "str") => MatchesAlike(t.re, v.c)
       [] t.k \in {"date", "time", "datetime"} ->
            v.k = "str" => /\ ~ZoneLess(t)
                           /\ \A lang \in {"py", "go", "cpp"} :
                                TimeVerdict(t.fmt, v.c, Lib(s, lang)) = TimeVerdict(t.fmt, v.c, "py")
                                /\ TimeVerdict(t.fmt, v.c, Lib(s, lang)) # "may"
       [] t.k = "duration" ->
            v.k = "str" => \A lang \in {"py", "go", "cpp"} :
                             /\ DurationVerdict(v.c, lang) = DurationVerdict(v.c, "py")
                             /\ DurationVerdict(v.c, lang) # "may"
       [] t.k = "time_zone" -> v.k = "str" => v.s \in ValidZones
       [] t.k = "array" -> v.k = "arr" => \A j \in 1..Len(v.e) : Common(t.v, v.e[j], s)
       [] t.k = "map" -> v.k = "obj" => \A j \in 1..Len(v.m) : Common(t.v, v.m[j].v, s)
       [] t.k = "embed" -> v.k = "obj" => CommonProps(s.embeds[t.name].props, v, s)
       [] OTHER -> TRUE
CommonProps(props, v, s) ==
  \A j \in 1..Len(props) :
    HasKey(v, props[j].json) => Common(props[j].t, Get(v, props[j].json), s)

CommonDoc(s, doc) ==
  doc.k = "obj" =>
  /\ CommonProps(s.graph.props, doc, s)
  /\ \A cls \in Classes(s) :
       LET c == s.classes[cls] IN
       HasKey(doc, c.key) =>
         LET v == Get(doc, c.key) IN
         /\ v.k # "nul"
         /\ v.k = "obj" => \A j \in 1..Len(v.m) :
              /\ ("id_re" \in DOMAIN c => MatchesAlike(c.id_re, v.m[j].c))
              /\ v.m[j].v.k = "obj" => CommonProps(c.props, v.m[j].v, s)

-----------------------------------------------------------------------------
(* Decoding. An observed value d is tagged like a type; an object is a       *)
(* sequence of [n |-> property name, v |-> value], absent ones left out.     *)
(* A reference is [k |-> "ref", cls, id] where (cls, id) is the registry     *)
(* entry which IS the referenced object, cls = "" if there is none.          *)
(* The result is the set of the paths of the wrong values.                   *)

\* A float holds the closest representable number.
AsRead(t, v) == IF t.k = "float" /\ "d" \in DOMAIN v THEN v.d ELSE v

\* pathlib.Path normalizes paths: "." components and repeated or trailing
\* slashes are dropped, the empty path is ".".
NormPath(c) ==
  LET slashes == {j \in 1..Len(c) : c[j] = 47}
      cuts == slashes \cup {0, Len(c) + 1}
      next(i) == CHOOSE j \in cuts : j > i /\ \A k \in cuts : k > i => k >= j
      starts == {i \in cuts \ {Len(c) + 1} :
                   SubSeq(c, i + 1, next(i) - 1) \notin {<<>>, <<46>>}}
      RECURSIVE join(_)
      join(is) == IF is = {} THEN <<>>
                  ELSE LET i == CHOOSE i \in is : \A k \in is : i <= k
                           rest == is \ {i}
                       IN SubSeq(c, i + 1, next(i) - 1)
                          \o (IF rest = {} THEN <<>> ELSE <<47>> \o join(rest))
      root == IF c = <<>> \/ c[1] # 47 THEN <<>>
              ELSE IF Len(c) > 1 /\ c[2] = 47 /\ (Len(c) = 2 \/ c[3] # 47) THEN <<47, 47>>
              ELSE <<47>>
      all == root \o join(starts)
  IN IF all = <<>> THEN <<46>> ELSE all

SamePath(s, v, d, lang) ==
  \/ d.s = v.s
  \/ lang = "py" /\ s.py.path_as = "pathlib.Path" /\ d.c = NormPath(v.c)

FieldOf(m, n) == {j \in 1..Len(m) : m[j].n = n}

RECURSIVE Wrong(_, _, _, _, _, _), WrongProps(_, _, _, _, _, _)
Wrong(t, v, d, r, s, lang) ==
  LET bad(ok) == IF ok THEN {} ELSE {r} IN
  CASE t.k = "boolean" -> bad(d.k = "bool" /\ v.b = d.b)
    [] t.k \in {"integer", "float"} ->
         IF v.k # "num" THEN {}     \* an open notation
         ELSE IF lang = "go" /\ t.k = "integer" /\ ~Within53(v) THEN {}
         ELSE bad(d.k = "num" /\ NumEq(AsRead(t, v), AsRead(t, d)))
    [] t.k = "string" -> bad(d.k = "str" /\ d.s = v.s)
    [] t.k = "path" -> bad(d.k \in {"str", "path"} /\ SamePath(s, v, d, lang))
    [] t.k \in {"date", "time", "datetime"} ->
         IF TimeVerdict(t.fmt, v.c, Lib(s, lang)) # "yes" \/ ZoneLess(t) THEN {}
         ELSE bad(d.k \in {t.k, "tm"} /\ SameTime(t.fmt, v.c, d.v))
    [] t.k = "time_zone" -> IF v.s \in OpenZones THEN {}
                            ELSE bad(d.k \in {"zone", "str"} /\ d.s = v.s)
    [] t.k = "duration" -> bad(d.k = "dur" /\ SameDuration(v.c, d.ns, lang))
    [] t.k = "array" ->
         IF d.k # "arr" \/ Len(d.e) # Len(v.e) THEN {r}
         ELSE UNION {Wrong(t.v, v.e[j], d.e[j], r \o "/" \o ToString(j - 1), s, lang)
                     : j \in 1..Len(v.e)}
    [] t.k = "map" ->
         IF d.k # "map" \/ {d.m[j].n : j \in 1..Len(d.m)} # {v.m[j].n : j \in 1..Len(v.m)}
            \/ Len(d.m) # Len(v.m) THEN {r}
         ELSE UNION {Wrong(t.v, v.m[j].v,
                           d.m[CHOOSE i \in 1..Len(d.m) : d.m[i].n = v.m[j].n].v,
                           r \o "/" \o v.m[j].n, s, lang) : j \in 1..Len(v.m)}
    [] t.k = "class" -> bad(d.k = "ref" /\ d.cls = t.name /\ d.id = v.s)
    [] t.k = "embed" ->
         IF d.k # "emb" THEN {r} ELSE WrongProps(s.embeds[t.name].props, v, d.m, r, s, lang)

WrongProps(props, v, m, r, s, lang) ==
  UNION {LET p == props[j]  hit == FieldOf(m, p.name) IN
         IF Missing(v, p, lang) THEN (IF hit = {} THEN {} ELSE {r \o "/" \o p.name})
         ELSE IF hit = {} THEN {r \o "/" \o p.name}
         ELSE Wrong(p.t, Get(v, p.json), m[CHOOSE i \in hit : TRUE].v,
                    r \o "/" \o p.name, s, lang)
         : j \in 1..Len(props)}

\* An observed graph is [m |-> properties, regs |-> <<[cls, insts |->
\* <<[key, id, m]>>]>>].
WrongGraph(s, doc, g, lang) ==
  WrongProps(s.graph.props, doc, g.m, "", s, lang)
  \cup UNION {
    LET cls == g.regs[j].cls
        c == s.classes[cls]
        insts == g.regs[j].insts
        v == IF HasKey(doc, c.key) THEN Get(doc, c.key).m ELSE <<>>
    IN IF \/ Len(insts) # Len(v)
          \/ {insts[i].key : i \in 1..Len(insts)} # {v[i].n : i \in 1..Len(v)}
       THEN {"/" \o c.key}
       ELSE UNION {LET x == insts[CHOOSE i \in 1..Len(insts) : insts[i].key = v[n].n]
                       path == "/" \o c.key \o "/" \o v[n].n
                   IN (IF x.id = x.key THEN {} ELSE {path \o "/id"})
                      \cup WrongProps(c.props, v[n].v, x.m, path, s, lang)
                   : n \in 1..Len(v)}
    : j \in 1..Len(g.regs)}
  \cup (IF {g.regs[j].cls : j \in 1..Len(g.regs)} = Classes(s) THEN {} ELSE {"registries"})

-----------------------------------------------------------------------------
(* Encoding: is the written JSON value w equivalent to the read value v?     *)
(* The result is the set of the paths which differ.                          *)

RECURSIVE Differ(_, _, _, _, _, _), DifferProps(_, _, _, _, _, _)
Differ(t, v, w, r, s, lang) ==
  LET bad(ok) == IF ok THEN {} ELSE {r} IN
  CASE t.k = "boolean" -> bad(w.k = "bool" /\ w.b = v.b)
    [] t.k \in {"integer", "float"} ->
         IF v.k # "num" THEN {}
         ELSE IF lang = "go" /\ t.k = "integer" /\ ~Within53(v) THEN {}
         ELSE bad(w.k = "num" /\ NumEq(AsRead(t, v), AsRead(t, w)))
    [] t.k \in {"string", "class"} -> bad(w.k = "str" /\ w.s = v.s)
    [] t.k = "path" -> bad(w.k = "str" /\ SamePath(s, v, w, lang))
    [] t.k \in {"date", "time", "datetime"} ->
         IF TimeVerdict(t.fmt, v.c, Lib(s, lang)) # "yes" \/ ZoneLess(t) THEN {}
         ELSE bad(w.k = "str" /\ SameText(t.fmt, v.c, w.c))
    [] t.k = "time_zone" -> IF v.s \in OpenZones THEN {}
                            ELSE bad(w.k = "str" /\ w.s = v.s)
    [] t.k = "duration" ->
         bad(/\ w.k = "str"
             /\ IF IsExact(ParseDuration(v.c).parts) THEN SameDurationText(v.c, w.c)
                ELSE ParseDuration(w.c).ok)
    [] t.k = "array" ->
         IF w.k # "arr" \/ Len(w.e) # Len(v.e) THEN {r}
         ELSE UNION {Differ(t.v, v.e[j], w.e[j], r \o "/" \o ToString(j - 1), s, lang)
                     : j \in 1..Len(v.e)}
    [] t.k = "map" ->
         IF w.k # "obj" \/ Len(w.m) # Len(v.m)
            \/ {w.m[j].n : j \in 1..Len(w.m)} # {v.m[j].n : j \in 1..Len(v.m)} THEN {r}
         ELSE UNION {Differ(t.v, v.m[j].v, Get(w, v.m[j].n), r \o "/" \o v.m[j].n, s, lang)
                     : j \in 1..Len(v.m)}
    [] t.k = "embed" -> DifferProps(s.embeds[t.name].props, v, w, r, s, lang)

\* In C++, an object without any written property comes out as null (a known
\* deviation, see DESIGN.md).
DifferProps(props, v, w, r, s, lang) ==
  LET present == {props[j].json : j \in {j \in 1..Len(props) : ~Missing(v, props[j], lang)}}
  IN IF w.k = "nul" /\ lang = "cpp" /\ present = {} THEN {}
     ELSE IF w.k # "obj" THEN {r}
     ELSE (IF {w.m[j].n : j \in 1..Len(w.m)} = present THEN {} ELSE {r})
          \cup UNION {LET p == props[j] IN
                      IF Missing(v, p, lang) \/ ~HasKey(w, p.json) THEN {}
                      ELSE Differ(p.t, Get(v, p.json), Get(w, p.json),
                                  r \o "/" \o p.json, s, lang)
                      : j \in 1..Len(props)}

\* The registry of a class may be left out if there are no instances.
DifferGraph(s, doc, w, lang) ==
  LET keys == {s.classes[cls].key : cls \in Classes(s)}
      names == {s.graph.props[j].json : j \in 1..Len(s.graph.props)}
      props == IF w.k = "obj"
               THEN [k |-> "obj", m |-> SelectSeq(w.m, LAMBDA x : x.n \notin keys)]
               ELSE w
      insts(x, key) == IF x.k = "obj" /\ HasKey(x, key) /\ Get(x, key).k = "obj"
                       THEN Get(x, key).m ELSE <<>>
  IN IF w.k = "nul" /\ lang = "cpp"
     THEN DifferProps(s.graph.props, doc, w, "", s, lang)
          \cup {key \in keys : insts(doc, key) # <<>>}
     ELSE DifferProps(s.graph.props, doc, props, "", s, lang)
          \cup UNION {
            LET c == s.classes[cls]
                a == insts(doc, c.key)  b == insts(w, c.key)
                r == "/" \o c.key
            IN IF Len(a) # Len(b)
                  \/ {a[j].n : j \in 1..Len(a)} # {b[j].n : j \in 1..Len(b)} THEN {r}
               ELSE UNION {DifferProps(c.props, a[j].v,
                                       b[CHOOSE i \in 1..Len(b) : b[i].n = a[j].n].v,
                                       r \o "/" \o a[j].n, s, lang)
                           : j \in 1..Len(a)}
            : cls \in Classes(s)}
=============================================================================
