---------------------------- MODULE MapryPlaces -----------------------------
(* The places of a document a deserializer visits, and what is wrong with    *)
(* each of them by itself (see MapryDeser).                                  *)
EXTENDS MapryValue

(* Tasks: [id, k, r, v, ...], id being unique within a document.             *)
ValueTask(id, t, v, r) == [id |-> id, k |-> "value", t |-> t, v |-> v, r |-> r]
ObjectTask(id, props, v, r) == [id |-> id, k |-> "object", props |-> props, v |-> v, r |-> r]
MissingTask(id, json, r) == [id |-> id, k |-> "missing", json |-> json, r |-> r]

\* The properties of an object.
InObject(x, lang) ==
  {LET p == x.props[j] IN
   IF Missing(x.v, p, lang) THEN MissingTask(Append(x.id, j), p.json, x.r)
   ELSE ValueTask(Append(x.id, j), p.t, Get(x.v, p.json), x.r \o "/" \o p.json)
   : j \in {j \in 1..Len(x.props) : ~(Missing(x.v, x.props[j], lang) /\ x.props[j].opt)}}

\* What is wrong with a place by itself: "no", "may" or "sure".
Own(x, s, doc, lang) ==
  LET of(vs) == IF vs = {} THEN "no" ELSE IF SureOnes(vs) = {} THEN "may" ELSE "sure" IN
  CASE x.k = "missing" -> "sure"
    [] x.k = "object" -> IF x.v.k = "obj" THEN "no" ELSE "sure"
    [] x.k = "document" -> IF x.v.k = "obj" THEN "no" ELSE "sure"
    [] x.k = "registry" -> IF x.v.k = "nul" /\ lang = "py" THEN "may" ELSE IF x.v.k = "obj" THEN "no" ELSE "sure"
    [] x.k = "identifier" -> IF "id_re" \in DOMAIN s.classes[x.cls] /\ ~Matches(s.classes[x.cls].id_re, x.c, lang) THEN "sure" ELSE "no"
    [] x.t.k = "array" ->
         IF x.v.k # "arr" \/ ("min" \in DOMAIN x.t /\ Len(x.v.e) < x.t.min) \/ ("max" \in DOMAIN x.t /\ Len(x.v.e) > x.t.max) THEN "sure" ELSE "no"
    [] x.t.k = "map" -> IF x.v.k = "obj" THEN "no" ELSE "sure"
    [] x.t.k = "embed" -> IF x.v.k = "obj" THEN "no" ELSE "sure"
    [] OTHER -> of(Viol(x.t, x.v, x.r, s, doc, lang))

\* The places within a place which is right by itself.
Within(x, s, lang) ==
  CASE x.k \in {"missing", "identifier"} -> {}
    [] x.k = "object" -> InObject(x, lang)
    [] x.k = "document" ->
         {[id |-> <<j>>, k |-> "registry", cls |-> s.corder[j], v |-> Get(x.v, s.classes[s.corder[j]].key), r |-> x.r \o "/" \o s.classes[s.corder[j]].key]
          : j \in {j \in 1..Len(s.corder) : HasKey(x.v, s.classes[s.corder[j]].key)}}
    [] x.k = "registry" ->
         IF x.v.k # "obj" THEN {}
         ELSE {[id |-> Append(x.id, j), k |-> "identifier", cls |-> x.cls, c |-> x.v.m[j].c, r |-> x.r] : j \in 1..Len(x.v.m)}
    [] x.t.k = "array" -> {ValueTask(Append(x.id, j), x.t.v, x.v.e[j], x.r \o "/" \o ToString(j - 1)) : j \in 1..Len(x.v.e)}
    [] x.t.k = "map" -> {ValueTask(Append(x.id, j), x.t.v, x.v.m[j].v, x.r \o "/" \o KeyPart(x.v.m[j], lang)) : j \in 1..Len(x.v.m)}
    [] x.t.k = "embed" -> InObject([id |-> x.id, props |-> s.embeds[x.t.name].props, v |-> x.v, r |-> x.r], lang)
    [] OTHER -> {}

FirstTasks(doc, r) == {[id |-> <<>>, k |-> "document", v |-> doc, r |-> r]}
SecondTasks(s, doc, r, lang) ==
  {ObjectTask(<<0>>, s.graph.props, doc, r)}
  \cup UNION {LET c == s.classes[s.corder[j]] IN
              IF ~HasKey(doc, c.key) \/ Get(doc, c.key).k # "obj" THEN {}
              ELSE LET v == Get(doc, c.key) IN
                   {ObjectTask(<<j, n>>, c.props, v.m[n].v, r \o "/" \o c.key \o "/" \o KeyPart(v.m[n], lang)) : n \in 1..Len(v.m)}
              : j \in 1..Len(s.corder)}

ErrorOf(x) == [ref |-> x.r, prop |-> IF x.k = "missing" THEN x.json ELSE ""]
=============================================================================
