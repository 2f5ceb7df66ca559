------------------------------ MODULE MapryTypes ------------------------------
(* Which types occur within a type: the least set which holds the type, the   *)
(* values of its arrays and maps, and the properties of its composites.       *)
(*                                                                            *)
(* A type is a record: k (its kind), v (values of an array or map), name (of  *)
(* a class or embeddable). The item describes the graph: comps[name] is the   *)
(* sequence of the properties [n, t] of a composite, props those of the       *)
(* graph itself; classes and embeds are the names in order.                   *)
EXTENDS MapryJudge, FiniteSets

Composite(g, name) == IF name \in DOMAIN g.comps THEN g.comps[name] ELSE <<>>
TypesOf(ps) == {ps[i].t : i \in 1..Len(ps)}

Within(g, t) ==
  CASE t.k \in {"array", "map"} -> {t.v}
    [] t.k \in {"class", "embed"} -> TypesOf(Composite(g, t.name))
    [] t.k = "graph" -> {[k |-> "class", name |-> g.classes[i]] : i \in 1..Len(g.classes)}
                        \cup {[k |-> "embed", name |-> g.embeds[i]] : i \in 1..Len(g.embeds)}
                        \cup TypesOf(g.props)
    [] OTHER -> {}

RECURSIVE Closure(_, _)
Closure(g, ts) ==
  LET more == UNION {Within(g, t) : t \in ts} IN
  IF more \subseteq ts THEN ts ELSE Closure(g, ts \cup more)

Kinds(ts) == {t.k : t \in ts}
\* Kinds of types which a type needs, itself included.
Needed(g, t) == Kinds(Closure(g, {t}))
\* Classes referenced within the properties of the composite.
Referenced(g, name) == {t.name : t \in {t \in Closure(g, TypesOf(Composite(g, name))) : t.k = "class"}}

\* All types written down in the composite, with their places.
RECURSIVE Nested(_, _)
Nested(t, ref) == <<<<t.k, ref>>>> \o IF t.k \in {"array", "map"} THEN Nested(t.v, ref \o "/values") ELSE <<>>
RECURSIVE Listed(_, _, _)
Listed(ps, ref, i) == IF i > Len(ps) THEN <<>> ELSE Nested(ps[i].t, ref \o "/" \o ps[i].n) \o Listed(ps, ref, i + 1)
RECURSIVE ListedAll(_, _, _, _)
ListedAll(g, names, what, i) ==
  IF i > Len(names) THEN <<>>
  ELSE Listed(Composite(g, names[i]), "#/" \o what \o "/" \o ToString(i - 1), 1) \o ListedAll(g, names, what, i + 1)
Occurring(g) == ListedAll(g, g.classes, "classes", 1) \o ListedAll(g, g.embeds, "embeds", 1) \o Listed(g.props, "#", 1)

AsSet(s) == {s[i] : i \in 1..Len(s)}

\* Observations: needs = <<type, kinds found>>, refs = <<composite, classes>>,
\* iter = pairs of kind and place.
BadTypes(item) ==
  IF item.crash # "" THEN {item.crash}
  ELSE UNION {IF AsSet(n[2]) = Needed(item.g, n[1]) THEN {}
              ELSE {"needs of " \o ToString(n[1]) \o ": " \o ToString(AsSet(n[2]))} : n \in AsSet(item.needs)}
       \cup UNION {IF AsSet(r[2]) = Referenced(item.g, r[1]) /\ Cardinality(AsSet(r[2])) = Len(r[2]) THEN {}
                   ELSE {"references of " \o r[1] \o ": " \o ToString(r[2])} : r \in AsSet(item.refs)}
       \cup (IF AsSet(item.iter) = AsSet(Occurring(item.g)) /\ Len(item.iter) = Len(Occurring(item.g)) THEN {} ELSE {"occurring types"})
=============================================================================
