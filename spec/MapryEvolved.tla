----------------------------- MODULE MapryEvolved -----------------------------
(* Judges programs generated from two schemas of a history of MapryEvolve.     *)
(*                                                                             *)
(* An item is a document with what the programs of one language generated from *)
(* the older and from the newer schema did with it: if the older one accepts,  *)
(* so does the newer one, the values of the properties which are in both are   *)
(* the same, the additions are unset, and what they write is the same up to    *)
(* what was removed.                                                           *)
EXTENDS MapryJudge, FiniteSets

CONSTANTS SchemaFile, ValidZones, OpenZones
V == INSTANCE MapryValue
Schemas == JsonDeserialize(SchemaFile).schemas

HasPid(ps, pid) == \E j \in 1..Len(ps) : ps[j].pid = pid
OfPid(ps, pid) == ps[CHOOSE j \in 1..Len(ps) : ps[j].pid = pid]
Field(m, n) == {j \in 1..Len(m) : m[j].n = n}
Val(m, n) == m[CHOOSE j \in 1..Len(m) : m[j].n = n].v
Unset(m, n) == Field(m, n) = {} \/ Val(m, n).k = "nil"

\* The paths (in the names of the older schema) at which two values differ.
RECURSIVE Diff(_, _, _, _, _, _), DiffProps(_, _, _, _, _, _, _)
Diff(t, a, b, r, s1, s2) ==
  CASE t.k = "embed" ->
         IF a.k # "emb" \/ b.k # "emb" THEN {r}
         ELSE DiffProps(s1.embeds[t.name].props, s2.embeds[t.name].props, a.m, b.m, r, s1, s2)
    [] t.k = "array" ->
         IF a.k # "arr" \/ b.k # "arr" THEN {r}
         ELSE IF Len(a.e) # Len(b.e) THEN {r}
         ELSE UNION {Diff(t.v, a.e[j], b.e[j], r \o "/" \o ToString(j - 1), s1, s2) : j \in 1..Len(a.e)}
    [] t.k = "map" ->
         IF a.k # "map" \/ b.k # "map" THEN {r}
         ELSE IF {a.m[j].n : j \in 1..Len(a.m)} # {b.m[j].n : j \in 1..Len(b.m)} THEN {r}
         ELSE UNION {Diff(t.v, a.m[j].v, Val(b.m, a.m[j].n), r \o "/" \o a.m[j].n, s1, s2) : j \in 1..Len(a.m)}
    [] OTHER -> IF a = b THEN {} ELSE {r}
DiffProps(ps1, ps2, m1, m2, r, s1, s2) ==
  UNION {LET p == ps1[j]  path == r \o "/" \o ps1[j].name IN
         IF ~HasPid(ps2, p.pid) THEN {}
         ELSE LET q == OfPid(ps2, p.pid) IN
              IF Unset(m1, p.name) \/ Unset(m2, q.name)
              THEN (IF Unset(m1, p.name) = Unset(m2, q.name) THEN {} ELSE {path})
              ELSE Diff(p.t, Val(m1, p.name), Val(m2, q.name), path, s1, s2)
         : j \in 1..Len(ps1)}
  \cup {r \o "/+" \o ps2[j].name : j \in {k \in 1..Len(ps2) : ~HasPid(ps1, ps2[k].pid) /\ ~Unset(m2, ps2[k].name)}}

DiffGraph(s1, s2, g1, g2) ==
  LET regs(g) == {g.regs[j].cls : j \in 1..Len(g.regs)}
      insts(g, c) == g.regs[CHOOSE j \in 1..Len(g.regs) : g.regs[j].cls = c].insts
      keys(g, c) == {insts(g, c)[j].key : j \in 1..Len(insts(g, c))}
      at(g, c, k) == insts(g, c)[CHOOSE j \in 1..Len(insts(g, c)) : insts(g, c)[j].key = k]
  IN DiffProps(s1.graph.props, s2.graph.props, g1.m, g2.m, "", s1, s2)
     \cup UNION {IF c \notin regs(g2) THEN {"registry of " \o c}
                 ELSE IF keys(g1, c) # keys(g2, c) THEN {"registry of " \o c}
                 ELSE UNION {(IF at(g1, c, k).id = at(g2, c, k).id THEN {} ELSE {c \o " " \o k})
                             \cup DiffProps(s1.classes[c].props, s2.classes[c].props, at(g1, c, k).m, at(g2, c, k).m,
                                            c \o " " \o k, s1, s2) : k \in keys(g1, c)}
                 : c \in regs(g1)}
     \cup {"registry of " \o c : c \in {x \in regs(g2) \ regs(g1) : insts(g2, x) # <<>>}}

\* The same for the JSON values written. (An object without members comes out
\* as null in C++, a known deviation.)
Members(w) == IF w.k = "obj" THEN w.m ELSE <<>>
RECURSIVE Written(_, _, _, _, _, _), WrittenProps(_, _, _, _, _, _, _)
Written(t, a, b, r, s1, s2) ==
  CASE t.k = "embed" -> WrittenProps(s1.embeds[t.name].props, s2.embeds[t.name].props, a, b, r, s1, s2)
    [] t.k = "array" ->
         IF a.k # "arr" \/ b.k # "arr" THEN {r}
         ELSE IF Len(a.e) # Len(b.e) THEN {r}
         ELSE UNION {Written(t.v, a.e[j], b.e[j], r \o "/" \o ToString(j - 1), s1, s2) : j \in 1..Len(a.e)}
    [] t.k = "map" ->
         LET ma == Members(a)  mb == Members(b) IN
         IF a.k # b.k \/ {ma[j].n : j \in 1..Len(ma)} # {mb[j].n : j \in 1..Len(mb)} THEN {r}
         ELSE UNION {Written(t.v, ma[j].v, Val(mb, ma[j].n), r \o "/" \o ma[j].n, s1, s2) : j \in 1..Len(ma)}
    [] OTHER -> IF a = b THEN {} ELSE {r}
WrittenProps(ps1, ps2, a, b, r, s1, s2) ==
  LET ma == Members(a)  mb == Members(b)
      kept == {j \in 1..Len(ps1) : HasPid(ps2, ps1[j].pid)}
  IN (IF a.k \in {"obj", "nul"} /\ b.k \in {"obj", "nul"} THEN {} ELSE {r})
     \cup UNION {LET p == ps1[j]  path == r \o "/" \o p.json IN
            IF Field(ma, p.json) = {} \/ Field(mb, p.json) = {}
            THEN (IF Field(ma, p.json) = Field(mb, p.json) THEN {} ELSE {path})
            ELSE Written(p.t, Val(ma, p.json), Val(mb, p.json), path, s1, s2)
            : j \in kept}
     \cup {r \o "/+" \o mb[j].n : j \in {k \in 1..Len(mb) : \A i \in kept : ps1[i].json # mb[k].n}}
WrittenGraph(s1, s2, a, b) ==
  LET keys(s) == {s.classes[c].key : c \in DOMAIN s.classes}
      only(w, ks, in) == [k |-> "obj", m |-> SelectSeq(Members(w), LAMBDA x : (x.n \in ks) = in)]
      reg(w, key) == IF Field(Members(w), key) = {} THEN [k |-> "obj", m |-> <<>>] ELSE Val(Members(w), key)
  IN WrittenProps(s1.graph.props, s2.graph.props, only(a, keys(s1), FALSE), only(b, keys(s2), FALSE), "", s1, s2)
     \cup UNION {LET ra == reg(a, s1.classes[c].key)  rb == reg(b, s1.classes[c].key)
                     ma == Members(ra)  mb == Members(rb)
                 IN IF {ma[j].n : j \in 1..Len(ma)} # {mb[j].n : j \in 1..Len(mb)} THEN {"registry of " \o c}
                    ELSE UNION {WrittenProps(s1.classes[c].props, s2.classes[c].props, ma[j].v, Val(mb, ma[j].n),
                                             c \o " " \o ma[j].n, s1, s2) : j \in 1..Len(ma)}
                 : c \in DOMAIN s1.classes}
     \cup {"registry of " \o c : c \in {x \in DOMAIN s2.classes \ DOMAIN s1.classes : Members(reg(b, s2.classes[x].key)) # <<>>}}

BadEvolved(it) ==
  LET s1 == Schemas[it.s]  s2 == Schemas[it.t]  a == it.a  b == it.b  lang == it.lang IN
  (IF V!DocViol(s1, it.doc, "r", lang) = {} /\ V!DocViol(s2, it.doc, "r", lang) # {}
   THEN {"the specification itself is not compatible"} ELSE {})
  \cup (IF a.crash # "" \/ a.errs # <<>> THEN {}
        ELSE IF b.crash # "" THEN {"crash: " \o b.crash}
        ELSE IF b.errs # <<>> THEN {"no longer accepted: " \o b.errs[1].ref}
        ELSE {"value differs: " \o x : x \in DiffGraph(s1, s2, a.graph[1], b.graph[1])}
             \cup {"written differently: " \o x : x \in WrittenGraph(s1, s2, a.ser[1], b.ser[1])})
=============================================================================
