---------------------------- MODULE MapryOrdered ----------------------------
(* Which mappings of generated Python are ordered, and how.                    *)
(*                                                                            *)
(* Reading: maps and registries in memory are of the kind of the mapping they *)
(* are read from, and ordered ones keep its order. Writing: the graph, its    *)
(* registries, its instances and its embeddables become ordered mappings      *)
(* exactly if asked, their keys in the order of the schema; a map stays what  *)
(* it is.                                                                     *)
(*                                                                            *)
(* A mapping is [k |-> "map", o |-> ordered?, m |-> <<[n |-> key, v]>>]; an    *)
(* embeddable in memory is [k |-> "emb", m] by the names of its properties.   *)
EXTENDS MapryJudge, FiniteSets

Schemas == JsonDeserialize(File).schemas

Keys(m) == [j \in 1..Len(m) |-> m[j].n]
KeySet(m) == {m[j].n : j \in 1..Len(m)}
At(m, n) == m[CHOOSE j \in 1..Len(m) : m[j].n = n].v
Has(m, n) == n \in KeySet(m)
SameKeys(ordered, a, b) == IF ordered THEN Keys(a) = Keys(b) ELSE KeySet(a) = KeySet(b) /\ Len(a) = Len(b)
PropsOf(S, t) == IF t.k = "embed" THEN S.embeds[t.name].props ELSE S.classes[t.name].props

-----------------------------------------------------------------------------
\* What is wrong with a value in memory, given the mapping it was read from.
RECURSIVE Read(_, _, _, _)
ReadProps(S, ps, obj, mem) ==
  UNION {IF Has(mem, ps[j].name) /\ Has(obj.m, ps[j].json)
         THEN Read(S, ps[j].t, At(obj.m, ps[j].json), At(mem, ps[j].name)) ELSE {} : j \in 1..Len(ps)}
Read(S, t, doc, mem) ==
  CASE t.k = "map" ->
         IF mem.k # "map" THEN {"read: not a mapping"}
         ELSE (IF mem.o # doc.o THEN {"read: a map is" \o (IF doc.o THEN " not" ELSE "") \o " ordered"} ELSE {})
              \cup (IF ~SameKeys(doc.o, doc.m, mem.m) THEN {"read: the keys of a map differ"} ELSE
                    UNION {Read(S, t.v, doc.m[j].v, At(mem.m, doc.m[j].n)) : j \in 1..Len(doc.m)})
    [] t.k = "array" ->
         IF mem.k # "arr" \/ Len(mem.e) # Len(doc.e) THEN {"read: an array differs"}
         ELSE UNION {Read(S, t.v, doc.e[j], mem.e[j]) : j \in 1..Len(doc.e)}
    [] t.k = "embed" -> IF mem.k # "emb" THEN {"read: not an embeddable"} ELSE ReadProps(S, PropsOf(S, t), doc, mem.m)
    [] OTHER -> {}

ReadGraph(S, it) ==
  ReadProps(S, S.graph.props, it.given, it.props)
  \cup UNION {
    LET cls == S.corder[j]  key == S.classes[cls].key  mem == it.regs[cls] IN
    IF ~Has(it.given.m, key) THEN IF mem.m = <<>> THEN {} ELSE {"read: instances from nowhere"}
    ELSE LET doc == At(it.given.m, key) IN
         (IF mem.o # doc.o THEN {"read: a registry is" \o (IF doc.o THEN " not" ELSE "") \o " ordered"} ELSE {})
         \cup (IF ~SameKeys(doc.o, doc.m, mem.m) THEN {"read: the keys of a registry differ"}
               ELSE UNION {ReadProps(S, S.classes[cls].props, doc.m[i].v, At(mem.m, doc.m[i].n)) : i \in 1..Len(doc.m)})
    : j \in 1..Len(S.corder)}

-----------------------------------------------------------------------------
\* What is wrong with what was written of a value in memory.
Kind(what, ser, asked) ==
  IF ser.k # "map" THEN {"written: " \o what \o " is not a mapping"}
  ELSE IF ser.o # asked THEN {"written: " \o what \o (IF asked THEN " is not ordered" ELSE " is ordered")} ELSE {}
\* Properties which are set, in the order of the schema.
Expected(ps, mem) ==
  LET set == SelectSeq(ps, LAMBDA p : Has(mem, p.name)) IN [j \in 1..Len(set) |-> set[j].json]
RECURSIVE Written(_, _, _, _, _)
WrittenProps(S, what, ps, mem, ser, asked) ==
  LET keys == [j \in 1..Len(ser.m) |-> ser.m[j].n]
      want == Expected(ps, mem)
  IN (IF \E j \in 1..Len(want) : ~Has(ser.m, want[j]) THEN {"written: " \o what \o " lacks a property"}
      ELSE IF asked /\ SubSeq(keys, 1, IF Len(want) < Len(keys) THEN Len(want) ELSE Len(keys)) # want
      THEN {"written: " \o what \o " is in another order than the schema"} ELSE {})
     \cup UNION {IF Has(mem, ps[j].name) /\ Has(ser.m, ps[j].json)
                 THEN Written(S, ps[j].t, At(mem, ps[j].name), At(ser.m, ps[j].json), asked) ELSE {} : j \in 1..Len(ps)}
Written(S, t, mem, ser, asked) ==
  CASE t.k = "map" ->
         IF ser.k # "map" THEN {"written: a map is not a mapping"}
         ELSE (IF ser.o # mem.o THEN {"written: a map changes its kind"} ELSE {})
              \cup (IF ~SameKeys(mem.o, mem.m, ser.m) THEN {"written: the keys of a map differ"}
                    ELSE UNION {Written(S, t.v, mem.m[j].v, At(ser.m, mem.m[j].n), asked) : j \in 1..Len(mem.m)})
    [] t.k = "array" ->
         IF ser.k # "arr" \/ Len(ser.e) # Len(mem.e) THEN {"written: an array differs"}
         ELSE UNION {Written(S, t.v, mem.e[j], ser.e[j], asked) : j \in 1..Len(mem.e)}
    [] t.k = "embed" ->
         LET kind == Kind("an embeddable", ser, asked) IN
         kind \cup IF ser.k # "map" THEN {} ELSE WrittenProps(S, "an embeddable", PropsOf(S, t), mem.m, ser, asked)
    [] OTHER -> {}

WrittenGraph(S, it, ser, asked) ==
  IF ser.k # "map" THEN {"written: the graph is not a mapping"} ELSE
  LET full == SelectSeq(S.corder, LAMBDA c : it.regs[c].m # <<>>)
      want == Expected(S.graph.props, it.props) \o [j \in 1..Len(full) |-> S.classes[full[j]].key]
      \* an empty registry may be written or not
      got == SelectSeq(Keys(ser.m), LAMBDA k : \A j \in 1..Len(S.corder) :
                                        ~(S.classes[S.corder[j]].key = k /\ it.regs[S.corder[j]].m = <<>>))
  IN Kind("the graph", ser, asked)
     \cup (IF {got[j] : j \in 1..Len(got)} # {want[j] : j \in 1..Len(want)} THEN {"written: the keys of the graph differ"}
           ELSE IF asked /\ got # want THEN {"written: the graph is in another order than the schema"} ELSE {})
     \cup WrittenProps(S, "the graph", S.graph.props, it.props, ser, FALSE)
     \cup UNION {Written(S, S.graph.props[j].t, At(it.props, S.graph.props[j].name), At(ser.m, S.graph.props[j].json), asked)
                 : j \in {i \in 1..Len(S.graph.props) : Has(it.props, S.graph.props[i].name) /\ Has(ser.m, S.graph.props[i].json)}}
     \cup UNION {
       LET cls == full[j]  key == S.classes[cls].key  mem == it.regs[cls].m IN
       IF ~Has(ser.m, key) THEN {}
       ELSE LET reg == At(ser.m, key) IN
            Kind("a registry", reg, asked)
            \cup IF reg.k # "map" THEN {}
                 ELSE IF ~SameKeys(asked, mem, reg.m) THEN {"written: the keys of a registry differ"}
                 ELSE UNION {LET inst == At(reg.m, mem[i].n) IN
                             Kind("an instance", inst, asked)
                             \cup IF inst.k # "map" THEN {}
                                  ELSE WrittenProps(S, "an instance", S.classes[cls].props, mem[i].v, inst, asked)
                             : i \in 1..Len(mem)}
       : j \in 1..Len(full)}

-----------------------------------------------------------------------------
\* The same contents, whatever the order.
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "map" -> Len(a.m) = Len(b.m) /\ KeySet(a.m) = KeySet(b.m)
                         /\ \A j \in 1..Len(a.m) : Same(a.m[j].v, At(b.m, a.m[j].n))
       [] a.k = "arr" -> Len(a.e) = Len(b.e) /\ \A j \in 1..Len(a.e) : Same(a.e[j], b.e[j])
       [] OTHER -> a.s = b.s

BadParts(S, it) ==
  UNION {LET p == it.parts[j]
             ps == IF p.c \in DOMAIN S.classes THEN S.classes[p.c].props ELSE S.embeds[p.c].props
         IN Kind("a composite of its own", p.asked, TRUE) \cup Kind("a composite of its own", p.unasked, FALSE)
            \cup (IF p.asked.k = "map" THEN WrittenProps(S, "a composite of its own", ps, p.props, p.asked, TRUE) ELSE {})
            \cup (IF p.unasked.k = "map" THEN WrittenProps(S, "a composite of its own", ps, p.props, p.unasked, FALSE) ELSE {})
            \cup (IF Same(p.asked, p.unasked) THEN {} ELSE {"written: the contents depend on the order asked for"})
         : j \in 1..Len(it.parts)}

BadOrdered(it) ==
  IF it.crash # "" THEN {"crash: " \o it.crash}
  ELSE LET S == Schemas[it.s] IN
       ReadGraph(S, it)
       \cup WrittenGraph(S, it, it.asked, TRUE) \cup WrittenGraph(S, it, it.unasked, FALSE) \cup WrittenGraph(S, it, it.silent, FALSE)
       \cup (IF Same(it.asked, it.unasked) /\ Same(it.silent, it.unasked) THEN {} ELSE {"written: the contents depend on the order asked for"})
       \cup BadParts(S, it)
=============================================================================
