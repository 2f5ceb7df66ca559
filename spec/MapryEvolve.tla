----------------------------- MODULE MapryEvolve -----------------------------
(* The evolution of a schema, as a state machine over the schemas of           *)
(* MapryValue: each step is one which keeps the documents of the former schema *)
(* readable. A property has an identity (pid) which stays when it is renamed,  *)
(* moved or loosened, so that any two schemas of a history are related.        *)
(*                                                                             *)
(* Exhaustively (Sim = FALSE): Compatible states what the steps are for, on    *)
(* all given documents. In simulation, histories are printed for which code is *)
(* generated and run (MapryEvolved judges it).                                 *)
EXTENDS MapryValue, Json

CONSTANTS EvolveFile, Depth, Stride, Sim

Input == JsonDeserialize(EvolveFile)
Base == Input.schema
Leaves == Input.leaves        \* sequence of types, each with its number i; looser: sequence of numbers
Docs == Input.docs
NewNames == {Input.names[j] : j \in 1..Len(Input.names)}
NewClasses == Input.classes   \* name -> key in the document
NewEmbeds == {Input.embeds[j] : j \in 1..Len(Input.embeds)}

VARIABLES schema, used, prev, hist, ended
vars == <<schema, used, prev, hist, ended>>

Taken == IF Sim THEN Len(hist) ELSE 0
Pick(set) == IF Sim /\ set # {} /\ Len(hist) >= 0 THEN {RandomElement(set)} ELSE set

Comps(s) == {"*"} \cup DOMAIN s.classes \cup DOMAIN s.embeds
PropsOf(s, c) == IF c = "*" THEN s.graph.props
                 ELSE IF c \in DOMAIN s.classes THEN s.classes[c].props ELSE s.embeds[c].props
WithProps(s, c, ps) ==
  IF c = "*" THEN [s EXCEPT !.graph.props = ps]
  ELSE IF c \in DOMAIN s.classes THEN [s EXCEPT !.classes[c].props = ps]
  ELSE [s EXCEPT !.embeds[c].props = ps]
Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(seq, j) == SubSeq(seq, 1, j - 1) \o SubSeq(seq, j + 1, Len(seq))
Fresh == NewNames \ used

\* Types for additions (an embeddable must not contain itself).
Types(s, c) ==
  LET leaf == {Leaves[j].t : j \in 1..Len(Leaves)}
      refs == {[k |-> "class", name |-> n] : n \in DOMAIN s.classes}
      embs == IF c \in DOMAIN s.embeds THEN {} ELSE {[k |-> "embed", name |-> n] : n \in DOMAIN s.embeds}
      flat == Pick(leaf) \cup Pick(refs) \cup Pick(embs)
  IN flat \cup (IF Sim THEN {[k |-> "array", v |-> t] : t \in Pick(flat)} \cup {[k |-> "map", v |-> t] : t \in Pick(flat)}
                ELSE {})
JsonNames(n) == IF Sim THEN Pick({n, n \o " json", " " \o n, n \o " ", n \o "/x", "%" \o n, "'" \o n}) ELSE {n}
NewProp(n, js, opt, t) == [pid |-> n, name |-> n, json |-> js, opt |-> opt, t |-> t]

\* Looser types of a type.
RECURSIVE Looser(_)
Looser(t) ==
  CASE "i" \in DOMAIN t -> {Leaves[Leaves[t.i].looser[j]].t : j \in 1..Len(Leaves[t.i].looser)}
    [] t.k \in {"array", "map"} ->
         {[t EXCEPT !.v = x] : x \in Looser(t.v)}
         \cup (IF "min" \in DOMAIN t
               THEN {[x \in DOMAIN t \ {"min"} |-> t[x]]} \cup (IF t.min > 0 THEN {[t EXCEPT !.min = t.min - 1]} ELSE {})
               ELSE {})
         \cup (IF "max" \in DOMAIN t
               THEN {[x \in DOMAIN t \ {"max"} |-> t[x]], [t EXCEPT !.max = t.max + 1]} ELSE {})
    [] OTHER -> {}

Evolve(s2, names, what) ==
  /\ schema' = s2 /\ used' = used \cup names /\ prev' = schema
  /\ hist' = IF Sim THEN Append(hist, [what |-> what, schema |-> s2]) ELSE hist
  /\ UNCHANGED ended

AddOptional ==
  \E c \in Pick(Comps(schema)) : \E n \in Pick(Fresh) : \E js \in JsonNames(n) : \E t \in Pick(Types(schema, c)) :
    \E at \in Pick(0..Len(PropsOf(schema, c))) :
      LET ps == PropsOf(schema, c) IN
      Evolve(WithProps(schema, c, SubSeq(ps, 1, at) \o <<NewProp(n, js, TRUE, t)>> \o SubSeq(ps, at + 1, Len(ps))), {n}, "add " \o c \o "." \o n)
AddClass ==
  \E n \in Pick(DOMAIN NewClasses \ used) : \E p \in Pick(Fresh) : \E t \in Pick(Types(schema, "*")) : \E o \in Pick(BOOLEAN) :
    Evolve([schema EXCEPT !.classes = Extend(schema.classes, n, [key |-> NewClasses[n], props |-> <<NewProp(p, p, o, t)>>]),
                        !.corder = IF o THEN Append(@, n) ELSE <<n>> \o @], {n, p}, "class " \o n)
AddEmbed ==
  \E n \in Pick(NewEmbeds \ used) : \E p \in Pick(Fresh) : \E t \in Pick(Types(schema, n)) : \E o \in Pick(BOOLEAN) :
    t.k # "embed" /\ (t.k \in {"array", "map"} => t.v.k # "embed") /\
    Evolve([schema EXCEPT !.embeds = Extend(schema.embeds, n, [props |-> <<NewProp(p, p, o, t)>>])], {n, p}, "embeddable " \o n)
Rename ==
  \E c \in Pick(Comps(schema)) : \E j \in Pick(1..Len(PropsOf(schema, c))) : \E n \in Pick(Fresh) :
    Evolve(WithProps(schema, c, [PropsOf(schema, c) EXCEPT ![j].name = n]), {n}, "rename in " \o c)
Reorder ==
  \E c \in Pick(Comps(schema)) : \E i \in Pick(1..Len(PropsOf(schema, c))) : \E j \in Pick(1..Len(PropsOf(schema, c))) :
    LET ps == PropsOf(schema, c) IN
    i < j /\ Evolve(WithProps(schema, c, [ps EXCEPT ![i] = ps[j], ![j] = ps[i]]), {}, "reorder " \o c)
Loosen ==
  \E c \in Pick(Comps(schema)) :
    LET able == {j \in 1..Len(PropsOf(schema, c)) : Looser(PropsOf(schema, c)[j].t) # {}} IN
    \E j \in Pick(able) : \E t \in Pick(Looser(PropsOf(schema, c)[j].t)) :
      Evolve(WithProps(schema, c, [PropsOf(schema, c) EXCEPT ![j].t = t]), {}, "loosen in " \o c)
MakeOptional ==
  \E c \in Pick(Comps(schema)) :
    LET able == {j \in 1..Len(PropsOf(schema, c)) : ~PropsOf(schema, c)[j].opt} IN
    \E j \in Pick(able) : Evolve(WithProps(schema, c, [PropsOf(schema, c) EXCEPT ![j].opt = TRUE]), {}, "optional in " \o c)
AnyId ==
  \E c \in Pick({x \in DOMAIN schema.classes : "id_re" \in DOMAIN schema.classes[x]}) :
    Evolve([schema EXCEPT !.classes[c] = [f \in DOMAIN schema.classes[c] \ {"id_re"} |-> schema.classes[c][f]]], {}, "any identifier of " \o c)
Remove ==
  \E c \in Pick(Comps(schema)) : \E j \in Pick(1..Len(PropsOf(schema, c))) :
    Evolve(WithProps(schema, c, Without(PropsOf(schema, c), j)), {PropsOf(schema, c)[j].name}, "remove from " \o c)

Init == /\ schema = Base /\ prev = Base /\ used = {} /\ ended = FALSE
        /\ hist = <<>>
Next ==
  \/ /\ Taken < Depth
     /\ \/ AddOptional \/ AddClass \/ AddEmbed \/ Rename \/ Reorder \/ Loosen \/ MakeOptional \/ AnyId \/ Remove
        \/ (Sim /\ AddOptional) \/ (Sim /\ Loosen) \/ (Sim /\ Rename)
  \/ /\ Sim /\ Taken = Depth /\ ~ended
     /\ PrintT("HIST " \o ToJson([whats |-> [j \in 1..Len(hist) |-> hist[j].what],
                                   versions |-> [j \in 1..(Len(hist) \div Stride) |-> hist[j * Stride].schema]]))
     /\ ended' = TRUE /\ UNCHANGED <<schema, used, prev, hist>>
EvolveSpec == Init /\ [][Next]_vars

Shallow == TLCGet("level") <= Depth

\* What a document says under the schema is what it said before. (The names of
\* additions are fresh, so that no document uses them already.)
AllLangs == {"py", "go", "cpp"}
Compatible ==
  \A j \in 1..Len(Docs) : \A lang \in AllLangs :
    DocViol(Base, Docs[j], "r", lang) = {} => DocViol(schema, Docs[j], "r", lang) = {}
\* The same for a single step.
StepCompatible ==
  \A j \in 1..Len(Docs) :
    DocViol(prev, Docs[j], "r", "py") = {} => DocViol(schema, Docs[j], "r", "py") = {}
\* Tightening is not among the steps: this must not hold (see checks/c17.py).
NeverMore ==
  \A j \in 1..Len(Docs) : DocViol(schema, Docs[j], "r", "py") = {} => DocViol(Base, Docs[j], "r", "py") = {}
=============================================================================
