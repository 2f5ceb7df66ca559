---------------------------- MODULE MapryIdentsRun ----------------------------
(* How the validation finds conflicts: it walks over the declarations of a    *)
(* name space once, remembering the first owner of each identifier, and it    *)
(* walks from each embeddable over those it holds. Checked for all name       *)
(* spaces of up to MaxDecls declarations of the identifiers Ids and all       *)
(* graphs of Embeds embeddables: every conflict is named by one of its        *)
(* owners, and nothing else is named.                                         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Ids, ReservedIds, MaxDecls, Embeds,
          Remember    \* "first" owners, the "last" one only

VARIABLES decls, pos, seen, named,          \* the walk over declarations
          edges, from, stack, visited, found \* the search from each embeddable

vars == <<decls, pos, seen, named, edges, from, stack, visited, found>>

Init ==
  /\ decls \in UNION {[1..n -> Ids] : n \in 0..MaxDecls}
  /\ pos = 1 /\ seen = {} /\ named = {}
  /\ edges \in SUBSET (Embeds \X Embeds)
  /\ from = 0 /\ stack = {} /\ visited = {} /\ found = {}

Walk ==
  /\ pos <= Len(decls)
  /\ named' = IF decls[pos] \in ReservedIds \/ decls[pos] \in seen THEN named \cup {pos} ELSE named
  /\ seen' = IF Remember = "last" THEN {decls[pos]} ELSE seen \cup {decls[pos]}
  /\ pos' = pos + 1
  /\ UNCHANGED <<decls, edges, from, stack, visited, found>>

Start ==
  /\ pos > Len(decls)
  /\ stack = {} /\ from < Cardinality(Embeds)
  /\ from' = from + 1
  /\ stack' = {from + 1} /\ visited' = {}
  /\ UNCHANGED <<decls, pos, seen, named, edges, found>>

Search ==
  /\ \E e \in stack :
       LET next == {x \in Embeds : <<e, x>> \in edges} IN
       IF from \in next
       THEN found' = found \cup {from} /\ stack' = {} /\ visited' = visited
       ELSE /\ stack' = (stack \ {e}) \cup (next \ visited)
            /\ visited' = visited \cup next
            /\ found' = found
  /\ UNCHANGED <<decls, pos, seen, named, edges, from>>

Next == Walk \/ Start \/ Search
Spec == Init /\ [][Next]_vars

RECURSIVE Closed(_)
Closed(r) ==
  LET more == r \cup {<<a[1], b[2]>> : <<a, b>> \in {<<a, b>> \in r \X r : a[2] = b[1]}} IN
  IF more = r THEN r ELSE Closed(more)

Named ==
  pos > Len(decls) =>
    /\ \A i, j \in 1..Len(decls) : i # j /\ decls[i] = decls[j] => i \in named \/ j \in named
    /\ \A i \in 1..Len(decls) : decls[i] \in ReservedIds => i \in named
    /\ \A i \in named : decls[i] \in ReservedIds \/ \E j \in 1..Len(decls) : j # i /\ decls[i] = decls[j]
Found ==
  (from = Cardinality(Embeds) /\ stack = {}) => found = {e \in Embeds : <<e, e>> \in Closed(edges)}
=============================================================================
