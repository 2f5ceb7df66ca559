------------------------------ MODULE MapryReach ------------------------------
(* The design of the search for types: a recursive descent which marks the    *)
(* types visited, over every graph of a few types. It ends, and finds exactly *)
(* what is reachable; a descent which marks too eagerly does not (Eager).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Types, Eager
VARIABLES edges, goal, start, stack, visited, answer
vars == <<edges, goal, start, stack, visited, answer>>

Init ==
  /\ edges \in [Types -> SUBSET Types]
  /\ goal \in Types
  /\ start \in Types
  /\ stack = <<[at |-> start, todo |-> edges[start]]>>
  /\ visited = {}
  /\ answer = "open"

Top == stack[1]
\* The type looked at is what is searched for.
Hit == /\ answer = "open" /\ stack # <<>> /\ Top.at = goal
       /\ answer' = "found" /\ UNCHANGED <<edges, goal, start, stack, visited>>
\* Descend to a type within, unless it is visited.
Down ==
  /\ answer = "open" /\ stack # <<>> /\ Top.at # goal
  /\ \E t \in Top.todo :
       LET rest == <<[Top EXCEPT !.todo = @ \ {t}]>> \o Tail(stack) IN
       IF t \in visited THEN stack' = rest /\ UNCHANGED visited
       ELSE /\ stack' = <<[at |-> t, todo |-> edges[t]]>> \o rest
            /\ visited' = visited \cup {Top.at} \cup IF Eager THEN Top.todo ELSE {}
  /\ UNCHANGED <<edges, goal, start, answer>>
Up ==
  /\ answer = "open" /\ stack # <<>> /\ Top.at # goal /\ Top.todo = {}
  /\ stack' = Tail(stack)
  /\ UNCHANGED <<edges, goal, start, visited, answer>>
End ==
  /\ answer = "open" /\ stack = <<>>
  /\ answer' = "none" /\ UNCHANGED <<edges, goal, start, stack, visited>>
Next == Hit \/ Down \/ Up \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Reach(_, _)
Reach(e, ts) == LET more == UNION {e[t] : t \in ts} IN IF more \subseteq ts THEN ts ELSE Reach(e, ts \cup more)
\* The search finds the goal exactly if it is reachable.
Sound == answer = "found" => goal \in Reach(edges, {start})
Complete == answer = "none" => goal \notin Reach(edges, {start})
Bounded == Len(stack) <= 2 * Cardinality(Types) + 1
Ends == <>(answer # "open")
=============================================================================
