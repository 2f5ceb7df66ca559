---------------------------- MODULE MapryGenerate ----------------------------
(* Sessions of the generator. A process loads schemas into slots, generates   *)
(* code from what is in a slot (all files of a language or one file with one  *)
(* of the generator functions), forgets and reloads slots, and fails on       *)
(* invalid schemas in between; processes end and start again in a different   *)
(* environment. What comes out depends on the schema and the language alone.  *)
(*                                                                            *)
(* An implementation may remember things between the steps (memo). Key tells  *)
(* what is remembered under the same key: with "content" (or "none") the      *)
(* outcome is a function of the schema, and with "name" or "slot", which      *)
(* stand for memoization by the name of a composite or by the identity of an  *)
(* object, it is not, which TLC shows.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS SessionFile, Depth, Sim, Key, Churn

Input == JsonDeserialize(SessionFile)
Variants == Input.variants     \* name -> [valid, name, langs]
Slots == {"s1", "s2", "s3"}
Langs == {"py", "go", "cpp"}
Envs == {Input.envs[j] : j \in 1..Len(Input.envs)}

LangsOf(v) == {Variants[v].langs[j] : j \in 1..Len(Variants[v].langs)}
\* The text to be generated is a function of the schema and the language.
Text(v, lang) == <<v, lang>>
\* Whether generation succeeds.
Succeeds(v, lang) == Variants[v].valid /\ lang \in LangsOf(v)

-----------------------------------------------------------------------------
VARIABLES slots, memo, out, hist, ended
vars == <<slots, memo, out, hist, ended>>

Empty == ""
Steps == IF Sim THEN Len(hist) ELSE 0
Pick(set) == IF Sim /\ set # {} /\ Len(hist) > 0 THEN {RandomElement(set)} ELSE set
Full == {s \in Slots : slots[s] # Empty}
KeyOf(v, slot) ==
  CASE Key = "content" -> v [] Key = "name" -> Variants[v].name [] Key = "slot" -> slot [] OTHER -> Empty

Ops ==
  UNION {{[op |-> "load", slot |-> s, v |-> v] : s \in Pick(Slots), v \in Pick(DOMAIN Variants)},
         {[op |-> "load", slot |-> s, v |-> v] : s \in Pick(Slots), v \in Pick(DOMAIN Variants)},
         {[op |-> "forget", slot |-> s] : s \in Pick(Full)},
         {[op |-> "start", env |-> e] : e \in Pick(Envs)}}
Gens ==
  UNION {{[op |-> "gen", slot |-> s, lang |-> l, how |-> h] :
            s \in Pick(Full), l \in Pick(Langs), h \in Pick({"cli", "main", "parts", "backwards"})} : i \in {1}}

\* The schemas which can be loaded.
LoadAfter(sl, op) ==
  CASE op.op = "load" -> [sl EXCEPT ![op.slot] = IF Variants[op.v].valid THEN op.v ELSE sl[op.slot]]
    [] op.op = "forget" -> [sl EXCEPT ![op.slot] = Empty]
    [] op.op = "start" -> [s \in Slots |-> Empty]
    [] OTHER -> sl

Init ==
  /\ \E v \in {w \in DOMAIN Variants : Variants[w].valid} : slots = [s \in Slots |-> IF s = "s1" THEN v ELSE Empty]
  /\ memo = [k \in {} |-> Empty] /\ out = <<>> /\ ended = FALSE
  /\ \E e \in Envs : hist = IF Sim THEN <<[op |-> "start", env |-> e], [op |-> "load", slot |-> "s1", v |-> slots["s1"]]>>
                            ELSE <<>>
Do(op) ==
  /\ slots' = LoadAfter(slots, op)
  /\ hist' = IF Sim THEN Append(hist, op) ELSE hist
  /\ UNCHANGED ended
  /\ IF op.op = "gen" /\ Succeeds(slots[op.slot], op.lang)
     THEN LET v == slots[op.slot]
              k == <<KeyOf(v, op.slot), op.lang>>
              text == IF Key # "none" /\ k \in DOMAIN memo THEN memo[k] ELSE Text(v, op.lang)
          IN /\ out' = <<v, op.lang, text>>
             /\ memo' = [x \in DOMAIN memo \cup {k} |-> IF x = k THEN text ELSE memo[x]]
     ELSE /\ out' = <<>>
          /\ memo' = IF op.op = "start" THEN [k \in {} |-> Empty] ELSE memo
\* A session which forgets every schema after it was used, so that things can take its place in the memory.
Last == IF Len(hist) = 0 THEN "start" ELSE hist[Len(hist)].op
ChurnOps ==
  IF slots["s1"] = Empty
  THEN {[op |-> "load", slot |-> "s1", v |-> v] : v \in Pick({w \in DOMAIN Variants : Variants[w].valid})}
  ELSE IF Last = "load"
  THEN UNION {{[op |-> "gen", slot |-> "s1", lang |-> l, how |-> h] : l \in Pick(Langs), h \in Pick({"main", "parts", "backwards"})} : i \in {1}}
  ELSE {[op |-> "forget", slot |-> "s1"]}
Next ==
  \/ /\ Steps < Depth /\ Churn
     /\ \E op \in ChurnOps : Do(op)
  \/ /\ Steps < Depth /\ ~Churn
     /\ \/ \E op \in Ops : Do(op)
        \/ \E op \in Gens : Do(op)
        \/ Sim /\ \E op \in Gens : Do(op)
        \/ Sim /\ \E op \in Gens : Do(op)
  \/ /\ Sim /\ Steps = Depth /\ ~ended
     /\ PrintT("HIST " \o ToJson(hist))
     /\ ended' = TRUE /\ UNCHANGED <<slots, memo, out, hist>>
GenerateSpec == Init /\ [][Next]_vars

Shallow == TLCGet("level") <= Depth
\* The outcome is a function of the schema and the language.
Functional == out = <<>> \/ out[3] = Text(out[1], out[2])
=============================================================================
