--------------------------- MODULE MapryGenerateRun ---------------------------
(* Judges recorded sessions of the generator: each step is taken in the state *)
(* machine of MapryGenerate. Files of [variant, language] are the contents     *)
(* which a process of its own wrote; a generating step must give the same,     *)
(* exactly if generation is to succeed, and leave the schema as it was.        *)
EXTENDS MapryJudge

CONSTANTS SessionFile
G == INSTANCE MapryGenerate WITH SessionFile <- SessionFile, Depth <- 0, Sim <- FALSE, Key <- "none", Churn <- FALSE,
       slots <- 0, memo <- 0, out <- 0, hist <- 0, ended <- 0
Files == G!Input.files      \* variant -> language -> file -> content

Wrong(sl, st) ==
  LET op == st.op IN
  CASE op.op = "load" ->
         (IF st.ok = G!Variants[op.v].valid THEN {} ELSE {"loading " \o op.v \o " gives " \o ToString(st.ok)})
         \cup (IF st.ok /\ st.model # G!Variants[op.v].model THEN {op.v \o " is loaded differently"} ELSE {})
    [] op.op = "gen" ->
         LET v == sl[op.slot]
             ok == G!Succeeds(v, op.lang)
         IN (IF st.ok = ok THEN {} ELSE {"generation of " \o op.lang \o " for " \o v \o " gives " \o ToString(st.ok) \o " " \o st.err})
            \cup (IF st.model = G!Variants[v].model THEN {} ELSE {"generation of " \o op.lang \o " changed the schema " \o v})
            \cup (IF ~(st.ok /\ ok) THEN {}
                  ELSE {f \o " (" \o op.how \o ") differs for " \o v :
                          f \in {g \in DOMAIN st.files \cup DOMAIN Files[v][op.lang] :
                                   IF g \in DOMAIN st.files /\ g \in DOMAIN Files[v][op.lang]
                                   THEN st.files[g] # Files[v][op.lang][g] ELSE TRUE}})
    [] OTHER -> {}
RECURSIVE Walk(_, _, _)
Walk(steps, j, sl) ==
  IF j > Len(steps) THEN {}
  ELSE {"step " \o ToString(j) \o ": " \o w : w \in Wrong(sl, steps[j])}
       \cup Walk(steps, j + 1, G!LoadAfter(sl, steps[j].op))
BadGenerateRun(it) == Walk(it.steps, 1, [s \in G!Slots |-> ""])
=============================================================================
