----------------------------- MODULE MapryCliRun -----------------------------
(* Judges the recorded histories of the command line tool: every step is      *)
(* taken in the state machine of MapryCli, and what is observed after it (all *)
(* files below the place of the history, exit code, message) must be what the *)
(* state machine says. After a step which went wrong the history goes on from *)
(* what was observed, so that every wrong step is reported once.              *)
EXTENDS MapryJudge

CONSTANTS CliFile
C == INSTANCE MapryCli WITH CliFile <- CliFile, Depth <- 0, Sim <- FALSE,
       files <- 0, schema <- 0, fresh <- 0, hist <- 0, ended <- 0

Of(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE "none"
\* The paths at which two sets of files differ.
Diff(a, b) == {p \in DOMAIN a \cup DOMAIN b : Of(a, p) # Of(b, p)}

\* What is wrong with a step from the files fs with the schema v.
Wrong(fs, v, st) ==
  LET op == st.op
      diff == Diff(C!After(fs, v, op), st.files)
      ok == C!Succeeds(fs, v, op)
  IN {"the file " \o p \o " is " \o Of(st.files, p) \o " instead of " \o Of(C!After(fs, v, op), p) : p \in diff}
     \cup IF op.op \notin {"run", "usage"} THEN {}
          ELSE (IF ok /\ st.exit # 0 THEN {"exit code is not 0"} ELSE {})
               \cup (IF ~ok /\ st.exit = 0 THEN {"exit code is 0"} ELSE {})
               \cup (IF ~ok /\ ~st.described THEN {"the problem is not described"} ELSE {})
               \cup (IF ok /\ ~st.dir THEN {"the output directory is not there"} ELSE {})
RECURSIVE Walk(_, _, _, _)
Walk(steps, j, fs, v) ==
  IF j > Len(steps) THEN {}
  ELSE LET st == steps[j]
       IN {"step " \o ToString(j) \o ": " \o w : w \in Wrong(fs, v, st)}
          \cup Walk(steps, j + 1, st.files, C!SchemaAfter(v, st.op))
BadCliRun(it) == Walk(it.steps, 1, it.before, it.v)
=============================================================================
