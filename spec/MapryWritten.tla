---------------------------- MODULE MapryWritten ----------------------------
(* Durations made by a client and what a language wrote for them.            *)
EXTENDS MapryDuration, MapryJudge

BadWritten(item) ==
  IF item.crash # "" THEN {item.crash}
  ELSE IF Len(item.ns) # Len(item.w) THEN {"not as many written as given"}
  ELSE {ToString(<<item.w[j].s, j>>) : j \in {j \in 1..Len(item.ns) : ~WrittenDuration(item.w[j].c, item.ns[j])}}

=============================================================================
