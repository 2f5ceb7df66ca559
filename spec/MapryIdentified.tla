--------------------------- MODULE MapryIdentified ---------------------------
(* Judges what the tool did with schemas: item [s, got], got is a record      *)
(* [refused, places, files, crash]: whether the tool refused the schema, the  *)
(* places it named, how many files there are after a refusal.                 *)
EXTENDS MapryIdents, MapryJudge

AsSet(q) == {q[i] : i \in 1..Len(q)}

BadIdentified(item) ==
  LET must == Conflicts(item.s)
      may == Doubts(item.s)
      places == AsSet(item.got.places)
  IN IF item.got.crash # "" THEN {"crash"}
     ELSE IF ~item.got.refused
     THEN {"accepted: " \o c.why : c \in must}
     ELSE (IF must \cup may = {} THEN {"refused"}
           ELSE {"not named: " \o c.why : c \in {c \in must : c.o \cap places = {}}}
                \cup {"named wrongly: " \o p : p \in {p \in places : \A c \in must \cup may : p \notin c.o}})
          \cup (IF item.got.files > 0 THEN {"files of a refused schema"} ELSE {})
=============================================================================
