--------------------------- MODULE MapryNamesModel ----------------------------
(* All names over a small alphabet, grown letter by letter: the definitions   *)
(* of MapryNames keep what they promise for each of them.                     *)
EXTENDS MapryNames
CONSTANTS MaxLen
\* A c f s u x y 1 _
Letters == {65, 97, 99, 102, 115, 120, 121, 49, 95}
VARIABLE name
Init == name \in {<<65>>, <<97>>, <<121>>}
Next == Len(name) < MaxLen /\ \E c \in Letters : name' = Append(name, c)
Spec == Init /\ [][Next]_name
Promise == PropertyName(name) => Sound(name)
=============================================================================
