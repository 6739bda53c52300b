---------------------------------- MODULE IoGen ----------------------------------
(* All short histories of the event I/O object, to be replayed on real files *)
EXTENDS EventIO, TLC, Json
CONSTANTS L
Kinds == {"next", "rewind", "hint", "upd", "all", "short"}
Hist == UNION {[1..n -> Kinds] : n \in 0..L}
(* after too few weights only rewinding and complete updates are specified *)
Allowed(h) == \A i \in 1..(Len(h) - 1) : h[i] = "short" => h[i + 1] \in {"rewind", "all", "short"}
ASSUME \A h \in Hist : Allowed(h) => PrintT("CASE " \o ToJson(h))
VARIABLE x
GInit == x = 0
GSpec == GInit /\ [][UNCHANGED x]_x
================================================================================
