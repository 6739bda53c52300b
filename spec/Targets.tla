---------------------------------- MODULE Targets ----------------------------------
(* Which runs would overwrite their input or write two outputs to one file. A
   path is <<directory, name>>, where a name is a sequence of components. Links
   (symbolic or hard) give one file several paths; directory L is a link to A. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT Variant

Names == {<<"x", "dat">>, <<"y", "dat">>, <<"x", "0", "dat">>}
Paths(dirs) == dirs \X Names
NoLink == [kind |-> "none", from |-> <<"O", <<"x", "dat">>>>, to |-> <<"O", <<"x", "dat">>>>]
Links == {NoLink} \cup
  {l \in [kind : {"sym", "hard"}, from : Paths({"A", "B", "O"}), to : Paths({"A", "B", "O"})] : l.from # l.to}

Dir(d) == IF d = "L" THEN "A" ELSE d
(* the file that a path leads to *)
FileOf(k, p) ==
  LET q == <<Dir(p[1]), p[2]>>
  IN IF k.link.kind # "none" /\ q = k.link.from THEN k.link.to ELSE q

(* output names of the tools *)
OutNames(tool, name) ==
  IF tool = "classify" THEN {<<name[1], i>> \o Tail(name) : i \in {"0", "1"}} ELSE {name}
(* <<index of input, path>> *)
Outputs(k) == {<<i, <<k.out, n>>>> : <<i, n>> \in UNION {{<<j, m>> : m \in OutNames(k.tool, k.ins[j][2])} : j \in 1..Len(k.ins)}}

Inputs(k) == {FileOf(k, k.ins[i]) : i \in 1..Len(k.ins)}
Overwrites(k) == \E o \in Outputs(k) : FileOf(k, o[2]) \in Inputs(k)
Collides(k) == \E o, p \in Outputs(k) : o # p /\ FileOf(k, o[2]) = FileOf(k, p[2])
MustRefuse(k) == Overwrites(k) \/ Collides(k)

(* a run is possible at all: hard links only to files that exist *)
Existing(k) == {<<Dir(k.ins[i][1]), k.ins[i][2]>> : i \in 1..Len(k.ins)}
Sensible(k) ==
  /\ k.link.kind = "hard" => k.link.to \in Existing(k) \ {k.link.from}
  /\ k.link.from \in Existing(k) => k.link.to \in Existing(k) \ {k.link.from}
  \* links matter only if something uses them
  /\ k.link.kind = "none" \/ k.link.from \in Existing(k) \/ \E o \in Outputs(k) : <<Dir(o[2][1]), o[2][2]>> = k.link.from

Runs(n) == {k \in [tool : {"cres", "classify"}, ins : UNION {[1..m -> Paths({"A", "B"})] : m \in 1..n},
                   out : {"A", "B", "O", "L"}, link : Links] : Sensible(k)}

(* ---- the run as a state machine: every file has some content ---- *)
VARIABLES k, todo, disk, phase
vars == <<k, todo, disk, phase>>
AllFiles == Paths({"A", "B", "O"})
Original == [f \in AllFiles \cup {FileOf(k, o[2]) : o \in Outputs(k)} |-> <<0>>]
Refused ==
  IF Variant = "by name"  \* a broken design, which compares paths
  THEN \/ \E o \in Outputs(k) : \E i \in 1..Len(k.ins) : o[2] = k.ins[i]
       \/ \E o, p \in Outputs(k) : o # p /\ o[2] = p[2]
  ELSE MustRefuse(k)
Init == k \in Runs(2) /\ todo = Outputs(k) /\ disk = Original /\ phase = "start"
Start == phase = "start" /\ phase' = (IF Refused THEN "refused" ELSE "run") /\ UNCHANGED <<k, todo, disk>>
Write == /\ phase = "run" /\ todo # {}
         /\ \E o \in todo : /\ todo' = todo \ {o}
                            /\ disk' = [disk EXCEPT ![FileOf(k, o[2])] = o]
         /\ UNCHANGED <<k, phase>>
Done == phase = "run" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<k, todo, disk>>
Spec == Init /\ [][Start \/ Write \/ Done]_vars

InputsIntact == \A f \in Inputs(k) : disk[f] = <<0>>
AllWritten == phase = "done" => \A o \in Outputs(k) : disk[FileOf(k, o[2])] = o
NothingRefusedForFun ==
  phase = "refused" => (\E o \in Outputs(k) : FileOf(k, o[2]) \in Inputs(k))
                       \/ Cardinality({FileOf(k, o[2]) : o \in Outputs(k)}) < Cardinality(Outputs(k))
=====================================================================================
