--------------------------------- MODULE Output ---------------------------------
(* Output files are written through a buffer. Each call to the operating system may
   fail, be interrupted, or accept only a part. A program that ends successfully must
   have delivered everything.

   Variants: "ok"; "drop" ignores what goes wrong when a file is completed;
   "once" does not write the rest after a part was accepted; "log" goes on after a
   record could not be written; "last" reports only failures of the last file *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NFiles, Records, Capacity, MaxFaults, Variant
ASSUME Capacity >= 2

Files == 1..NFiles
Size(f) == 2 * Records    \* each record has two units

VARIABLES cur,      \* current file
          created, todo, buf, disk,
          completing,  \* the last part is written
          wanted,   \* units that are to be written next, 0 if none
          faults, recovered, failed, result
vars == <<cur, created, todo, buf, disk, completing, wanted, faults, recovered, failed, result>>

Init == /\ cur = 1 /\ created = [f \in Files |-> FALSE] /\ todo = [f \in Files |-> Records]
        /\ buf = 0 /\ disk = [f \in Files |-> 0] /\ completing = FALSE /\ wanted = 0
        /\ faults = 0 /\ recovered = TRUE /\ failed = FALSE /\ result = "running"

Abort == result' = "error"
Ignored == \/ Variant = "drop" /\ completing
           \/ Variant = "log" /\ ~completing
           \/ Variant = "last" /\ cur < NFiles

Create == /\ ~created[cur]
          /\ \/ created' = [created EXCEPT ![cur] = TRUE] /\ UNCHANGED <<faults, recovered, result>>
             \/ faults < MaxFaults /\ faults' = faults + 1 /\ recovered' = FALSE /\ Abort /\ UNCHANGED created
          /\ UNCHANGED <<cur, todo, buf, disk, completing, wanted, failed>>

(* the program hands over the next record, a full buffer is emptied first *)
Hand == /\ created[cur] /\ wanted = 0 /\ todo[cur] > 0 /\ ~completing
        /\ IF buf + 2 > Capacity THEN wanted' = buf /\ UNCHANGED <<todo, buf>>
           ELSE buf' = buf + 2 /\ todo' = [todo EXCEPT ![cur] = @ - 1] /\ UNCHANGED wanted
        /\ UNCHANGED <<cur, created, disk, completing, faults, recovered, failed, result>>

Complete == /\ created[cur] /\ wanted = 0 /\ todo[cur] = 0 /\ ~completing
            /\ completing' = TRUE /\ wanted' = buf
            /\ UNCHANGED <<cur, created, todo, buf, disk, faults, recovered, failed, result>>

(* one call; n units are accepted *)
WriteCall == /\ wanted > 0
             /\ \E n \in 0..wanted :
                  /\ disk' = [disk EXCEPT ![cur] = @ + n]
                  /\ buf' = buf - n
                  /\ IF n = wanted THEN wanted' = 0 /\ UNCHANGED <<faults, recovered, failed, result>>
                     ELSE /\ faults < MaxFaults /\ faults' = faults + 1
                          /\ \/ \* accepted in parts (n > 0) or interrupted
                                /\ wanted' = IF Variant = "once" THEN 0 ELSE wanted - n
                                /\ UNCHANGED <<recovered, failed, result>>
                             \/ \* error
                                /\ n = 0 /\ recovered' = FALSE
                                /\ IF Ignored THEN failed' = TRUE /\ wanted' = 0 /\ UNCHANGED result
                                   ELSE Abort /\ UNCHANGED <<failed, wanted>>
             /\ UNCHANGED <<cur, created, todo, completing>>

(* what was not written is lost with the buffer *)
Close == /\ completing /\ wanted = 0
         /\ buf' = 0 /\ completing' = FALSE
         /\ IF cur = NFiles THEN result' = "ok" /\ UNCHANGED cur
            ELSE cur' = cur + 1 /\ UNCHANGED result
         /\ UNCHANGED <<created, todo, disk, wanted, faults, recovered, failed>>
(* a failed write of an earlier record: the buffer is given up *)
GiveUp == /\ Variant = "log" /\ failed /\ ~completing /\ wanted = 0
          /\ buf' = 0 /\ failed' = FALSE
          /\ UNCHANGED <<cur, created, todo, disk, completing, wanted, faults, recovered, result>>

Next == result = "running" /\ (Create \/ Hand \/ Complete \/ WriteCall \/ Close \/ GiveUp)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Delivered == \A f \in Files : created[f] /\ disk[f] = Size(f)
(* C18 *)
Success == result = "ok" => Delivered
(* parts and interruptions alone do not matter *)
Robust == (result = "error") => ~recovered
Ends == <>(result # "running")
================================================================================
