------------------------------ MODULE BigTrace ------------------------------
(* Judges recorded histories with big blocks. *)
EXTENDS Big, IOUtils, Json
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Start(e) == [c |-> e.c, b |-> [k \in 0..2 |-> NoBlock], seq |-> 0]
Init == i = 1 /\ st = Start(Events[1])
Next == /\ i <= Len(Events)
        /\ LET e == Events[i]
               v == IF e.op = "begin" THEN {} ELSE Violated(st, e) IN
           /\ (v # {} => PrintT(<<"VIOL", e.h, e.n, v>>))
           /\ st' = IF e.op = "begin" THEN Start(e) ELSE Post(st, e)
        /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, st>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Events)>>)
=============================================================================
