------------------------------ MODULE EnvTrace ------------------------------
(* Judges recorded probes of the settings; one probe per event.             *)
EXTENDS Env, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Events)
        /\ LET b == BrokenBy(Events[i]) IN b # {} => PrintT(<<"VIOL", Events[i].h, Events[i].k, b>>)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT(<<"CONSUMED", TLCGet("stats").distinct - 1, Len(Events)>>)
=============================================================================
