------------------------------ MODULE StrTrace ------------------------------
(* Judges recorded calls of the copying functions; one call per event.       *)
EXTENDS Str, IOUtils, Json, SequencesExt
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Mem0(x) == [k \in 0..Len(x)-1 |-> x[k+1]]
Case(e) == [f |-> e.f, m |-> Mem0(e.m), d |-> e.d, s |-> e.s, n |-> e.n, o |-> e.o, fl |-> e.fl, ln |-> e.ln]
Call(e) == [out |-> e.out, m |-> IF e.km = 1 THEN Mem0(e.rm) ELSE Mem0(e.m), ret |-> e.ret, tr |-> e.tr,
            rd |-> {k - 1 : k \in ToSet(e.rd)}, wr |-> {k - 1 : k \in ToSet(e.wr)},
            rf |-> e.rf, rd0 |-> e.rd0, rs0 |-> e.rs0, rn |-> e.rn, fl |-> e.rfl, ln |-> e.rln, stray |-> e.stray]
Init == i = 1
Next == /\ i <= Len(Events)
        /\ LET e == Events[i]
               b == Broken(Case(e), Call(e)) \cup (IF e.stray > 0 THEN {"C18:byte-outside-touched"} ELSE {}) IN
           b # {} => PrintT(<<"VIOL", e.h, e.k, b>>)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT(<<"CONSUMED", TLCGet("stats").distinct - 1, Len(Events)>>)
=============================================================================
