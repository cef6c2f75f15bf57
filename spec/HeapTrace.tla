----------------------------- MODULE HeapTrace ------------------------------
(* Validates traces recorded from the real library against Heap.  The trace
   holds many histories one after another; each starts with a "begin" event.
   Every event is one transition.  A broken clause is printed (with the history
   and the event) and checking goes on, so that one run reports everything.  *)
EXTENDS Heap, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

\* with STOP=1 the rest of a history is skipped after its first broken clause
Stop == IOEnv.STOP = "1"

VARIABLES i, st, nviol, skip
vars == <<i, st, nviol, skip>>

Init == i = 1 /\ st = Init0(Events[1]) /\ nviol = 0 /\ skip = FALSE

Step ==
  /\ i <= Len(Events)
  /\ LET e == Events[i] IN
     IF e.op = "begin"
     THEN LET v == VBegin(e) IN
          /\ st' = Init0(e) /\ skip' = FALSE /\ nviol' = nviol + Cardinality(v)
          /\ (IF v = {} THEN TRUE ELSE PrintT(<<"VIOL", e.h, e.n, v>>))
     ELSE IF skip THEN UNCHANGED <<st, nviol, skip>>
     ELSE LET v == Violated(st, e) IN
          /\ skip' = (Stop /\ v # {})
          /\ st' = IF Stop /\ v # {} THEN st ELSE Post(st, e)
          /\ nviol' = nviol + Cardinality(v)
          /\ (IF v = {} THEN TRUE ELSE PrintT(<<"VIOL", e.h, e.n, v>>))
  /\ i' = i + 1

Next == Step
Spec == Init /\ [][Next]_vars

\* the whole trace was judged
Consumed == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Events)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
