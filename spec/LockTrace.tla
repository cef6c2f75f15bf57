----------------------------- MODULE LockTrace ------------------------------
(* Judges what the threads of one real run did with the lock and with the
   bookkeeping, event by event, against the properties checked on Lock.tla:
   the lock has one holder; bookkeeping is touched by the holder only; the
   table is open when touched and closed when the lock is given back; a call
   that returns holds nothing; the threads never all wait.

   Events: [h, t, k]; k: 0 new history, 1 call, 2 lock taken, 3 lock given back,
   4 table opened, 5 table closed, 6 page operation, 7 static variable written,
   8 table accessed, 9 return, 10 lock not available, 11 all wait            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
vars == <<i, st>>

New == [holder |-> -1, open |-> FALSE, closer |-> -1]
C(name, ok) == [name |-> name, ok |-> ok]
Names(cs) == {x.name : x \in {y \in cs : ~y.ok}}

Violated(s, e) == Names(
  CASE e.k = 2 -> {C("C16,C24:lock-has-one-holder", s.holder = -1)}
    [] e.k = 3 -> {C("C24,C16:released-by-its-holder", s.holder = e.t),
                   C("C16,C17:table-closed-before-release", ~s.open)}
    [] e.k \in {4, 5} -> {C("C16,C24:table-opened-and-closed-by-holder", s.holder = e.t)}
    [] e.k = 6 -> {C("C16:pages-changed-by-holder", s.holder = e.t)}
    [] e.k = 7 -> {C("C16:bookkeeping-changed-by-holder", s.holder = e.t)}
    [] e.k = 8 -> {C("C16:table-used-by-holder", s.holder = e.t)}
    [] e.k = 9 -> {C("C24,C16:nothing-held-at-return", s.holder # e.t)}
    [] e.k = 10 -> {C("C24:never-waits-for-itself", s.holder # e.t)}
    [] e.k = 11 -> {C("C24,C16:no-deadlock", FALSE)}
    [] OTHER -> {C("C16:log-complete", e.over = 0)})

Post(s, e) ==
  CASE e.k = 0 -> New
    [] e.k = 2 -> [s EXCEPT !.holder = e.t]
    [] e.k = 3 -> [s EXCEPT !.holder = -1]
    [] e.k = 4 -> [s EXCEPT !.open = TRUE]
    [] e.k = 5 -> [s EXCEPT !.open = FALSE]
    [] OTHER -> s

Init == i = 1 /\ st = New
Next == /\ i <= Len(Events)
        /\ LET e == Events[i]
               v == Violated(st, e) IN
           /\ st' = Post(st, e)
           /\ (IF v = {} THEN TRUE ELSE PrintT(<<"VIOL", e.h, 0, v>>))
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Consumed == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Events)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
