-------------------------------- MODULE Lock ---------------------------------
(* The semaphore of the library (src/sem_inc.c) and the way the entry points
   use it: a mutex that is tried first, an owner and a nesting count that are
   kept next to it, the table of blocks that is opened and closed inside.
   Every access to a shared variable is one step.

   Calls: "op"    lock, open, touch, close, unlock       (allocate, free, ...)
          "count" lock, touch a counter, unlock
          "del"   the delete macro: two locks, then one unlock before and one
                  after a nested "op"
          "cb"    an "op" that fails, then a callback of the program outside the
                  lock which itself makes an "op", then an "op" (new-handler)

   MUTANT selects a wrong variant; TLC must refute each of them (the check runs
   all of them), so the invariants are not vacuous.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

CONSTANTS Threads, Calls       \* Calls: how many calls a thread makes

MUTANT == IOEnv.MUTANT

VARIABLES mutex,     \* 0: free, else the thread that holds it
          owner,     \* mutextid
          nr,        \* locknr
          depth,     \* semDepth
          open,      \* table accessible
          dirty,     \* a thread is in the middle of an update of the table
          stack,     \* per thread: what it still has to do
          left,      \* per thread: calls left
          tmp        \* per thread: value read in a non-atomic update
vars == <<mutex, owner, nr, depth, open, dirty, stack, left, tmp>>

Get == <<"try", "setown", "setnr", "incdepth">>
Rel == IF MUTANT = "depth-outside" THEN <<"decnr", "clrown", "unlock", "decdepth">>
       ELSE IF MUTANT = "owner-after-unlock" THEN <<"decdepth", "decnr", "unlock", "clrown">>
       ELSE <<"decdepth", "decnr", "clrown", "unlock">>
Body == IF MUTANT = "close-after-unlock" THEN Get \o <<"open", "begin", "end">> \o Rel \o <<"close">>
        ELSE Get \o <<"open", "begin", "end", "close">> \o Rel
CountOp == IF MUTANT = "unlocked-count" THEN <<"begin", "end">> ELSE Get \o <<"begin", "end">> \o Rel
DelOp == Get \o Get \o Rel \o Body \o (IF MUTANT = "macro-keeps" THEN <<>> ELSE Rel)
CbOp == IF MUTANT = "callback-locked" THEN Get \o <<"open", "begin", "end", "close">> \o <<"callback">> \o Rel \o Body
        ELSE IF MUTANT = "error-keeps" THEN Get \o <<"open", "begin", "end", "close">> \o Body
        ELSE Body \o <<"callback">> \o Body
\* what the program's callback does: it may wait for another thread
Code(c) == CASE c = "op" -> Body [] c = "count" -> CountOp [] c = "del" -> DelOp [] c = "cb" -> CbOp

Init == /\ mutex = 0 /\ owner = 0 /\ nr = 0 /\ depth = 0 /\ open = FALSE /\ dirty = {}
        /\ stack = [t \in Threads |-> <<>>] /\ left = [t \in Threads |-> Calls] /\ tmp = [t \in Threads |-> 0]

Start(t) == /\ stack[t] = <<>> /\ left[t] > 0
            /\ \E c \in {"op", "count", "del", "cb"} : stack' = [stack EXCEPT ![t] = Code(c)]
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<mutex, owner, nr, depth, open, dirty, tmp>>

Pop(t) == stack' = [stack EXCEPT ![t] = Tail(@)]
Repl(t, s) == stack' = [stack EXCEPT ![t] = s \o Tail(@)]
Rest(t, k) == SubSeq(stack[t], k + 1, Len(stack[t]))

Step(t) ==
  /\ stack[t] # <<>>
  /\ LET i == Head(stack[t]) IN
     CASE i = "try" ->
            IF mutex = 0
            THEN mutex' = t /\ Pop(t) /\ UNCHANGED <<owner, nr, depth, open, dirty, left, tmp>>
            ELSE Repl(t, <<"who">>) /\ UNCHANGED <<mutex, owner, nr, depth, open, dirty, left, tmp>>
       [] i = "who" ->       \* the trylock failed: do I hold it myself?
            IF owner = t
            THEN \* ++locknr; go on behind setown and setnr
                 nr' = nr + 1 /\ stack' = [stack EXCEPT ![t] = Rest(t, 3)] /\ UNCHANGED <<mutex, owner, depth, open, dirty, left, tmp>>
            ELSE Repl(t, <<"wait">>) /\ UNCHANGED <<mutex, owner, nr, depth, open, dirty, left, tmp>>
       [] i = "wait" -> mutex = 0 /\ mutex' = t /\ Pop(t) /\ UNCHANGED <<owner, nr, depth, open, dirty, left, tmp>>
       [] i = "setown" -> owner' = t /\ Pop(t) /\ UNCHANGED <<mutex, nr, depth, open, dirty, left, tmp>>
       [] i = "setnr" -> nr' = 1 /\ Pop(t) /\ UNCHANGED <<mutex, owner, depth, open, dirty, left, tmp>>
       [] i = "incdepth" -> tmp' = [tmp EXCEPT ![t] = depth] /\ Repl(t, <<"incdepth2">>) /\ UNCHANGED <<mutex, owner, nr, depth, open, dirty, left>>
       [] i = "incdepth2" -> depth' = tmp[t] + 1 /\ Pop(t) /\ UNCHANGED <<mutex, owner, nr, open, dirty, left, tmp>>
       [] i = "decdepth" -> tmp' = [tmp EXCEPT ![t] = depth] /\ Repl(t, <<"decdepth2">>) /\ UNCHANGED <<mutex, owner, nr, depth, open, dirty, left>>
       [] i = "decdepth2" -> depth' = tmp[t] - 1 /\ Pop(t) /\ UNCHANGED <<mutex, owner, nr, open, dirty, left, tmp>>
       [] i = "decnr" -> /\ nr' = nr - 1
                         /\ stack' = [stack EXCEPT ![t] =
                              IF nr' = 0 THEN Tail(@)
                              \* still nested: the mutex is kept
                              ELSE SelectSeq(SubSeq(@, 2, 3), LAMBDA x : x = "decdepth") \o SubSeq(@, 4, Len(@))]
                         /\ UNCHANGED <<mutex, owner, depth, open, dirty, left, tmp>>
       [] i = "clrown" -> owner' = 0 /\ Pop(t) /\ UNCHANGED <<mutex, nr, depth, open, dirty, left, tmp>>
       [] i = "unlock" -> mutex' = 0 /\ Pop(t) /\ UNCHANGED <<owner, nr, depth, open, dirty, left, tmp>>
       [] i = "open" -> open' = TRUE /\ Pop(t) /\ UNCHANGED <<mutex, owner, nr, depth, dirty, left, tmp>>
       [] i = "close" -> open' = FALSE /\ Pop(t) /\ UNCHANGED <<mutex, owner, nr, depth, dirty, left, tmp>>
       [] i = "begin" -> dirty' = dirty \cup {t} /\ Pop(t) /\ UNCHANGED <<mutex, owner, nr, depth, open, left, tmp>>
       [] i = "end" -> dirty' = dirty \ {t} /\ Pop(t) /\ UNCHANGED <<mutex, owner, nr, depth, open, left, tmp>>
       [] i = "callback" ->   \* the program waits for a call of another thread to complete, then calls itself
            /\ \A u \in Threads \ {t} : (IF stack[u] = <<>> THEN TRUE ELSE Head(stack[u]) = "callback")
            /\ stack' = [stack EXCEPT ![t] = Body \o Tail(@)]
            /\ UNCHANGED <<mutex, owner, nr, depth, open, dirty, left, tmp>>

Done == \A t \in Threads : stack[t] = <<>> /\ left[t] = 0
Next == (\E t \in Threads : Start(t) \/ Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Start(t) \/ Step(t))

(* ------------------------------------------------------------- properties *)
OneAtATime == Cardinality(dirty) <= 1
OnlyHolderTouches == \A t \in dirty : mutex = t
Touching(t) == stack[t] # <<>> /\ Head(stack[t]) \in {"begin", "end"} /\ Len(stack[t]) > 1
TableOpenWhenTouched == \A t \in Threads :
   (stack[t] # <<>> /\ Head(stack[t]) = "end" /\ Len(stack[t]) > 4 /\ stack[t][2] = "close") => open
ClosedWhenFree == mutex = 0 => ~open
Idle(t) == stack[t] = <<>>
NotHeldBetweenCalls == \A t \in Threads : Idle(t) => mutex # t /\ owner # t
CountsBalanced == (mutex = 0 /\ \A t \in Threads : Idle(t)) => (nr = 0 /\ depth = 0 /\ owner = 0)
\* a thread that holds the mutex is recognised as the owner when it asks again
Recognised == \A t \in Threads :
   (stack[t] # <<>> /\ Head(stack[t]) = "wait") => mutex # t
\* with fairness every call ends
EveryCallEnds == <>Done
=============================================================================
