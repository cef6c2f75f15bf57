-------------------------------- MODULE Init ---------------------------------
(* How the library initialises itself (_duma_init and duma_init in src/duma.c):
   a state of five values, the table of slots, the lock.  The constructor of the
   library, any allocating call and, in builds with DUMA_EXPLICIT_INIT, the
   program itself may start it, in any order and again and again; initialising
   allocates a block itself, and taking the lock may (as on Windows, where
   the lock has to be made first).  Every access to a shared variable is a step.

   KIND    "normal", "explicit" (the program calls duma_init) or "lazylock"
           (the lock does not exist before its first use, and making it allocates)
   MUTANT  a wrong variant, which TLC must refute; "test-before-lock" is the
           protocol the library had: the state was read before the lock was
           taken, and who found somebody initialising did not take it.
   In explicit builds calls take no lock before duma_init() returned: only one
   thread may exist until then (the mutant "threads-before-init" shows why).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

CONSTANTS Threads, Calls

KIND == IOEnv.KIND
MUTANT == IOEnv.MUTANT
Explicit == KIND = "explicit"
NONE == 0  INC == 1  OUTC == 2  INI == 3  OUTI == 4

VARIABLES st,        \* the state
          table,     \* number of the table in use, 0: none
          tables,    \* tables made so far
          owner, depth, made,   \* the lock; it exists
          making,    \* the lock is being made: it is not taken
          reads,     \* how often the settings were read
          blocks,    \* live blocks: <<table they are in, thread>>
          dirty,     \* threads in the middle of an update
          bad,       \* what went wrong
          stack, left
vars == <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, stack, left>>

I(n) == <<n, FALSE>>
J(n, r) == <<n, r>>

Init == /\ st = NONE /\ table = 0 /\ tables = 0 /\ owner = 0 /\ depth = 0 /\ made = (KIND # "lazylock") /\ making = FALSE
        /\ reads = 0 /\ blocks = {} /\ dirty = {} /\ bad = {}
        /\ stack = [t \in Threads |-> <<>>] /\ left = [t \in Threads |-> Calls]

Start(t) == /\ stack[t] = <<>> /\ left[t] > 0
            /\ (Explicit /\ t # 1 /\ MUTANT # "threads-before-init") => st = OUTI
            /\ \E c \in {"alloc", "con"} \cup (IF Explicit THEN {"init1"} ELSE {}) : stack' = [stack EXCEPT ![t] = <<I(c)>>]
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad>>

Go(t, s) == stack' = [stack EXCEPT ![t] = s \o Tail(@)]
Op(t) == <<I("get"), I("begin"), I("end"), I("put")>>
Rest == (IF MUTANT = "release-before-init" THEN <<I("cput")>> ELSE <<>>) \o (IF Explicit THEN <<>> ELSE <<I("callinit")>>)
Lock1(t) == /\ owner \in {0, t} /\ owner' = t /\ depth' = depth + 1
Unlock1(t) == /\ depth' = depth - 1 /\ owner' = IF depth' = 0 THEN 0 ELSE owner
LockWanted == IF Explicit THEN st = OUTI ELSE TRUE
Old == MUTANT = "test-before-lock"

Step(t) ==
  /\ stack[t] # <<>>
  /\ LET i == Head(stack[t])[1]
         r == Head(stack[t])[2] IN
     CASE i = "alloc" ->
            /\ Go(t, IF table = 0 /\ MUTANT # "call-does-not-start" THEN <<I("con")>> \o Op(t) ELSE Op(t))
            /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
       [] i = "get" ->       \* the lock, as the calls take it
            IF making \/ ~LockWanted THEN Go(t, <<>>) /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
            ELSE IF ~made THEN /\ making' = TRUE
                               /\ Go(t, <<I("alloc"), I("made"), I("get")>>)
                               /\ UNCHANGED <<st, table, tables, owner, depth, made, reads, blocks, dirty, bad, left>>
            ELSE Lock1(t) /\ Go(t, <<>>) /\ UNCHANGED <<st, table, tables, made, making, reads, blocks, dirty, bad, left>>
       [] i = "made" -> made' = TRUE /\ making' = FALSE /\ Go(t, <<>>)
                        /\ UNCHANGED <<st, table, tables, owner, depth, reads, blocks, dirty, bad, left>>
       [] i = "put" ->
            IF making \/ ~LockWanted THEN Go(t, <<>>) /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
            ELSE IF owner # t THEN bad' = bad \cup {"not locked"} /\ Go(t, <<>>)
                                   /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, left>>
            ELSE Unlock1(t) /\ Go(t, <<>>) /\ UNCHANGED <<st, table, tables, made, making, reads, blocks, dirty, bad, left>>
       [] i = "begin" ->
            /\ bad' = bad \cup (IF table = 0 THEN {"no table"} ELSE {})
                           \cup (IF reads = 0 /\ ~Explicit THEN {"before the settings are read"} ELSE {})
            /\ dirty' = dirty \cup {t}
            /\ blocks' = blocks \cup {table}
            /\ Go(t, <<>>) /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, left>>
       [] i = "end" -> dirty' = dirty \ {t} /\ Go(t, <<>>) /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, bad, left>>

       (* ---------------------------------------------------- _duma_init() *)
       [] i = "con" ->
            /\ Go(t, IF Old THEN <<I("con1")>>
                     ELSE <<I("cget"), I("con1")>> \o IF MUTANT \in {"lock-kept", "release-before-init"} THEN <<>> ELSE <<I("cput")>>)
            /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
       [] i = "con1" ->
            LET rec == st \in INC..OUTI
                done == IF MUTANT = "constructs-again" THEN st = OUTI ELSE st \in OUTC..OUTI IN
            /\ Go(t, IF done THEN Rest
                     ELSE IF ~Old THEN <<I("setc"), I("create"), I("setoutc")>> \o Rest
                     ELSE <<I("setc")>> \o (IF rec THEN <<>> ELSE <<I("cget")>>) \o <<J("again", rec)>>)
            /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
       [] i = "setc" -> st' = INC /\ Go(t, <<>>) /\ UNCHANGED <<table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
       [] i = "cget" ->      \* DUMA_GET_SEMAPHORE() of the constructor
            IF making THEN Go(t, <<>>) /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
            ELSE IF ~made THEN /\ making' = TRUE
                               /\ Go(t, <<I("alloc"), I("made"), I("cget")>>)
                               /\ UNCHANGED <<st, table, tables, owner, depth, made, reads, blocks, dirty, bad, left>>
            ELSE Lock1(t) /\ Go(t, <<>>) /\ UNCHANGED <<st, table, tables, made, making, reads, blocks, dirty, bad, left>>
       [] i = "cput" ->
            IF making THEN Go(t, <<>>) /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
            ELSE IF owner # t THEN bad' = bad \cup {"not locked"} /\ Go(t, <<>>)
                                   /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, left>>
            ELSE Unlock1(t) /\ Go(t, <<>>) /\ UNCHANGED <<st, table, tables, made, making, reads, blocks, dirty, bad, left>>
       [] i = "again" ->     \* (old protocol only)
            /\ Go(t, (IF st >= OUTC THEN <<>> ELSE <<I("create"), I("setoutc")>>) \o (IF r THEN <<>> ELSE <<I("cput")>>) \o Rest)
            /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
       [] i = "create" -> /\ tables' = tables + 1 /\ table' = tables + 1
                          /\ Go(t, <<>>) /\ UNCHANGED <<st, owner, depth, made, making, reads, blocks, dirty, bad, left>>
       [] i = "setoutc" -> /\ st' = IF st < OUTC THEN OUTC ELSE st
                           /\ Go(t, <<>>) /\ UNCHANGED <<table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
       [] i = "callinit" -> /\ Go(t, IF st < OUTI THEN <<I("init1")>> ELSE <<>>)
                            /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>

       (* ----------------------------------------------------- duma_init() *)
       [] i = "init1" ->
            LET done == st \in INI..OUTI IN
            /\ Go(t, IF done THEN <<>>
                     ELSE (IF Explicit /\ table = 0 /\ MUTANT # "explicit-without-table" THEN <<I("con")>> ELSE <<>>)
                          \o <<I("seti"), I("settings"), I("alloc"), I("setouti")>>)
            /\ UNCHANGED <<st, table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
       [] i = "seti" -> /\ st' = INI
                        /\ Go(t, <<>>) /\ UNCHANGED <<table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>
       [] i = "settings" -> reads' = reads + 1 /\ Go(t, <<>>) /\ UNCHANGED <<st, table, tables, owner, depth, made, making, blocks, dirty, bad, left>>
       [] i = "setouti" -> st' = OUTI /\ Go(t, <<>>) /\ UNCHANGED <<table, tables, owner, depth, made, making, reads, blocks, dirty, bad, left>>

Done == \A t \in Threads : stack[t] = <<>>
Next == (\E t \in Threads : Start(t) \/ Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
Small == reads <= 3 /\ tables <= 3 /\ \A t \in Threads : Len(stack[t]) <= 24

(* ------------------------------------------------------------- properties *)
Idle(t) == stack[t] = <<>>
Quiet == \A t \in Threads : Idle(t)
Nothing == bad = {}                                  \* no use without a table, no release without the lock
OneTable == tables <= 1                              \* initialising happens once ...
ReadOnce == reads <= 1
NoBlockLost == \A b \in blocks : b = table \/ b = 0  \* ... and forgets no block
OneAtATime == Cardinality(dirty) <= 1
LockLeft == Quiet => owner = 0 /\ depth = 0
\* after a call the library is ready (in explicit builds after duma_init())
Ready == (Quiet /\ st # NONE) => (table # 0 /\ st = IF Explicit /\ reads = 0 THEN OUTC ELSE OUTI)
EveryCallEnds == \A t \in Threads : []<>Idle(t)
=============================================================================
