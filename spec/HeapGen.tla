------------------------------ MODULE HeapGen -------------------------------
(* Generates call histories for the real library.  The state is the program's
   view of the heap: which blocks it holds, what it did to them.  Two uses:

   exhaustive  the VIEW hides the history, so TLC visits every abstract state
               once and takes every transition out of it once; each transition
               becomes one script (the shortest history that reaches it).
   simulation  (SIM = "1") random parameters, long histories.

   The alphabet comes from GenFocus, selected by the environment variable
   FOCUS.  A script is printed as a JSON array of script lines.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, GenFocus

SIM == IOEnv.SIM = "1"
DEPTH == atoi(IOEnv.DEPTH)
G == Focus(IOEnv.FOCUS)

VARIABLES blk,    \* id -> [s: "none","live","freed"; api, size, al, dmg]
          hist, stop, aux
vars == <<blk, hist, stop, aux>>

Pick(S) == IF S = {} THEN {} ELSE IF SIM THEN {RandomElement(S)} ELSE S
On(S) == S # {} /\ ~stop
N(x) == ToString(x)
Ids == 0..(G.ids - 1)
None == [s |-> "none", api |-> "", size |-> 0, al |-> 0, dmg |-> FALSE]
LiveIds == {i \in Ids : blk[i].s = "live"}
FreedIds == {i \in Ids : blk[i].s = "freed"}
\* the lowest unused identifier; a freed one is used again when no other is left
NextId == LET f == {i \in Ids : blk[i].s = "none"}
              g == {i \in Ids : blk[i].s # "live"}
              min(S) == CHOOSE x \in S : \A y \in S : x <= y IN
          IF f # {} THEN {min(f)} ELSE IF g = {} \/ ~G.reuse THEN {} ELSE IF SIM THEN {RandomElement(g)} ELSE {min(g)}

\* call sites: "0" means the call carries no file and line
Sites == IF "nosite" \in G.opt THEN {0, 16 * Len(hist) + 17 + Cardinality(LiveIds)} ELSE {16 * Len(hist) + 17 + (Len(hist) % 5)}
Seed == IF "noseed" \in G.opt THEN 0 ELSE 1 + (Len(hist) % 100)

Cpp == {"new", "newnt", "newfl", "newntfl", "macnew"}
CppA == {"anew", "anewnt", "anewfl", "anewntfl", "macanew"}
Fam(api) == IF api \in Cpp THEN "n" ELSE IF api \in CppA THEN "a" ELSE IF api = "mnew" THEN "m"
            ELSE IF api = "manew" THEN "ma" ELSE "c"
Del(f) == CASE f = "c" -> {"free", "gfree", "realloc0", "grealloc0", "macfree"}
            [] f = "n" -> {"del", "delnt", "delfl", "delntfl", "macdel"}
            [] f = "a" -> {"adel", "adelnt", "adelfl", "adelntfl", "macadel"}
            [] f = "m" -> {"mdel"} [] f = "ma" -> {"madel"}
Frees(f) == Del(f) \cap G.frees

\* requests of a group <<apis, sizes, alignments (or element sizes)>>
Requests(g) == {<<a, s, l>> : a \in Pick(g[1]), s \in Pick(g[2]), l \in Pick(g[3])}

Init == /\ blk = [i \in Ids |-> None] /\ hist = <<>> /\ stop = FALSE
        /\ aux = [mode |-> 0, inj |-> 0, set |-> 0, chk |-> 0]

Do(line) == hist' = Append(hist, line)

Alloc == /\ On(G.allocs)
         /\ \E i \in NextId, g \in Pick(G.allocs), st \in Pick(Sites) : \E a \in Requests(g) :
              /\ blk' = [blk EXCEPT ![i] = [s |-> "live", api |-> a[1], size |-> a[2], al |-> a[3], dmg |-> FALSE]]
              /\ Do("A " \o N(i) \o " " \o a[1] \o " " \o N(a[2]) \o " " \o N(a[3]) \o " " \o N(st) \o " "
                    \o N(Seed))
         /\ UNCHANGED <<stop, aux>>

Free == /\ On(G.frees)
        /\ \E i \in Pick(LiveIds) : \E f \in Pick(Frees(Fam(blk[i].api))), st \in Pick(Sites) :
             /\ blk' = [blk EXCEPT ![i].s = "freed"]
             /\ Do("F " \o N(i) \o " " \o f \o " " \o N(st) \o " 0")
        /\ UNCHANGED <<stop, aux>>

Realloc == /\ On(G.reallocs)
           /\ \E i \in Pick({x \in LiveIds : Fam(blk[x].api) = "c"} \cup ({-1, -2} \cap G.rtargets)),
                 g \in Pick(G.reallocs), st \in Pick(Sites) : \E r \in Requests(g) :
                \* the new block keeps the identifier when it comes from a live one
                \E n \in IF i >= 0 THEN {i} ELSE NextId, k \in IF SIM THEN Pick(1..10) ELSE {0} :
                  \* now and then to exactly the size it has
                  \E z \in {IF k = 1 /\ i >= 0 /\ blk[i].size > 0 THEN blk[i].size ELSE r[2]} :
                  /\ blk' = [blk EXCEPT ![n] = [s |-> IF z = 0 /\ i >= 0 THEN "freed" ELSE "live", api |-> "realloc", size |-> z, al |-> 0, dmg |-> FALSE]]
                  /\ Do("R " \o N(n) \o " " \o N(i) \o " " \o r[1] \o " " \o N(z) \o " " \o N(st) \o " " \o N(Seed) \o " 0")
           /\ UNCHANGED <<stop, aux>>

\* no blocks: on the stack, the table of slots (not there before the first call), unused addresses
Outside == {-3, -5} \cup (IF IOEnv.FOCUS \in {"first", "firstmix"} THEN {} ELSE {-4})

\* start of what follows a block and its guard page: usually memory kept for later
Rest == 99999
\* exactly the size of the block
Same == -2
SizeOf(i, z) == IF z # Same THEN z ELSE IF i < 0 THEN 10 ELSE IF blk[i].size = 0 THEN 10 ELSE blk[i].size
Delta(i, d) == IF d # Rest THEN d ELSE IF i < 0 THEN 64 ELSE IF blk[i].size = 0 THEN 2048 ELSE blk[i].size + 4096

\* calls a correct program does not make; the script ends there
BadFree == /\ On(G.bad)
           /\ \E b \in Pick(G.bad), st \in Pick(Sites) :
                \/ /\ b[1] = "mismatch"
                   /\ \E i \in Pick(LiveIds) :
                        /\ b[2] \notin Del(Fam(blk[i].api))
                        /\ Do("F " \o N(i) \o " " \o b[2] \o " " \o N(st) \o " 0")
                \/ /\ b[1] = "twice"
                   /\ \E i \in Pick(FreedIds) : Do("F " \o N(i) \o " " \o b[2] \o " " \o N(st) \o " 0")
                \/ /\ b[1] = "inside"
                   /\ \E i \in Pick({x \in LiveIds : b[3] # 0}) : Do("F " \o N(i) \o " " \o b[2] \o " " \o N(st) \o " " \o N(Delta(i, b[3])))
                \/ /\ b[1] = "insidefreed"
                   /\ \E i \in Pick(FreedIds) : Do("F " \o N(i) \o " " \o b[2] \o " " \o N(st) \o " " \o N(b[3]))
                \/ /\ b[1] = "wild"
                   /\ Do("F " \o N(b[3]) \o " " \o b[2] \o " " \o N(st) \o " " \o N(b[4]))
                \/ /\ b[1] = "alloc"
                   /\ Do("A 99 " \o b[2] \o " " \o b[3] \o " " \o b[4] \o " " \o N(st) \o " 0")
                \/ /\ b[1] = "rbig"
                   /\ \E i \in Pick({x \in LiveIds : Fam(blk[x].api) = "c"} \cup {-1}) :
                        Do("R 99 " \o N(i) \o " " \o b[2] \o " " \o b[3] \o " " \o N(st) \o " 0 0")
                \/ /\ b[1] = "realloc"
                   /\ \E i \in Pick(LiveIds \cup FreedIds \cup Outside) :
                        /\ (i >= 0 => ~(blk[i].s = "live" /\ b[3] = 0 /\ Fam(blk[i].api) = "c"))
                        /\ Do("R 99 " \o N(i) \o " " \o b[2] \o " " \o N(SizeOf(i, b[4])) \o " " \o N(st) \o " 0 " \o N(Delta(i, b[3])))
                \/ /\ b[1] = "usable"
                   /\ \E i \in Pick(LiveIds \cup FreedIds \cup Outside) : Do("U " \o N(i) \o " " \o N(Delta(i, b[3])) \o " " \o b[2])
                \/ /\ b[1] = "check"
                   /\ \E i \in Pick(LiveIds \cup FreedIds \cup Outside) : Do("K " \o N(i) \o " " \o N(Delta(i, b[3])))
           /\ stop' = (IF "goon" \in G.opt THEN FALSE ELSE TRUE) /\ UNCHANGED <<blk, aux>>

\* free of something that must be ignored
NullFree == /\ On(G.nulls)
            /\ \E n \in Pick(G.nulls), st \in Pick(Sites) : Do("F " \o N(n[1]) \o " " \o n[2] \o " " \o N(st) \o " 0")
            /\ UNCHANGED <<blk, stop, aux>>

(* accesses, relative to the block: <<base, offset, how>>
   base "b": begin, "e": end, "p": last byte                                *)
Off(b, x) == IF x[1] = "b" THEN x[2] ELSE blk[b].size + x[2]
Peek == /\ On(G.peeks)
        /\ \E i \in Pick(LiveIds \cup (IF "freedpeek" \in G.opt THEN FreedIds ELSE {})), x \in Pick(G.peeks) :
             Do("P " \o N(i) \o " " \o N(Off(i, x)) \o " " \o N(x[3]))
        /\ UNCHANGED <<blk, stop, aux>>
(* writes outside the block; -1 is resolved by where the block's pages end, so
   a write either faults or damages the no-man's-land                       *)
Poke == /\ On(G.pokes)
        /\ \E i \in Pick(LiveIds), x \in Pick(G.pokes) :
             /\ blk' = [blk EXCEPT ![i].dmg = TRUE]
             /\ Do("W " \o N(i) \o " " \o N(Off(i, x)) \o " " \o N(x[3]))
        /\ UNCHANGED <<stop, aux>>
Check == /\ On(G.checks)
         /\ \E c \in Pick(G.checks) :
              IF c \in {"KA", "i", "L"} THEN Do(c) /\ UNCHANGED <<blk, stop, aux>>
              ELSE \E i \in Pick(LiveIds \cup (IF c = "U" THEN {-1} ELSE {-1, -2})) :
                     /\ Do(IF c = "K" THEN "K " \o N(i) \o " 0" ELSE IF c = "U" THEN "U " \o N(i) \o " 0 d" ELSE "U " \o N(i) \o " 0 g")
                     /\ UNCHANGED <<blk, stop, aux>>
Set == /\ On(G.sets)
       /\ \E x \in Pick(G.sets) : Do("S " \o x[1] \o " " \o N(x[2])) /\ aux' = [aux EXCEPT !.set = x]
       /\ UNCHANGED <<blk, stop>>
Inject == /\ On(G.injects)
          /\ \E x \in Pick(G.injects) : Do(x) /\ aux' = [aux EXCEPT !.inj = x]
          /\ UNCHANGED <<blk, stop>>
Handler == /\ On(G.handlers)
           /\ \E x \in Pick(G.handlers) : Do("N " \o N(x[1]) \o " " \o N(x[2])) /\ aux' = [aux EXCEPT !.mode = x]
           /\ UNCHANGED <<blk, stop>>
Leaks == /\ ~stop /\ "L" \in G.opt /\ Do("L") /\ UNCHANGED <<blk, stop, aux>>

\* late: long histories, then the wrong call, or up to three writes outside blocks
Late == "late" \in G.opt
Hurt == Late /\ G.pokes # {} /\ Len(hist) >= DEPTH - 3
Next == /\ Len(hist) < DEPTH
        /\ Late => Len(hist) < DEPTH - 1
        /\ ~Hurt
        /\ (Alloc \/ Free \/ Realloc \/ (~Late /\ BadFree) \/ NullFree \/ Peek \/ (~Late /\ Poke) \/ Check \/ Set \/ Inject \/ Handler \/ Leaks)

\* more weight for (de)allocations in simulation
NextSim == Next \/ (Len(hist) < (IF Late THEN DEPTH - 1 ELSE DEPTH) /\ ~Hurt /\ (Alloc \/ Free))
           \/ (Hurt /\ Len(hist) < DEPTH /\ Poke)
           \/ (Late /\ Len(hist) = DEPTH - 1 /\ BadFree)

View == <<blk, stop, aux, IF "len" \in G.opt THEN Len(hist) ELSE 0>>

VerifyLines(S) == LET q == SetToSortSeq(S, LAMBDA x, y : x < y) IN [i \in 1..Len(q) |-> "V " \o N(q[i])]
EndLines(b, stopped) ==
  IF stopped THEN <<>> ELSE
  (IF "noseed" \in G.opt THEN <<>> ELSE VerifyLines({i \in Ids : b[i].s = "live" /\ ~b[i].dmg})) \o G.final

Emit == \/ ("idle" \in G.opt /\ \E x \in Ids : blk'[x].s = "live")
        \/ (SIM /\ Len(hist') < DEPTH /\ ~stop')
        \/ PrintT("SCRIPT " \o ToJson(hist' \o EndLines(blk', stop')))
=============================================================================
