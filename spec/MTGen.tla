------------------------------- MODULE MTGen --------------------------------
(* Generates multi-threaded programs together with schedules for harness/mt.cpp.
   A program: calls of the main thread, then the calls of 2 or 3 threads, then
   calls of the main thread.  Threads use blocks of their own, blocks the main
   thread allocated for them, and (focus "shared") fight over the same block.
   A schedule: segments <<thread, class of point, k>>: the thread runs up to its
   k-th point of that class.  Classes: 0 any point of synchronisation, 1 call,
   2 try, 3 locked, 4 open, 5 close, 6 unlock, 7 unlocked, 8 return, 9 page
   operation, 10 access to bookkeeping with, 11 without the lock held,
   12 the new handler is looked up.

   pairs      (exhaustive) one call per thread out of OPS, one preemption
   mix, ...   (simulation) random programs and schedules                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

FOCUS == IOEnv.FOCUS
DEPTH == atoi(IOEnv.DEPTH)
SIM == IOEnv.SIM = "1"
N(x) == ToString(x)
R(S) == RandomElement(S)
Cat(q) == FoldLeft(LAMBDA s, x : s \o " " \o N(x), N(q[1]), Tail(q))

VARIABLES phase, nt, pre, prog, sched, blk, last
vars == <<phase, nt, pre, prog, sched, blk, last>>

\* blocks: id -> [t: thread that may use it (-1 any), s, fam, size]
Ids == 0..39
None == [t |-> -2, s |-> "none", fam |-> "", size |-> 0]
Own(b, t) == {i \in Ids : b[i].s = "live" /\ b[i].t = t}
Fresh(b, t) == {i \in (10 * (t + 1))..(10 * (t + 1) + 9) : b[i].s = "none"}

AllocLine(id, api, size, al, site) == Cat(<<"A", id, api, size, al, site, 1 + (site % 97)>>)
Fam(api) == CASE api \in {"new", "newnt", "newfl"} -> "n" [] api \in {"anew", "anewnt", "anewfl"} -> "a" [] OTHER -> "c"
DelOf(f) == CASE f = "c" -> {"free", "gfree", "realloc0"} [] f = "n" -> {"del", "delfl", "macdel"} [] f = "a" -> {"adel", "adelfl", "macadel"}
Sizes == {1, 8, 100, 4096, 5000}
AllApis == {"malloc", "gmalloc", "calloc", "newfl", "new", "anewfl", "anew", "memalign", "strdup", "newnt", "posix"}
Al(api) == CASE api = "memalign" -> 64 [] api = "posix" -> 16 [] api = "calloc" -> 2 [] OTHER -> 0

Site(t, n) == 100 * (t + 2) + n

(* Random choices are bound with \E x \in {R(S)}: a LET would choose again at
   every use.  Outcome: sets with one element <<line, blocks>>               *)
Live(t, api, size) == [t |-> t, s |-> "live", fam |-> Fam(api), size |-> size * (IF api = "calloc" THEN 2 ELSE 1)]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
AllocOp(t, b, id, api, z, site) ==
  {<<AllocLine(id, api, size, Al(api), site), [b EXCEPT ![id] = Live(t, api, size)]>>
     : size \in {IF z /\ api # "strdup" THEN 0 ELSE R(Sizes)}}
FreeOp(t, b, id, site) == {<<Cat(<<"F", id, f, site, 0>>), [b EXCEPT ![id].s = "freed"]>> : f \in {R(DelOf(b[id].fam))}}
ReallocOp(t, b, id, api, site) ==
  {<<Cat(<<"R", id, id, api, size, site, 1 + (site % 97), 0>>),
     [b EXCEPT ![id].s = IF size = 0 THEN "freed" ELSE "live", ![id].size = size]>> : size \in {R({0, 1, 50, 200, 6000})}}
Kinds(t, b) == (IF Fresh(b, t) # {} THEN {"A", "A2"} \cup (IF FOCUS = "zero" THEN {"Z", "Z2"} ELSE {}) ELSE {})
     \cup (IF Own(b, t) # {} THEN {"F", "F2", "V", "U", "K"} ELSE {})
     \cup (IF {i \in Own(b, t) : b[i].fam = "c"} # {} THEN {"R", "R2"} ELSE {})
     \cup {"KA"} \cup (IF FOCUS = "leak" THEN {"L"} ELSE {})
RandomOp(t, b, n) ==
  UNION {LET site == Site(t, n) IN
    CASE k \in {"A", "A2", "Z", "Z2"} -> UNION {AllocOp(t, b, Least(Fresh(b, t)), api, k \in {"Z", "Z2"}, site) : api \in {R(AllApis)}}
      [] k \in {"F", "F2"} -> UNION {FreeOp(t, b, id, site) : id \in {R(Own(b, t))}}
      [] k \in {"R", "R2"} -> UNION {ReallocOp(t, b, id, IF k = "R" THEN "realloc" ELSE "grealloc", site) : id \in {R({i \in Own(b, t) : b[i].fam = "c"})}}
      [] k = "V" -> {<<Cat(<<"V", R(Own(b, t))>>), b>>}
      [] k = "U" -> {<<Cat(<<"U", R(Own(b, t)), 0, "d">>), b>>}
      [] k = "K" -> {<<Cat(<<"K", R(Own(b, t)), 0>>), b>>}
      [] k = "L" -> {<<"L", b>>}
      [] OTHER -> {<<"KA", b>>}
    : k \in {R(Kinds(t, b))}}

(* ------------------------------------------------------------- simulation *)
SegK(c) == CASE c = 10 -> R({1, 2, 3, 5, 8, 13, 20, 40, 70, 100, 150, 200, 300}) [] c = 11 -> R(1..12) [] c = 0 -> R(1..12) [] OTHER -> R(1..3)
RandomSegs == {<<R(0..(nt - 1)), c, SegK(c)>> : c \in {R({0, 0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11})}}

InitSim == /\ phase = "start" /\ nt = 0 /\ pre = <<>> /\ prog = [t \in 0..2 |-> <<>>] /\ sched = <<>>
           /\ blk = [i \in Ids |-> None] /\ last = 0
Start == phase = "start" /\ phase' = "pre" /\ nt' \in {R({2, 2, 3})} /\ UNCHANGED <<pre, prog, sched, blk, last>>
PreStep == /\ phase = "pre"
           /\ \E stop \in {Len(pre) > 0 /\ R(1..3) = 1}, t \in {R(0..(nt - 1))} :
              LET id == Len(pre) IN
              IF stop \/ id > 9 THEN phase' = "ops" /\ UNCHANGED <<pre, blk>>
              ELSE \E api \in {R(AllApis)} : \E o \in AllocOp(t, blk, id, api, FALSE, Site(-1, id)) :
                   pre' = Append(pre, o[1]) /\ blk' = o[2] /\ phase' = "pre"
           /\ UNCHANGED <<nt, prog, sched, last>>
OpStep == /\ phase = "ops"
          /\ \E t \in {R(0..(nt - 1))} : \E o \in RandomOp(t, blk, Len(prog[t])) :
             /\ prog' = [prog EXCEPT ![t] = Append(@, o[1])]
             /\ blk' = o[2]
             /\ phase' = IF Len(prog[0]) + Len(prog[1]) + Len(prog[2]) + 1 >= DEPTH THEN "sched" ELSE "ops"
          /\ UNCHANGED <<nt, pre, sched, last>>
SchedStep == /\ phase = "sched"
             /\ \E x \in RandomSegs : sched' = Append(sched, x)
             /\ phase' = IF Len(sched) >= DEPTH \div 2 + 1 THEN "done" ELSE "sched"
             /\ UNCHANGED <<nt, pre, prog, blk, last>>
NextSim == Start \/ PreStep \/ OpStep \/ SchedStep

(* ------------------------------------------------------------------ pairs
   main: block 0 (malloc) for thread 0, 1 (malloc) for thread 1, 2 (new) for
   thread 0, 3 (new[]) for thread 1, 4 freed; block 5 is for both (shared)  *)
PairPre == << AllocLine(0, "malloc", 100, 0, 101), AllocLine(1, "malloc", 5000, 0, 102), AllocLine(2, "newfl", 50, 0, 103),
              AllocLine(3, "anewfl", 60, 0, 104), AllocLine(4, "malloc", 10, 0, 105), AllocLine(5, "malloc", 20, 0, 106), Cat(<<"F", 4, "free", 107, 0>>) >>
Pair(t, o) ==
  LET m == IF t = 0 THEN 0 ELSE 1
      c == IF t = 0 THEN 2 ELSE 3
      id == 10 * (t + 1)
      site == Site(t, 0) IN
  CASE o = "malloc" -> <<AllocLine(id, "malloc", 33, 0, site)>>
    [] o = "new" -> <<AllocLine(id, "newfl", 4096, 0, site)>>
    [] o = "memalign" -> <<AllocLine(id, "memalign", 10, 64, site)>>
    [] o = "zero" -> <<AllocLine(id, "malloc", 0, 0, site)>>
    [] o = "free" -> <<Cat(<<"F", m, "free", site, 0>>)>>
    [] o = "del" -> <<Cat(<<"F", c, IF t = 0 THEN "macdel" ELSE "macadel", site, 0>>)>>
    [] o = "plaindel" -> <<Cat(<<"F", c, IF t = 0 THEN "del" ELSE "adel", site, 0>>)>>
    [] o = "realloc" -> <<Cat(<<"R", m, m, "realloc", 200, site, 5, 0>>)>>
    [] o = "realloc0" -> <<Cat(<<"R", m, m, "realloc", 0, site, 5, 0>>)>>
    [] o = "usable" -> <<Cat(<<"U", m, 0, "d">>)>>
    [] o = "check" -> <<Cat(<<"K", m, 0>>)>>
    [] o = "checkall" -> <<"KA">>
    [] o = "leak" -> <<"L">>
    [] o = "calloc" -> <<AllocLine(id, "gcalloc", 7, 3, site)>>
    [] o = "both" -> <<Cat(<<"F", 5, IF t = 0 THEN "free" ELSE "gfree", site, 0>>)>>
    [] o = "use" -> <<AllocLine(id, "malloc", 33, 0, site), Cat(<<"V", id>>), Cat(<<"F", id, "free", site + 1, 0>>)>>
    [] o = "oomnt" -> <<AllocLine(id, IF t = 0 THEN "newnt" ELSE "anewntfl", 5000000, 0, site)>>
    [] o = "macnest" -> <<Cat(<<"F", c, IF t = 0 THEN "macdel" ELSE "macadel", site, 0>>), AllocLine(id, "new", 9, 0, site + 1)>>
Ops == {"malloc", "new", "memalign", "zero", "free", "del", "plaindel", "realloc", "realloc0", "usable", "check", "checkall", "leak", "calloc", "both", "use", "macnest"}
\* every attempt to get memory fails; the C++ new handler gives up at once
DOps == {"del", "plaindel", "macnest", "free", "use"}
HPairPre == <<"N 2 1", "I 0 -1">>
HOps == {"oomnt"}
\* so many blocks that the bookkeeping is about to be replaced by a bigger one
GF == FOCUS \in {"gpairs", "gpairs0"}
GOps0 == {"leak", "usable", "check", "checkall", "free", "realloc", "del", "malloc", "both"}
GOps1 == {"malloc", "new", "realloc", "use", "calloc", "both"}
GPre(g) == [i \in 1..g |-> AllocLine(100 + i, "malloc", 10, 0, 0)] \o PairPre
PairInit == /\ phase = "pair" /\ nt = 2 /\ pre = (IF FOCUS = "hpairs" THEN HPairPre ELSE PairPre) /\ prog = [t \in 0..2 |-> <<>>] /\ sched = <<>> /\ blk = [i \in Ids |-> None] /\ last = 0
PairNext ==
  \/ /\ phase = "pair"
     /\ \E a \in (CASE FOCUS = "hpairs" -> HOps [] GF -> GOps0 [] FOCUS = "dpairs" -> DOps [] OTHER -> Ops),
          b \in (CASE FOCUS = "hpairs" -> HOps [] GF -> GOps1 [] FOCUS = "dpairs" -> DOps [] OTHER -> Ops),
          g \in (IF GF THEN {IF FOCUS = "gpairs" THEN 46 ELSE 48} ELSE {0}) :
          /\ prog' = [prog EXCEPT ![0] = Pair(0, a), ![1] = Pair(1, b)]
          /\ pre' = IF GF THEN GPre(g) ELSE pre
     /\ phase' = "seg" /\ UNCHANGED <<nt, sched, blk, last>>
  \/ /\ phase = "seg"
     /\ \E c \in (CASE FOCUS = "hpairs" -> {0, 12} [] GF -> {0} [] OTHER -> {0, 10, 11}) : \E k \in (CASE c = 0 -> 1..(CASE FOCUS = "hpairs" -> 40 [] GF -> 6 [] OTHER -> 16) [] c = 12 -> 1..3 [] c = 10 -> {1, 2, 3, 4, 6, 9, 14, 22, 35, 60, 100, 160, 260} [] OTHER -> 1..10) :
          \/ sched' = <<<<0, c, k>>, <<1, 8, 1>>>>
          \/ ~GF /\ \E c2 \in (IF FOCUS = "hpairs" THEN {4, 6, 7, 12} ELSE {4, 6, 7, 10, 11}) : \E k2 \in {1, 2} : sched' = <<<<0, c, k>>, <<1, c2, k2>>, <<0, 8, 1>>>>
     /\ phase' = "done" /\ UNCHANGED <<nt, pre, prog, blk, last>>

Init == IF SIM THEN InitSim ELSE PairInit
Next == IF SIM THEN NextSim ELSE PairNext

(* ----------------------------------------------------------------- output *)
Pref(p, q) == [i \in DOMAIN q |-> p \o q[i]]
Lines(S) == LET q == SetToSortSeq(S, LAMBDA x, y : x < y) IN [i \in 1..Len(q) |-> "Q V " \o N(q[i])]
Script == <<"#" \o N(nt)>> \o Pref("P ", pre) \o Pref("t 0 ", prog[0]) \o Pref("t 1 ", prog[1]) \o Pref("t 2 ", prog[2])
          \o [i \in DOMAIN sched |-> "c " \o Cat(sched[i])]
          \o (IF ~SIM /\ prog[1] = Pair(1, "plaindel") THEN <<"Q F 3 adel 900 0">>     \* who freed it?
              ELSE IF ~SIM /\ prog[1] = Pair(1, "free") THEN <<"Q F 1 free 900 0">> ELSE <<>>)
          \o (IF FOCUS = "hpairs" THEN <<"Q A 39 newnt 5000000 0 999 0">> ELSE <<>>)   \* is the handler still there?
          \o <<"Q KA">> \o Lines({i \in Ids : blk[i].s = "live"}) \o <<"Q X">>
Emit == IF phase' = "done" THEN PrintT("SCRIPT " \o ToJson(Script')) ELSE TRUE
=============================================================================
