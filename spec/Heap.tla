-------------------------------- MODULE Heap --------------------------------
(* What a program that uses DUMA may rely on: the allocator as a state machine
   over blocks, freed blocks and page accessibility.  The module says nothing
   about where blocks are put or how the bookkeeping is organised.  Every call
   is an event e: the request together with everything observed while and after
   it ran.  An event is judged by a set of named clauses; a name starts with the
   identifiers of the properties it belongs to.

     Init0(e)        state after process start, from the "begin" event
     Violated(s, e)  names of the clauses that e breaks in state s
     Post(s, e)      state after e

   The same operators judge the real library (HeapTrace) and the
   implementation-shaped model of the allocator (Impl).                     *)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

CONSTANTS PAGE,     \* bytes per page
          KB,       \* accounting units ("kB") per page
          HIDDEN,   \* bound for pages freed by the library itself during its start
          PTR       \* smallest alignment posix_memalign accepts

CREEP == 16     \* pages: the bookkeeping in a different place, memory not in use in more pieces

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
UpPages(n) == (n + PAGE - 1) \div PAGE

RECURSIVE LowPow2(_)
LowPow2(n) == IF n <= 1 THEN 1 ELSE 2 * LowPow2(n \div 2)
IsPow2(n) == n >= 1 /\ LowPow2(n) = n

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SumSet(S, f) == FoldFunctionOnSet(+, 0, f, S)
SeqToSet(q) == {q[i] : i \in DOMAIN q}

(* ------------------------------------------------------------------ calls *)
CApis   == {"malloc", "gmalloc", "calloc", "gcalloc", "memalign", "gmemalign", "posix", "gposix",
            "valloc", "gvalloc", "realloc0", "grealloc0", "strdup", "gstrdup"}
NewElem == {"new", "newnt", "newfl", "newntfl"}
NewArr  == {"anew", "anewnt", "anewfl", "anewntfl"}
CppNew  == NewElem \cup NewArr
Throwing == {"new", "newfl", "anew", "anewfl"}

Family(api) ==
  CASE api \in CApis \cup {"free", "gfree", "realloc", "grealloc"} -> "malloc"
    [] api \in NewElem \cup {"del", "delnt", "delfl", "delntfl"} -> "new"
    [] api \in NewArr \cup {"adel", "adelnt", "adelfl", "adelntfl"} -> "new[]"
    [] api \in {"mnew", "mdel"} -> "member new"
    [] api \in {"manew", "madel"} -> "member new[]"
    [] OTHER -> "none"

TypeName(api) ==      \* as printed in reports
  CASE api \in {"malloc", "gmalloc"} -> "malloc()"
    [] api \in {"calloc", "gcalloc"} -> "calloc()"
    [] api \in {"memalign", "gmemalign"} -> "memalign()"
    [] api \in {"posix", "gposix"} -> "posix_memalign()"
    [] api \in {"realloc", "grealloc", "realloc0", "grealloc0"} -> "realloc()"
    [] api \in {"valloc", "gvalloc"} -> "valloc()"
    [] api \in {"strdup", "gstrdup"} -> "strdup()"
    [] api \in {"free", "gfree"} -> "free()"
    [] api \in NewElem -> "scalar new"
    [] api \in NewArr -> "vector new[]"
    [] api \in {"del", "delnt", "delfl", "delntfl"} -> "scalar delete"
    [] api \in {"adel", "adelnt", "adelfl", "adelntfl"} -> "vector delete[]"
    [] api = "mnew" -> "member scalar new"
    [] api = "manew" -> "member vector new[]"
    [] api = "mdel" -> "member scalar delete"
    [] api = "madel" -> "member vector delete[]"
    [] OTHER -> "?"

Explicit(api) == api \in {"memalign", "gmemalign", "posix", "gposix"}
Posix(api)  == api \in {"posix", "gposix"}
Valloc(api) == api \in {"valloc", "gvalloc"}
Strdup(api) == api \in {"strdup", "gstrdup"}
Calloc(api) == api \in {"calloc", "gcalloc"}

(* alignment a request has to be served with *)
DefAlign(c, size) == IF size < c.align THEN LowPow2(size) ELSE c.align
EffAlign(c, api, size, al) ==
  IF Valloc(api) THEN PAGE
  ELSE IF Explicit(api) /\ al > 0 THEN al
  ELSE DefAlign(c, size)

(* pages a block occupies in total, its inaccessible page(s) included *)
Gross(size, al) ==
  IF size = 0 THEN 1
  ELSE UpPages(size) + 1 + (IF al > PAGE THEN (al - PAGE) \div PAGE ELSE 0)

(* ------------------------------------------------------------------ state
   c        configuration
   live     address -> block;  quar: address -> freed block still reserved
   block    size, al, lo, hi (accessible pages [lo, hi)), glo, ghi (all its
            pages), below, api, file, line, bad (overwritten locations of its
            no-man's-land),
            seed (pattern the program wrote, 0: none)
   freed    the block (glo, ghi: pages still reserved), plus ff, fl (site of free)
   acc      number of accessible pages that belong to blocks
   mp, mp0  pages mapped now / after start;  rw0 number of accessible pages at start, acc0: which
   corr     addresses of blocks whose no-man's-land was overwritten
   since    (de)allocations since the last block was damaged
   na, nd   (de)allocations logged so far
   inj      memory exhaustion in force: "no", "some", "limit", "all"
   hm, hk   C++ new-handler: mode and parameter                            *)

Init0(e) ==
  [c |-> e.c, live |-> <<>>, quar |-> <<>>, acc |-> 0, mp |-> e.mp, mp0 |-> e.mp0,
   rw0 |-> e.rw, acc0 |-> e.acc0, null |-> e.nulladdr, corr |-> {}, since |-> 0, base |-> SeqToSet(e.leaks),
   baseX |-> Max(e.lx, 0), na |-> e.na, nd |-> e.nd, inj |-> "no", uf |-> 0, hm |-> 0, hk |-> 0,
   peak |-> 0, most |-> 0]

Live(s) == DOMAIN s.live
Quar(s) == DOMAIN s.quar
Held(s) == SumSet(Quar(s), [a \in Quar(s) |-> s.quar[a].ghi - s.quar[a].glo])
ZeroBlock(b) == b.size = 0
Guard(b) == IF ZeroBlock(b) THEN b.glo ELSE IF b.below = 1 THEN b.lo - 1 ELSE b.hi

(* page intervals: sequences of <<lo, hi>> *)
RECURSIVE OverlapPages(_, _, _)
OverlapPages(iv, lo, hi) ==
  IF iv = <<>> THEN 0
  ELSE LET x == Head(iv) IN
       Max(0, Min(x[2], hi) - Max(x[1], lo)) + OverlapPages(Tail(iv), lo, hi)
RECURSIVE IvPages(_)
IvPages(iv) == IF iv = <<>> THEN 0 ELSE Head(iv)[2] - Head(iv)[1] + IvPages(Tail(iv))

(* pages of freed block a given back to the system by this call *)
Lost(s, e, a) == OverlapPages(e.unm, s.quar[a].glo, s.quar[a].ghi)
AnyLost(s, e) == e.unm # <<>> /\ \E a \in Quar(s) : Lost(s, e, a) > 0
\* what is left around the page of the address
RECURSIVE Shrink(_, _, _, _)
Shrink(iv, u, lo, hi) ==
  IF iv = <<>> THEN <<lo, hi>>
  ELSE LET x == Head(iv) IN
       IF x[1] > u THEN Shrink(Tail(iv), u, lo, Min(hi, x[1]))
       ELSE Shrink(Tail(iv), u, Max(lo, x[2]), hi)
QuarAfter(s, e) ==
  IF e.unm = <<>> THEN s.quar
  ELSE LET keep == {a \in Quar(s) : OverlapPages(e.unm, a \div PAGE, a \div PAGE + 1) = 0} IN
       [a \in keep |-> LET q == s.quar[a]
                           x == Shrink(e.unm, a \div PAGE, q.glo, q.ghi)
                       IN [q EXCEPT !.glo = x[1], !.ghi = x[2]]]

(* freed memory may be given up only to stay within a limit, or when the
   system has no more memory *)
OverLimit(s, e) == s.c.maxa > 0 /\ e.mq > 0 /\ (s.mp - s.mp0 + e.mq) * KB > s.c.maxa
MayReclaim(s, e) == e.mf > 0 \/ OverLimit(s, e)

C(name, ok) == [name |-> name, ok |-> ok]
Names(cs) == {x.name : x \in {y \in cs : ~y.ok}}

(* what the outcome of the call was *)
Out(s, e) ==
  IF e.out # "ret" THEN e.out
  ELSE IF e.op = "A" THEN
         IF e.x = 1 THEN "throw" ELSE IF e.x # 0 THEN "otherthrow"
         ELSE IF Posix(e.api) /\ e.rc = 22 THEN "einval"
         ELSE IF e.r = -1 THEN "null" ELSE IF e.r = s.null THEN "nulladdr" ELSE "ptr"
  ELSE IF e.op = "R" THEN
         IF e.r = -1 THEN "null" ELSE IF e.r = s.null THEN "nulladdr" ELSE "ptr"
  ELSE "ret"

(* reports about damaged no-man's-land *)
BadOut(a, b) == IF \E x \in b.bad : x < a THEN "abort:below" ELSE "abort:above"
BadOuts(s) == {BadOut(a, s.live[a]) : a \in s.corr}
(* the periodic check may report at any (de)allocation, and has to at the n-th *)
FreqMay(s) == IF s.c.chkf > 0 THEN BadOuts(s) ELSE {}
FreqMust(s, k) == s.c.chkf > 0 /\ s.corr # {} /\ s.since + k >= s.c.chkf

Strategy(c, api) == IF Family(api) = "malloc" THEN c.m0 ELSE c.n0

(* ---------------------------------------------------------- memory failure *)
Exhausted(e) == e.mf > 0 /\ e.ml = 0
(* where the bookkeeping cannot grow either (c.slots), even a request that would
   fit in memory the library has may fail while no more memory is to be had *)
NoRoom(s) == s.c.slots = 1 /\ s.inj = "all"
MayFail(s, e) == Exhausted(e) \/ NoRoom(s)
(* memory for the bookkeeping itself is refused at the first call: the program
   is stopped, as the settings are not read yet *)
StartOut(e) == IF e.first = 1 /\ e.mf > 0 THEN {"abort:mmap"} ELSE {}
FailOut(s, api) ==
  IF api \in CppNew
  THEN IF s.hm \in {1, 4} THEN {"ptr"} ELSE IF api \in Throwing THEN {"throw"} ELSE {"null"}
  ELSE IF s.c.failexit = 1 THEN {"abort:mmap", "abort:slots"} ELSE {"null"}

(* ============================================================== allocation
   a request q: [api, size, al (effective), big, file, line, fill]          *)
Request(s, e) ==
  [api |-> e.api, size |-> e.size, big |-> e.big,
   al |-> IF e.size = 0 /\ e.big = 0 THEN 1 ELSE EffAlign(s.c, e.api, e.size, e.al),
   file |-> e.file, line |-> e.line,
   fill |-> IF Calloc(e.api) THEN 0 ELSE IF Strdup(e.api) THEN -1 ELSE s.c.fill]

AllocScenario(s, e, q) ==
  IF Posix(e.api) /\ (e.alhuge = 1 \/ ~IsPow2(e.al) \/ e.al < PTR) THEN "einval"
  ELSE IF q.size = 0 /\ q.big = 0 THEN "zero"
  ELSE IF e.alhuge = 1 \/ ~IsPow2(q.al) THEN "align"
  ELSE IF q.big = 1 THEN "big"
  ELSE "plain"

AllocAllowed(s, e, q) ==
  LET sc == AllocScenario(s, e, q) IN
  CASE sc = "einval" -> {"einval"}
    [] sc = "align" -> {"abort:align"}
    [] sc = "big" -> FailOut(s, q.api)
    [] sc = "zero" ->
         LET st == Strategy(s.c, q.api) IN
         CASE st = 0 -> {"abort:zero"}
           [] st = 1 -> {"null"}
           [] st = 2 -> {"nulladdr"}
           [] OTHER -> IF FreqMust(s, 1) THEN BadOuts(s)
                       ELSE {"ptr"} \cup FreqMay(s) \cup (IF MayFail(s, e) THEN FailOut(s, q.api) ELSE {})
    [] OTHER -> IF FreqMust(s, 1) THEN BadOuts(s)
                ELSE {"ptr"} \cup FreqMay(s) \cup (IF MayFail(s, e) THEN FailOut(s, q.api) ELSE {}) \cup StartOut(e)

AllocOutcomeName(s, e, q) ==
  LET sc == AllocScenario(s, e, q) IN
  CASE sc = "einval" -> "C04,C15:posix_memalign-rejects-alignment"
    [] sc = "align" -> "C04:alignment-rejected"
    [] sc = "big" -> IF q.api \in CppNew THEN "C15,C19:unsatisfiable-size-fails" ELSE "C15:unsatisfiable-size-fails"
    [] sc = "zero" -> "C13,C22:zero-size-strategy"
    [] OTHER -> IF s.corr # {} /\ s.c.chkf > 0 THEN "C08:periodic-check"
                ELSE IF e.out \in {"abort:below", "abort:above"} THEN "C08,C09:false-report"
                ELSE IF e.mf > 0 \/ NoRoom(s) THEN (IF q.api \in CppNew THEN "C15,C19:out-of-memory" ELSE "C15:out-of-memory")
                ELSE "C01,C09:allocation-succeeds"

(* the clauses of a pointer handed out for a request *)
PtrClauses(s, e, q) ==
  LET r == e.r
      z == q.size = 0
      end == r + q.size
      others == Live(s)
  IN IF z THEN {
       C("C13:unique", r \notin Live(s) /\ r # s.null /\ r >= 0),
       C("C13,C05:not-a-freed-address", r \notin DOMAIN QuarAfter(s, e)),
       C("C13:inaccessible", e.gl = 1 /\ e.up = <<>>),
       C("C13,C01:page-of-its-own", \A a \in others : ~(s.live[a].glo <= r \div PAGE /\ r \div PAGE < s.live[a].ghi)) }
     ELSE {
       C("C01:fresh-accessible", e.lo >= 0 /\ e.up = << <<e.lo, e.hi>> >>),
       C("C01:covers-the-size", e.lo * PAGE <= r /\ end <= e.hi * PAGE),
       C("C01,C02,C03:keeps-off-other-blocks",
          \A a \in others : ~(e.lo < s.live[a].ghi /\ s.live[a].glo < e.hi)),
       C("C05,C06:keeps-off-freed-blocks",
          LET qa == QuarAfter(s, e) IN \A a \in DOMAIN qa :
             ~(e.lo <= a \div PAGE /\ a \div PAGE < e.hi)),
       C("C04:aligned", r % q.al = 0),
       C("C02:no-access-behind", s.c.below = 1 \/ (e.gh = 1 /\ e.hi = UpPages(end))),
       C("C02:gap-below-alignment", s.c.below = 1 \/ e.hi * PAGE - end < Min(q.al, PAGE)),
       C("C03:no-access-before", s.c.below = 0 \/ (e.gl = 1 /\ r = e.lo * PAGE)),
       C("C03:nothing-behind", s.c.below = 0 \/ e.hi * PAGE - end < (IF q.al < PAGE THEN PAGE ELSE q.al)),
       C("C02,C03,C22:guard-not-of-others", \A a \in others :
            LET g == IF s.c.below = 1 THEN e.lo - 1 ELSE e.hi IN
            ~(s.live[a].lo <= g /\ g < s.live[a].hi)),
       C("C08,C22:no-mans-land-filled", e.sb \in {-2, s.c.slack} /\ e.sa \in {-2, s.c.slack}),
       C("C11,C22:initial-content",
          IF e.op = "R" \/ q.fill = -1 THEN TRUE ELSE e.fv = q.fill),
       C("C11:copy-of-string", Strdup(q.api) => e.sd = 0),
       C("C01:writable", e.wf # 1) }

Block(s, e, q) ==
  LET g == Gross(q.size, q.al)
      lo == IF q.size = 0 \/ e.lo < 0 THEN e.r \div PAGE ELSE e.lo
      hi == IF q.size = 0 THEN lo ELSE IF e.lo < 0 THEN UpPages(e.r + q.size) ELSE e.hi
  IN [size |-> q.size, al |-> q.al, lo |-> lo, hi |-> hi,
      glo |-> IF q.size = 0 \/ s.c.below = 0 THEN lo ELSE hi - g,
      ghi |-> IF q.size = 0 THEN lo + 1 ELSE IF s.c.below = 0 THEN lo + g ELSE hi,
      below |-> s.c.below, api |-> q.api, file |-> q.file, line |-> q.line,
      bad |-> {}, seed |-> IF e.wf = 0 THEN e.seed ELSE 0]

(* ============================================================ deallocation *)
FreeKeeps(s, b) ==      \* "keep", "drop", "any"
  LET kb == (b.ghi - b.glo) * KB
      held == Held(s) * KB IN
  IF s.c.pf < 0 THEN "keep"
  ELSE IF s.c.pf = 0 THEN "drop"
  ELSE IF held + HIDDEN * KB + kb <= s.c.pf THEN "keep"
  ELSE IF kb < s.c.pf /\ held >= kb THEN "keep"
  ELSE "any"

(* the clauses of giving back block b at address a *)
FreedClauses(s, e, a) ==
  LET b == s.live[a]
      k == FreeKeeps(s, b)
      z == ZeroBlock(b)
      gone == OverlapPages(e.unm, b.glo, b.ghi) + OverlapPages(e.downm, b.glo, b.ghi)
  IN {
    C("C05,C06,C07:no-access-after-free", z \/ OverlapPages(e.down, b.lo, b.hi) = b.hi - b.lo),
    C("C05:stays-reserved", k # "keep" \/ s.c.pf > 0 \/ e.mf > 0 \/ gone = 0),
    C("C06:protected-within-the-limit", k # "keep" \/ s.c.pf <= 0 \/ e.mf > 0 \/ gone = 0),
    C("C06:nothing-released-while-it-fits",
       s.c.pf <= 0 \/ e.op = "R" \/ (Held(s) + HIDDEN + b.ghi - b.glo) * KB > s.c.pf \/ ~AnyLost(s, e)),
    C("C07:given-back", k # "drop" \/ e.uf > 0 \/ (gone = b.ghi - b.glo)) }

Freed(s, e, a) ==
  LET b == s.live[a] IN
  [size |-> b.size, al |-> b.al, lo |-> b.lo, hi |-> b.hi, glo |-> b.glo, ghi |-> b.ghi,
   below |-> b.below, api |-> b.api, file |-> b.file, line |-> b.line, bad |-> b.bad,
   seed |-> 0,
   ff |-> IF e.line > 0 THEN e.file ELSE b.file, fl |-> IF e.line > 0 THEN e.line ELSE b.line,
   fz |-> e.line > 0]

FreeState(s, e, a) ==    \* live and quar after block a was freed by e
  LET b == s.live[a]
      gone == OverlapPages(e.unm, a \div PAGE, a \div PAGE + 1) + OverlapPages(e.downm, a \div PAGE, a \div PAGE + 1)
      q1 == QuarAfter(s, e) IN
  [s EXCEPT !.live = Drop(@, a), !.corr = @ \ {a}, !.acc = @ - (b.hi - b.lo),
            !.quar = IF gone > 0 THEN q1 ELSE Put(q1, a, Freed(s, e, a))]

FreeTarget(s, a) ==
  IF a = -1 \/ a = s.null THEN "nothing"
  ELSE IF a \in Live(s) THEN "live"
  ELSE IF a \in Quar(s) THEN "freed"
  ELSE "unknown"

FreeAllowed(s, e, a) ==
  LET t == FreeTarget(s, a) IN
  CASE t = "nothing" -> {"ret"}
    [] t = "freed" -> {"abort:freed"} \cup FreqMay(s)
    [] t = "unknown" -> {"abort:unknown", "abort:mismatch"} \cup FreqMay(s)
    [] OTHER ->
         LET b == s.live[a] IN
         IF Family(b.api) # Family(e.api) THEN {"abort:mismatch"} \cup FreqMay(s)
         ELSE IF b.bad # {} THEN {BadOut(a, b)} \cup FreqMay(s)
         ELSE IF FreqMust(s, 1) THEN BadOuts(s)
         ELSE {"ret"} \cup FreqMay(s)

FreeOutcomeName(s, e, a) ==
  LET t == FreeTarget(s, a) IN
  CASE t = "nothing" -> "C09,C13:free-of-null"
    [] t = "freed" -> "C09,C05:double-free-stops"
    [] t = "unknown" -> "C09:invalid-free-stops"
    [] OTHER ->
         LET b == s.live[a] IN
         IF Family(b.api) # Family(e.api) THEN "C10:mismatch-stops"
         ELSE IF b.bad # {} THEN "C08:damage-found-at-free"
         ELSE IF s.corr # {} /\ s.c.chkf > 0 THEN "C08:periodic-check"
         ELSE IF e.out \in {"abort:below", "abort:above"} THEN "C08,C09:false-report"
         ELSE IF e.out = "abort:mismatch" THEN "C10,C09:valid-free-accepted"
         ELSE "C09:valid-free-accepted"

(* ============================================================ reallocation
   e.a old address, e.size new size                                        *)
ReallocRequest(s, e) ==
  [api |-> e.api, size |-> e.size, big |-> e.big,
   al |-> IF e.size = 0 /\ e.big = 0 THEN 1 ELSE DefAlign(s.c, e.size),
   file |-> e.file, line |-> e.line, fill |-> s.c.fill]

ReallocAllowed(s, e, q) ==
  LET t == FreeTarget(s, e.a)
      fails == IF q.big = 1 \/ MayFail(s, e) THEN FailOut(s, e.api) ELSE {} IN
  IF q.big = 1 THEN fails ELSE
  CASE t = "nothing" ->
         IF q.size = 0
         THEN (IF e.a = s.null THEN {"null"}
               ELSE CASE s.c.m0 = 0 -> {"abort:zero"} [] s.c.m0 = 1 -> {"null"}
                      [] s.c.m0 = 2 -> {"nulladdr"} [] OTHER -> {"ptr"} \cup fails)
         ELSE {"ptr"} \cup fails \cup FreqMay(s)
    [] t = "live" ->
         LET b == s.live[e.a] IN
         IF Family(b.api) # "malloc" THEN {"abort:mismatch"} \cup fails \cup FreqMay(s)
         ELSE IF b.bad # {} THEN {BadOut(e.a, b)} \cup fails \cup FreqMay(s)
         ELSE IF q.size = 0 THEN (IF FreqMust(s, 1) THEN BadOuts(s) ELSE {"null"} \cup FreqMay(s))
         ELSE IF FreqMust(s, 2) THEN BadOuts(s) \cup fails
         ELSE {"ptr"} \cup fails \cup FreqMay(s)
    [] t = "freed" -> {"abort:freed"} \cup FreqMay(s)
    [] OTHER -> {"abort:realloc", "abort:unknown", "abort:mismatch"} \cup fails \cup FreqMay(s)

ReallocOutcomeName(s, e, q) ==
  LET t == FreeTarget(s, e.a) IN
  IF q.big = 1 THEN "C12,C15:unsatisfiable-size-fails"
  ELSE CASE t = "nothing" -> "C12,C13:realloc-of-null"
    [] t = "live" ->
         LET b == s.live[e.a] IN
         IF Family(b.api) # "malloc" THEN "C10,C12:mismatch-stops"
         ELSE IF b.bad # {} THEN "C08:damage-found-at-realloc"
         ELSE IF s.corr # {} /\ s.c.chkf > 0 THEN "C08:periodic-check"
         ELSE IF e.mf > 0 THEN "C12,C15:out-of-memory"
         ELSE "C12,C09:valid-realloc-accepted"
    [] OTHER -> "C09,C12:invalid-realloc-stops"

ReallocContent(s, e) ==      \* bytes kept, tail zeroed
  LET b == s.live[e.a] IN {
    C("C12,C01:content-kept", b.seed = 0 \/ b.size = 0 \/ e.pf = Min(b.size, e.size)),
    C("C12:added-bytes-zero", e.size <= b.size \/ (b.seed = 0 /\ b.size > 0) \/ e.tv = 0) }

(* ================================================================ log lines *)
ULogs(e) == SelectSeq(e.logs, LAMBDA l : l.int = 0)
LogCount(e, k) == Len(SelectSeq(e.logs, LAMBDA l : l.k = k))
ALog(size, file, line) == [k |-> "a", size |-> size, file |-> file, line |-> line, af |-> "", al |-> 0, int |-> 0]
DLog(size, file, line, b) == [k |-> "d", size |-> size, file |-> file, line |-> line, af |-> b.file, al |-> b.line, int |-> 0]

ExpectedLogs(s, e) ==
  IF s.c.show = 0 THEN <<>>
  ELSE IF e.op = "A" THEN
     IF AllocScenario(s, e, Request(s, e)) = "einval" THEN <<>>
     ELSE <<ALog(e.size, e.file, e.line)>>
  ELSE IF e.op = "F" THEN
     IF FreeTarget(s, e.a) = "live" THEN <<DLog(s.live[e.a].size, e.file, e.line, s.live[e.a])>> ELSE <<>>
  ELSE IF e.op = "R" THEN
     IF FreeTarget(s, e.a) = "nothing"
     THEN IF e.size = 0 /\ e.a = s.null THEN <<>> ELSE <<ALog(e.size, e.file, e.line)>>
     ELSE IF e.size = 0 THEN <<DLog(s.live[e.a].size, e.file, e.line, s.live[e.a])>>
     ELSE IF e.r = -1 THEN <<ALog(e.size, e.file, e.line)>>
     ELSE <<ALog(e.size, e.file, e.line), DLog(s.live[e.a].size, e.file, e.line, s.live[e.a])>>
  ELSE <<>>

LogClauses(s, e) ==
  IF s.c.ld = 0 \/ e.out # "ret" \/ (e.op = "A" /\ (e.x # 0 \/ e.mf > 0 \/ e.big = 1)) THEN {}
  ELSE {C("C21,C22:call-log", ULogs(e) = ExpectedLogs(s, e))}

(* ============================================================== diagnostics *)
KnownSite(f, l) == l > 0
DiagClauses(s, e) ==
  LET d == e.diag IN
  IF s.c.ld = 0 \/ e.dg = 0 THEN {}
  ELSE CASE e.out \in {"abort:below", "abort:above"} -> {
         C("C20,C08:report-names-a-damaged-block", \E a \in s.corr :
            /\ d.aa = a /\ d.asz = s.live[a].size /\ d.af = s.live[a].file /\ d.al = s.live[a].line
            /\ e.out = BadOut(a, s.live[a])) }
    [] e.out = "abort:freed" /\ e.a \in Quar(s) ->
         LET b == s.quar[e.a] IN {
         C("C20:report-names-freed-block", d.aa = e.a),
         C("C20:site-of-first-free",
           IF b.fz THEN d.df = b.ff /\ d.dl = b.fl ELSE d.af = b.file /\ d.al = b.line) }
    [] e.out = "abort:mismatch" /\ e.a \in Live(s) ->
         LET b == s.live[e.a] IN {
         C("C20,C10:allocator-named", d.an = TypeName(b.api) /\ d.af = b.file /\ d.al = b.line),
         C("C20,C10:deallocator-named", d.dn = TypeName(e.api) /\ (e.line > 0 => d.df = e.file) /\ d.dl = e.line) }
    [] e.out = "abort:zero" -> {C("C20:site-of-zero-size-request", d.af = e.file /\ d.al = e.line)}
    [] e.out = "abort:align" -> {C("C20:site-of-bad-alignment", d.af = e.file /\ d.al = e.line)}
    [] e.out = "abort:unknown" -> {
         C("C20:address-reported", e.a < 0 \/ d.pa = e.a),
         C("C20:block-around-the-address-named",
            \A a \in Live(s) : (e.a > a /\ e.a < a + s.live[a].size) =>
               (d.aa = a /\ d.af = s.live[a].file /\ d.al = s.live[a].line)) }
    [] OTHER -> {}

(* ================================================================== leaks *)
LeakRec(c, a, b) == [a |-> a, size |-> b.size, type |-> TypeName(b.api),
                     file |-> IF c.so = 1 THEN "" ELSE b.file, line |-> IF c.so = 1 THEN 0 ELSE b.line]
Reported(s) == {a \in Live(s) : s.c.rall = 1 \/ s.live[a].line > 0}
LeakClauses(s, e) ==
  LET rep == {LeakRec(s.c, a, s.live[a]) : a \in Reported(s)} \cup s.base
      x == s.baseX + Cardinality(Live(s)) - Cardinality(Reported(s)) IN {
    C("C14:exactly-the-live-blocks", SeqToSet(e.leaks) = rep),
    C("C14:each-once", Len(e.leaks) = Cardinality(rep)),
    C("C14:counts", IF rep = {} /\ x = 0 THEN e.lr = -1 /\ e.lx = -1
                    ELSE e.lr = Cardinality(rep) /\ e.lx = x),
    C("C21:totals", s.c.show = 0 \/ (e.ca = s.na /\ e.cd = s.nd)) }

(* ================================================================ all events *)
\* freed memory is given up piece by piece until there is enough: without the
\* biggest piece (of each reason to give up) it would not have been enough
ReleasedAsNeeded(s, e) ==
  IF e.unm = <<>> \/ e.mf > 0 \/ e.out # "ret" \/ e.op \notin {"A", "F", "R"} THEN TRUE
  ELSE LET lost == [a \in Quar(s) |-> Lost(s, e, a)]
           some == {a \in Quar(s) : lost[a] > 0}
           total == SumSet(some, lost)
           big == FoldFunctionOnSet(Max, 0, lost, some)
           old == e.op \in {"F", "R"} /\ e.a \in Live(s)
           need == Max(e.mq, 0) + (IF old THEN s.live[e.a].ghi - s.live[e.a].glo ELSE 0)
           times == Max(e.mm, 0) + (IF old THEN 1 ELSE 0)
       IN total = 0 \/ total - times * big < need
\* clauses that hold after every completed call
Always(s, e, t) == {
  C("C17,C16:bookkeeping-closed", e.tb = 1),
  C("C24,C16:lock-released", e.lk = 0),
  C("C16,C24:bookkeeping-touched-only-with-lock", e.nl = 0),
  C("C17,C05:accessible-pages-are-the-live-blocks", e.rw = s.rw0 + t.acc),
  C("C17,C05:no-other-protection", e.odd = 0),
  C("C05,C06:no-release-without-need",
     MayReclaim(s, e) \/ (s.c.pf > 0 /\ e.op \in {"F", "R"}) \/ ~AnyLost(s, e)),
  C("C01,C02,C03:live-pages-stay-mapped", e.unm = <<>> \/
     \A a \in Live(s) : (e.op \in {"F", "R"} /\ a = e.a)
                        \/ OverlapPages(e.unm, s.live[a].glo, s.live[a].ghi) = 0),
  C("C01:live-pages-stay-accessible", e.down = <<>> \/
     \A a \in Live(s) : (e.op \in {"F", "R"} /\ a = e.a)
                        \/ OverlapPages(e.down, s.live[a].lo, s.live[a].hi) = 0),
  C("C02,C03,C05,C17:nothing-else-opened",
     e.up = <<>> \/ (e.op \in {"A", "R"} /\ e.r >= 0 /\ Len(e.up) = 1)),
  C("C06:no-more-released-than-needed", ReleasedAsNeeded(s, e)),
  C("C06:within-the-limit", s.c.pf <= 0 \/ e.op \notin {"F", "R"} \/ Held(t) * KB <= s.c.pf),
  C("C07:footprint", s.c.steady = 0 \/
      e.mp <= s.mp0 + s.c.steady + t.peak),
  C("C07:footprint-does-not-creep", s.c.half = 0 \/ e.n <= s.c.half \/ e.mp <= s.most + CREEP) }

OpenAtEnd(s, e, t) == IF e.out = "ret" THEN Always(s, e, t) ELSE {}

MaxAllocClause(s, e) ==
  C("C06:limit-makes-room",
     s.c.maxa <= 0 \/ e.mm # 1 \/ e.mf > 0 \/ e.op # "A"
     \/ (e.mp - s.mp0) * KB <= s.c.maxa      \* after the call: a table that moved gave pages back first
     \/ s.mp + e.mq - e.mp >= Min(e.mq, Held(s)))

FailClauses(s, e, t) ==
  { C("C15:reclaims-before-giving-up",
      e.out # "ret" \/ s.c.pf = 0 \/ ~Exhausted(e) \/ e.r >= 0 \/ e.x # 0 \/ t.quar = <<>>),
    C("C15:memptr-null-on-failure", ~(e.op = "A" /\ e.out = "ret" /\ Posix(e.api) /\ e.rc = 12) \/ e.r = -1),
    C("C15:result-code", ~(e.op = "A" /\ e.out = "ret" /\ Posix(e.api)) \/ (e.rc = 0) = (e.r # -1 /\ e.rc # 22)) }

HandlerClauses(s, e) ==
  IF e.op # "A" \/ e.api \notin CppNew \/ e.out # "ret" THEN {}
  ELSE {
    C("C24,C19:handler-called-without-lock", e.hl = 0),
    C("C19:handler-called-only-on-failure", e.mf > 0 \/ e.nc = 0),
    C("C19:handler-call-count",
       e.nc = (IF s.hm = 0 THEN 0 ELSE s.hk) \/ (e.nc = 0 /\ e.r >= 0)
         \/ (e.nc < s.hk /\ e.r >= 0 /\ e.ml = 1) \/ (e.mf = 0 /\ e.big = 0 /\ e.nc = 0)),
    C("C19:handler-stays-installed",
       e.nh = IF s.hm = 0 THEN 0 ELSE IF s.hm = 3 /\ e.nc >= s.hk THEN 0 ELSE 1),
    C("C19:throwing-form-never-null", e.api \notin Throwing \/ e.x # 0 \/ e.r # -1),
    C("C19:nothrow-form-never-throws", e.api \in Throwing \/ e.x = 0) }

Outcome(name, s, e, allowed) == C(name, Out(s, e) \in allowed)

\* ----- state after the call (Post) -------------------------------------
Count(s, e, k) == [s EXCEPT !.mp = e.mp, !.most = IF s.c.half = 0 \/ e.n > s.c.half THEN @ ELSE Max(@, e.mp), !.na = @ + LogCount(e, "a"), !.nd = @ + LogCount(e, "d"),
                            !.since = IF s.corr = {} THEN 0 ELSE @ + k]
AddBlock(s, e, q) ==
  LET b == Block(s, e, q) IN
  [s EXCEPT !.live = Put(@, e.r, b), !.quar = Drop(QuarAfter(s, e), e.r), !.acc = @ + b.hi - b.lo,
            !.peak = Max(@, SumSet(Live(s), [a \in Live(s) |-> s.live[a].ghi - s.live[a].glo]) + b.ghi - b.glo
                            + (IF s.c.pf > 0 THEN s.c.pf \div KB ELSE 0))]
PostAlloc(s, e) ==
  LET q == Request(s, e)
      s1 == IF Out(s, e) = "ptr" THEN AddBlock(s, e, q) ELSE [s EXCEPT !.quar = QuarAfter(s, e)]
      s2 == IF e.api \in CppNew /\ e.nc > 0 /\ s.hm \in {1, 4} /\ e.nc >= s.hk THEN [s1 EXCEPT !.inj = "no"]
            ELSE IF e.api \in CppNew /\ s.hm = 3 /\ e.nc >= s.hk /\ s.hk > 0 THEN [s1 EXCEPT !.hm = 0]
            ELSE s1
  IN Count(s2, e, IF Out(s, e) \in {"ptr", "null"} /\ ~(e.size = 0 /\ Strategy(s.c, e.api) < 3) THEN 1 ELSE 0)
PostFree(s, e) ==
  IF FreeTarget(s, e.a) = "live" THEN Count(FreeState(s, e, e.a), e, 1) ELSE Count(s, e, 0)
PostRealloc(s, e) ==
  LET q == ReallocRequest(s, e)
      o == Out(s, e)
      t == FreeTarget(s, e.a) IN
  IF o = "ptr" THEN
     IF t = "live" THEN Count(FreeState(AddBlock(s, e, q), e, e.a), e, 2)
     ELSE Count(AddBlock(s, e, q), e, 1)
  ELSE IF o = "null" /\ t = "live" /\ q.size = 0 THEN Count(FreeState(s, e, e.a), e, 1)
  ELSE Count([s EXCEPT !.quar = QuarAfter(s, e)], e, 1)

Owner(s, loc) == {a \in Live(s) : s.live[a].lo * PAGE <= loc /\ loc < s.live[a].hi * PAGE}
PostWrite(s, e) ==
  LET o == Owner(s, e.loc) IN
  IF e.s = 1 \/ o = {} THEN s
  ELSE LET a == CHOOSE x \in o : TRUE
           b == s.live[a] IN
       IF e.loc >= a /\ e.loc < a + b.size THEN [s EXCEPT !.live[a].seed = 0]
       ELSE LET bad == IF e.val = s.c.slack THEN b.bad \ {e.loc} ELSE b.bad \cup {e.loc} IN
            [s EXCEPT !.live[a].bad = bad,
                      !.corr = IF bad = {} THEN @ \ {a} ELSE @ \cup {a},
                      !.since = IF bad = b.bad THEN @ ELSE 0]

PostSet(s, e) ==
  CASE e.what = "align" -> [s EXCEPT !.c.align = e.val]
    [] e.what = "below" -> [s EXCEPT !.c.below = e.val]
    [] e.what = "fill" -> [s EXCEPT !.c.fill = e.val]

Post(s, e) ==
  IF e.out \notin {"ret", "exit"} THEN s
  ELSE CASE e.op = "A" -> PostAlloc(s, e)
    [] e.op = "F" -> PostFree(s, e)
    [] e.op = "R" -> PostRealloc(s, e)
    [] e.op = "W" -> PostWrite(s, e)
    [] e.op = "T" -> [s EXCEPT !.live[e.a].seed = e.seed]
    [] e.op = "S" -> PostSet(s, e)
    [] e.op = "G" -> Count([s EXCEPT !.quar = QuarAfter(s, e)], e, 0)   \* part of a call, not yet its end
    [] e.op = "I" -> [s EXCEPT !.inj = IF e.after = 0 /\ e.count < 0 THEN "all" ELSE IF e.count = 0 THEN "no" ELSE "some"]
    [] e.op = "J" -> [s EXCEPT !.inj = IF e.val < 0 THEN "no" ELSE "limit"]
    [] e.op = "N" -> [s EXCEPT !.hm = e.mode, !.hk = e.k]
    [] OTHER -> s

\* ----- judgement ---------------------------------------------------------
VAlloc(s, e) ==
  LET q == Request(s, e)
      o == Out(s, e) IN
  {Outcome(AllocOutcomeName(s, e, q), s, e, AllocAllowed(s, e, q))}
  \cup (IF o = "ptr" THEN PtrClauses(s, e, q) ELSE IF e.out = "ret" /\ e.x = 0 THEN {C("C15,C13,C17:no-access-given", e.up = <<>> /\ e.down = <<>>)} ELSE {})
  \cup HandlerClauses(s, e) \cup FailClauses(s, e, Post(s, e)) \cup {MaxAllocClause(s, e)}

VFree(s, e) ==
  {Outcome(FreeOutcomeName(s, e, e.a), s, e, FreeAllowed(s, e, e.a))}
  \cup (IF e.out = "ret" /\ FreeTarget(s, e.a) = "live" THEN FreedClauses(s, e, e.a) ELSE {})
  \cup (IF e.out = "ret" /\ FreeTarget(s, e.a) = "nothing"
        THEN {C("C09:free-of-null-changes-nothing", e.up = <<>> /\ e.down = <<>> /\ e.unm = <<>>)} ELSE {})

VRealloc(s, e) ==
  LET q == ReallocRequest(s, e)
      o == Out(s, e)
      live == FreeTarget(s, e.a) = "live" IN
  {Outcome(ReallocOutcomeName(s, e, q), s, e, ReallocAllowed(s, e, q))}
  \cup (IF o = "ptr" THEN PtrClauses(s, e, q) \cup
           (IF live /\ q.size > 0 THEN ReallocContent(s, e) \cup FreedClauses(AddBlock(s, e, q), e, e.a)
            ELSE {C("C11,C12:initial-content", q.size = 0 \/ q.fill = -1 \/ e.fv = q.fill)})
        ELSE IF o = "null" /\ live /\ q.size = 0 THEN FreedClauses(s, e, e.a)
        ELSE IF o = "null" THEN {C("C12,C15:old-block-untouched", e.up = <<>> /\ e.down = <<>>)} ELSE {})
  \cup FailClauses(s, e, Post(s, e))

Accessible(s, loc) == Owner(s, loc) # {} \/ \E k \in DOMAIN s.acc0 :
                         s.acc0[k][1] * PAGE <= loc /\ loc < s.acc0[k][2] * PAGE
VAccess(s, e) ==      \* the program touches a byte at loc
  LET near(b) == b.lo * PAGE - 2 * PAGE <= e.loc /\ e.loc < b.hi * PAGE + 2 * PAGE IN
  IF e.s = 1 THEN {C("C01:live-memory-accessible", ~Accessible(s, e.loc))}
  ELSE { C("C05:freed-memory-faults", Accessible(s, e.loc) \/ ~\E a \in Quar(s) :
              s.quar[a].glo * PAGE <= e.loc /\ e.loc < s.quar[a].ghi * PAGE),
         C("C02,C03,C13,C17:guard-faults", Accessible(s, e.loc) \/ e.loc < 0 \/ \E a \in Quar(s) :
              s.quar[a].glo * PAGE <= e.loc /\ e.loc < s.quar[a].ghi * PAGE) }

VCheck(s, e) ==
  LET t == FreeTarget(s, e.a) IN
  CASE t = "nothing" -> {Outcome("C09:check-of-null", s, e, {"ret"})}
    [] t = "live" -> {Outcome(IF s.live[e.a].bad = {} THEN "C08,C09:false-report" ELSE "C08:damage-found-by-check", s, e,
                        IF s.live[e.a].bad = {} THEN {"ret"} ELSE {BadOut(e.a, s.live[e.a])})}
    [] t = "freed" -> {Outcome("C09:check-of-freed-stops", s, e, {"abort:freed"})}
    [] OTHER -> {Outcome("C09:check-of-unknown-stops", s, e, {"abort:unknown"})}
VCheckAll(s, e) ==
  {Outcome(IF s.corr = {} THEN "C08,C09:false-report" ELSE "C08:damage-found-by-check", s, e,
           IF s.corr = {} THEN {"ret"} ELSE BadOuts(s))}
VUsable(s, e) ==
  LET t == FreeTarget(s, e.a) IN
  IF t = "unknown" THEN {Outcome("C09:usable-size-of-unknown-stops", s, e, {"abort:usable"})}
  ELSE IF t = "freed" THEN {Outcome("C09:usable-size-of-freed-stops", s, e, {"abort:freed"})}
  ELSE {Outcome("C01:usable-size-returns", s, e, {"ret"}),
        C("C01:usable-size", e.out # "ret" \/ e.us = (IF t = "live" THEN s.live[e.a].size ELSE 0))}
VVerify(s, e) == {C("C01,C11:content-intact", e.a \notin Live(s) \/ s.live[e.a].seed = 0 \/ e.pf = s.live[e.a].size)}

\* initialising once more: nothing is mapped, opened, closed or given back
VInit(s, e) == {Outcome("C23:initialising-again-returns", s, e, {"ret"}),
                C("C23:initialising-again-changes-nothing",
                  e.out # "ret" \/ e.first = 1 \/ (e.mm = 0 /\ e.up = <<>> /\ e.down = <<>> /\ e.unm = <<>> /\ e.logs = <<>>))}

VSilent(s, e) == {Outcome("C08,C09:call-returns", s, e, {"ret"})}

\* rt: blocks the C++ runtime holds when main starts (one, and one for every thread)
VBegin(e) ==
  Names({C("C17:bookkeeping-closed-at-start", e.tb \in {-1, 1}),
         C("C14:nothing-of-its-own-reported", Max(e.lx, 0) + Len(e.leaks) <= e.rt)})

Violated(s, e) ==
  Names(
    (CASE e.op = "A" -> VAlloc(s, e)
       [] e.op = "F" -> VFree(s, e)
       [] e.op = "R" -> VRealloc(s, e)
       [] e.op \in {"W", "P"} -> VAccess(s, e)
       [] e.op = "K" -> VCheck(s, e)
       [] e.op = "KA" -> VCheckAll(s, e)
       [] e.op = "U" -> VUsable(s, e)
       [] e.op = "V" -> VVerify(s, e)
       [] e.op = "i" -> VInit(s, e)
       [] e.op = "L" -> VSilent(s, e) \cup (IF e.out = "ret" /\ s.c.ld = 1 THEN LeakClauses(s, e) ELSE {})
       [] e.op = "X" -> {C("C14:exit-normally", e.out = "exit")} \cup (IF e.out = "exit" /\ s.c.ld = 1 THEN LeakClauses(s, e) ELSE {})
       [] OTHER -> VSilent(s, e))
    \cup OpenAtEnd(s, e, Post(s, e))
    \cup LogClauses(s, e)
    \cup DiagClauses(s, e))
=============================================================================
