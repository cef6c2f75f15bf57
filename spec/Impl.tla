-------------------------------- MODULE Impl ---------------------------------
(* The allocator as src/duma.c and duma_hlp.h implement it: a table of slots in a
   page of its own that grows by moving, memory created in chunks, best fit,
   splitting, freed memory that stays reserved within a limit and is released
   in two phases, failing requests.  Every step is a call; what an observer sees
   of it becomes an event, which the contract (Heap) judges.  TLC explores all
   histories up to DEPTH calls with small constants:

     Contract    no reachable call breaks a clause of the contract
     Sane        the table is consistent with the page map and the counters

   MUTANT selects a wrong variant, which has to be refuted.                   *)
EXTENDS Heap, IOUtils

CONSTANTS NP,       \* pages of the address space
          CHUNK,    \* pages mapped at a time
          SPP,      \* slots per page of the table
          LOW       \* fewer unused slots: the table grows first

Num(s) == CHOOSE n \in -1..200 : ToString(n) = s
DEPTH  == Num(IOEnv.DEPTH)
PF     == Num(IOEnv.PF)        \* DUMA_PROTECT_FREE
MAXA   == Num(IOEnv.MAXA)      \* DUMA_MAX_ALLOC
BELOW  == Num(IOEnv.BELOW)     \* DUMA_PROTECT_BELOW; 2: changed by the program
M0     == Num(IOEnv.M0)        \* DUMA_MALLOC_0_STRATEGY
FAILEX == Num(IOEnv.FAILEX)    \* DUMA_MALLOC_FAILEXIT
OOM    == Num(IOEnv.OOM)       \* 1: the system may refuse memory at any call
HIGH   == Num(IOEnv.HIGH)      \* 1: the system maps at high addresses
VOCAB  == IOEnv.VOCAB
SITES  == Num(IOEnv.SITES)     \* 1: every call has a site of its own; 0: one site, so that histories meet
M(x)   == IOEnv.MUTANT = x

Sizes  == CASE VOCAB = "small" -> {1, PAGE + 1} [] VOCAB = "zero" -> {0, PAGE} [] VOCAB = "large" -> {PAGE, 3 * PAGE} [] VOCAB = "one" -> {1} [] OTHER -> {0, 1, PAGE + 1}
Aligns == IF VOCAB = "align" THEN {1, 2 * PAGE} ELSE {1}

VARIABLES m,      \* the machine
          h,      \* state of the contract
          n,      \* calls so far
          viol    \* clauses the last call broke
vars == <<m, h, n, viol>>

Site == IF SITES = 1 THEN n + 1 ELSE 1

(* ----------------------------------------------------------------- machine
   pg     page -> 0 unmapped, 1 no access, 2 accessible
   slots  the table: st E(mpty) F(ree) U(sed) A(ll protected) B(eginning protected),
          ia first page, n pages, ua user address, us user size, api, line, fs 1: site
          of the allocation, 2: of the deallocation
   tp, tn pages of the table;  unused, prot, alloc  the counters
   per call: mm, mf, ml, mq mappings tried, refused, last succeeded, pages; fail:
   mappings still to be refused; un: pages unmapped (in order), una: those accessible;
   out, diag                                                                  *)
Empty == [st |-> "E", ia |-> -1, n |-> 0, ua |-> -1, us |-> 0, api |-> "", line |-> 0, fs |-> 0]
NoDiag == [aa |-> -1, asz |-> -1, af |-> "", al |-> -1, df |-> "", dl |-> -1, an |-> "", dn |-> "", pa |-> -1]
NULLP == 1
FILE == "f"

Fresh(x, f) == [x EXCEPT !.mm = 0, !.mf = 0, !.ml = -1, !.mq = 0, !.fail = f, !.un = {}, !.una = {}, !.out = "ret", !.diag = NoDiag]

Set(x, lo, k, v) == [x EXCEPT !.pg = [p \in 0..NP-1 |-> IF p >= lo /\ p < lo + k THEN v ELSE @[p]]]
Delete(x, lo, k) ==
  [Set(x, lo, k, 0) EXCEPT !.un = @ \cup {p \in lo..lo+k-1 : x.pg[p] = 1}, !.una = @ \cup {p \in lo..lo+k-1 : x.pg[p] = 2}]

Holes(x, k) == {p \in 0..NP-k : \A q \in p..p+k-1 : x.pg[q] = 0}
Create(x, k) ==       \* [x, p]; p = -1: refused
  LET y == [x EXCEPT !.mm = @ + 1] IN
  IF x.fail > 0 THEN [x |-> [y EXCEPT !.fail = IF @ < 90 THEN @ - 1 ELSE @, !.mf = @ + 1, !.ml = 0], p |-> -1]
  ELSE IF Holes(x, k) = {} THEN [x |-> [y EXCEPT !.mf = @ + 1, !.ml = 0], p |-> -1]
  ELSE LET p == IF HIGH = 1 THEN CHOOSE a \in Holes(x, k) : \A b \in Holes(x, k) : b <= a
                ELSE CHOOSE a \in Holes(x, k) : \A b \in Holes(x, k) : a <= b
       IN [x |-> [Set(y, p, k, 2) EXCEPT !.ml = 1, !.mq = @ + k], p |-> p]

Open(x) == Set(x, x.tp, x.tn, 2)
Close(x) == IF M("left-open") THEN x ELSE Set(x, x.tp, x.tn, 1)

(* reduceProtectedMemory(): [x, more] *)
RECURSIVE Phase1(_, _, _, _), Phase2(_, _, _, _)
Settle(x, done) == [x EXCEPT !.prot = @ - done, !.alloc = @ - done]
Phase2(x, i, done, want) ==
  IF i > Len(x.slots) \/ (done >= want /\ ~M("releases-all"))
  THEN [x |-> IF M("partial-not-counted") THEN x ELSE Settle(x, done), more |-> FALSE]
  ELSE LET s == x.slots[i] IN
       IF s.st # "B" THEN Phase2(x, i + 1, done, want)
       ELSE LET y == [Delete(x, s.ia, s.n) EXCEPT !.slots[i] = Empty, !.unused = IF M("emptied-not-counted") THEN @ ELSE @ + 1]
                d == done + s.n IN
            IF d >= want /\ ~M("releases-all") THEN [x |-> Settle(y, d), more |-> TRUE] ELSE Phase2(y, i + 1, d, want)
Phase1(x, i, done, want) ==
  IF i > Len(x.slots) \/ (done >= want /\ ~M("releases-all")) THEN Phase2(x, 1, done, want)
  ELSE LET s == x.slots[i] IN
       IF s.st # "A" THEN Phase1(x, i + 1, done, want)
       ELSE LET k == (s.ua - s.ia * PAGE + PAGE) \div PAGE
                y == [Delete(x, s.ia + k, s.n - k) EXCEPT !.slots[i].st = "B", !.slots[i].n = k]
                d == done + s.n - k IN
            IF d >= want /\ ~M("releases-all") THEN [x |-> Settle(y, d), more |-> TRUE] ELSE Phase1(y, i + 1, d, want)
Reduce(x, want) == Phase1(x, 1, 0, want)

RECURSIVE Retry(_, _)
Retry(x, k) ==
  LET r == Reduce(x, k)
      c == Create(r.x, k) IN
  IF r.more /\ c.p < 0 /\ ~M("reclaim-once") THEN Retry(c.x, k) ELSE c

FirstSlot(x, P(_)) ==
  IF \E i \in DOMAIN x.slots : P(x.slots[i]) THEN CHOOSE i \in DOMAIN x.slots : P(x.slots[i]) /\ \A j \in 1..i-1 : ~P(x.slots[j]) ELSE 0
SlotOf(x, a) == FirstSlot(x, LAMBDA s : s.ua = a)

RECURSIVE Allocate(_, _), Deallocate(_, _, _, _)
Fail(x, q) == [x |-> IF q.api = "int" THEN x ELSE [x EXCEPT !.out = "ret"], r |-> -1]

Grow(x) ==
  LET a == Allocate(x, [size |-> (x.tn + 1) * PAGE, al |-> 1, below |-> 0, api |-> "int", line |-> 1]) IN
  IF a.r < 0 THEN a.x
  ELSE LET old == x.tp
           y == [a.x EXCEPT !.tp = a.r \div PAGE, !.tn = @ + 1, !.slots = (IF M("copy-too-short") THEN SubSeq(@, 1, Len(@) - SPP + 2) \o [i \in 1..SPP-2 |-> Empty] ELSE @) \o [i \in 1..SPP |-> Empty],
                            !.unused = IF M("new-not-counted") THEN @ ELSE @ + SPP] IN
       IF M("old-table-kept") THEN y ELSE Deallocate(y, old * PAGE, "int", 1)

Allocate(x0, q) ==
  LET int == q.api = "int"
      isz == IF q.size = 0 THEN 1 ELSE UpPages(q.size) + 1 + (IF q.al > PAGE /\ ~M("no-room-for-alignment") THEN (q.al - PAGE) \div PAGE ELSE 0)
      x == IF ~int /\ x0.unused < LOW /\ ~M("never-grows") THEN Grow(x0) ELSE x0
      fits(s) == s.st = "F" \/ (M("reuses-protected") /\ s.st = "B")
      cand == {i \in DOMAIN x.slots : fits(x.slots[i]) /\ x.slots[i].n >= isz - (IF M("fit-off-by-one") THEN 1 ELSE 0)}
      full == IF cand = {} THEN 0 ELSE CHOOSE i \in cand : \A j \in cand : x.slots[i].n < x.slots[j].n \/ (x.slots[i].n = x.slots[j].n /\ i <= j)
      e1 == FirstSlot(x, LAMBDA s : s.st = "E")
      e2 == IF e1 = 0 \/ ~\E j \in e1+1..Len(x.slots) : x.slots[j].st = "E" THEN 0
            ELSE CHOOSE j \in e1+1..Len(x.slots) : x.slots[j].st = "E" /\ \A k \in e1+1..j-1 : x.slots[k].st # "E"
      none == IF full # 0 THEN x.slots[full].n > isz /\ e1 = 0 ELSE e2 = 0
      chunk == Max(CHUNK, isz)
      c1 == IF MAXA > 0 /\ x.alloc + chunk > MAXA /\ ~M("limit-ignored") THEN Reduce(x, chunk).x ELSE x
      c2 == Create(c1, chunk)
      c3 == IF c2.p < 0 /\ PF # 0 THEN Retry(c2.x, chunk) ELSE c2
      c4 == IF c3.p < 0 /\ ~int THEN Create(c3.x, chunk) ELSE c3
      mem == [st |-> "F", ia |-> c4.p, n |-> chunk, ua |-> c4.p * PAGE, us |-> chunk * PAGE, api |-> "", line |-> 0, fs |-> 1]
      got == IF full # 0 THEN x
             ELSE IF c4.p < 0 THEN c4.x
             ELSE LET y == [c4.x EXCEPT !.alloc = @ + chunk, !.slots[e1] = mem, !.unused = @ - 1] IN
                  IF M("fresh-open") THEN y ELSE Set(y, c4.p, chunk, 1)
      f == IF full # 0 THEN full ELSE e1
      rest == IF full # 0 THEN e1 ELSE e2
      s == got.slots[f]
      split == IF s.n <= isz THEN got
               ELSE [got EXCEPT !.slots[rest] = [s EXCEPT !.ia = @ + isz, !.n = @ - isz, !.ua = (s.ia + isz) * PAGE, !.us = (s.n - isz) * PAGE],
                                !.slots[f].n = IF M("size-kept") THEN @ ELSE isz, !.unused = @ - 1]
      ia == s.ia * PAGE
      ua == IF q.size = 0 THEN ia + PAGE \div 2
            ELSE IF q.below = 0 THEN ((ia + (isz - 1) * PAGE - q.size) \div q.al) * q.al
            ELSE ((ia + PAGE + q.al - 1) \div q.al) * q.al
      acc == IF q.size = 0 THEN <<s.ia, 0>>
             ELSE IF q.below = 0 THEN <<s.ia, UpPages(ua + q.size) - s.ia>>
             ELSE IF M("guard-open-below") THEN <<s.ia, isz>>
             ELSE <<ua \div PAGE, s.ia + isz - ua \div PAGE>>
      done == LET y == Set(Set(split, s.ia, isz, 1), acc[1], acc[2] + (IF M("guard-open") /\ q.below = 0 THEN 1 ELSE 0), 2) IN
              [y EXCEPT !.slots[f].st = "U", !.slots[f].ua = ua, !.slots[f].us = q.size, !.slots[f].api = q.api, !.slots[f].line = q.line, !.slots[f].fs = 1]
  IN IF q.al < 1 THEN Fail(x, q)
     ELSE IF x.out # "ret" THEN [x |-> x, r |-> -1]
     ELSE IF none THEN [x |-> IF ~int /\ FAILEX = 1 THEN [x EXCEPT !.out = "abort:slots"] ELSE x, r |-> -1]
     ELSE IF full = 0 /\ c4.p < 0 THEN [x |-> IF ~int /\ FAILEX = 1 THEN [got EXCEPT !.out = "abort:mmap"] ELSE got, r |-> -1]
     ELSE [x |-> done, r |-> ua]

Deallocate(x, a, api, line) ==
  IF a = -1 \/ a = NULLP * PAGE THEN x
  ELSE LET i == SlotOf(x, a) IN
  IF i = 0
  THEN LET k == FirstSlot(x, LAMBDA s : s.ia >= 0 /\ s.ia * PAGE <= a /\ a <= (s.ia + s.n) * PAGE) IN
       [x EXCEPT !.out = "abort:unknown", !.diag = [NoDiag EXCEPT !.pa = a, !.aa = IF k = 0 THEN -1 ELSE x.slots[k].ua,
                 !.af = IF k # 0 /\ x.slots[k].fs = 1 THEN FILE ELSE "", !.al = IF k # 0 /\ x.slots[k].fs = 1 THEN x.slots[k].line ELSE -1]]
  ELSE LET s == x.slots[i] IN
  IF s.st \in {"A", "B"} /\ ~M("double-free-passes")
  THEN [x EXCEPT !.out = "abort:freed", !.diag = [NoDiag EXCEPT !.aa = a, !.df = IF s.fs = 2 THEN FILE ELSE "", !.dl = IF s.fs = 2 THEN s.line ELSE -1,
                 !.af = IF s.fs = 1 THEN FILE ELSE "", !.al = IF s.fs = 1 THEN s.line ELSE -1]]
  ELSE IF (s.api = "int") # (api = "int") \/ s.st = "F"
  THEN [x EXCEPT !.out = "abort:mismatch", !.diag = [NoDiag EXCEPT !.an = TypeName(s.api), !.dn = TypeName(api)]]
  ELSE
  LET k == s.n
      limit == s.api # "int" /\ PF > 0 /\ x.prot + k > PF /\ k < PF /\ x.prot >= k
      y == IF limit /\ ~M("limit-not-enforced") THEN Reduce(x, k).x ELSE x
      keep == s.api # "int" /\ (PF < 0 \/ (PF > 0 /\ (y.prot + k <= PF \/ M("limit-not-enforced"))))
      t == y.slots[i] IN
  IF keep
  THEN [Set(y, t.ia, IF M("guard-side-left") THEN t.n - 2 ELSE t.n, 1) EXCEPT !.prot = @ + k, !.slots[i].st = "A",
        !.slots[i].line = IF M("no-free-site") THEN @ ELSE line, !.slots[i].fs = IF M("no-free-site") THEN @ ELSE 2]
  ELSE [Delete(y, t.ia, IF M("guard-stays-mapped") /\ s.api # "int" THEN t.n - 1 ELSE t.n) EXCEPT
        !.alloc = @ - k, !.slots[i] = IF M("slot-not-emptied") THEN [Empty EXCEPT !.st = "U"] ELSE Empty, !.unused = @ + 1]

(* ------------------------------------------------------------------ events *)
RECURSIVE Ivs(_, _)
Ivs(S, p) ==
  IF p >= NP THEN <<>>
  ELSE IF p \notin S THEN Ivs(S, p + 1)
  ELSE LET q == CHOOSE b \in p+1..NP : b \notin S /\ \A c \in p..b-1 : c \in S IN << <<p, q>> >> \o Ivs(S, q)
Runs(S) == Ivs(S, 0)
Rw(x) == {p \in 0..NP-1 : x.pg[p] = 2}
Mapped(x) == {p \in 0..NP-1 : x.pg[p] > 0}

Ev(op, x, y) ==       \* call op led from machine x to y
  [op |-> op, h |-> 1, n |-> n + 1, out |-> y.out, api |-> "", size |-> 0, al |-> 0, big |-> 0, alhuge |-> 0, file |-> FILE, line |-> Site,
   a |-> -1, x |-> 0, r |-> -1, rc |-> 0, nc |-> 0, nh |-> 0, lo |-> -1, hi |-> -1, gl |-> 1, gh |-> 1, sb |-> -2, sa |-> -2, fv |-> -1,
   wf |-> 0, sd |-> 0, seed |-> 0, pf |-> 0, tv |-> 0, odd |-> 0, uf |-> 0, lk |-> 0, nl |-> 0, hl |-> 0, logs |-> <<>>, us |-> 0, first |-> 0,
   what |-> "", val |-> 0,
   dg |-> IF y.diag = NoDiag THEN 0 ELSE 1, diag |-> y.diag,
   leaks |-> <<>>, lx |-> -1, lr |-> -1, ca |-> -1, cd |-> -1,
   mm |-> y.mm, mf |-> y.mf, ml |-> y.ml, mq |-> y.mq, tb |-> IF \A p \in y.tp..y.tp+y.tn-1 : y.pg[p] = 1 THEN 1 ELSE 0,
   rw |-> Cardinality(Rw(y)), mp |-> Cardinality(Mapped(y)),
   up |-> Runs(Rw(y) \ Rw(x)), down |-> Runs((Rw(x) \ Rw(y))), unm |-> Runs(y.un), downm |-> Runs(y.una \cap Rw(x))]

Placed(e, y, r, size) ==      \* the block handed out by the call: the pages around r it opened
  IF r < 0 THEN e
  ELSE LET p == r \div PAGE
           at == {i \in DOMAIN e.up : e.up[i][1] <= p /\ p < e.up[i][2]}
           run == IF size = 0 \/ at = {} THEN <<-1, -1>> ELSE e.up[CHOOSE i \in at : TRUE]
       IN [e EXCEPT !.r = r, !.lo = run[1], !.hi = run[2], !.gl = IF size = 0 THEN (IF y.pg[p] = 2 THEN 0 ELSE 1) ELSE 1]

Judge(e, y) == /\ m' = y /\ viol' = Violated(h, e) /\ h' = Post(h, e) /\ n' = n + 1
Call == viol = {} /\ m.out = "ret" /\ n < DEPTH

Refusals == IF OOM = 1 THEN {0, 1, 99} ELSE {0}
Zero(y, r) == IF M0 = 1 THEN -1 ELSE IF M0 = 2 THEN NULLP * PAGE ELSE r
Malloc == \E size \in Sizes, al \in Aligns, f \in Refusals :
  LET x == Fresh(m, f)
      api == IF al = 1 THEN "malloc" ELSE "memalign"
      early == size = 0 /\ M0 < 3
      a == Allocate(Open(x), [size |-> size, al |-> al, below |-> h.c.below, api |-> api, line |-> Site])
      y == IF early THEN x ELSE Close(a.x)
      r == IF early THEN Zero(x, 0) ELSE a.r
  IN (size = 0 => al = 1) /\ Judge([Placed(Ev("A", m, y), y, r, size) EXCEPT !.api = api, !.size = size, !.al = al], y)

Known == Live(h) \cup Quar(h)
Strange == UNION {{a + 1} : a \in Live(h)} \cup {m.slots[i].ua : i \in {j \in DOMAIN m.slots : m.slots[j].st = "F"}} \cup {m.tp * PAGE}
Free == \E a \in Known \cup {-1, NULLP * PAGE} \cup (Strange \ Known) :
  LET y == Close(Deallocate(Open(Fresh(m, 0)), a, "free", Site)) IN
  Judge([Ev("F", m, y) EXCEPT !.api = "free", !.a = a], y)

Realloc == \E a \in Known \cup {-1, NULLP * PAGE} \cup (Strange \ Known), size \in Sizes, f \in Refusals :
  LET x == Open(Fresh(m, f))
      q == [size |-> size, al |-> 1, below |-> h.c.below, api |-> "realloc", line |-> Site]
      b == Allocate(x, q)
      none == a = -1 \/ (a = NULLP * PAGE /\ size > 0)
      early == size = 0 /\ M0 < 3
      y0 == IF none THEN (IF early THEN x ELSE b.x)
            ELSE IF size = 0 THEN Deallocate(x, a, "realloc", Site)
            ELSE IF b.r >= 0 \/ M("frees-after-failure") THEN Deallocate(b.x, a, "realloc", Site)
            ELSE b.x
      y == Close(y0)
      r == IF none THEN (IF early THEN Zero(x, 0) ELSE b.r) ELSE IF size = 0 THEN -1 ELSE b.r
      old == IF a \in Live(h) THEN h.live[a].size ELSE 0
      i == SlotOf(x, a)
      wrong == ~none /\ size > 0 /\ ~M("realloc-looks-later") /\ (i = 0 \/ x.slots[i].st # "U" \/ x.slots[i].api = "int")
  IN IF wrong
     THEN LET z == IF i = 0 THEN [x EXCEPT !.out = "abort:realloc", !.diag = [NoDiag EXCEPT !.pa = a]] ELSE Deallocate(x, a, "realloc", Site) IN
          f = 0 /\ Judge([Ev("R", m, z) EXCEPT !.api = "realloc", !.size = size, !.a = a], z)
     ELSE Judge([Placed(Ev("R", m, y), y, r, size) EXCEPT !.api = "realloc", !.size = size, !.a = a, !.pf = Min(old, size)], y)

FreedDiag(a, s) == [NoDiag EXCEPT !.aa = a, !.df = IF s.fs = 2 THEN FILE ELSE "", !.dl = IF s.fs = 2 THEN s.line ELSE -1,
                               !.af = IF s.fs = 1 THEN FILE ELSE "", !.al = IF s.fs = 1 THEN s.line ELSE -1]
Own(i) == i = 0 \/ (m.slots[i].api \in {"int", ""} /\ ~M("answers-for-its-own-memory"))
Usable == \E a \in Known \cup Strange :
  LET i == SlotOf(m, a)
      y == IF Own(i) THEN [Fresh(m, 0) EXCEPT !.out = "abort:usable", !.diag = [NoDiag EXCEPT !.pa = a]]
           ELSE IF m.slots[i].st \in {"A", "B"} THEN [Fresh(m, 0) EXCEPT !.out = "abort:freed", !.diag = FreedDiag(a, m.slots[i])]
           ELSE Fresh(m, 0) IN
  Judge([Ev("U", m, y) EXCEPT !.a = a, !.us = IF i = 0 THEN 0 ELSE m.slots[i].us], y)
Check == \E a \in Known \cup Strange :
  LET i == SlotOf(m, a)
      k == FirstSlot(m, LAMBDA s : s.ia >= 0 /\ s.ia * PAGE <= a /\ a <= (s.ia + s.n) * PAGE)
      y == IF Own(i) THEN [Fresh(m, 0) EXCEPT !.out = "abort:unknown", !.diag = [NoDiag EXCEPT !.pa = a, !.aa = IF k = 0 THEN -1 ELSE m.slots[k].ua,
                             !.af = IF k # 0 /\ m.slots[k].fs = 1 THEN FILE ELSE "", !.al = IF k # 0 /\ m.slots[k].fs = 1 THEN m.slots[k].line ELSE -1]]
           ELSE IF m.slots[i].st \in {"A", "B"} THEN [Fresh(m, 0) EXCEPT !.out = "abort:freed", !.diag = FreedDiag(a, m.slots[i])]
           ELSE Fresh(m, 0) IN
  Judge([Ev("K", m, y) EXCEPT !.a = a], y)

Leaks(x) == {i \in DOMAIN x.slots : x.slots[i].st = "U" /\ x.slots[i].api # "int" /\ x.slots[i].line > 0}
List ==
  LET y == Fresh(m, 0)
      L == Leaks(m)
      rec(i) == [a |-> m.slots[i].ua, size |-> m.slots[i].us, type |-> TypeName(m.slots[i].api), file |-> FILE, line |-> m.slots[i].line]
      seq == SelectSeq([i \in DOMAIN m.slots |-> IF i \in L THEN rec(i) ELSE [a |-> -1]], LAMBDA z : z.a >= 0)
  IN Judge([Ev("L", m, y) EXCEPT !.leaks = seq, !.lr = IF L = {} THEN -1 ELSE Len(seq), !.lx = IF L = {} THEN -1 ELSE 0], y)

Side == BELOW = 2 /\ Judge([Ev("S", m, Fresh(m, 0)) EXCEPT !.what = "below", !.val = 1 - h.c.below], Fresh(m, 0))

Config == [pf |-> PF, maxa |-> MAXA, below |-> BELOW % 2, align |-> 1, fill |-> -1, slack |-> -2, m0 |-> M0, n0 |-> 3, chkf |-> 0, show |-> 0,
           rall |-> 0, ld |-> 1, so |-> 0, thr |-> 1, failexit |-> FAILEX, steady |-> 0, half |-> 0, slots |-> 0]
Machine0 ==
  LET base == [pg |-> [p \in 0..NP-1 |-> 0], slots |-> [i \in 1..SPP |-> Empty], tp |-> 2, tn |-> 1, unused |-> SPP - 2, prot |-> 0, alloc |-> 0,
               mm |-> 0, mf |-> 0, ml |-> -1, mq |-> 0, fail |-> 0, un |-> {}, una |-> {}, out |-> "ret", diag |-> NoDiag]
  IN [Set(base, 0, 2 + CHUNK, 1) EXCEPT
        !.slots[1] = [st |-> "U", ia |-> 2, n |-> 1, ua |-> 2 * PAGE, us |-> PAGE, api |-> "int", line |-> 1, fs |-> 1],
        !.slots[2] = [st |-> "F", ia |-> 3, n |-> CHUNK - 1, ua |-> 3 * PAGE, us |-> (CHUNK - 1) * PAGE, api |-> "", line |-> 0, fs |-> 1]]
Init == /\ m = Machine0 /\ n = 0 /\ viol = {}
        /\ h = Init0([c |-> Config, mp |-> 2 + CHUNK, mp0 |-> 2 + CHUNK, rw |-> 0, acc0 |-> <<>>, nulladdr |-> NULLP * PAGE, leaks |-> <<>>,
                      lx |-> -1, na |-> 0, nd |-> 0])
Next == Call /\ (Malloc \/ Free \/ Realloc \/ Usable \/ Check \/ List \/ Side)
Spec == Init /\ [][Next]_vars

View == <<m.pg, m.slots, m.tp, m.tn, m.unused, m.prot, m.alloc, m.out, h.live, h.quar, h.c.below, viol>>

(* ------------------------------------------------------------- properties *)
Contract == viol = {}
Pieces == {i \in DOMAIN m.slots : m.slots[i].st # "E"}
SlotPages(i) == m.slots[i].ia .. m.slots[i].ia + m.slots[i].n - 1
Count1(st) == SumSet({i \in DOMAIN m.slots : m.slots[i].st \in st}, [i \in DOMAIN m.slots |-> m.slots[i].n])
Sane == m.out # "ret" \/ (
  /\ m.unused = Cardinality(DOMAIN m.slots) - Cardinality(Pieces)
  /\ \A i, j \in Pieces : i # j => SlotPages(i) \cap SlotPages(j) = {}
  /\ UNION {SlotPages(i) : i \in Pieces} \cup {0, 1} = Mapped(m)
  /\ m.prot = Count1({"A", "B"})
  /\ m.alloc + CHUNK = Count1({"U", "F", "A", "B"}))
=============================================================================
