-------------------------------- MODULE Big ---------------------------------
(* Blocks around and above 2 GB and 4 GB.  TLC's numbers have 32 bits, so a number
   is a pair <<p, r>> that stands for 4096 * p + r, 0 <= r < 4096; p may be negative.
   One event per call or probe; a block is what the program was promised:

     b = [st, size, al, below, base, wr]
       st    "live" or "freed"
       base  what unwritten bytes hold: a byte, or -1 not promised;
       keep  bytes below keep hold what the program wrote or oldbase, above: zero (realloc)
       wr    offset -> byte written by the program                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

PG == 4096
N(k) == <<k \div PG, k % PG>>
Norm(p, r) == <<p + r \div PG, r % PG>>
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == ~Lt(b, a)
Least(a, b) == IF Lt(b, a) THEN b ELSE a
Zero == N(0)
KBs(a) == a[1] * 4 + (IF a[2] = 0 THEN 0 ELSE 4)     \* kB of the pages holding that many bytes
NoBlock == [st |-> "none", size |-> Zero, al |-> N(1), below |-> 0, base |-> -1, keep |-> Zero, wr |-> <<>>, api |-> "", seq |-> 0]

Family(api) == CASE api \in {"new", "del"} -> "new" [] api \in {"newa", "dela"} -> "newa" [] OTHER -> "c"
Type(api) == CASE api = "malloc" -> "malloc()" [] api = "calloc" -> "calloc()" [] api = "memalign" -> "memalign()" [] api = "posix" -> "posix_memalign()"
               [] api = "valloc" -> "valloc()" [] api = "realloc" -> "realloc()" [] api = "new" -> "scalar new" [] api = "newa" -> "vector new[]" [] OTHER -> "?"

\* offset -> byte; offsets are pairs
Put(f, o, v) == [x \in DOMAIN f \cup {o} |-> IF x = o THEN v ELSE f[x]]
Expected(b, o) ==
  IF o \in DOMAIN b.wr THEN b.wr[o]
  ELSE IF b.api = "realloc" /\ Le(b.keep, o) /\ Lt(Zero, b.keep) THEN 0
  ELSE b.base

(* ------------------------------------------------------------- transitions
   s = [c, b, seq, na, nd]: settings, blocks, calls so far                     *)
Default(c, size) == IF Lt(size, N(c.align)) THEN N(1) ELSE N(c.align)
\* (big blocks only: the default alignment is smaller than every size used here, or 1)
New(s, e) ==
  [st |-> "live", size |-> e.size, al |-> IF e.api = "valloc" THEN N(PG) ELSE IF e.al = Zero THEN Default(s.c, e.size) ELSE e.al, below |-> s.c.below,
   base |-> IF e.api = "calloc" THEN 0 ELSE IF s.c.fill = -1 THEN 0 ELSE s.c.fill, keep |-> Zero, wr |-> <<>>, api |-> e.api, seq |-> s.seq + 1]
Moved(s, e) ==
  LET o == s.b[e.id]
      k == Least(o.size, e.size) IN
  IF o.st # "live" THEN New(s, [e EXCEPT !.api = "realloc"])
  ELSE [New(s, [e EXCEPT !.api = "realloc", !.al = Zero]) EXCEPT !.base = IF o.api = "realloc" /\ Lt(Zero, o.keep) /\ Lt(o.keep, k) THEN -1 ELSE o.base, !.keep = k,
        !.wr = [x \in {y \in DOMAIN o.wr : Lt(y, k)} |-> o.wr[x]]]
Gone(b) == [b EXCEPT !.st = "freed"]
\* memory of a freed block that was given back may serve a later block
Reused(t) == [t EXCEPT !.b = [i \in DOMAIN t.b |-> IF t.b[i].st = "freed" /\ t.c.pf # -1 THEN [t.b[i] EXCEPT !.st = "none"] ELSE t.b[i]]]

Post(s, e) ==
  LET t == [s EXCEPT !.seq = @ + 1] IN
  CASE e.op = "A" -> IF e.out = "ptr" THEN [Reused(t) EXCEPT !.b[e.id] = New(s, e)] ELSE Reused(t)
    [] e.op = "R" -> IF e.out = "ptr" THEN [Reused(t) EXCEPT !.b[e.id] = Moved(s, e)] ELSE Reused(t)
    [] e.op = "F" -> [t EXCEPT !.b[e.id] = Gone(@)]
    [] e.op = "W" -> IF e.out = "ok" THEN [t EXCEPT !.b[e.id].wr = Put(@, e.o, e.v)] ELSE t
    [] OTHER -> t

(* ----------------------------------------------------------------- clauses *)
C(name, ok) == IF ok THEN "" ELSE name
Live(s) == {i \in DOMAIN s.b : s.b[i].st = "live"}

Access(s, e) ==           \* e.out: "v" (value e.v), "ok" (written) or "fault"
  LET b == s.b[e.id]
      inside == Le(Zero, e.o) /\ Lt(e.o, b.size)
      ok == e.out # "fault" IN
  CASE b.st = "live" /\ inside -> {
         C("C01,C15:whole-block-usable", ok),
         C(IF b.api = "realloc" /\ Lt(Zero, b.keep) THEN "C12:contents-kept" ELSE IF e.o \in DOMAIN b.wr THEN "C01:contents-stay" ELSE "C11:initial-contents",
           ~ok \/ e.op = "W" \/ Expected(b, e.o) = -1 \/ e.v = Expected(b, e.o)) }
    [] b.st = "live" /\ ~inside -> {
         C("C02,C15:no-access-behind", ~ok \/ b.below = 1 \/ Lt(e.o, Zero) \/ Lt(e.o, Add(b.size, Sub(b.al, N(1)))) \/ Le(Add(b.size, N(PG)), e.o)),
         C("C03:no-access-before", ~ok \/ b.below = 0 \/ Le(Zero, e.o) \/ Lt(e.o, N(-PG))) }
    [] b.st = "freed" -> { C("C05:freed-memory-inaccessible", ~ok \/ ~inside) }
    [] OTHER -> {}

Placed(s, e) == {
  C("C15:outcome", e.out \in {"ptr", "null"}),
  C("C04:aligned", e.out # "ptr" \/ e.am = 1),
  C("C21:one-line", (s.c.show = 1) = (e.log = <<<<"Allocating", e.size>>>>) /\ (s.c.show = 1 \/ e.log = <<>>)) }
Lines(s, e) ==
  LET o == s.b[e.id]
      a == <<"Allocating", e.size>>
      f == <<"Freeing", o.size>>
  IN IF s.c.show = 0 THEN <<>> ELSE IF o.st = "live" /\ e.out = "ptr" THEN <<a, f>> ELSE <<a>>

Violated(s, e) == {x \in
  (CASE e.op = "A" -> Placed(s, e)
    [] e.op = "R" -> {C("C12,C15:outcome", e.out \in {"ptr", "null"}), C("C04:aligned", e.out # "ptr" \/ e.am = 1), C("C21:one-line", e.log = Lines(s, e))}
    [] e.op = "F" -> {C("C09:valid-free-returns", e.out = "ok"), C("C21:one-line", e.log = IF s.c.show = 1 THEN <<<<"Freeing", s.b[e.id].size>>>> ELSE <<>>)}
    [] e.op \in {"P", "W"} -> Access(s, e)
    [] e.op = "U" -> {C("C01:usable-size", e.out # "v" \/ e.size = s.b[e.id].size), C("C09:valid-call-returns", e.out = "v")}
    [] e.op = "K" -> {C("C08,C09:check-of-undamaged-blocks", e.out = "ok")}
    [] e.op = "M" ->        \* is a page of a freed block still mapped?
        (LET b == s.b[e.id] IN {
          C("C05:kept-by-default", e.out = "mapped" \/ s.c.pf # -1 \/ b.st # "freed"),
          C("C07:given-back-completely", e.out = "unmapped" \/ s.c.pf # 0 \/ b.st # "freed"),
          C("C06:limit", e.out = "unmapped" \/ s.c.pf <= 0 \/ b.st # "freed" \/ KBs(b.size) <= s.c.pf) })
    [] e.op = "L" ->
        {C("C14:exactly-the-live-blocks", {e.leaks[i] : i \in DOMAIN e.leaks} = {<<i, s.b[i].size, Type(s.b[i].api)>> : i \in Live(s)}),
         C("C14:each-once", Len(e.leaks) = Cardinality(Live(s)))}
    [] e.op = "end" -> {C("*:history-ends", e.out = "done")}
    [] OTHER -> {}) : x # ""}
=============================================================================
