-------------------------------- MODULE Str --------------------------------
(* The copying and concatenating functions for memory and strings (C18).

   A memory is a function 0..N-1 -> byte.  A case is a call on a memory.  What
   a call must do is defined declaratively (Effect, Overlap); the state machine
   below performs the calls byte by byte, and TLC checks for every case within
   the bounds that it stops exactly on the forbidden overlaps, touches no byte
   the C function would not touch, and ends in the declared memory.  Wrong
   variants of the machine (MUTANT) have to be refuted.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Mem(n)  == [0..n-1 -> 0..255]
Strings == {"strcpy", "strcat"}
Counted == {"memcpy", "memmove", "strncpy", "strncat"}
Funs    == Strings \cup Counted

\* ---------------------------------------------------------------- C semantics
Zeros(m, p) == {k \in DOMAIN m : k >= p /\ m[k] = 0}
HasEnd(m, p) == \E k \in DOMAIN m : k >= p /\ m[k] = 0
StrLen(m, p) == (CHOOSE k \in Zeros(m, p) : \A j \in Zeros(m, p) : k <= j) - p
StrNLen(m, p, n) == IF HasEnd(m, p) /\ StrLen(m, p) < n THEN StrLen(m, p) ELSE n

Size(m) == Cardinality(DOMAIN m)
\* a call whose operands lie within the memory
Valid(c) ==
  LET N == Size(c.m)
      src == HasEnd(c.m, c.s) \/ c.s + c.n <= N IN
  /\ c.d \in 0..N /\ c.s \in 0..N
  /\ CASE c.f \in {"memcpy", "memmove"} -> c.d + c.n <= N /\ c.s + c.n <= N
       [] c.f = "strcpy" -> HasEnd(c.m, c.s) /\ c.d + StrLen(c.m, c.s) + 1 <= N
       [] c.f = "strncpy" -> (HasEnd(c.m, c.s) \/ c.s + c.n <= N) /\ c.d + c.n <= N
       [] c.f = "strcat" -> /\ HasEnd(c.m, c.s) /\ HasEnd(c.m, c.d)
                            /\ c.d + StrLen(c.m, c.d) + StrLen(c.m, c.s) + 1 <= N
       [] c.f = "strncat" -> /\ HasEnd(c.m, c.s) \/ c.s + c.n <= N
                             /\ HasEnd(c.m, c.d)
                             /\ c.d + StrLen(c.m, c.d) + StrNLen(c.m, c.s, c.n) + 1 <= N

\* bytes read from the source, bytes written, bytes copied; where writing starts
Dst(c) == IF c.f \in {"strcat", "strncat"} THEN c.d + StrLen(c.m, c.d) ELSE c.d
SrcLen(c) == CASE c.f \in {"memcpy", "memmove"} -> c.n
               [] c.f \in {"strcpy", "strcat"} -> StrLen(c.m, c.s)
               [] OTHER -> StrNLen(c.m, c.s, c.n)
ReadLen(c) == CASE c.f \in {"memcpy", "memmove"} -> c.n
                [] c.f \in {"strcpy", "strcat"} -> SrcLen(c) + 1
                [] OTHER -> IF SrcLen(c) < c.n THEN SrcLen(c) + 1 ELSE SrcLen(c)
WriteLen(c) == CASE c.f \in {"memcpy", "memmove", "strncpy"} -> c.n
                 [] c.f \in {"strcpy", "strcat"} -> SrcLen(c) + 1
                 [] c.f = "strncat" -> IF c.n = 0 THEN 0 ELSE SrcLen(c) + 1
Reads(c)  == c.s .. c.s + ReadLen(c) - 1
Scans(c)  == IF c.f \in {"strcat", "strncat"} /\ (c.f = "strcat" \/ c.n > 0) THEN c.d .. Dst(c) ELSE {}
Writes(c) == Dst(c) .. Dst(c) + WriteLen(c) - 1

Effect(c) ==
  [i \in DOMAIN c.m |->
     IF i \notin Writes(c) THEN c.m[i]
     ELSE IF i - Dst(c) < SrcLen(c) THEN c.m[c.s + i - Dst(c)] ELSE 0]

Overlap(c) ==            \* two ranges of bytes that are not one and the same
  LET d == Dst(c)  r == ReadLen(c)  w == WriteLen(c) IN
  r > 0 /\ w > 0 /\ c.s < d + w /\ d < c.s + r
Same(c) == c.s = Dst(c)  \* copying onto itself: undefined in C, harmless, tolerated

MustStop(c) == /\ c.f # "memmove" /\ Overlap(c) /\ ~Same(c)
               /\ ~(c.f = "memcpy" /\ c.o = 1 /\ c.d < c.s)
MayStop(c)  == MustStop(c) \/ (c.f # "memmove" /\ Same(c) /\ Overlap(c))

\* ------------------------------------------------- judging a call of the code
\* r: [out, m, ret, rd, wr, rep]; rd/wr: bytes seen touched (tr = 1)
Broken(c, r) ==
  {x[1] : x \in {y \in {
    <<"C18:stops-on-overlap", ~MustStop(c) \/ r.out = "abort:overlap">>,
    <<"C18:no-stop-without-overlap", MayStop(c) \/ r.out # "abort:overlap">>,
    <<"C18:returns", r.out \in {"ret", "abort:overlap"}>>,
    <<"C18:contents", r.out # "ret" \/ MustStop(c) \/ r.m = Effect(c)>>,
    <<"C18:result", r.out # "ret" \/ r.ret = c.d>>,
    <<"C18:nothing-changed-before-stopping", r.out # "abort:overlap" \/ r.m = c.m>>,
    <<"C18:bytes-read", r.tr = 0 \/ r.out # "ret" \/ MustStop(c) \/ r.rd \subseteq Reads(c) \cup Scans(c) \cup
                          (IF c.f \in {"strcpy", "strcat"} THEN {} ELSE {})>>,
    <<"C18:bytes-written", r.tr = 0 \/ r.out # "ret" \/ MustStop(c) \/ r.wr \subseteq Writes(c)>>,
    <<"C18,C20:report", r.out # "abort:overlap" \/ (r.rf = c.f /\ r.rd0 = c.d /\ r.rs0 = c.s /\
                          (c.f \notin {"memcpy", "strncpy", "strncat"} \/ r.rn = c.n))>>,
    <<"C20,C18:call-site", r.out # "abort:overlap" \/ (r.fl = c.fl /\ r.ln = c.ln)>> } : ~y[2]}}
=============================================================================
