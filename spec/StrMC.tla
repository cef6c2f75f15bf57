------------------------------- MODULE StrMC -------------------------------
(* Every call on every small memory, performed byte by byte; also the generator
   of the calls that are replayed into the library (EMIT=1).                  *)
EXTENDS Str, IOUtils, Randomization, Json
env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
N == atoi(env("N", "5"))
MUT == env("MUTANT", "none")
EMIT == env("EMIT", "0") = "1"

\* contents: any set of zero bytes, the others all different
Contents(n) == {[i \in 0..n-1 |-> IF i \in z THEN 0 ELSE i + 1] : z \in SUBSET (0..n-1)}
Plain(n) == {[i \in 0..n-1 |-> i + 1], [i \in 0..n-1 |-> IF i % 3 = 1 THEN 0 ELSE i + 1]}
C(f, m, d, s, n, o) == [f |-> f, m |-> m, d |-> d, s |-> s, n |-> n, o |-> o]
Cases(k) ==
  {c \in {C("memcpy", m, d, s, n, o) : m \in Plain(k), d \in 0..k, s \in 0..k, n \in 0..k, o \in {0, 1}} : Valid(c)} \cup
  {c \in {C("memmove", m, d, s, n, 0) : m \in Plain(k), d \in 0..k, s \in 0..k, n \in 0..k} : Valid(c)} \cup
  {c \in {C(f, m, d, s, 0, 0) : f \in {"strcpy", "strcat"}, m \in Contents(k), d \in 0..k-1, s \in 0..k-1} : Valid(c)} \cup
  {c \in {C(f, m, d, s, n, 0) : f \in {"strncpy", "strncat"}, m \in Contents(k), d \in 0..k-1, s \in 0..k-1, n \in 0..k} : Valid(c)}

VARIABLES c, mem, i, pc, rd, wr
vars == <<c, mem, i, pc, rd, wr>>

\* ---- the machine
Check ==
  LET d == Dst(c)  r == ReadLen(c)  w == WriteLen(c)
      fwd == c.s < d /\ d < c.s + (IF MUT = "no-terminator" /\ c.f = "strncpy" THEN SrcLen(c)
                                   ELSE IF MUT = "terminator-always" /\ c.f = "strncat" THEN SrcLen(c) + 1
                                   ELSE IF MUT = "off-by-one" THEN r - 1 ELSE r)
      bwd == d < c.s /\ c.s < d + w /\ ~(c.f = "memcpy" /\ c.o = 1) /\ (MUT # "one-sided" \/ c.f # "strcpy") IN
  c.f # "memmove" /\ r > 0 /\ w > 0 /\ (fwd \/ bwd)

Init == /\ c \in Cases(N) /\ mem = c.m /\ i = 0 /\ pc = "check" /\ rd = {} /\ wr = {}

Start == /\ pc = "check"
         /\ pc' = IF Check THEN "stop"
                  ELSE IF c.f = "memmove" /\ (c.s < c.d \/ MUT = "never-backward") /\ MUT # "never-forward" THEN (IF MUT = "never-backward" THEN "fwd" ELSE "bwd") ELSE
                       IF c.f = "memmove" /\ MUT = "never-forward" THEN "bwd" ELSE "fwd"
         /\ i' = IF pc' = "bwd" THEN SrcLen(c) ELSE 0
         /\ UNCHANGED <<c, mem, rd, wr>>
Put(to, v) == /\ mem' = [mem EXCEPT ![to] = v] /\ wr' = wr \cup {to}
Fwd == /\ pc = "fwd" /\ i < SrcLen(c)
       /\ Put(Dst(c) + i, mem[c.s + i]) /\ rd' = rd \cup {c.s + i} /\ i' = i + 1 /\ UNCHANGED <<c, pc>>
Bwd == /\ pc = "bwd"
       /\ IF i = 0 THEN pc' = "end" /\ UNCHANGED <<c, mem, i, rd, wr>>
          ELSE /\ Put(Dst(c) + i - 1, mem[c.s + i - 1]) /\ rd' = rd \cup {c.s + i - 1} /\ i' = i - 1 /\ UNCHANGED <<c, pc>>
\* the rest of the bytes to write is zero
Pad == /\ pc = "fwd" /\ i >= SrcLen(c)
       /\ IF i = WriteLen(c) \/ (MUT = "no-padding" /\ c.f = "strncpy" /\ i > SrcLen(c))
          THEN pc' = "end" /\ UNCHANGED <<c, mem, i, rd, wr>>
          ELSE Put(Dst(c) + i, 0) /\ i' = i + 1 /\ UNCHANGED <<c, pc, rd>>
GENONLY == env("ONLY", "0") = "1"
Next == ~GENONLY /\ (Start \/ Fwd \/ Bwd \/ Pad)
Spec == Init /\ [][Next]_vars

\* ---- what must hold
Stops == (pc = "stop") => MustStop(c) /\ mem = c.m
Goes == (pc \in {"fwd", "bwd", "end"}) => ~MustStop(c)
Result == (pc = "end") => mem = Effect(c)
Touched == rd \subseteq Reads(c) /\ wr \subseteq Writes(c)
Emitted == (EMIT /\ pc = "check") =>
   PrintT("CASE " \o ToJson(<<c.f, c.d, c.s, c.n, c.o, [k \in 1..Size(c.m) |-> c.m[k-1]]>>))
=============================================================================
