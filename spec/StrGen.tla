------------------------------- MODULE StrGen -------------------------------
(* Random calls on larger memories (KIND=large), and calls whose operands are
   lifted over 2 or 4 GB by the harness (KIND=lift): what happens in the last
   bytes does not depend on how many bytes go before them.                   *)
EXTENDS Str, IOUtils, Randomization, Json
env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
KIND == env("KIND", "large")
SEED == atoi(env("NUM", "100"))
VARIABLES n, c
vars == <<n, c>>

R(S) == RandomElement(S)
Case(f, z, k, d, s, len, o, lift) ==
  [f |-> f, m |-> [i \in 0..k-1 |-> IF i \in z THEN 0 ELSE 1 + ((i * 7 + 3) % 251)], d |-> d, s |-> s, n |-> len, o |-> o, lift |-> lift]
Show(x) == PrintT("CASE " \o ToJson(<<x.f, x.d, x.s, x.n, x.o, [i \in 1..Size(x.m) |-> x.m[i-1]], x.lift>>))

Large ==
  \E f \in {R(Funs)}, k \in {R({12, 24, 40, 70, 150, 300})}, nz \in {R({0, 1, 2, 3, 5, 9})} :
  \E z \in {RandomSubset(nz, 0..k-1)}, d \in {R(0..k)}, near \in {R(0..3)}, len \in {R(0..k \div R({1, 2, 3, 4}))}, o \in {R({0, 1})} :
  \E s \in {IF near = 0 THEN (IF d + len > k THEN R(0..k) ELSE d + len) ELSE IF near = 1 THEN (IF d < len THEN R(0..k) ELSE d - len) ELSE R(0..k)} :
     c' = Case(f, z, k, d, s, IF f \in Strings THEN 0 ELSE len, IF f = "memcpy" THEN o ELSE 0, 0)

\* operands in halves of their own; kinds as in harness/str.cpp
H == 32
Lift ==
  \E kind \in {R({1, 1, 2, 3, 4})}, bits \in {R({31, 32, 32})}, a \in {R(1..10)}, b \in {R(1..10)}, len \in {R(1..12)} :
  CASE kind = 1 -> \E f \in {R(Funs)} :      \* both windows begin with the operands
         c' = Case(f, {a + len, H} \cup (IF f = "strncpy" /\ b < 6 THEN {a + len - b} \cap (a..H-1) ELSE {}),
                   2 * H, H, a, IF f \in Strings THEN 0 ELSE len, 0, bits * 10 + 1)
    [] kind = 2 -> \E f \in {R({"strcat", "strncat"})} :
         c' = Case(f, {a + b, H + len}, 2 * H, H, a, IF f = "strcat" THEN 0 ELSE b + (a % 2), 0, bits * 10 + 2)
    [] kind = 3 -> c' = Case("memcpy", {}, 2 * H, a + b, a, b + len, 0, bits * 10 + 3)
    [] kind = 4 -> \E f \in {R({"memcpy", "strcpy", "strncpy", "strcat", "strncat"})}, sw \in {R({0, 1})} :
         c' = Case(f, {a + len, H + b + len, H - 1}, 2 * H, IF sw = 0 THEN H + b ELSE a, IF sw = 0 THEN a ELSE H + b,
                   IF f \in Strings THEN 0 ELSE len, 0, bits * 10 + 4)

Init == n = 0 /\ c = [m |-> <<>>]
Next == /\ n < SEED
        /\ (IF KIND = "large" THEN Large ELSE Lift)
        /\ n' = n + 1
        /\ (Valid(c') => Show(c'))
Spec == Init /\ [][Next]_vars
=============================================================================
