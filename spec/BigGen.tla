------------------------------- MODULE BigGen -------------------------------
(* Histories of a few calls with big blocks, with probes chosen here: at both ends,
   at and beside multiples of 2 GB and 4 GB, where a size or an offset that lost its
   upper bits would end.  COST: GB that the history may touch.               *)
EXTENDS Big, IOUtils, Json, SequencesExt, FiniteSetsExt
COST == atoi(IOEnv.COST)
DEPTH == atoi(IOEnv.DEPTH)
FILL == atoi(IOEnv.FILL)      \* 1: blocks are filled
BELOW == atoi(IOEnv.BELOW)
SCENE == atoi(IOEnv.SCENE)    \* 1: the history starts with a block above 4 GB that is written and then grows
VARIABLES b, n, cost, scr
vars == <<b, n, cost, scr>>

G2 == <<524288, 0>>
G4 == <<1048576, 0>>
Sizes == {Add(G4, N(100)), G4, Sub(G4, N(1)), Add(G4, N(1)), Add(Add(G4, G4), N(4097)), Add(G2, N(5)), Sub(G2, N(1)), G2, <<786432, 17>>, <<1310720, 3000>>}
Fills == {Add(G4, N(100)), Add(G2, N(5)), Add(G4, N(1))}
Small == {N(16), N(4096), N(5000), N(100)}
GB(z) == IF z[1] < 1000 THEN 0 ELSE z[1] \div 262144 + 1
R(S) == RandomElement(S)
S2(x) == ToString(x[1]) \o " " \o ToString(x[2])
Marks == {Zero, N(1), N(99), N(100), G2, Add(G2, N(5)), Sub(G4, N(1)), G4, Add(G4, N(99)), Sub(G2, N(1)), Add(Add(G4, G4), N(1))}
Offsets(z) == {o \in Marks \cup {Sub(z, N(1)), Sub(z, N(4096)), Sub(z, N(4097)), <<z[1] \div 2, 7>>} : Le(Zero, o) /\ Lt(o, z)}
Beside(z, al) == {z, Add(z, N(4095)), N(-1), N(-4096)}
Some(k, S) == IF Cardinality(S) <= k THEN S ELSE CHOOSE T \in {FoldSet(LAMBDA x, t : IF Cardinality(t) < k THEN t \cup {R(S \ t)} ELSE t, {}, S)} : TRUE
Probe(i, z, al) == SetToSeq({"P " \o ToString(i) \o " " \o S2(o) : o \in Offsets(z) \cup Beside(z, al)})
Out(lines) == scr' = scr \o lines
Ids == 0..2
I(x) == ToString(x)
All(bb) == FoldSet(LAMBDA i, t : IF bb[i].st = "none" THEN t ELSE t \o Probe(i, bb[i].size, bb[i].al), <<>>, Ids)

Init == b = [i \in Ids |-> [st |-> "none", size |-> Zero, al |-> N(1), api |-> ""]] /\ n = 0 /\ cost = 0 /\ scr = <<>>
Put1(i, z, al, api) == b' = [b EXCEPT ![i] = [st |-> "live", size |-> z, al |-> al, api |-> api]]
Alloc(i) ==
  \E z \in {R(IF cost > 0 /\ R(1..3) = 1 THEN Small ELSE IF FILL = 1 THEN Fills ELSE Sizes)},
     api \in {R({"malloc", "malloc", "memalign", "posix", "valloc", "new", "newa", "calloc"})} :
  \E al \in {IF api \in {"memalign", "posix"} THEN R({N(8), N(4096), N(65536)} \cup (IF BELOW = 1 THEN {G2, G4, N(65536 * 256)} ELSE {})) ELSE Zero} :
     LET k == IF FILL = 1 \/ api = "calloc" THEN GB(z) ELSE 0 IN
     IF cost + k > COST THEN UNCHANGED <<b, cost, scr>>
     ELSE /\ Put1(i, z, IF al = Zero THEN N(1) ELSE al, api) /\ cost' = cost + k
          /\ Out(<<"A " \o I(i) \o " " \o api \o " " \o S2(z) \o " " \o S2(al)>> \o All(b'))
Move(i) ==
  \E z \in {R(IF R(1..2) = 1 THEN Small ELSE Fills)} :
     LET k == GB(z) * 2 IN
     IF cost + k > COST \/ b[i].api \in {"new", "newa"} THEN UNCHANGED <<b, cost, scr>>
     ELSE /\ Put1(i, z, N(1), "realloc") /\ cost' = cost + k
          /\ Out(<<"R " \o I(i) \o " " \o S2(z)>> \o All(b'))
Write(i) ==
  LET offs == Some(4, Offsets(b[i].size)) IN
  /\ UNCHANGED <<b, cost>>
  /\ Out(SetToSeq({"W " \o I(i) \o " " \o S2(o) \o " " \o ToString(1 + ((o[1] + o[2]) % 200)) : o \in offs}) \o All(b))
Free(i) ==
  /\ b' = [b EXCEPT ![i].st = "freed"] /\ UNCHANGED cost
  /\ Out(<<"F " \o I(i)>> \o All(b') \o SetToSeq({"M " \o I(i) \o " " \o S2(o) : o \in Offsets(b[i].size)}))
Ask == /\ UNCHANGED <<b, cost>>
       /\ Out(FoldSet(LAMBDA i, t : IF b[i].st = "live" THEN t \o <<"U " \o I(i)>> ELSE t, <<>>, Ids) \o <<"L", "K">>)
Grow ==
  CASE n = 0 -> \E z \in {R({Add(G4, N(100)), Add(G4, N(5000))})} : /\ Put1(0, z, N(1), "malloc") /\ UNCHANGED cost
                                                               /\ Out(<<"A 0 malloc " \o S2(z) \o " 0 0">> \o All(b'))
    [] n = 1 -> Write(0)
    [] n = 2 -> \E z \in {Add(b[0].size, N(R(1..9000)))} : /\ Put1(0, z, N(1), "realloc") /\ cost' = COST
                                                         /\ Out(<<"R 0 " \o S2(z)>> \o All(b'))
Next == /\ n < DEPTH
        /\ n' = n + 1
        /\ IF SCENE = 1 /\ n < 3 THEN Grow ELSE \E i \in {R(Ids)} :
           CASE b[i].st # "live" -> Alloc(i)
             [] OTHER -> \E k \in {R(1..6)} : CASE k = 1 -> Write(i) [] k \in {2, 6} -> Move(i) [] k \in {3, 4} -> Free(i) [] OTHER -> Ask
Emit == (n' = DEPTH /\ scr' # <<>>) => PrintT("SCRIPT " \o ToJson(scr'))
=============================================================================
