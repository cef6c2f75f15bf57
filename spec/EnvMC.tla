------------------------------- MODULE EnvMC -------------------------------
(* Looking a name up by walking the environment entry by entry and character by
   character, as the library does it without getenv(): it finds what Env!Value
   says, for every environment.  Names are sequences of characters here.  Wrong
   variants (MUTANT) have to be refuted.                                      *)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, TLC
MUTANT == IF "MUTANT" \in DOMAIN IOEnv THEN IOEnv["MUTANT"] ELSE "none"

Letters == {"A", "B"}
Names == UNION {[1..k -> Letters] : k \in 1..2}
Values == {<<>>, <<"1">>, <<"0">>, <<"=">>}
Text(e) == IF e[2] = <<"bare">> THEN e[1] ELSE e[1] \o <<"=">> \o e[2]
Entries == Names \X (Values \cup {<<"bare">>})
Envs == UNION {[1..k -> Entries] : k \in 0..2}

VARIABLES env, name, no, idx, res
vars == <<env, name, no, idx, res>>
None == <<"none">>
Init == /\ env \in Envs /\ name \in Names
        /\ no = 1 /\ idx = 0 /\ res = <<"searching">>
V == Text(env[no])
At(s, i) == IF i < Len(s) THEN s[i + 1] ELSE "NUL"
Match == idx < Len(name) /\ At(V, idx) = name[idx + 1]
Found == /\ idx > 0
         /\ IF MUTANT = "prefix-of-name" THEN TRUE ELSE idx = Len(name)
         /\ IF MUTANT = "no-equals" THEN TRUE ELSE At(V, idx) = "="
Step ==
  /\ res = <<"searching">>
  /\ IF no > Len(env) THEN res' = None /\ UNCHANGED <<no, idx>>
     ELSE IF Match THEN idx' = idx + 1 /\ UNCHANGED <<no, res>>
     ELSE IF Found /\ MUTANT # "last" THEN res' = <<"at", no, idx + 1>> /\ UNCHANGED <<no, idx>>
     ELSE IF Found /\ ~\E j \in no+1..Len(env) : env[j][1] = name /\ env[j][2] # <<"bare">>
          THEN res' = <<"at", no, idx + 1>> /\ UNCHANGED <<no, idx>>
     ELSE no' = no + 1 /\ idx' = (IF MUTANT = "index-kept" THEN idx ELSE 0) /\ UNCHANGED res
  /\ UNCHANGED <<env, name>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Hits == {i \in DOMAIN env : env[i][1] = name /\ env[i][2] # <<"bare">>}
Right ==
  CASE res = <<"searching">> -> TRUE
    [] res = None -> Hits = {}
    [] OTHER -> /\ Hits # {} /\ res[2] = (CHOOSE i \in Hits : \A j \in Hits : i <= j)
                /\ SubSeq(Text(env[res[2]]), res[3] + 1, Len(Text(env[res[2]]))) = env[res[2]][2]
InBounds == res # <<"searching">> \/ no > Len(env) \/ idx <= Len(V)
Ends == <>(res # <<"searching">>)
=============================================================================
