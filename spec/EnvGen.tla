------------------------------- MODULE EnvGen -------------------------------
(* Random environments: documented variables with admissible and odd values, in
   any order, with repetitions, former names, near-miss names and entries
   without "=".  One line per environment: its text and its settings.         *)
EXTENDS Env, IOUtils, Json, Randomization
env0(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
COUNT == atoi(env0("NUM", "50"))
KIND == env0("KIND", "heap")     \* heap: histories are run under it; probe: for Env!Probe

R(S) == RandomElement(S)
Ch(n) == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>[n + 1]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Ch(n)>> ELSE Dec(n \div 10) \o <<Ch(n % 10)>>
Dig(n) == IF n < 0 THEN <<"-">> \o Dec(0 - n) ELSE Dec(n)
RECURSIVE Str(_)
Str(v) == IF v = <<>> THEN "" ELSE Head(v) \o Str(Tail(v))

Odd == {<<>>, <<"a", "b">>, <<"x", "1">>, <<"-">>, <<"+", "1">>, <<" ", "1">>, <<"0", "1">>, <<"1", "a">>, <<"0", "0">>, <<"-", "1">>, <<"0", " ", "1">>,
        <<"=", "1">>, <<"2">>, <<"\t", "2">>}
Switches == {<<"0">>, <<"1">>} \cup Odd
Wide == {Dig(n) : n \in {0, 1, 2, 3, 85, 127, 128, 169, 170, 171, 254, 255, 256, 257, 300, 511, 512, 1000, -1, -2, -128, -255, -256, -257}}
ValuesOf(n) ==
  CASE n = "DUMA_ALIGNMENT" -> {Dig(k) : k \in {0, 1, 2, 4, 8, 16, 32, 64, 128, 1024, 4096, 8192}} \cup {<<"0", "8">>, <<" ", "1", "6">>, <<"+", "4">>, <<"3", "2", "x">>, <<"a">>, <<>>}
    [] n \in {"DUMA_FILL", "DUMA_SLACKFILL"} -> Wide \cup Odd
    [] n = "DUMA_CHECK_FREQ" -> {Dig(k) : k \in {-3, 0, 1, 2, 3, 4, 5, 7, 10, 100}} \cup {<<"x">>, <<>>, <<"0", "2">>}
    [] n \in {"DUMA_MALLOC_0_STRATEGY", "MALLOC_0_STRATEGY", "DUMA_NEW_0_STRATEGY", "NEW_0_STRATEGY"} ->
         {Dig(k) : k \in {-1, 0, 1, 2, 3, 4, 5}} \cup {<<"x">>, <<>>, <<"0", "2">>, <<" ", "1">>}
    [] n = "DUMA_PROTECT_FREE" -> {Dig(k) : k \in {-1, -2, 0, 8, 12, 16, 20, 24, 40, 64, 100}} \cup {<<"x">>, <<"0", "4", "0">>, <<"0", "1", "2">>, <<"0", "2", "0">>, <<"0", "1", "4">>, <<"5", "0", "k">>}
    [] n = "DUMA_MAX_ALLOC" -> {Dig(k) : k \in {-1, -7, 0, 1, 900, 1100, 1500, 2500, 4000}} \cup {<<"x">>}
    [] n = "DUMA_OUTPUT_FILE" -> {<<"m", "s", "g">>, <<"o", "l", "d">>, <<"n", "o", "n", "e", "/", "f">>, <<>>, <<".", "/", "m", "s", "g">>, <<"a", "=", "b">>, <<"1">>}
    [] OTHER -> Switches

HeapVars == {"DUMA_ALIGNMENT", "DUMA_PROTECT_BELOW", "DUMA_FILL", "DUMA_SLACKFILL", "DUMA_CHECK_FREQ", "DUMA_MALLOC_0_STRATEGY",
  "DUMA_NEW_0_STRATEGY", "DUMA_PROTECT_FREE", "DUMA_MAX_ALLOC", "DUMA_MALLOC_FAILEXIT", "DUMA_FREE_ACCESS", "DUMA_SHOW_ALLOC",
  "DUMA_REPORT_ALL_LEAKS", "MALLOC_0_STRATEGY", "NEW_0_STRATEGY", "DUMA_MEMCPY_OVERLAP", "DUMA_DISABLE_BANNER", "DUMA_SUPPRESS_ATEXIT"}
ProbeVars == {"DUMA_ALIGNMENT", "DUMA_MALLOC_FAILEXIT", "DUMA_FREE_ACCESS", "DUMA_SHOW_ALLOC", "DUMA_SUPPRESS_ATEXIT", "DUMA_MEMCPY_OVERLAP",
  "DUMA_DISABLE_BANNER", "DUMA_OUTPUT_STDOUT", "DUMA_OUTPUT_STDERR", "DUMA_OUTPUT_FILE", "DUMA_PROTECT_BELOW"}
Vars == IF KIND = "heap" THEN HeapVars ELSE ProbeVars
Extra == {"DUMA_OUTPUT_DEBUG", "DUMA_OUTPUT_STACKTRACE", "DUMA_OUTPUT_STACKTRACE_MAPFILE", "DUMA_SKIPCOUNT_INIT"}
Near(n) == {n \o "X", "X" \o n, n \o " ", n \o "_", "_" \o n}

VARIABLES n, left, env
vars == <<n, left, env>>
\* the same number written in other ways, and what atoi makes of other notations
Dressed(v) ==
  IF v = <<>> \/ Head(v) \notin DOMAIN Digits THEN v
  ELSE CASE R(1..12) = 1 -> <<"0">> \o v [] R(1..11) = 1 -> <<"0", "0">> \o v [] R(1..10) = 1 -> <<"+">> \o v [] R(1..9) = 1 -> <<" ", "\t">> \o v
         [] R(1..12) = 1 -> v \o <<".", "9">> [] R(1..12) = 1 -> v \o <<"e", "1">> [] R(1..12) = 1 -> v \o <<" ", "4">> [] R(1..12) = 1 -> <<"0", "x">> \o v
         [] R(1..12) = 1 -> <<"0", "b">> \o v [] R(1..12) = 1 -> v \o <<"'", "0">> [] OTHER -> v
Entry ==
  \E k \in {R(0..9)}, x \in {R(Vars)} :
  \E v0 \in {R(ValuesOf(x))} :
  \E v \in {Dressed(v0)} :
     IF k < 6 THEN env' = Append(env, E(x, v))
     ELSE IF k = 6 THEN \E y \in {R(Near(x))} : env' = Append(env, E(y, v))
     ELSE IF k = 7 THEN env' = Append(env, Bare(x))
     ELSE IF k = 8 THEN \E y \in {R(Extra)}, w \in {R(Odd)} : env' = Append(env, E(y, w))
     ELSE env' = env \o <<E(x, v), E(R(Vars \ {"DUMA_ALIGNMENT"}), R(Switches))>>
Show(e) == PrintT("ENV " \o ToJson([env |-> e, text |-> [i \in DOMAIN e |-> e[i].n \o (IF e[i].eq THEN "=" \o Str(e[i].v) ELSE "")],
                                    c |-> Settings(e), ok |-> IF Accepted(e) THEN 1 ELSE 0]))
Init == n = 0 /\ left = 3 /\ env = <<>>
Next ==
  \/ left > 0 /\ Entry /\ left' = left - 1 /\ n' = n
  \/ /\ left = 0 /\ n < COUNT
     /\ Show(env)
     /\ n' = n + 1 /\ left' = R(0..9)
     /\ env' = IF KIND = "probe" /\ R(0..9) = 0 THEN <<E("DUMA_ALIGNMENT", Dig(R({3, 5, 6, 12, 24, 100, 7, 4095})))>> ELSE <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
