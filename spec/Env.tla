-------------------------------- MODULE Env --------------------------------
(* How the settings follow from the environment of the process.  The environment
   is a sequence of entries; an entry has a name, the characters of its value,
   and says whether it has a "=" at all.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

E(n, v) == [n |-> n, eq |-> TRUE, v |-> v]
Bare(n) == [n |-> n, eq |-> FALSE, v |-> <<>>]

\* ------------------------------------------------ numbers, as atoi reads them
Blank == {" ", "\t", "\n"}
Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
               [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
RECURSIVE Number(_, _)
Number(v, acc) == IF v = <<>> \/ Head(v) \notin DOMAIN Digits THEN acc ELSE Number(Tail(v), 10 * acc + Digits[Head(v)])
RECURSIVE Atoi(_)
Atoi(v) ==
  IF v = <<>> THEN 0
  ELSE IF Head(v) \in Blank THEN Atoi(Tail(v))
  ELSE IF Head(v) = "-" THEN 0 - Number(Tail(v), 0)
  ELSE IF Head(v) = "+" THEN Number(Tail(v), 0)
  ELSE Number(v, 0)

\* --------------------------------------- the first entry with exactly the name
Hits(env, n) == {i \in DOMAIN env : env[i].n = n /\ env[i].eq}
Has(env, n) == Hits(env, n) # {}
Value(env, n) == env[CHOOSE i \in Hits(env, n) : \A j \in Hits(env, n) : i <= j].v
Num(env, n, default) == IF Has(env, n) THEN Atoi(Value(env, n)) ELSE default
Switch(env, n, default) == IF Has(env, n) THEN (IF Atoi(Value(env, n)) # 0 THEN 1 ELSE 0) ELSE default
Ranged(x, lo, hi, default) == IF lo <= x /\ x <= hi THEN x ELSE default
Old(env, n, o) == IF Has(env, n) THEN n ELSE o     \* former name of a setting

Settings(env) ==
  [align |-> (LET a == Num(env, "DUMA_ALIGNMENT", 1) IN IF a = 0 THEN 1 ELSE a),
   below |-> Switch(env, "DUMA_PROTECT_BELOW", 0),
   fill |-> (LET f == Num(env, "DUMA_FILL", 255) IN IF f = -1 THEN -1 ELSE f % 256),
   slack |-> Num(env, "DUMA_SLACKFILL", 170) % 256,
   chkf |-> (LET f == Num(env, "DUMA_CHECK_FREQ", 0) IN IF f > 0 THEN f ELSE 0),
   m0 |-> Ranged(Num(env, Old(env, "DUMA_MALLOC_0_STRATEGY", "MALLOC_0_STRATEGY"), 3), 0, 3, 3),
   n0 |-> Ranged(Num(env, Old(env, "DUMA_NEW_0_STRATEGY", "NEW_0_STRATEGY"), 3), 2, 3, 3),
   pf |-> Num(env, "DUMA_PROTECT_FREE", -1),
   maxa |-> Num(env, "DUMA_MAX_ALLOC", -1),
   failexit |-> Switch(env, "DUMA_MALLOC_FAILEXIT", 1),
   freeacc |-> Switch(env, "DUMA_FREE_ACCESS", 0),
   show |-> Switch(env, "DUMA_SHOW_ALLOC", 0),
   rall |-> Switch(env, "DUMA_REPORT_ALL_LEAKS", 0),
   noatexit |-> Switch(env, "DUMA_SUPPRESS_ATEXIT", 0),
   overlap |-> Switch(env, "DUMA_MEMCPY_OVERLAP", 0),
   nobanner |-> Switch(env, "DUMA_DISABLE_BANNER", 0),
   out |-> Switch(env, "DUMA_OUTPUT_STDOUT", 0),
   err |-> Switch(env, "DUMA_OUTPUT_STDERR", 1),
   file |-> IF Has(env, "DUMA_OUTPUT_FILE") THEN 1 ELSE 0]

Pow2(n) == n \in {2^k : k \in 0..30}
Accepted(env) == Pow2(Settings(env).align)     \* otherwise the program is stopped with a message

Documented == {"DUMA_ALIGNMENT", "DUMA_PROTECT_BELOW", "DUMA_FILL", "DUMA_SLACKFILL", "DUMA_CHECK_FREQ",
  "DUMA_MALLOC_0_STRATEGY", "DUMA_NEW_0_STRATEGY", "DUMA_PROTECT_FREE", "DUMA_MAX_ALLOC", "DUMA_MALLOC_FAILEXIT",
  "DUMA_FREE_ACCESS", "DUMA_SHOW_ALLOC", "DUMA_REPORT_ALL_LEAKS", "DUMA_SUPPRESS_ATEXIT", "DUMA_MEMCPY_OVERLAP",
  "DUMA_DISABLE_BANNER", "DUMA_OUTPUT_STDOUT", "DUMA_OUTPUT_STDERR", "DUMA_OUTPUT_FILE"}

(* ------------------------------------------------------------------ messages
   p: what a probe program did and where its messages went.
     p.env          its environment
     p.leaks        1: the library was built with leak detection
     p.atexit       1: the report at exit is installed with atexit()
     p.what, p.end  which probe, and how it ended: "ret", "abort", "segv"
     p.out, p.err, p.file   text that arrived at each of the three places
     p.words        what the texts are about
     p.dir          1: the named file can be written
     p.keep         1: what was in the file before is still there
     p.fds          descriptors left open                                  *)
C(name, ok) == [name |-> name, ok |-> ok]
If(c, x) == IF c THEN {x} ELSE {}
Refused(p) == ~Accepted(p.env)
ExpectEnd(s, p) ==
  CASE p.what \in {"badfree", "overlapup"} -> "abort"
    [] p.what = "overlapdown" -> IF s.overlap = 1 THEN "ret" ELSE "abort"
    [] p.what = "huge" -> IF s.failexit = 1 THEN "abort" ELSE "ret"
    [] p.what = "freeaccess" -> IF s.freeacc = 1 THEN "segv" ELSE "ret"
    [] OTHER -> "ret"
ExpectWords(s, p) ==
  CASE p.what = "start" -> If(s.nobanner = 0, "banner") \cup If(s.show = 1, "show")
    [] p.what = "badfree" -> {"badfree"}
    [] p.what = "overlapup" -> {"overlap"}
    [] p.what = "overlapdown" -> If(s.overlap = 0, "overlap")
    [] p.what = "huge" -> {"mmap"} \cup If(s.show = 1, "show")
    [] p.what = "leak" -> If(s.show = 1, "show") \cup If(p.leaks = 1 /\ (p.atexit = 0 \/ s.noatexit = 0), "leak")
    [] OTHER -> If(s.show = 1, "show")
Probe(p) ==
  LET s == Settings(p.env)
      f == s.file = 1 /\ p.dir = 1
      texts == If(s.out = 1, p.out) \cup If(s.err = 1, p.err) \cup If(f, p.file)
      words == {p.words[i] : i \in DOMAIN p.words} IN
  {C("C22:settings-take-effect", p.end = IF Refused(p) THEN "abort" ELSE ExpectEnd(s, p)),
   C("C22:stdout-only-if-configured", s.out = 1 \/ p.out = ""),
   C("C22:stderr-only-if-configured", s.err = 1 \/ p.err = ""),
   C("C22:file-only-if-configured", f \/ p.file = ""),
   C("C22:same-text-everywhere", Cardinality(texts) <= 1),
   C("C22:says-what-is-due", texts = {} \/ (IF Refused(p) THEN "align" \in words ELSE words = ExpectWords(s, p))),
   C("C22:file-is-appended-to", p.keep = 1),
   C("C22:no-descriptor-left-open", p.fds = 0)}
BrokenBy(p) == {x.name : x \in {y \in Probe(p) : ~y.ok}}
=============================================================================
