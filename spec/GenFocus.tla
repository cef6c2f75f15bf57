------------------------------ MODULE GenFocus ------------------------------
(* Alphabets for HeapGen: which calls, sizes, alignments and errors a family of
   generated histories is made of.  allocs and reallocs are sets of groups
   <<apis, sizes, alignments>> (element sizes for calloc).                  *)
EXTENDS Integers, Sequences, FiniteSets

CAlloc == {"malloc", "realloc0", "strdup", "valloc", "macmalloc", "macstrdup", "macvalloc"}   \* mac: through the macros of duma.h
GAlloc == {"gmalloc", "grealloc0", "gstrdup", "gvalloc"}
Aligned == {"memalign", "gmemalign", "posix", "gposix", "macmemalign", "macposix"}
Callocs == {"calloc", "gcalloc", "maccalloc"}
NewE == {"new", "newnt", "newfl", "newntfl"}
NewA == {"anew", "anewnt", "anewfl", "anewntfl", "macanew"}
MacNew == {<<{"macnew"}, {1, 4, 8, 10, 16, 24, 33, 100, 1000, 4096, 5000}, {0}>>}   \* macro.cpp has these sizes
Member == {"mnew", "manew"}
AllAllocs == CAlloc \cup GAlloc \cup Aligned \cup Callocs \cup NewE \cup NewA \cup Member
CFrees == {"free", "gfree", "realloc0", "grealloc0", "macfree"}
AllFrees == {"free", "gfree", "realloc0", "grealloc0", "del", "delnt", "delfl", "delntfl",
             "adel", "adelnt", "adelfl", "adelntfl", "mdel", "madel", "macdel", "macadel", "macfree"}

\* sizes around the boundaries of words, alignments and pages
Small == {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000}
Pages == {2047, 2048, 2049, 4080, 4088, 4094, 4095, 4096, 4097, 4098, 4104, 5000, 8191, 8192, 8193, 12287, 12288, 12289, 20000}
Large == {65535, 65536, 65537, 262144, 1044480, 1044481, 1048575, 1048576, 1048577, 1100000, 2097153}
Als == {8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 65536}
Any == 1..9000

Base == [ids |-> 3, reuse |-> TRUE, allocs |-> {}, frees |-> {}, reallocs |-> {}, rtargets |-> {-1}, bad |-> {},
         nulls |-> {}, peeks |-> {}, pokes |-> {}, checks |-> {}, sets |-> {}, injects |-> {}, handlers |-> {},
         opt |-> {}, final |-> <<"KA", "X">>]

Z == {0}
R(sizes) == {<<{"realloc", "grealloc", "macrealloc"}, sizes, Z>>}
Groups(sizes) == { <<CAlloc \cup GAlloc, sizes, Z>>, <<NewE \cup NewA \cup Member, sizes, Z>>,
                   <<{"malloc", "new", "anew"}, sizes, Z>>,
                   <<Aligned, sizes, Als>>, <<Callocs, (sizes \cap 1..3000) \cup {1}, {1, 2, 3, 7, 64}>> } \cup MacNew
Nulls == {<<-1, f>> : f \in AllFrees \ {"realloc0", "grealloc0"}} \cup {<<-2, "free">>, <<-2, "gfree">>, <<-2, "adelnt">>}

\* every way of freeing what must not be freed
BadFrees == {<<"mismatch", f>> : f \in AllFrees} \cup {<<"twice", f>> : f \in AllFrees}
   \cup {<<"inside", f, d>> : f \in {"free", "gfree", "del", "adelfl", "realloc0"}, d \in {-1, 1, 8, 4096, 99999}}
   \cup {<<"insidefreed", f, d>> : f \in {"free", "adel"}, d \in {-1, 1, 4096}}
   \cup {<<"wild", f, t, d>> : f \in {"free", "del", "adel", "mdel"}, t \in {-3, -4, -5}, d \in {0, 1}}
   \cup {<<"wild", f, t, d>> : f \in {"free", "gfree"}, t \in {-1, -2}, d \in {1, -1}}
   \cup {<<"realloc", r, d, z>> : r \in {"realloc", "grealloc"}, d \in {0, 1, 99999}, z \in {1, 10, 5000, -2}}   \* -2: to the size it has
   \cup {<<"usable", g, d>> : g \in {"d", "g"}, d \in {0, 1, 99999}}
   \cup {<<"check", "", d>> : d \in {0, 1, -1, 99999}}

\* a selection for exhaustive exploration
Wrong == {<<"mismatch", f>> : f \in {"free", "del", "adel", "mdel", "madel"}} \cup {<<"twice", f>> : f \in {"free", "delfl", "adel"}}
   \cup {<<"inside", "free", 1>>, <<"inside", "del", 4096>>, <<"inside", "gfree", -1>>, <<"insidefreed", "free", 1>>,
         <<"wild", "free", -3, 0>>, <<"wild", "free", -4, 0>>, <<"wild", "free", -5, 0>>, <<"wild", "free", -2, 1>>,
         <<"wild", "free", -1, 1>>, <<"realloc", "realloc", 0, 10>>, <<"realloc", "realloc", 0, -2>>, <<"realloc", "realloc", 1, 10>>,
         <<"usable", "d", 1>>, <<"usable", "g", 1>>, <<"usable", "d", 0>>, <<"check", "", 0>>, <<"check", "", 1>>,
         <<"usable", "d", 99999>>, <<"check", "", 99999>>, <<"realloc", "realloc", 99999, 10>>}

Max64 == "18446744073709551615"
Huge == {Max64, "18446744073709551614", "18446744073709551600", "18446744073709547520", "18446744073709547519",
         "18446744073709543424", "18446744073708503040", "9223372036854775808", "9223372036854775807",
         "4294967296", "4294967295", "2147483648", "3000000000"}
HugeAllocs == {<<"alloc", a, z, "0">> : a \in (AllAllocs \ (Callocs \cup Aligned \cup {"strdup", "gstrdup", "macstrdup"})), z \in Huge}
   \cup {<<"alloc", a, z, l>> : a \in Aligned, z \in Huge, l \in {"8", "4096", "65536"}}
   \cup {<<"alloc", a, z, l>> : a \in Callocs, z \in Huge, l \in {"1", "2", "4096", Max64}}
   \cup {<<"alloc", a, "4294967296", "4294967296">> : a \in Callocs}
   \cup {<<"alloc", a, "4294967297", "4294967296">> : a \in Callocs}
   \cup {<<"rbig", r, z>> : r \in {"realloc", "grealloc"}, z \in Huge}
BadAligns == {<<"alloc", a, z, l>> : a \in Aligned, z \in {"1", "100", "5000"},
                l \in {"0", "1", "2", "3", "4", "5", "6", "7", "12", "20", "24", "40", "48", "96", "100", "1000", "4095", "4097", "6144", "12288",
                       "18446744073709551615", "9223372036854775808", "4294967299", "4294967298", "4294967360", "6442450944", "12884901888", "9223372036854775824"}}

Focus(name) ==
  CASE name = "mix" ->        \* long mixed histories
         [Base EXCEPT !.ids = 12, !.allocs = Groups(Small \cup Pages), !.frees = AllFrees,
            !.reallocs = R(Small \cup Pages),
            !.peeks = {<<"b", 0, 0>>, <<"e", -1, 1>>}, !.checks = {"K", "KA", "U", "UG"}, !.nulls = Nulls]
    [] name = "mixany" ->     \* any size up to a few pages, settings changed on the way
         [Base EXCEPT !.ids = 10, !.allocs = Groups(Any), !.frees = AllFrees, !.reallocs = R(Any),
            !.sets = {<<"align", a>> : a \in {1, 2, 4, 8, 16, 64, 4096}} \cup {<<"below", 0>>, <<"below", 1>>}
                     \cup {<<"fill", v>> : v \in {0, 1, 127, 255, -1}}]
    [] name = "mixlarge" ->
         [Base EXCEPT !.ids = 10, !.allocs = Groups(Small \cup Pages \cup Large), !.frees = AllFrees,
            !.reallocs = R(Small \cup Pages \cup Large), !.opt = {"noseed"}]
    [] name = "many" ->       \* many live blocks: the bookkeeping grows several times
         [Base EXCEPT !.ids = 500, !.reuse = FALSE, !.allocs = {<<{"malloc", "new", "calloc", "realloc0"}, {1, 8, 100, 4096}, {1}>>},
            !.reallocs = {<<{"realloc"}, {2, 5000}, Z>>}, !.opt = {"L"}, !.checks = {"U"}]
    [] name = "churn" ->      \* few live blocks, many frees
         [Base EXCEPT !.ids = 4, !.allocs = {<<{"malloc", "new"}, {1, 100, 4096, 9000}, Z>>, <<{"memalign"}, {100, 9000}, {64, 8192}>>},
            !.frees = {"free", "del"}, !.reallocs = {<<{"realloc"}, {50, 5000}, Z>>}]
    [] name = "churnbig" ->
         [Base EXCEPT !.ids = 4, !.allocs = {<<{"malloc", "new"}, {100, 9000, 200000, 700000, 1048576}, Z>>},
            !.frees = {"free", "del"}, !.reallocs = {<<{"realloc"}, {50, 300000}, Z>>}, !.opt = {"noseed"}]
    [] name = "small" ->      \* exhaustive: few blocks, all orders
         [Base EXCEPT !.ids = 3, !.allocs = {<<{"malloc"}, {1, 4096}, Z>>, <<{"memalign"}, {5000}, {8192}>>},
            !.frees = {"free"}, !.reallocs = {<<{"realloc"}, {4097}, Z>>}]
    [] name = "guard" ->      \* accesses around blocks
         [Base EXCEPT !.ids = 4, !.allocs = Groups(Small \cup Pages), !.frees = AllFrees, !.reallocs = R(Small \cup Pages),
            !.peeks = {<<"e", d, w>> : d \in {-1, 0, 1, 7, 15, 100, 4095, 4096, 8192}, w \in {0, 1}}
                 \cup {<<"b", d, w>> : d \in {0, -1, -2, -8, -100, -4095, -4096, -4097, -8192}, w \in {0, 1}}]
    [] name = "freed" ->      \* accesses to freed blocks
         [Base EXCEPT !.ids = 5, !.allocs = Groups(Small \cup Pages), !.frees = AllFrees, !.reallocs = R(Small \cup Pages),
            !.peeks = {<<"e", d, w>> : d \in {-1, 0, -100}, w \in {0, 1}}
                 \cup {<<"b", d, w>> : d \in {0, 1, 64, 4096}, w \in {0, 1}}, !.opt = {"freedpeek"}]
    [] name = "freedx" ->     \* exhaustive
         [Base EXCEPT !.ids = 2, !.allocs = {<<{"malloc"}, {10, 4096}, Z>>, <<{"posix"}, {9000}, {16384}>>, <<{"new"}, {0, 100}, Z>>},
            !.frees = {"free", "realloc0", "del"}, !.reallocs = {<<{"realloc"}, {20}, Z>>},
            !.peeks = {<<"b", 0, 0>>, <<"e", -1, 1>>, <<"e", 0, 0>>}, !.bad = {<<"twice", "free">>, <<"twice", "gfree">>, <<"twice", "del">>, <<"realloc", "realloc", 0, 10>>},
            !.opt = {"freedpeek"}]
    [] name = "align" ->
         [Base EXCEPT !.ids = 10, !.allocs = {<<Aligned, Small \cup Pages, Als>>, <<Aligned, Any, Als>>,
                 <<{"malloc", "gmalloc", "new", "anewnt", "valloc", "gvalloc", "strdup", "mnew", "manew", "realloc0"}, Small \cup Pages, Z>>,
                 <<Callocs, Small, {1, 4, 8, 16}>>},
            !.frees = AllFrees, !.reallocs = R(Any), !.sets = {<<"align", a>> : a \in {1, 2, 4, 8, 16, 32, 128, 4096, 8192}}]
    [] name = "badalign" ->   \* exhaustive
         [Base EXCEPT !.ids = 1, !.allocs = {<<{"malloc"}, {10}, Z>>}, !.bad = BadAligns]
    [] name = "bad" ->        \* exhaustive: after each short history every wrong call
         [Base EXCEPT !.ids = 2, !.allocs = {<<{"malloc", "new", "anewfl", "mnew"}, {100}, Z>>, <<{"memalign"}, {5000}, {64}>>},
            !.frees = {"free", "delfl", "adelfl", "mdel"}, !.bad = Wrong, !.nulls = {<<-1, "free">>, <<-2, "gfree">>},
            !.checks = {"KA"}]
    [] name = "badall" ->     \* every wrong call, random histories before
         [Base EXCEPT !.ids = 6, !.allocs = Groups(Small \cup Pages), !.frees = AllFrees, !.reallocs = R(Small \cup Pages),
            !.bad = BadFrees, !.opt = {"nosite"}]
    [] name = "badmany" ->    \* late errors: long histories, then a wrong call
         [Base EXCEPT !.ids = 40, !.allocs = Groups(Small), !.frees = CFrees \cup {"delfl", "adelfl"},
            !.bad = BadFrees, !.opt = {"late"}]
    [] name = "badreduced" -> \* late errors with blocks that were reduced to keep a limit
         [Base EXCEPT !.ids = 25, !.allocs = {<<{"malloc", "new", "anew"}, {5000, 9000, 20000, 65536}, Z>>, <<{"memalign"}, {20000}, {8192}>>},
            !.frees = {"free", "realloc0", "del", "delfl", "adel"}, !.bad = {<<"twice", f>> : f \in AllFrees} \cup {<<"insidefreed", f, d>> : f \in {"free", "adel"}, d \in {-1, 1, 4096, 8192}}
              \cup {<<"realloc", "realloc", 0, 10>>, <<"realloc", "realloc", 0, -2>>, <<"usable", "d", 0>>, <<"check", "", 0>>}, !.opt = {"late"}]
    [] name = "family" ->     \* exhaustive: all allocators against all deallocators
         [Base EXCEPT !.ids = 1, !.allocs = {<<AllAllocs \ Aligned, {10}, {1}>>, <<{"macnew"}, {10}, {0}>>, <<Aligned, {10}, {16}>>}, !.frees = AllFrees,
            !.bad = {<<"mismatch", f>> : f \in AllFrees} \cup {<<"realloc", r, 0, z>> : r \in {"realloc", "grealloc"}, z \in {30, -2}}]
    [] name = "familyz" ->    \* the same with empty blocks and after another block
         [Base EXCEPT !.ids = 2, !.allocs = {<<AllAllocs \ (Aligned \cup {"strdup", "gstrdup", "macstrdup"}), {0}, {1}>>, <<Aligned, {0}, {16}>>}, !.frees = AllFrees,
            !.bad = {<<"mismatch", f>> : f \in AllFrees}, !.opt = {"noseed"}]
    [] name = "nml" ->        \* damage to the no-man's-land
         [Base EXCEPT !.ids = 4, !.allocs = Groups(Small \cup Pages), !.frees = AllFrees, !.reallocs = R(Small \cup Pages),
            !.pokes = {<<"b", d, v>> : d \in {-1, -2, -3, -8, -50, -1000}, v \in {0, 1, 7, 169, 170, 171, 255}}
                 \cup {<<"e", d, v>> : d \in {0, 1, 2, 3, 6, 7, 14, 100, 2100, 3900}, v \in {0, 1, 169, 170, 171, 255}},
            !.checks = {"K", "KA", "U"}]
    [] name = "nmlmany" ->    \* late damage: after a long history of allocations and frees
         [Base EXCEPT !.ids = 25, !.allocs = Groups(Small) \cup {<<{"malloc", "new"}, Pages, Z>>}, !.frees = AllFrees,
            !.pokes = {<<"b", d, v>> : d \in {-1, -2, -8}, v \in {0, 171}} \cup {<<"e", d, v>> : d \in {0, 1, 6, 2500}, v \in {0, 171}}, !.opt = {"late"}]
    [] name = "nmlfar" ->     \* the same around blocks with large alignments, far away from the block
         [Base EXCEPT !.ids = 4, !.allocs = {<<{"malloc"}, {10, 5000}, Z>>, <<Aligned, {1, 100, 4096, 5000, 20000}, {8192, 16384, 65536}>>}, !.frees = CFrees, !.reallocs = {<<{"realloc"}, {20, 6000}, Z>>},
            !.pokes = {<<"b", d, v>> : d \in {-1, -100, -4096, -4097, -5000, -8192, -9000, -12289, -16000, -30000, -50000}, v \in {1, 170}}
                 \cup {<<"e", d, v>> : d \in {0, 100, 4095, 4096, 5000, 8192, 12289, 30000}, v \in {1, 170}},
            !.checks = {"K", "KA"}]
    [] name = "nmlx" ->       \* exhaustive: one or two blocks, every order of damage, checks and frees
         [Base EXCEPT !.ids = 2, !.allocs = {<<{"malloc"}, {13, 4090}, Z>>, <<{"newfl"}, {33}, Z>>},
            !.frees = {"free", "delfl"}, !.reallocs = {<<{"realloc"}, {20}, Z>>},
            !.pokes = {<<"b", -1, 7>>, <<"b", -2, 170>>, <<"e", 0, 9>>, <<"e", 2, 9>>}, !.checks = {"K", "KA"}]
    [] name = "content" ->
         [Base EXCEPT !.ids = 6, !.allocs = Groups(Small \cup Pages), !.frees = AllFrees, !.reallocs = R(Small \cup Pages),
            !.sets = {<<"fill", v>> : v \in {0, 1, 127, 128, 255, -1}}]
    [] name = "realloc" ->
         [Base EXCEPT !.ids = 5, !.allocs = {<<CAlloc \cup GAlloc, Small \cup Pages, Z>>, <<Aligned, Small \cup Pages, Als>>, <<Callocs, Small, {1, 3}>>},
            !.frees = CFrees, !.reallocs = R(Small \cup Pages) \cup R(Any), !.rtargets = {-1, -2}, !.checks = {"U", "UG", "K"}]
    [] name = "reallocx" ->   \* exhaustive
         [Base EXCEPT !.ids = 2, !.allocs = {<<{"malloc"}, {0, 1, 100}, Z>>, <<{"calloc"}, {64}, {3}>>, <<{"new"}, {50}, Z>>},
            !.frees = {"free", "realloc0", "grealloc0", "del"}, !.rtargets = {-1, -2},
            !.reallocs = {<<{"realloc", "grealloc"}, {0, 1, 5000}, Z>>},
            !.bad = {<<"realloc", "realloc", 0, 10>>, <<"realloc", "realloc", 1, 10>>, <<"rbig", "realloc", Max64>>, <<"rbig", "grealloc", "9223372036854775808">>}]
    [] name = "zero" ->       \* exhaustive: requests of size 0
         [Base EXCEPT !.ids = 2, !.allocs = {<<{"malloc", "calloc", "new", "anewfl", "realloc0", "posix", "valloc", "mnew"}, {0}, {8}>>,
                 <<{"malloc"}, {16}, Z>>},
            !.frees = {"free", "del", "adelfl", "realloc0", "mdel"}, !.reallocs = {<<{"realloc"}, {0, 9}, Z>>}, !.rtargets = {-1, -2},
            !.nulls = {<<-1, "free">>, <<-2, "free">>, <<-2, "del">>}, !.peeks = {<<"b", 0, 0>>, <<"b", 0, 1>>, <<"b", 4095, 0>>},
            !.checks = {"K", "U"}, !.opt = {"noseed"}]
    [] name = "zeromix" ->    \* long histories with empty blocks
         [Base EXCEPT !.ids = 12, !.allocs = {<<AllAllocs \ (Aligned \cup {"strdup", "gstrdup", "macstrdup"}), {0}, {1, 5}>>, <<Aligned, {0}, Als>>, <<{"malloc", "new", "anew"}, Small, Z>>},
            !.frees = AllFrees, !.reallocs = {<<{"realloc", "grealloc"}, {0, 1, 500}, Z>>}, !.rtargets = {-1, -2}, !.nulls = Nulls,
            !.checks = {"K", "KA", "U", "UG"}, !.peeks = {<<"b", 0, 0>>, <<"b", 0, 1>>}, !.opt = {"noseed", "L"}]
    [] name = "leak" ->
         [Base EXCEPT !.ids = 8, !.allocs = Groups(Small \cup {4096, 5000}) \cup {<<{"malloc", "new", "newfl", "anewfl", "calloc"}, {0, 10}, {1}>>},
            !.frees = AllFrees, !.reallocs = R({0, 1, 17, 5000}), !.opt = {"L", "nosite", "noseed"}, !.checks = {"KA"}, !.nulls = Nulls]
    [] name = "leakx" ->      \* exhaustive
         [Base EXCEPT !.ids = 2, !.allocs = {<<{"malloc", "gmalloc", "anewfl", "new"}, {10}, Z>>, <<{"calloc"}, {4}, {5}>>},
            !.frees = {"free", "gfree", "adelfl", "del", "realloc0"}, !.reallocs = {<<{"realloc"}, {7}, Z>>}, !.opt = {"L", "nosite", "noseed"}]
    [] name = "oom" ->        \* memory runs out
         [Base EXCEPT !.ids = 6, !.allocs = {<<{"malloc", "gmalloc", "realloc0", "valloc", "mnew"}, {100, 300000, 700000, 1100000}, Z>>,
                 <<{"new", "newnt", "anew", "anewntfl", "newfl"}, {100, 300000, 700000, 1100000}, Z>>,
                 <<{"posix", "memalign"}, {500000, 1100000}, {16, 8192}>>, <<Callocs, {100000}, {1, 7, 11}>>},
            !.frees = AllFrees, !.reallocs = R({100, 500000, 1100000}),
            !.injects = {"I 0 -1", "I 0 1", "I 1 1", "I 0 2", "I 0 0", "J 0", "J 100", "J 300", "J -1"}, !.checks = {"KA", "U"}]
    [] name = "oomx" ->       \* exhaustive
         [Base EXCEPT !.ids = 2, !.allocs = {<<{"malloc", "new", "newnt", "calloc", "mnew"}, {1100000}, {1}>>, <<{"posix"}, {500000}, {16}>>, <<{"malloc"}, {100}, Z>>},
            !.frees = {"free", "del"}, !.reallocs = {<<{"realloc"}, {1200000}, Z>>},
            !.injects = {"I 0 -1", "I 0 1", "J 100", "I 0 0"}, !.opt = {"noseed"}]
    [] name = "huge" ->       \* sizes no system can satisfy
         [Base EXCEPT !.ids = 1, !.allocs = {<<{"malloc"}, {10}, Z>>}, !.bad = HugeAllocs]
    [] name = "handler" ->    \* exhaustive: C++ new handler
         [Base EXCEPT !.ids = 1, !.allocs = {<<{"new", "newnt", "newfl", "newntfl", "anew", "anewnt", "anewfl", "anewntfl"}, {1100000}, Z>>, <<{"new"}, {100}, Z>>},
            !.frees = {"del", "adelfl"}, !.handlers = {<<0, 0>>, <<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 2>>, <<4, 1>>, <<4, 2>>},
            !.injects = {"I 0 -1", "I 0 1", "J 100", "I 0 0"}, !.opt = {"noseed"}]
    [] name = "handlersim" ->
         [Base EXCEPT !.ids = 6, !.allocs = {<<NewE \cup NewA, {100, 300000, 1100000}, Z>>},
            !.frees = {"del", "adelfl", "delnt", "adel"}, !.handlers = {<<0, 0>>, <<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 4>>, <<3, 1>>, <<3, 2>>, <<4, 1>>, <<4, 3>>},
            !.injects = {"I 0 -1", "I 0 1", "I 1 1", "J 100", "J -1", "I 0 0"}, !.opt = {"noseed"}]
    [] name = "cycle" ->      \* exhaustive: histories that end with nothing live; run again and again.
                              \* The pages of every request divide the 256 of a new piece of memory.
         [Base EXCEPT !.ids = 2, !.allocs = {<<{"malloc"}, {100, 12000}, Z>>, <<{"new"}, {28000}, Z>>, <<{"memalign"}, {5000}, {8192}>>},
            !.frees = {"free", "del"}, !.reallocs = {<<{"realloc"}, {50}, Z>>}, !.opt = {"noseed", "idle"}, !.final = <<>>]
    [] name = "badfam" ->     \* a mismatch at the end of a random history
         [Base EXCEPT !.ids = 10, !.allocs = Groups(Small \cup {4096, 5000}), !.frees = AllFrees,
            !.bad = {<<"mismatch", f>> : f \in AllFrees} \cup {<<"realloc", r, 0, z>> : r \in {"realloc", "grealloc"}, z \in {30, -2}}, !.opt = {"late", "nosite"}]
    [] name = "late" ->       \* entries of the bookkeeping used many times, then an error
         [Base EXCEPT !.ids = 6, !.allocs = {<<{"malloc", "newfl", "anewfl", "mnew", "gmalloc", "anew"}, {1, 100, 5000}, Z>>}, !.frees = {"free", "gfree", "delfl", "adelfl", "del", "adel", "mdel"},
            !.reallocs = {<<{"realloc"}, {50, 5000}, Z>>}, !.bad = BadFrees, !.opt = {"late"}]
    [] name = "many0" ->      \* many empty blocks
         [Base EXCEPT !.ids = 400, !.reuse = FALSE, !.allocs = {<<{"malloc", "newfl", "anew", "calloc", "realloc0"}, {0}, {1}>>, <<{"malloc"}, {0, 1}, Z>>},
            !.opt = {"noseed"}, !.checks = {"K"}]
    [] name = "oomslots" ->   \* memory runs out while the bookkeeping has to grow
         [Base EXCEPT !.ids = 300, !.reuse = FALSE, !.allocs = {<<{"malloc", "newnt", "calloc"}, {1, 100, 4096}, {1}>>},
            !.frees = {"free", "delnt"}, !.injects = {"I 0 -1", "I 0 0", "I 0 2", "J 40", "J -1"}, !.opt = {"noseed"}]
    [] name = "mixall" ->     \* a little of everything
         [Base EXCEPT !.ids = 8, !.allocs = Groups(Small \cup {4096, 5000}) \cup {<<{"malloc", "calloc", "newfl", "anew", "realloc0", "posix"}, {0}, {8}>>}, !.frees = AllFrees,
            !.reallocs = R({0, 1, 17, 5000}), !.peeks = {<<"e", 0, 0>>, <<"b", -1, 0>>, <<"e", 20, 1>>}, !.checks = {"KA", "K", "U"}, !.nulls = Nulls,
            !.opt = {"L", "nosite", "noseed"}]
    [] name = "first" ->      \* exhaustive: every call as the first one, and after one other
         [Base EXCEPT !.ids = 2, !.allocs = {<<AllAllocs \ (Aligned \cup {"strdup", "gstrdup", "macstrdup"}), {0, 1, 5000}, {1}>>,
                 <<{"strdup", "gstrdup", "macstrdup", "macnew"}, {1, 100}, {0}>>, <<Aligned, {0, 100}, {16, 8192}>>},
            !.frees = AllFrees, !.reallocs = {<<{"realloc", "grealloc", "macrealloc"}, {0, 1, 5000}, Z>>}, !.rtargets = {-1, -2},
            !.nulls = {<<t, f>> : t \in {-1, -2}, f \in AllFrees \ {"realloc0", "grealloc0"}},
            !.bad = {<<"wild", f, t, 0>> : f \in AllFrees, t \in {-3, -5}} \cup BadAligns \cup {<<"check", "", 0>>, <<"usable", "d", 0>>, <<"usable", "g", 0>>}
                 \cup {<<"alloc", a, z, "1">> : a \in {"malloc", "new", "newnt", "calloc", "gmalloc", "anewfl"}, z \in {Max64, "9223372036854775808"}},
            !.checks = {"K", "KA", "U", "UG", "i", "L"}, !.handlers = {<<1, 1>>, <<2, 1>>}, !.opt = {"noseed"}]
    [] name = "firstmix" ->   \* the calls of "mixall" with initialisations among them
         [Base EXCEPT !.ids = 8, !.allocs = Groups(Small \cup {4096, 5000}) \cup {<<{"malloc", "calloc", "newfl", "anew", "realloc0", "posix"}, {0}, {8}>>}, !.frees = AllFrees,
            !.reallocs = R({0, 1, 17, 5000}), !.rtargets = {-1, -2}, !.peeks = {<<"e", 0, 0>>, <<"b", -1, 0>>}, !.checks = {"KA", "K", "U", "i", "i"}, !.nulls = Nulls,
            !.opt = {"L", "nosite"}]
    [] OTHER -> Base
=============================================================================
