---- MODULE MC_Canon ----
(* Bounded exploration of the normal form: every small rule call (lists, directives, + and select shapes)
   and every short sequence of load statements, in every order a sequence of swaps can produce.
   Invariants: the normal form is idempotent, does not depend on the order in which a sortable list or the
   keyword arguments or the loads were written, and keeps the contents.  Every state is emitted as a case. *)
EXTENDS Canon, Json, FiniteSets
CONSTANTS Labs, MaxLen, Mods, MaxStmts
VARIABLES f
Seqs(A, n) == UNION {[1..k -> A] : k \in 0..n}
Dirs == {<<0, "">>, <<1, "B# keep sorted">>, <<1, "B# do not sort">>, <<2, "B# note">>, <<2, "S# note">>}
ListOf(q, d) == L([i \in 1..Len(q) |-> IF i = d[1] THEN NC("str", q[i], <<>>, <<d[2]>>) ELSE S(q[i])])
Shapes(l) == {l, Plus(l, Strs(<<"z", "a">>)), Select(<<Kv(S(":c"), l), Kv(S("//conditions:default"), L(<<>>))>>)}
Rules == {File("BUILD", <<Call("cc_library", as)>>) : as \in
            UNION {{<<Asg("name", S("n")), Asg(a, v)>>, <<Asg(a, v), Asg("name", S("n"))>>} :
              a \in {"deps", "args"}, v \in UNION {Shapes(ListOf(q, d)) : q \in Seqs(Labs, MaxLen), d \in Dirs}}}
LoadOf(m, ss) == N("load", m, [i \in 1..Len(ss) |-> N("sym", ss[i], <<Id(ss[i])>>)])
Stmts == {LoadOf(m, ss) : m \in Mods, ss \in {<<"b">>, <<"d", "a">>}} \cup {N("asg", "=", <<Id("x"), S("y")>>), S("doc")}
\* one symbol is loaded only once in a file
SymsOf(q) == Flat([i \in 1..Len(q) |-> IF IsLoad(q[i]) THEN [j \in 1..Len(q[i].k) |-> q[i].k[j].v] ELSE <<>>])
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Loads == {File(t, q) : t \in {"BUILD", ".bzl", "WORKSPACE"}, q \in {q \in Seqs(Stmts, MaxStmts) : Distinct(SymsOf(q)) /\ q # <<>>}}
Init == f \in Rules \cup Loads
Next == f' = Canon(f)
Str1(n) == n.t = "str"
RECURSIVE Leaves(_)
Leaves(n) == IF n.t = "str" THEN {n.v} ELSE (IF n.t \in {"sym", "load"} THEN {n.v} ELSE {}) \cup UNION {Leaves(n.k[i]) : i \in 1..Len(n.k)}
Idempotent == Canon(Canon(f)) = Canon(f)
\* labels only change their spelling
Contents == {ShortLabel(x, DefaultTb) : x \in Leaves(Canon(f))} = {ShortLabel(x, DefaultTb) : x \in Leaves(f)}
RECURSIVE NoComments(_)
NoComments(n) == n.c = <<>> /\ \A i \in 1..Len(n.k) : NoComments(n.k[i])
\* reversing the arguments and the lists of a call without directives leads to the same normal form
RECURSIVE RevLists(_)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RevLists(n) == WithK(n, IF n.t = "list" THEN Rev(n.k) ELSE IF n.t = "call" /\ Kind(n) = "cc_library" THEN <<n.k[1]>> \o Rev([i \in 1..Len(n.k) - 1 |-> RevLists(n.k[i + 1])]) ELSE [i \in 1..Len(n.k) |-> RevLists(n.k[i])])
Sortable(x) == x.k[1].t = "call" => \A i \in 2..Len(x.k[1].k) : ArgName(x.k[1].k[i]) # "args"
OrderFree == (f.k[1].t = "call" /\ Len(f.k) = 1 /\ NoComments(f) /\ Sortable(f)) => Canon(RevLists(f)) = Canon(f)
\* loads: exchanging two statements of different files does not matter, except in WORKSPACE files
LoadOrderFree == (f.v # "WORKSPACE" /\ \A i \in 1..Len(f.k) : IsLoad(f.k[i])) => Canon(WithK(f, Rev(f.k))) = Canon(f)
Emit == PrintT("CASE " \o ToJson([tree |-> f, lay |-> 0]))
====
