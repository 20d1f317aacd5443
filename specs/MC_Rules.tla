---- MODULE MC_Rules ----
(* Design model of rules as maps from attribute names to values: every history of up to MaxOps operations on the
   rules of small files.  Invariants (laws of maps and of frames): after setting an attribute it has that value;
   after deleting it the next definition of it, if any, is in effect; the other attributes, the other arguments,
   the other rules and the order stay as they were; the rules of a file are its outermost calls, each once; a
   named rule is found if it is the only one of that name.  Every history is emitted. *)
EXTENDS Walk, Json, FiniteSets
CONSTANTS MaxOps, Start
VARIABLES f, path, ops, was, orig
vars == <<f, path, ops, was, orig>>
Files == <<
  [p |-> "x/BUILD", f |-> File("BUILD", <<Call("r", <<Asg("name", S("n")), Asg("a", S("1")), Asg("a", S("2")), Id("p"), N("un", "**", <<Id("k")>>)>>), CallN(N("dot", "r", <<Id("m")>>), <<Asg("a", Strs(<<"x">>))>>)>>)],
  [p |-> "x/BUILD", f |-> File("BUILD", <<Call("r", <<>>), S("doc"), Call("package", <<Asg("name", S("x"))>>), Asg("v", L(<<Call("r", <<Asg("name", S("n")), Asg("c", Call("r", <<>>))>>)>>))>>)],
  [p |-> "BUILD", f |-> File("BUILD", <<Call("r", <<Asg("a", Id("t"))>>), Call("r", <<Asg("name", S("n"))>>), CallN(Call("g", <<>>), <<Asg("name", S("n"))>>)>>)] >>
Op(o, i, key, kind, val) == [op |-> o, i |-> i, key |-> key, kind |-> kind, val |-> val]
ValSet == {S("n"), S("x"), Strs(<<"p", "q">>), Id("T"), N("num", "3", <<>>)}
AllOps(n) ==
  {Op(o, i, a, "", None) : o \in {"get", "del", "str", "strs", "lit"}, i \in 1..n, a \in {"a", "name"}} \cup
  {Op("set", i, a, "", v) : i \in 1..n, a \in {"a", "name", "b"}, v \in ValSet} \cup
  {Op(o, i, "", "", None) : o \in {"name", "keys", "kind"}, i \in 1..n} \cup
  {Op("setkind", i, "", k, None) : i \in 1..n, k \in {"r", "m.r"}} \cup
  {Op("rules", 0, k, "", None) : k \in {"", "r", "m.r"}} \cup {Op("named", 0, x, "", None) : x \in {"n", "x", ""}} \cup
  {Op("delrules", 0, x, k, None) : x \in {"n", "x", ""}, k \in {"", "r", "m.r"}}
Init == /\ \E i \in Start : f = Files[i].f /\ path = Files[i].p
        /\ ops = <<>> /\ was = f /\ orig = f
Step == /\ Len(ops) < MaxOps /\ \E o \in AllOps(Len(f.k)) : f' = Do(f, path, o).f /\ ops' = Append(ops, o)
        /\ was' = f /\ UNCHANGED <<path, orig>>
Next == Step
Last == ops[Len(ops)]
R == Do(was, path, Last).r
Ready == ops # <<>>
AtCall == Last.i \in 1..Len(was.k) /\ IsCall(was.k[Last.i])
Rest(c, a) == SelectSeq(c.k, LAMBDA x : ~IsAttr(x, a))
SetLaw == (Ready /\ Last.op = "set" /\ AtCall) => LET c == was.k[Last.i] d == f.k[Last.i] IN
  /\ GetAttr(d, Last.key) = Last.val /\ Rest(d, Last.key) = Rest(c, Last.key)
  /\ Len(d.k) = Len(c.k) + (IF Pos(c, Last.key) = 0 THEN 1 ELSE 0)
  /\ \A a \in {"a", "b", "name"} \ {Last.key} : GetAttr(d, a) = GetAttr(c, a)
DelLaw == (Ready /\ Last.op = "del" /\ AtCall) => LET c == was.k[Last.i] d == f.k[Last.i] IN
  /\ R = GetAttr(c, Last.key) /\ Rest(d, Last.key) = Rest(c, Last.key) /\ Len(d.k) = Len(c.k) - (IF R = None THEN 0 ELSE 1)
  /\ (Cardinality({i \in 1..Len(c.k) : IsAttr(c.k[i], Last.key)}) <= 1 => GetAttr(d, Last.key) = None)
OthersLaw == (Ready /\ Last.op \in {"set", "del", "setkind"}) => Len(f.k) = Len(was.k) /\ \A i \in 1..Len(f.k) \ {Last.i} : f.k[i] = was.k[i]
ReadLaw == (Ready /\ Last.op \notin {"set", "del", "setkind", "delrules"}) => f = was
KindLaw == (Ready /\ Last.op = "setkind" /\ AtCall) => Kind(f.k[Last.i]) = Last.kind /\ Tail(f.k[Last.i].k) = Tail(was.k[Last.i].k)
DelRulesLaw == (Ready /\ Last.op = "delrules") =>
  /\ R.v = ToString(Len(was.k) - Len(f.k))
  /\ \A i \in 1..Len(was.k) : ~IsCall(was.k[i]) => \E j \in 1..Len(f.k) : f.k[j] = was.k[i]
\* the rules of a file by kind are a part of all its rules, and no rule is in another one
RulesLaw == LET q == RulesOf(f, "") IN /\ \A k \in {"r", "m.r"} : RulesOf(f, k) = SelectSeq(q, LAMBDA c : Kind(c) = k)
                                      /\ \A i \in 1..Len(q) : IsCall(q[i])
NamedLaw == \A x \in {"n", "x"} : LET c == Named(f, path, x) IN c # None => NameIn(f, path, c) = x
Emit == (Len(ops) = MaxOps) => PrintT("CASE " \o ToJson([how |-> "rule", api |-> "", path |-> path, tree |-> orig, lay |-> 0, stops |-> <<>>, errs |-> <<>>, repl |-> <<>>, ops |-> ops]))
====
