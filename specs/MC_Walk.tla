---- MODULE MC_Walk ----
(* Design model of going through a tree: a machine with an agenda of places (paths from the root) still to be
   visited; a visited place may be marked: its branch is not gone into (a stopped walk) or the node there is
   replaced first (an edit).
   Explored: trees of every kind of node, with every choice of up to MaxMarks marks.
   Invariants: what is visited, in which order and below which nodes, and what becomes of the tree, is what the
   recursive definitions of Walk.tla say; no place is visited twice and none before the one above it; without
   marks every node is visited; nodes that are not below a replaced one stay as they are. *)
EXTENDS Walk, Json, FiniteSets
CONSTANTS MaxMarks, Trees
VARIABLES w, api, tree, agenda, seen, marks, pc
vars == <<w, api, tree, agenda, seen, marks, pc>>
Blk(q) == N("block", "", q)
Par(q) == N("params", "", q)
U == <<
  File(".bzl", <<N("def", "f", <<Par(<<Id("a"), Asg("b", N("num", "1", <<>>)), N("un", "*", <<Id("c")>>)>>), None,
     Blk(<<N("if", "", <<Id("x"), Blk(<<N("return", "", <<Id("y")>>)>>), Blk(<<N("for", "", <<Id("i"), Id("z"), Blk(<<N("branch", "pass", <<>>)>>)>>)>>)>>), N("return", "", <<>>)>>)>>)>>),
  File(".bzl", <<Asg("x", N("comp", "[", <<Id("a"), N("forc", "", <<Id("a"), Id("c")>>), N("ifc", "", <<Id("d")>>)>>)), Asg("y", Dict(<<Kv(S("k"), Id("v")), Kv(S("l"), L(<<>>))>>))>>),
  File(".bzl", <<N("load", "m.bzl", <<N("sym", "a", <<Id("a")>>), N("sym", "b", <<Id("c")>>)>>), Call("r", <<Asg("name", S("n")), N("un", "**", <<Id("k")>>)>>)>>),
  File("BUILD", <<Asg("x", N("cond", "", <<Id("a"), N("bin", "<", <<Id("b"), N("num", "2", <<>>)>>), N("un", "not", <<Id("d")>>)>>)), Asg("y", N("lambda", "", <<Par(<<Id("p")>>), Blk(<<N("index", "", <<Id("p"), Id("q")>>)>>)>>))>>),
  File("default", <<Asg("x", N("slice", "1", <<N("dot", "f", <<Id("a")>>), Id("b"), None, None>>)), Asg("y", N("tuple", "", <<Id("a"), N("set", "", <<Id("b"), S("c")>>)>>)), N("comment", "", <<>>)>>),
  File("WORKSPACE", <<CallN(N("dot", "g", <<Call("f", <<>>)>>), <<L(<<S("a"), Call("h", <<Id("b")>>)>>)>>), N("if", "", <<Id("c"), Blk(<<N("branch", "pass", <<>>)>>), Blk(<<>>)>>)>>)
>>
RECURSIVE At(_, _), PutAt(_, _, _)
At(n, p) == IF p = <<>> THEN n ELSE At(Kids(n)[Head(p)], Tail(p))
PutAt(n, p, x) == IF p = <<>> THEN x ELSE LET k == Kids(n) IN PutKids(n, [k EXCEPT ![Head(p)] = PutAt(@, Tail(p), x)])
Front(p) == SubSeq(p, 1, Len(p) - 1)
Init == w \in Trees /\ api \in {"WalkInterruptable", "Edit"} /\ tree = U[w] /\ agenda = <<<<>>>> /\ seen = <<>> /\ marks = {} /\ pc = "go"
Below2(p, n) == LET k == Len(Kids(n)) IN [i \in 1..k |-> Append(p, i)]
Go == /\ pc = "go" /\ agenda # <<>>
      /\ LET p == Head(agenda) n == At(tree, p) i == Len(seen) + 1
             up == [j \in 1..Len(p) |-> (CHOOSE m \in 1..Len(seen) : seen[m].p = SubSeq(p, 1, j - 1))]
         IN /\ seen' = Append(seen, [p |-> p, x |-> Visit(n, up)])
            /\ \/ tree' = tree /\ marks' = marks /\ agenda' = Below2(p, n) \o Tail(agenda)
               \/ Cardinality(marks) < MaxMarks /\ marks' = marks \cup {i} /\
                  (IF api = "Edit" THEN tree' = PutAt(tree, p, Other(n)) /\ agenda' = Below2(p, Other(n)) \o Tail(agenda)
                   ELSE tree' = tree /\ agenda' = Tail(agenda))
      /\ UNCHANGED <<w, api, pc>>
Stop == pc = "go" /\ agenda = <<>> /\ pc' = "done" /\ UNCHANGED <<w, api, tree, agenda, seen, marks>>
Next == Go \/ Stop
Done == pc = "done"
Visits == [i \in 1..Len(seen) |-> seen[i].x]
Agrees == Done => Visits = (IF api = "Edit" THEN Seen(U[w], 1, <<>>, marks) ELSE Pre(U[w], 1, <<>>, marks, FALSE)) /\ tree = (IF api = "Edit" THEN Edit(U[w], 1, marks).n ELSE U[w])
Once == \A i, j \in 1..Len(seen) : i # j => seen[i].p # seen[j].p
After == \A i \in 1..Len(seen) : seen[i].p # <<>> => \E j \in 1..(i - 1) : seen[j].p = Front(seen[i].p)
RECURSIVE Count(_)
Count(n) == 1 + (LET k == Kids(n) s[i \in 0..Len(k)] == IF i = 0 THEN 0 ELSE s[i - 1] + Count(k[i]) IN s[Len(k)])
All == Done /\ (marks = {} \/ api = "Edit") => Len(seen) = Count(tree)
\* places that are not at or below a mark are as they were
Marked(p) == \E i \in 1..Len(seen) : i \in marks /\ Len(seen[i].p) <= Len(p) /\ SubSeq(p, 1, Len(seen[i].p)) = seen[i].p
Above(p) == \E i \in 1..Len(seen) : i \in marks /\ Len(seen[i].p) > Len(p) /\ SubSeq(seen[i].p, 1, Len(p)) = p
Frame == Done => \A i \in 1..Len(seen) : (~Marked(seen[i].p) /\ ~Above(seen[i].p)) => At(tree, seen[i].p) = At(U[w], seen[i].p)
Emit == Done => LET q == SelectSeq([i \in 1..Len(seen) |-> i], LAMBDA i : i \in marks)
                IN PrintT("CASE " \o ToJson([how |-> "walk", api |-> api, path |-> "x/f.bzl", tree |-> U[w], lay |-> 0, stops |-> IF api = "Edit" THEN <<>> ELSE q, errs |-> <<>>,
                     repl |-> IF api = "Edit" THEN q ELSE <<>>, ops |-> <<>>]))
====
