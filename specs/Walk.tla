---- MODULE Walk ----
(* Going through syntax trees, changing them on the way, and the view of a file as a list of rules. *)
EXTENDS Tree, Labels, TLC
\* the nodes below a node, in order; type annotations are not gone through
Kids(n) ==
  CASE n.t = "typed" -> <<>>
    [] n.t = "load" -> <<S(n.v)>> \o Flat([i \in 1..Len(n.k) |-> <<n.k[i].k[1], Id(n.k[i].v)>>])
    [] n.t = "def" -> n.k[1].k \o n.k[3].k
    [] n.t = "lambda" -> n.k[1].k \o n.k[2].k
    [] n.t = "if" -> <<n.k[1]>> \o n.k[2].k \o n.k[3].k
    [] n.t = "for" -> <<n.k[1], n.k[2]>> \o n.k[3].k
    [] OTHER -> SelectSeq(n.k, LAMBDA x : x.t # "none")
\* the same node with other nodes below it (as many)
RECURSIVE Refill(_, _)
Refill(old, q) == IF old = <<>> THEN <<>> ELSE IF Head(old).t = "none" THEN <<Head(old)>> \o Refill(Tail(old), q) ELSE <<Head(q)>> \o Refill(Tail(old), Tail(q))
PutKids(n, q) ==
  LET part(a, b) == SubSeq(q, a, b) IN
  CASE n.t = "typed" -> n
    [] n.t = "load" -> N("load", q[1].v, [i \in 1..Len(n.k) |-> N("sym", q[2 * i + 1].v, <<q[2 * i]>>)])
    [] n.t = "def" -> LET m == Len(n.k[1].k) IN WithK(n, <<WithK(n.k[1], part(1, m)), n.k[2], WithK(n.k[3], part(m + 1, Len(q)))>>)
    [] n.t = "lambda" -> LET m == Len(n.k[1].k) IN WithK(n, <<WithK(n.k[1], part(1, m)), WithK(n.k[2], part(m + 1, Len(q)))>>)
    [] n.t = "if" -> LET m == Len(n.k[2].k) IN WithK(n, <<q[1], WithK(n.k[2], part(2, m + 1)), WithK(n.k[3], part(m + 2, Len(q)))>>)
    [] n.t = "for" -> WithK(n, <<q[1], q[2], WithK(n.k[3], part(3, Len(q)))>>)
    [] OTHER -> WithK(n, Refill(n.k, q))
SKids(n) == CASE n.t = "file" -> n.k [] n.t \in {"def", "for"} -> n.k[3].k [] n.t = "if" -> n.k[2].k \o n.k[3].k [] OTHER -> <<>>
\* the visits from a node on: number i, which nodes are above it, and where not to go further
Visit(n, up) == [t |-> n.t, v |-> n.v, up |-> up]
Below(st, n) == IF st THEN SKids(n) ELSE Kids(n)
RECURSIVE Pre(_, _, _, _, _), PreSeq(_, _, _, _, _)
Pre(n, i, up, stops, st) == <<Visit(n, up)>> \o (IF i \in stops THEN <<>> ELSE PreSeq(Below(st, n), i + 1, Append(up, i), stops, st))
PreSeq(q, i, up, stops, st) ==
  IF q = <<>> THEN <<>> ELSE LET a == Pre(Head(q), i, up, stops, st) IN a \o PreSeq(Tail(q), i + Len(a), up, stops, st)
\* what is put in the place of a node: something that may stand there
Other(n) ==
  CASE n.t = "id" -> Id("R") [] n.t = "str" -> S("R") [] n.t = "kv" -> Kv(S("K"), Id("V"))
    [] n.t = "forc" -> N("forc", "", <<Id("A"), Id("B")>>) [] n.t = "ifc" -> N("ifc", "", <<Id("C")>>)
    [] OTHER -> Call("f", <<S("a"), Asg("b", Id("c"))>>)
\* editing: the nodes visited at some times are replaced, and what replaces them is gone through
RECURSIVE Edit(_, _, _), EditSeq(_, _, _)
Edit(n, i, R) ==
  LET m == IF i \in R THEN Other(n) ELSE n r == EditSeq(Kids(m), i + 1, R) IN [n |-> PutKids(m, r.q), i |-> r.i]
EditSeq(q, i, R) ==
  IF q = <<>> THEN [q |-> <<>>, i |-> i] ELSE LET a == Edit(Head(q), i, R) b == EditSeq(Tail(q), a.i, R) IN [q |-> <<a.n>> \o b.q, i |-> b.i]
\* the node itself is not visited
EditBelow(n, R) == PutKids(n, EditSeq(Kids(n), 1, R).q)
\* what is seen: every node as it is before it is replaced
RECURSIVE Seen(_, _, _, _), SeenSeq(_, _, _, _)
Seen(n, i, up, R) == LET m == IF i \in R THEN Other(n) ELSE n IN <<Visit(n, up)>> \o SeenSeq(Kids(m), i + 1, Append(up, i), R)
SeenSeq(q, i, up, R) == IF q = <<>> THEN <<>> ELSE LET a == Seen(Head(q), i, up, R) IN a \o SeenSeq(Tail(q), i + Len(a), up, R)

(* ---- rules ---- *)
RECURSIVE Outer(_)
\* calls that are in no other call
Outer(n) == IF IsCall(n) THEN <<n>> ELSE LET k == Kids(n) IN Flat([i \in 1..Len(k) |-> Outer(k[i])])
IsAttr(x, a) == x.t = "asg" /\ x.k[1].t = "id" /\ x.k[1].v = a
Pos(call, a) == LET K == {i \in 2..Len(call.k) : IsAttr(call.k[i], a)} IN IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : i <= j
GetAttr(call, a) == LET i == Pos(call, a) IN IF i = 0 THEN None ELSE call.k[i].k[2]
PutAttr(call, a, x) == LET i == Pos(call, a) IN IF i = 0 THEN WithK(call, Append(call.k, Asg(a, x))) ELSE WithK(call, [call.k EXCEPT ![i] = WithK(@, <<@.k[1], x>>)])
CutAttr(call, a) == LET i == Pos(call, a) IN IF i = 0 THEN call ELSE WithK(call, SubSeq(call.k, 1, i - 1) \o SubSeq(call.k, i + 1, Len(call.k)))
Keys(call) == LET q == SelectSeq(Tail(call.k), LAMBDA x : x.t = "asg" /\ x.k[1].t = "id") IN [i \in 1..Len(q) |-> q[i].k[1].v]
StrOf(x) == IF x.t = "str" THEN x.v ELSE ""
Explicit(call) == StrOf(GetAttr(call, "name"))
DirOf(path) == LET i == LastIndex(path, "/") IN IF i = 0 THEN "." ELSE Upto(path, i - 1)
Implied(f, path) ==
  LET d == DirOf(path) calls == SelectSeq(f.k, IsCall) nameless == SelectSeq(calls, LAMBDA c : Kind(c) # "" /\ Explicit(c) = "")
  IN IF d = "." \/ (\E i \in 1..Len(calls) : Explicit(calls[i]) = Base(d)) \/ Len(nameless) # 1 THEN "" ELSE Base(d)
NameIn(f, path, call) == IF Explicit(call) # "" THEN Explicit(call) ELSE IF Kind(call) = "package" THEN "" ELSE Implied(f, path)
RulesOf(f, kind) == SelectSeq(Flat([i \in 1..Len(f.k) |-> Outer(f.k[i])]), LAMBDA c : kind = "" \/ Kind(c) = kind)
Named(f, path, name) == LET q == SelectSeq(RulesOf(f, ""), LAMBDA c : NameIn(f, path, c) = name) IN IF Len(q) = 1 THEN q[1] ELSE None
\* deleting statement by statement; the name of a nameless rule depends on what is left
Struck(f, path, c, kind, name) == IsCall(c) /\ (kind = "" \/ Kind(c) = kind) /\ (name = "" \/ NameIn(f, path, c) = name)
DelRules(f, path, kind, name) == WithK(f, SelectSeq(f.k, LAMBDA c : ~Struck(f, path, c, kind, name)))
RECURSIVE DotsOf(_)
DotsOf(q) == IF Len(q) = 1 THEN Id(q[1]) ELSE N("dot", q[Len(q)], <<DotsOf(SubSeq(q, 1, Len(q) - 1))>>)
PutKind(call, kind) == WithK(call, <<DotsOf(Split(kind, "."))>> \o Tail(call.k))
Q(vs) == N("q", "", [i \in 1..Len(vs) |-> S(vs[i])])
\* one operation: the result and the file afterwards
Do(f, path, op) ==
  LET here == op.i \in 1..Len(f.k) /\ IsCall(f.k[op.i])
      c == f.k[op.i]
      same(x) == [r |-> x, f |-> f]
      put(x, d) == [r |-> x, f |-> WithK(f, [f.k EXCEPT ![op.i] = d])]
  IN CASE op.op = "rules" -> same(N("q", "", RulesOf(f, op.key)))
       [] op.op = "named" -> same(Named(f, path, op.key))
       [] op.op = "delrules" -> LET g == DelRules(f, path, op.kind, op.key) IN [r |-> N("num", ToString(Len(f.k) - Len(g.k)), <<>>), f |-> g]
       [] ~here -> same(None)
       [] op.op = "kind" -> same(S(Kind(c)))
       [] op.op = "setkind" -> put(None, PutKind(c, op.kind))
       [] op.op = "name" -> same(Q(<<NameIn(f, path, c), Explicit(c)>>))
       [] op.op = "keys" -> same(Q(Keys(c)))
       [] op.op = "get" -> same(GetAttr(c, op.key))
       [] op.op = "str" -> same(S(StrOf(GetAttr(c, op.key))))
       [] op.op = "lit" -> LET x == GetAttr(c, op.key) IN same(S(IF x.t \in {"id", "num"} THEN x.v ELSE ""))
       [] op.op = "strs" -> LET x == GetAttr(c, op.key) IN same(IF x.t = "list" /\ (\A i \in 1..Len(x.k) : x.k[i].t = "str") THEN x ELSE None)
       [] op.op = "set" -> put(None, PutAttr(c, op.key, op.val))
       [] op.op = "del" -> put(GetAttr(c, op.key), CutAttr(c, op.key))
RECURSIVE Run(_, _, _)
Run(f, path, ops) == IF ops = <<>> THEN [r |-> <<>>, f |-> f] ELSE LET a == Do(f, path, Head(ops)) b == Run(a.f, path, Tail(ops)) IN [r |-> <<a.r>> \o b.r, f |-> b.f]
====
