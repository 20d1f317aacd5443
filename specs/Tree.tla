---- MODULE Tree ----
(* Syntax trees: a node is a kind t, a value v, children k and attached comments c.  A comment is a
   string whose first character tells where it stands: B in front (whole line), S at the end of the
   line, A after, E before the closing bracket. *)
EXTENDS Str, Integers, Sequences
N(t, v, k) == [t |-> t, v |-> v, k |-> k, c |-> <<>>]
NC(t, v, k, c) == [t |-> t, v |-> v, k |-> k, c |-> c]
WithK(n, k) == [n EXCEPT !.k = k]
WithV(n, v) == [n EXCEPT !.v = v]
None == N("none", "", <<>>)
Id(s) == N("id", s, <<>>)
S(s) == N("str", s, <<>>)
L(q) == N("list", "", q)
Strs(q) == L([i \in 1..Len(q) |-> S(q[i])])
Plus(a, b) == N("bin", "+", <<a, b>>)
Asg(name, e) == N("asg", "=", <<Id(name), e>>)
Kv(a, b) == N("kv", "", <<a, b>>)
Dict(q) == N("dict", "", q)
CallN(f, args) == N("call", "", <<f>> \o args)
Call(kind, args) == CallN(Id(kind), args)
Select(q) == Call("select", <<Dict(q)>>)
File(type, stmts) == N("file", type, stmts)

IsStr(n) == n.t = "str"
IsList(n) == n.t = "list"
IsCall(n) == n.t = "call"
IsCallOf(n, f) == n.t = "call" /\ n.k[1].t = "id" /\ n.k[1].v = f
IsPlus(n) == n.t = "bin" /\ n.v = "+"
IsAsg(n) == n.t = "asg"
Args(call) == Tail(call.k)
\* keyword argument name, "" if none
ArgName(n) == IF n.t = "asg" /\ n.k[1].t = "id" THEN n.k[1].v ELSE ""
\* The dictionary of a select() that has one, else None
IsSelect(n) == IsCallOf(n, "select")
HasDict(n) == IsSelect(n) /\ Len(n.k) >= 2 /\ n.k[2].t = "dict"

RECURSIVE DotName(_)
\* The name of the called rule: an identifier or a dotted chain of them, "" otherwise
DotName(x) ==
  IF x.t = "id" THEN x.v
  ELSE IF x.t = "dot" THEN LET p == DotName(x.k[1]) IN IF p = "" THEN "" ELSE p \o "." \o x.v
  ELSE ""
Kind(call) == DotName(call.k[1])

RECURSIVE Strip(_)
Strip(n) == [t |-> n.t, v |-> n.v, k |-> [i \in 1..Len(n.k) |-> Strip(n.k[i])], c |-> <<>>]
\* a file's statements without the stand-alone comment blocks
StripFile(f) == Strip(WithK(f, SelectSeq(f.k, LAMBDA s : s.t # "comment")))

\* comments of a node that stand at the node itself (not before its closing bracket)
OwnComments(n) == SelectSeq(n.c, LAMBDA c : Upto(c, 1) \in {"B", "S", "A"})
BeforeComments(n) == SelectSeq(n.c, LAMBDA c : Upto(c, 1) = "B")
HasC(n, text) == n.c # <<>> /\ \E i \in 1..Len(n.c) : Upto(n.c[i], 1) \in {"B", "S", "A"} /\ Contains(Lower(n.c[i]), text)
RECURSIVE AnyC(_, _)
AnyC(n, text) == HasC(n, text) \/ \E i \in 1..Len(n.k) : AnyC(n.k[i], text)

RECURSIVE Size(_)
Size(n) == 1 + (LET s[i \in 0..Len(n.k)] == IF i = 0 THEN 0 ELSE s[i - 1] + Size(n.k[i]) IN s[Len(n.k)])
====
