---- MODULE Bzlmod ----
(* Module extensions in a MODULE.bazel file.  A usage of an extension is identified by its file (a label, in
   whatever spelling), its name and whether it is a dev dependency; all the variables ("proxies") assigned from
   use_extension with the same three stand for one usage, but an isolated one stands alone. *)
EXTENDS Canon
UseExt(s) == IF s.t = "asg" /\ s.k[1].t = "id" /\ IsCallOf(s.k[2], "use_extension") THEN Len(s.k[2].k) >= 3 /\ IsStr(s.k[2].k[2]) /\ IsStr(s.k[2].k[3]) ELSE FALSE
Flag(call, a) == \E i \in 4..Len(call.k) : ArgName(call.k[i]) = a /\ ~(call.k[i].k[2].t = "id" /\ call.k[i].k[2].v = "False")
ArgStr(call, a) == LET I == {i \in 2..Len(call.k) : ArgName(call.k[i]) = a} IN IF I = {} THEN "" ELSE IF IsStr(call.k[Min2(I)].k[2]) THEN call.k[Min2(I)].k[2].v ELSE ""
\* the name the module goes by in labels of its own
ModName(f) == LET I == {i \in 1..Len(f.k) : IsCallOf(f.k[i], "module") /\ (ArgStr(f.k[i], "repo_name") # "" \/ ArgStr(f.k[i], "name") # "")}
              IN IF I = {} THEN "" ELSE LET m == f.k[Max2(I)] IN IF ArgStr(m, "repo_name") # "" THEN ArgStr(m, "repo_name") ELSE ArgStr(m, "name")
ExtFile(s, f) == LET l == ParseRel(s, "") IN IF l.repo = "" THEN [l EXCEPT !.repo = ModName(f)] ELSE l
ProxiesOf(f, lab, name, dev) ==
  {f.k[i].k[1].v : i \in {i \in 1..Len(f.k) : UseExt(f.k[i]) /\ LET c == f.k[i].k[2] IN ExtFile(c.k[2].v, f) = ExtFile(lab, f) /\ c.k[3].v = name /\ Flag(c, "dev_dependency") = dev /\ ~Flag(c, "isolate")}}
\* all the names of the usage that proxy p belongs to
Siblings(f, p) ==
  LET I == {i \in 1..Len(f.k) : UseExt(f.k[i]) /\ f.k[i].k[1].v = p}
      c == f.k[Min2(I)].k[2]
  IN IF I = {} THEN {} ELSE IF Flag(c, "isolate") THEN {p} ELSE ProxiesOf(f, c.k[2].v, c.k[3].v, Flag(c, "dev_dependency"))
UseReposOf(f, P) == {i \in 1..Len(f.k) : IsCallOf(f.k[i], "use_repo") /\ Len(f.k[i].k) >= 2 /\ f.k[i].k[2].t = "id" /\ f.k[i].k[2].v \in P}
\* the repository an argument of use_repo imports, by its name inside the extension
Imported(x) == IF IsStr(x) THEN x.v ELSE IF IsAsg(x) /\ IsStr(x.k[2]) THEN x.k[2].v ELSE ""
Imports(f, P) == Flat([i \in 1..Len(f.k) |-> IF i \in UseReposOf(f, P) THEN [j \in 1..Len(f.k[i].k) - 2 |-> Imported(f.k[i].k[j + 2])] ELSE <<>>])
UserOf(s, P) == IF UseExt(s) THEN (IF s.k[1].v \in P THEN s.k[1].v ELSE "")
                ELSE IF s.t = "call" /\ s.k[1].t = "dot" /\ s.k[1].k[1].t = "id" /\ s.k[1].k[1].v \in P THEN s.k[1].k[1].v ELSE ""
IsExtLabel(s) == HasPrefix(s, "@") \/ HasPrefix(s, "//")
\* the usage and the repositories that the arguments of a command name
Request(f, a) ==
  LET dev == a[1] = "dev" /\ IsExtLabel(a[2])
      b == IF dev THEN Tail(a) ELSE a
  IN IF IsExtLabel(b[1]) THEN [P |-> ProxiesOf(f, b[1], b[2], dev), repos |-> SubSeq(b, 3, Len(b))]
     ELSE [P |-> Siblings(f, b[1]), repos |-> Tail(b)]
\* What a command asks of a file f: an error, new statements in place of some, at most one statement after one
UseRepoCmd(add, f, a) ==
  LET q == Request(f, a)
      U == UseReposOf(f, q.P)
      have == SetOf(Imports(f, q.P))
      new == SelectSeq(Uniq(q.repos), LAMBDA r : r \notin have)
      put(call) == WithK(call, call.k \o [i \in 1..Len(new) |-> S(new[i])])
      cut(call) == WithK(call, SubSeq(call.k, 1, 2) \o SelectSeq(SubSeq(call.k, 3, Len(call.k)), LAMBDA x : Imported(x) \notin SetOf(q.repos)))
      last == Max2({i \in 1..Len(f.k) : UserOf(f.k[i], q.P) # ""})
  IN IF f.v # "MODULE.bazel" \/ q.P = {} THEN [err |-> TRUE, at |-> {}, with |-> <<>>, after |-> 0, new |-> None]
     ELSE [err |-> FALSE, at |-> IF add THEN (IF U = {} THEN {} ELSE {Max2(U)}) ELSE U,
           with |-> [i \in 1..Len(f.k) |-> IF i \in U THEN (IF add THEN put(f.k[i]) ELSE cut(f.k[i])) ELSE None],
           after |-> IF add /\ U = {} THEN last ELSE 0,
           new |-> IF add /\ U = {} THEN put(Call("use_repo", <<Id(UserOf(f.k[last], q.P))>>)) ELSE None]
====
