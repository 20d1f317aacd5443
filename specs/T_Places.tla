---- MODULE T_Places ----
(* Conformance of everything that goes by the names and places of files. *)
EXTENDS Places, TraceCommon
VARIABLES h, done
YesNo(b) == IF b THEN "yes" ELSE "no"
Top(p) == IF p = "!" THEN "" ELSE IF p = "" THEN "R" ELSE "R/" \o p
Lines(E, fs) == [i \in 1..Len(fs) |-> fs[i] \o (IF LoadFound(E, fs[i]) THEN " finds" ELSE "")]
Froms(a) == [i \in 1..Len(a.args) |-> PathFrom(a.cwd, a.args[i])]
Want(E, a) ==
  CASE a.op = "type" -> [i \in 1..Len(a.args) |-> FileType(a.args[i])]
    [] a.op = "root" -> LET d == Froms(a)[1] w == Root(E, d) IN IF w = "!" THEN <<"", "">> ELSE <<Top(w), Rel(w, d)>>
    [] a.op = "split" -> LET p == Place(E, Froms(a)[1]) IN <<Top(p[1]), p[2], p[3]>>
    [] a.op = "regular" -> <<YesNo(KindAt(E, Froms(a)[1]) = "file")>>
    [] a.op = "expand" -> Expand(E, Froms(a))
    [] a.op = "run" -> LET q == Expand(E, Froms(a)) IN IF q = <<"!">> THEN q ELSE Lines(E, q)
    [] a.op = "stdin" -> Lines(E, Froms(a))
    [] OTHER -> <<>>
Pairs(q) == {<<q[i].name, q[i].file>> : i \in 1..Len(q)}
Ok(E, a, o) ==
  IF a.op = "repo" THEN {<<o[2 * i - 1], o[2 * i]>> : i \in 1..(Len(o) \div 2)} = {<<x[1], Top(x[2])>> : x \in RepoFiles(Froms(a)[1], a.rules)}
  ELSE o = Want(E, a)
Init == h \in 1..NRecs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED h
        /\ LET r == Recs[h] IN IF r.st # "ok" THEN Bad(h, r.st)
           ELSE LET E == r.in.ents
                    I == {i \in 1..Len(r.in.asks) : ~Ok(E, r.in.asks[i], r.obs.said[i])}
                IN I = {} \/ LET i == Min2(I) IN BadWant(h, r.in.asks[i].op \o ": " \o ToString(r.in.asks[i].args), ToString(IF r.in.asks[i].op = "repo" THEN RepoFiles(Froms(r.in.asks[i])[1], r.in.asks[i].rules) ELSE Want(E, r.in.asks[i])))
====
