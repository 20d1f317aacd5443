---- MODULE MC_Scope ----
(* A resolver walks over a file and, for every use of a name, goes up from the scope of the use to the innermost one that
   binds the name.  What it marks as used is what Scope.tla computes from the other side, by the free names of functions. *)
EXTENDS Scope, Json
CONSTANTS MaxTop, MaxIn, Rich
VARIABLES prog, todo, marks
vars0 == <<prog, todo, marks>>
One1 == N("num", "1", <<>>)
Forc(x, it) == N("forc", "", <<Id(x), it>>)
Par(q) == N("params", "", q)
Lam(ps, e) == N("lambda", "", <<Par(ps), N("block", "", <<e>>)>>)
DefS(name, ps, body) == N("def", name, <<Par(ps), None, N("block", "", body)>>)
Names2 == {"x", "y"}
Leaves == {Asg("x", One1), Asg("y", Id("x")), N("asg", "+=", <<Id("x"), Id("y")>>), Call("print", <<Id("x")>>), Call("print", <<N("asg", "=", <<Id("x"), Id("y")>>)>>),
           N("comp", "[", <<Id("x"), Forc("x", Id("y"))>>), N("comp", "[", <<Id("y"), Forc("x", Id("x"))>>)}
          \cup (IF Rich THEN {Asg("z", Lam(<<N("asg", "=", <<Id("x"), Id("y")>>)>>, Id("x"))), Asg("z", Lam(<<Id("y")>>, Id("x"))),
                               N("for", "", <<Id("x"), Id("y"), N("block", "", <<Call("print", <<Id("y")>>)>>)>>), N("if", "", <<Id("y"), N("block", "", <<Asg("x", One1)>>), N("block", "", <<>>)>>),
                               N("asg", "=", <<N("tuple", "", <<Id("x"), Id("_u")>>), Id("y")>>), N("asg", "=", <<N("index", "", <<Id("x"), Id("y")>>), One1>>), NC("asg", "=", <<Id("x"), One1>>, <<"B# @unused">>),
                               N("comp", "[", <<Id("x"), Forc("y", Id("y")), Forc("x", Id("y"))>>)} ELSE {})
TopLeaves == IF Rich THEN Leaves ELSE {Asg("x", One1), Call("print", <<Id("x")>>), N("comp", "[", <<Id("y"), Forc("x", Id("x"))>>)}
Seqs(A, k) == UNION {[1..m -> A] : m \in 1..k}
ParLists == {<<>>, <<Id("x")>>, <<N("asg", "=", <<Id("y"), Id("x")>>)>>} \cup (IF Rich THEN {<<N("asg", "=", <<Id("x"), Id("x")>>)>>, <<Id("_x"), N("un", "*", <<Id("y")>>)>>, <<NC("id", "x", <<>>, <<"B# @unused">>), Id("y")>>} ELSE {})
Nested == {DefS("g", ps, <<l>>) : ps \in ParLists, l \in Leaves}
\* functions: plain bodies, or a nested function before or after one statement
Bodies == Seqs(Leaves, MaxIn) \cup {<<a>> : a \in Nested} \cup {<<a, l>> : a \in Nested, l \in {Asg("x", One1), Call("g", <<Id("y")>>)}}
Loads == {<<>>} \cup {<<N("load", ":a.bzl", <<N("sym", "x", <<Id("x")>>), N("sym", "y", <<Id(f)>>)>>)>> : f \in {"y", "z9"}}
           \cup (IF Rich THEN {<<N("load", ":a.bzl", <<N("sym", "x", <<Id("x")>>)>>), N("load", l, <<N("sym", "x", <<Id("x")>>), NC("sym", "y", <<Id("y")>>, c)>>)>> : l \in {":a.bzl", ":b.bzl"}, c \in {<<>>, <<"S# @unused">>}} ELSE {})
Types == IF Rich THEN {".bzl", "BUILD", "default"} ELSE {".bzl", "BUILD"}
\* ---- the resolver
Scope1(id, names) == [id |-> id, names |-> names]
FileScope(q) == Scope1(0, Names(BindsAll(Own(q, 1))))
DefScope(d, n) == Scope1(n, Names(Params(d, n) \o BindsAll(Own(d.k[3].k, n + 1))))
Work(q, n, path) == [i \in 1..Len(q) |-> [s |-> q[i], n |-> n + CountAll(SubSeq(q, 1, i - 1)), path |-> path]]
RECURSIVE Resolve(_, _)
Resolve(x, path) == IF path = <<>> THEN {} ELSE IF x \in path[Len(path)].names THEN {<<path[Len(path)].id, x>>} ELSE Resolve(x, SubSeq(path, 1, Len(path) - 1))
Init == /\ \E ld \in Loads, m \in 1..MaxTop, t \in Types : \E q \in [1..m -> TopLeaves \cup {DefS("f", <<>>, <<N("branch", "pass", <<>>)>>)}], w \in 0..m :
             \E b \in (IF w = 0 THEN {<<>>} ELSE Bodies), ps \in (IF w = 0 THEN {<<>>} ELSE ParLists), nm \in (IF w = 0 THEN {"f"} ELSE {"f", "_f"}) :
               prog = File(t, ld \o [i \in 1..m |-> IF i = w THEN DefS(nm, ps, b) ELSE q[i]])
        /\ todo = Work(prog.k, 1, <<FileScope(prog.k)>>) /\ marks = {}
Next ==
  /\ todo # <<>> /\ UNCHANGED prog
  /\ LET w == todo[1] s == w.s b == Blocks(s)
         inner == IF s.t = "def" THEN Work(s.k[3].k, w.n + 1, Append(w.path, DefScope(s, w.n)))
                  ELSE IF Len(b) = 0 THEN <<>> ELSE IF Len(b) = 1 THEN Work(b[1], w.n + 1, w.path) ELSE Work(b[1], w.n + 1, w.path) \o Work(b[2], w.n + 1 + CountAll(b[1]), w.path)
     IN todo' = inner \o Tail(todo) /\ marks' = marks \cup UNION {Resolve(x, w.path) : x \in SetOf(NameUses(s))}
\* ---- laws
Used(id, own, bs) == {b.x : b \in {c \in SetOf(bs) : <<id, c.x>> \in marks}} = UsedIn(own) \cap Names(bs)
Dual == todo = <<>> =>
  LET own == Own(prog.k, 1) ds == Defs(prog.k, 1)
  IN Used(0, own, BindsAll(own)) /\ \A i \in 1..Len(ds) : LET o2 == Own(ds[i].def.k[3].k, ds[i].n + 1) IN Used(ds[i].n, o2, Params(ds[i].def, ds[i].n) \o BindsAll(o2))
\* the resolver never marks a parameter for what its default reads, nor a function's variable from outside of it
Local == \A m \in marks : m[1] = 0 \/ \E i \in 1..Len(Defs(prog.k, 1)) : Defs(prog.k, 1)[i].n = m[1]
Start == todo = Work(prog.k, 1, <<FileScope(prog.k)>>) /\ marks = {}
\* verdicts on loads: the first load of a name decides; what is removed leaves every use bound as before
LoadLaw == Start => LET sy == Symbols(prog) IN \A i \in 1..Len(sy) : LET v == Verdict(prog, sy, i) IN
  /\ (v = "unused" => sy[i].x \notin UsedIn(Own(prog.k, 1)))
  /\ (v = "twice" => \E j \in 1..i - 1 : sy[j].x = sy[i].x /\ sy[j].lab = sy[i].lab /\ sy[j].from = sy[i].from)
  /\ (v = "used" => \A j \in 1..i - 1 : sy[j].x # sy[i].x)
Emit == Start => PrintT("CASE " \o ToJson([typ |-> prog.v, tree |-> prog, lay |-> 0, cats |-> <<>>]))
====
