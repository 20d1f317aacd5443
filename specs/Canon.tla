---- MODULE Canon ----
(* The formatter's normal form: what a formatted file's tree is, given the tree of the source.
   BUILD-like files: keyword arguments in priority order, labels shortened, sortable lists sorted and
   de-duplicated.  All files: loads merged, sorted and moved to the top, arguments ordered
   positional/named/ *args / **kwargs, number spelling.  Directives in comments are respected. *)
EXTENDS Tree, Labels, Tables, TLC

BuildLike == {"BUILD", "WORKSPACE", "MODULE.bazel"}

(* The tables in effect. *)
DefaultTb == [label |-> LabelArgs, deny |-> LabelDeny, sortable |-> SortableArgs, sdeny |-> SortableDeny,
              sallow |-> SortableAllow, prio |-> PrioTab, strip |-> FALSE, shorten |-> FALSE, pkg |-> ""]
PrioOf(tb, rule, arg) ==
  IF (rule \o "." \o arg) \in DOMAIN tb.prio THEN tb.prio[rule \o "." \o arg]
  ELSE IF arg \in DOMAIN tb.prio THEN tb.prio[arg] ELSE 0

(* ---- labels ---- *)
WordChars == {Chr("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", i) : i \in 1..63}
IsWord(s) == s # "" /\ \A i \in 1..Len(s) : Chr(s, i) \in WordChars
\* [@repo]//pkg:target with a redundant target, [@repo]//:repo
ShortLabel0(s) ==
  LET i == Index(s, "//")
      repo == IF i > 1 THEN SubSeq(s, 2, i - 1) ELSE ""
      body == IF i = 0 THEN "" ELSE From(s, i + 2)
      j == LastIndex(body, ":")
      pkg == IF j = 0 THEN body ELSE Upto(body, j - 1)
      tgt == IF j = 0 THEN "" ELSE From(body, j + 1)
  IN IF i = 0 \/ (i > 1 /\ (~HasPrefix(s, "@") \/ ~IsWord(repo))) \/ j = 0 \/ tgt = "" \/ Contains(Base(pkg), ":") \/ Contains(tgt, "/") THEN s
     ELSE IF Base(pkg) # "" /\ Base(pkg) = tgt THEN Upto(s, Len(s) - Len(tgt) - 1)
     ELSE IF repo # "" /\ Base(pkg) = "" /\ repo = tgt THEN "@" \o repo
     ELSE s
ShortLabelStrip(s) == \* labels written without leading slashes
  LET j == LastIndex(s, ":")
      pkg == Upto(s, j - 1)
      tgt == From(s, j + 1)
  IN IF HasPrefix(s, "@") /\ ShortLabel0(s) # s THEN ShortLabel0(s)
     ELSE IF j # 0 /\ Base(pkg) # "" /\ Base(pkg) = tgt THEN pkg ELSE s
ShortLabel(s0, tb) ==
  LET pre == IF tb.strip THEN "" ELSE "//"
      s1 == IF tb.strip /\ HasPrefix(s0, "//") /\ (tb.pkg = "." \/ ~HasPrefix(s0, "//:")) THEN From(s0, 3) ELSE s0
      this == pre \o tb.pkg
      s2 == IF ~tb.shorten THEN s1
            ELSE IF s1 = this THEN ":" \o Base(s1)
            ELSE IF HasPrefix(s1, this \o ":") THEN From(s1, Len(this) + 1)
            ELSE s1
  IN IF tb.strip THEN ShortLabelStrip(s2) ELSE ShortLabel0(s2)

\* "//a" + ":b" is one label written in pieces
RECURSIVE JoinLabel(_)
JoinLabel(e) ==
  IF ~IsPlus(e) THEN e
  ELSE LET x == JoinLabel(e.k[1])
           y == e.k[2]
       IN IF IsStr(x) /\ HasPrefix(x.v, "//") /\ ~Contains(x.v, " ") /\ IsStr(y) /\ ~Contains(y.v, " ")
          THEN NC("str", x.v \o y.v, <<>>, e.c \o x.c \o y.c)
          ELSE WithK(e, <<x, y>>)
FixOne(e, tb) == LET j == JoinLabel(e) IN IF IsStr(j) THEN WithV(j, ShortLabel(j.v, tb)) ELSE j
LeaveAlone(n) == HasC(n, "buildifier: leave-alone")
FixContainer(e, tb) ==
  IF e.t \in {"list", "set"} THEN WithK(e, [i \in 1..Len(e.k) |-> IF LeaveAlone(e.k[i]) THEN e.k[i] ELSE FixOne(e.k[i], tb)])
  ELSE FixOne(e, tb)

(* ---- sorting ---- *)
Phase(s, tb) == IF HasPrefix(s, ":") THEN 1
                ELSE IF HasPrefix(s, "//") \/ (tb.strip /\ ~HasPrefix(s, "@")) THEN 2
                ELSE IF HasPrefix(s, "@") THEN 3 ELSE 0
Pieces(s) == Split(ReplaceAll(s, ":", "."), ".")
RECURSIVE SeqCmp(_, _)
SeqCmp(p, q) ==
  IF p = <<>> /\ q = <<>> THEN 0 ELSE IF p = <<>> THEN -1 ELSE IF q = <<>> THEN 1
  ELSE LET c == Cmp(Head(p), Head(q)) IN IF c # 0 THEN c ELSE SeqCmp(Tail(p), Tail(q))
LabelCmp(a, b, tb) ==
  IF a = b THEN 0
  ELSE IF Phase(a, tb) # Phase(b, tb) THEN Phase(a, tb) - Phase(b, tb)
  ELSE LET c == SeqCmp(Pieces(a), Pieces(b)) IN IF c # 0 THEN c ELSE Cmp(a, b)

RECURSIVE DropDups(_, _)
\* keep the first of equal strings; non-strings stay
DropDups(q, seen) ==
  IF q = <<>> THEN <<>>
  ELSE IF IsStr(q[1]) THEN (IF q[1].v \in seen THEN DropDups(Tail(q), seen) ELSE <<q[1]>> \o DropDups(Tail(q), seen \cup {q[1].v}))
  ELSE <<q[1]>> \o DropDups(Tail(q), seen)

\* Dropping duplicates without sorting keeps their whole-line comments: they move to the next remaining
\* string or, at the end, to the closing bracket.
RECURSIVE DropC(_, _, _, _)
DropC(q, seen, carry, out) ==
  IF q = <<>> THEN [k |-> out, e |-> carry]
  ELSE LET x == q[1] IN
       IF ~IsStr(x) THEN DropC(Tail(q), seen, carry, Append(out, x))
       ELSE IF x.v \in seen THEN DropC(Tail(q), seen, carry \o SelectSeq(x.c, LAMBDA c : Upto(c, 1) \in {"B", "A"}), out)
       ELSE DropC(Tail(q), seen \cup {x.v}, <<>>, Append(out, [x EXCEPT !.c = carry \o @]))
DropIn(n, from) == \* from: index of the first item among the children
  LET r == DropC(SubSeq(n.k, from, Len(n.k)), {}, <<>>, <<>>)
  IN [WithK(n, SubSeq(n.k, 1, from - 1) \o r.k) EXCEPT !.c = [i \in 1..Len(r.e) |-> "E" \o From(r.e[i], 2)] \o @]

\* length of the chunk of strings at the head of q: no non-string, no whole-line comment inside
RECURSIVE ChunkLen(_, _)
ChunkLen(q, i) ==
  IF i > Len(q) THEN i - 1
  ELSE IF ~IsStr(q[i]) \/ (i > 1 /\ BeforeComments(q[i]) # <<>>) THEN i - 1
  ELSE ChunkLen(q, i + 1)
SortChunk(q, tb) == \* whole-line comments of the first element stay in front of the chunk
  IF q = <<>> THEN q
  ELSE LET bc == BeforeComments(q[1])
           q1 == [i \in 1..Len(q) |-> IF i = 1 THEN [q[1] EXCEPT !.c = SelectSeq(q[1].c, LAMBDA c : Upto(c, 1) # "B")] ELSE q[i]]
           s == DropDups(SortBy(q1, LAMBDA a, b : LabelCmp(a.v, b.v, tb) < 0), {})
       IN [i \in 1..Len(s) |-> IF i = 1 THEN [s[1] EXCEPT !.c = bc \o @] ELSE s[i]]
RECURSIVE SortChunks(_, _)
SortChunks(q, tb) ==
  IF q = <<>> THEN <<>>
  ELSE LET n == ChunkLen(q, 1)
       IN IF n = 0 THEN <<q[1]>> \o SortChunks(Tail(q), tb)
          ELSE SortChunk(SubSeq(q, 1, n), tb) \o SortChunks(SubSeq(q, n + 1, Len(q)), tb)

DoNotSort(n) == HasC(n, "do not sort")
KeepSorted(n) == HasC(n, "keep sorted")
LineComments(l) ==
  \/ \E i \in 1..Len(l.c) : Upto(l.c[i], 1) \in {"B", "A", "E"}
  \/ \E i \in 1..Len(l.k) : BeforeComments(l.k[i]) # <<>>
SortList(l, tb) ==
  IF ~IsList(l) \/ Len(l.k) < 2 THEN l
  ELSE IF DoNotSort(l.k[1]) THEN DropIn(l, 1)
  ELSE IF ~(KeepSorted(l) \/ KeepSorted(l.k[1])) /\ LineComments(l) THEN DropIn(l, 1)
  ELSE WithK(l, SortChunks(l.k, tb))

\* Apply to the lists of a value: the value itself, both sides of + (a sum on the right side of another
\* one is in parentheses, which are left alone), the branches of a select
RECURSIVE Inside(_, _, _)
Inside(e, mode, tb) ==
  LET e1 == IF mode = "label" THEN FixContainer(e, tb) ELSE SortList(e, tb)
  IN IF IsPlus(e1) THEN WithK(e1, <<Inside(e1.k[1], mode, tb), IF IsPlus(e1.k[2]) THEN e1.k[2] ELSE Inside(e1.k[2], mode, tb)>>)
     ELSE IF HasDict(e1)
     THEN LET d == e1.k[2]
          IN WithK(e1, [e1.k EXCEPT ![2] = WithK(d, [i \in 1..Len(d.k) |-> WithK(d.k[i], <<d.k[i].k[1], Inside(d.k[i].k[2], mode, tb)>>)])])
     ELSE e1

(* ---- calls ---- *)
RECURSIVE TailStart(_, _)
TailStart(args, i) == IF i = 0 THEN 1 ELSE IF ArgName(args[i]) = "" THEN i + 1 ELSE TailStart(args, i - 1)
SortNamed(call, tb) ==
  LET args == Args(call)
      rule == IF Kind(call) = "" THEN "<complex rule kind>" ELSE Kind(call)
      st == TailStart(args, Len(args))
      lt(a, b) == LET pa == PrioOf(tb, rule, ArgName(a))
                      pb == PrioOf(tb, rule, ArgName(b))
                  IN IF pa # pb THEN pa < pb ELSE StrLess(ArgName(a), ArgName(b))
  IN WithK(call, <<call.k[1]>> \o SubSeq(args, 1, st - 1) \o SortBy(SubSeq(args, st, Len(args)), lt))
ArgType(a) == IF a.t = "un" /\ a.v = "**" THEN 4 ELSE IF a.t = "un" /\ a.v = "*" THEN 3 ELSE IF a.t = "asg" THEN 2 ELSE 1
Reorder(call) == WithK(call, <<call.k[1]>> \o SortBy(Args(call), LAMBDA a, b : ArgType(a) < ArgType(b)))

LabelCall(call, tb) ==
  WithK(call, [i \in 1..Len(call.k) |->
     LET a == call.k[i] IN
     IF i = 1 \/ ArgName(a) \notin tb.label \/ ArgName(a) = "" \/ (Kind(call) \o "." \o ArgName(a)) \in tb.deny \/ LeaveAlone(a) \/ LeaveAlone(a.k[2]) THEN a
     ELSE WithK(a, <<a.k[1], Inside(a.k[2], "label", tb)>>)])
SortCall(call, tb) ==
  WithK(call, [i \in 1..Len(call.k) |->
     LET a == call.k[i]
         ctx == Kind(call) \o "." \o ArgName(a)
     IN
     IF i = 1 \/ ArgName(a) = "" \/ ctx \in tb.sdeny \/ ~(ArgName(a) \in tb.sortable \/ ctx \in tb.sallow) \/ LeaveAlone(a) THEN a
     ELSE IF DoNotSort(a) THEN (IF IsList(a.k[2]) THEN WithK(a, <<a.k[1], DropIn(a.k[2], 1)>>) ELSE a)
     ELSE WithK(a, <<a.k[1], Inside(a.k[2], "sort", tb)>>)])

(* ---- numbers ---- *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Octal(s) == IF Len(s) > 1 /\ Chr(s, 1) = "0" /\ Chr(s, 2) \in Digits THEN "0o" \o From(s, 2) ELSE s
RECURSIVE DropLead(_)
\* canonical exponent: no plus sign, no leading zeros (a lone 0 stays)
DropLead(x) == IF Len(x) > 1 /\ Chr(x, 1) \in {"0", "+"} THEN DropLead(From(x, 2)) ELSE x
Float(s) ==
  IF ~Contains(s, ".") THEN s
  ELSE LET t == IF HasPrefix(s, ".") THEN "0" \o s ELSE s
           e == IF Contains(t, "e") THEN Index(t, "e") ELSE Index(t, "E")
       IN IF e = 0 THEN t ELSE Upto(t, e - 1) \o "e" \o DropLead(From(t, e + 1))
Number(s) == Float(Octal(s))

(* ---- whole expressions ---- *)
\* type annotations are left as they are written
IsType(n, i) == n.t = "typed" \/ (n.t = "def" /\ i = 2)
RECURSIVE Pass1(_, _, _, _)
\* argument order and labels
Pass1(n, bl, la, tb) ==
  LET l2 == la \/ LeaveAlone(n)
      k == [i \in 1..Len(n.k) |-> IF IsType(n, i) THEN n.k[i] ELSE Pass1(n.k[i], bl, l2, tb)]
      m == WithK(n, k)
  IN IF n.t = "call"
     THEN (IF bl /\ ~l2 THEN LabelCall(SortNamed(Reorder(m), tb), tb) ELSE Reorder(m))
     ELSE IF n.t = "num" THEN WithV(n, Number(n.v))
     ELSE m
RECURSIVE Pass2(_, _, _, _)
\* list order
Pass2(n, bl, la, tb) ==
  LET l2 == la \/ LeaveAlone(n)
      n1 == IF n.t = "call" /\ bl /\ ~l2 THEN SortCall(n, tb)
            ELSE IF n.t = "asg" /\ KeepSorted(n) THEN WithK(n, <<n.k[1], Inside(n.k[2], "sort", tb)>>)
            ELSE IF n.t = "kv" /\ KeepSorted(n) THEN WithK(n, <<n.k[1], Inside(n.k[2], "sort", tb)>>)
            ELSE IF n.t = "list" /\ n.k # <<>> /\ (KeepSorted(n) \/ KeepSorted(n.k[1])) THEN SortList(n, tb)
            ELSE n
  IN WithK(n1, [i \in 1..Len(n1.k) |-> IF IsType(n1, i) THEN n1.k[i] ELSE Pass2(n1.k[i], bl, l2, tb)])

(* ---- load statements ---- *)
IsLoad(s) == s.t = "load"
LoadTop(stmts) ==
  LET skip(s) == s.t \in {"str", "comment"} \/ IsCallOf(s, "workspace")
      firsts == {i \in 1..Len(stmts) : ~IsLoad(stmts[i]) /\ ~skip(stmts[i])}
  IN IF firsts = {} THEN stmts
     ELSE LET f == Min2(firsts)
              rest == SubSeq(stmts, f, Len(stmts))
          IN SubSeq(stmts, 1, f - 1) \o SelectSeq(rest, IsLoad) \o SelectSeq(rest, LAMBDA s : ~IsLoad(s))
\* the comments of a merged statement are kept; only one fits at the end of the line
AddComments(c, d) ==
  IF \E i \in 1..Len(c) : Upto(c[i], 1) = "S" THEN c \o [i \in 1..Len(d) |-> IF Upto(d[i], 1) = "S" THEN "B" \o From(d[i], 2) ELSE d[i]] ELSE c \o d
RECURSIVE MergeLoads(_, _)
\* done is the list so far; merge each load into the first one of the same file
MergeLoads(done, rest) ==
  IF rest = <<>> THEN done
  ELSE LET s == Head(rest)
           prev == {i \in 1..Len(done) : IsLoad(done[i]) /\ done[i].v = s.v}
       IN IF ~IsLoad(s) \/ prev = {} THEN MergeLoads(Append(done, s), Tail(rest))
          ELSE LET p == Min2(prev)
               IN IF HasC(done[p], "disable=same-origin-load") \/ HasC(s, "disable=same-origin-load")
                  THEN MergeLoads(Append(done, s), Tail(rest))
                  ELSE MergeLoads([done EXCEPT ![p] = [WithK(done[p], done[p].k \o s.k) EXCEPT !.c = AddComments(@, s.c)]], Tail(rest))

RECURSIVE PathCmp(_, _)
PathCmp(p, q) == \* sequences of segments, case-insensitively
  IF p = <<>> /\ q = <<>> THEN 0 ELSE IF p = <<>> THEN -1 ELSE IF q = <<>> THEN 1
  ELSE LET c == Cmp(Lower(Head(p)), Lower(Head(q))) IN IF c # 0 THEN c ELSE PathCmp(Tail(p), Tail(q))
PathLess(a, b) == a # b /\ LET c == PathCmp(Split(a, "/"), Split(b, "/")) IN IF c # 0 THEN c < 0 ELSE StrLess(a, b)
\* explicit repositories first, then absolute labels by package, then relative ones
ModuleLess(a, b) ==
  LET ea == HasPrefix(a, "@")
      eb == HasPrefix(b, "@")
      ra == ~IsAbs(a)
      rb == ~IsAbs(b)
      la == ParseRel(a, "")
      lb == ParseRel(b, "")
  IN IF ea # eb THEN ea
     ELSE IF la.repo # lb.repo THEN StrLess(la.repo, lb.repo)
     ELSE IF ra # rb THEN rb
     ELSE IF la.pkg # lb.pkg THEN (IF la.pkg = "" THEN TRUE ELSE IF lb.pkg = "" THEN FALSE ELSE PathLess(la.pkg, lb.pkg))
     ELSE PathLess(la.target, lb.target)
RECURSIVE SortLoads(_)
SortLoads(stmts) ==
  IF stmts = <<>> THEN <<>>
  ELSE IF ~IsLoad(stmts[1]) THEN <<stmts[1]>> \o SortLoads(Tail(stmts))
  ELSE LET ends == {i \in 1..Len(stmts) : ~IsLoad(stmts[i])}
           n == IF ends = {} THEN Len(stmts) ELSE Min2(ends) - 1
       IN SortBy(SubSeq(stmts, 1, n), LAMBDA a, b : ModuleLess(a.v, b.v)) \o SortLoads(SubSeq(stmts, n + 1, Len(stmts)))
SymLess(a, b) ==
  LET ea == a.k[1].v = a.v
      eb == b.k[1].v = b.v
  IN IF ea # eb THEN ea ELSE StrLess(a.v, b.v)
RECURSIVE LastOf(_)
LastOf(q) == IF Len(q) < 2 THEN q ELSE IF q[1].v = q[2].v THEN LastOf(Tail(q)) ELSE <<q[1]>> \o LastOf(Tail(q))
SortSyms(ld) == WithK(ld, LastOf(SortBy(ld.k, SymLess)))

UseRepoSort(s, tb) ==
  IF ~IsCallOf(s, "use_repo") \/ Len(s.k) < 4 THEN s
  ELSE IF DoNotSort(s) \/ DoNotSort(s.k[2]) \/ DoNotSort(s.k[3]) THEN DropIn(s, 2)
  ELSE WithK(s, <<s.k[1]>> \o SortChunks(Args(s), tb))

(* ---- files ---- *)
CanonLoads(f) ==
  LET s1 == IF f.v = "WORKSPACE" \/ AnyC(f, "disable=load-on-top") THEN f.k ELSE LoadTop(f.k)
      s2 == MergeLoads(<<>>, s1)
      s3 == IF AnyC(f, "disable=out-of-order-load") THEN s2 ELSE SortLoads(s2)
  IN WithK(f, [i \in 1..Len(s3) |-> IF IsLoad(s3[i]) THEN SortSyms(s3[i]) ELSE s3[i]])
CanonExprs(f, tb) ==
  LET bl == f.v \in BuildLike
      la == LeaveAlone(f)
      one(s) == LET t == Pass2(Pass1(s, bl, la, tb), bl, la, tb) IN IF f.v = "MODULE.bazel" THEN UseRepoSort(t, tb) ELSE t
  IN WithK(f, [i \in 1..Len(f.k) |-> one(f.k[i])])
CanonTb(f, tb) == CanonLoads(CanonExprs(f, tb))
Canon(f) == CanonTb(f, DefaultTb)
\* the file as a stream of tokens and comments: a comment stands between the same tokens before and after
Coms(n, kinds) ==
  LET q == SelectSeq(n.c, LAMBDA c : Upto(c, 1) \in kinds)
  IN [i \in 1..Len(q) |-> (IF Upto(q[i], 1) = "S" THEN "suffix " ELSE "line ") \o From(q[i], 2)]
RECURSIVE Stream(_)
Stream(n) ==
  LET ks(from) == Flat([i \in 1..Len(n.k) - from + 1 |-> Stream(n.k[i + from - 1])])
      mark == n.t \o ":" \o n.v
      body == CASE n.t \in {"comment", "file", "none"} -> ks(1)
                [] n.t \in {"asg", "bin", "kv"} -> Stream(n.k[1]) \o <<mark>> \o Stream(n.k[2])
                [] n.t \in {"call", "index", "slice", "dot"} -> Stream(n.k[1]) \o <<"<" \o mark>> \o ks(2) \o Coms(n, {"E"}) \o <<">">>
                [] n.t = "cond" -> Stream(n.k[1]) \o <<"if">> \o Stream(n.k[2]) \o <<"else">> \o Stream(n.k[3])
                [] n.t \in {"return", "un", "id", "str", "num"} -> <<mark>> \o ks(1)
                [] n.t = "tuple" -> <<"<tuple">> \o ks(1) \o Coms(n, {"E"}) \o <<">">>
                [] OTHER -> <<"<" \o mark>> \o ks(1) \o Coms(n, {"E"}) \o <<">">>
  IN Coms(n, {"B"}) \o body \o Coms(n, {"S", "A"})
\* only one comment fits at the end of a line: the next ones follow on lines of their own
OneSuffix(q) == [i \in 1..Len(q) |-> IF i > 1 /\ HasPrefix(q[i], "suffix ") /\ HasPrefix(q[i - 1], "suffix ") THEN "line " \o From(q[i], 8) ELSE q[i]]
====
