---- MODULE Buildozer ----
(* Buildozer's commands as transitions on syntax trees.  The state is a file's tree; a step is one run of
   buildozer: a list of commands applied to a list of targets.  Trees carry their comments, so the model
   also says where every comment goes. *)
EXTENDS Bzlmod

(* ---- attribute types (data, transcribed from the build language's attribute table) ---- *)
LabelListAttrs == {"deps", "srcs", "exports", "runtime_deps", "data", "tools", "resources", "hdrs", "packages", "toolchains", "plugins"}
ListAttrs == LabelListAttrs \cup {"visibility", "tags", "outs", "args", "copts", "linkopts", "defines", "features"} \cup SortableArgs
StringAttrs == {"name", "size", "main", "cmd", "out", "runtime", "message", "actual"}
Unsorted(attr) == attr = "args"

(* ---- flags ---- *)
\* The package commands work in, after marks for the flags that change what they do: "!" labels are not shortened,
\* "^" list elements with comments are not deleted.
RealPkg(p) == LET q == IF HasPrefix(p, "!") THEN From(p, 2) ELSE p IN IF HasPrefix(q, "^") THEN From(q, 2) ELSE q
Keeps(p) == HasPrefix(p, "^") \/ HasPrefix(p, "!^")
Short(l, p) == IF HasPrefix(p, "!") THEN l ELSE Shorten(l, RealPkg(p))
Same(a, b, p) == LabelEq(a, b, RealPkg(p))

(* ---- values written on the command line ---- *)
Unq(s) == IF Len(s) >= 2 /\ Chr(s, 1) = "\"" /\ Chr(s, Len(s)) = "\"" /\ ~Contains(SubSeq(s, 2, Len(s) - 1), "\"") /\ ~Contains(s, "\\")
          THEN SubSeq(s, 2, Len(s) - 1) ELSE s
StrOf(s, pkg) == S(Short(Unq(s), pkg))
IsNum(s) == s # "" /\ \A i \in 1..Len(s) : Chr(s, i) \in Digits
\* text written as it stands
RECURSIVE DotOf(_)
DotOf(q) == IF Len(q) = 1 THEN Id(q[1]) ELSE N("dot", q[Len(q)], <<DotOf(SubSeq(q, 1, Len(q) - 1))>>)
Verbatim(s) ==
  IF IsNum(s) THEN N("num", s, <<>>)
  ELSE IF s = "glob([\"*.cc\"])" THEN Call("glob", <<L(<<S("*.cc")>>)>>)
  ELSE IF IsWord(s) THEN Id(s)
  ELSE IF Unq(s) # s THEN S(Unq(s))
  ELSE IF LET q == Split(s, ".") IN \A i \in 1..Len(q) : IsWord(q[i]) /\ ~IsNum(Chr(q[i], 1)) THEN DotOf(Split(s, "."))
  ELSE N("bad", s, <<>>) \* not an expression
ValueOf(attr, args, pkg) ==
  IF attr \in ListAttrs /\ ~(Len(args) = 1 /\ HasPrefix(args[1], "glob(")) THEN L([i \in 1..Len(args) |-> StrOf(args[i], pkg)])
  ELSE IF args = <<>> THEN Id("None")
  ELSE IF attr \in StringAttrs THEN StrOf(args[1], pkg)
  ELSE Verbatim(args[1])

(* ---- the attributes of a rule ---- *)
AttrAt(call, a) == LET I == {i \in 2..Len(call.k) : ArgName(call.k[i]) = a} IN IF I = {} THEN 0 ELSE Min2(I)
HasAttr(call, a) == AttrAt(call, a) # 0
Attr(call, a) == IF HasAttr(call, a) THEN call.k[AttrAt(call, a)].k[2] ELSE None
SetAttr(call, a, v) ==
  LET i == AttrAt(call, a)
  IN IF i = 0 THEN WithK(call, Append(call.k, Asg(a, v)))
     ELSE WithK(call, [call.k EXCEPT ![i] = WithK(@, <<@.k[1], v>>)])
DelAttr(call, a) == LET i == AttrAt(call, a) IN IF i = 0 THEN call ELSE WithK(call, RemoveIdx(call.k, i))
AttrNames(call) == SelectSeq([i \in 1..Len(call.k) - 1 |-> ArgName(call.k[i + 1])], LAMBDA x : x # "")
StrAttr(call, a) == IF IsStr(Attr(call, a)) THEN Attr(call, a).v ELSE ""

(* ---- list values: lists, selects and sums of them ---- *)
RECURSIVE Lists(_), Selects(_)
Lists(e) == IF IsList(e) THEN <<e>> ELSE IF IsPlus(e) THEN Lists(e.k[1]) \o Lists(e.k[2]) ELSE <<>>
Selects(e) == IF IsSelect(e) THEN <<e>> ELSE IF IsPlus(e) THEN Selects(e.k[1]) \o Selects(e.k[2]) ELSE <<>>
Branches(sel) == IF HasDict(sel) THEN SelectSeq([i \in 1..Len(sel.k[2].k) |-> sel.k[2].k[i].k[2]], IsList) ELSE <<>>
Elems(ls) == Flat([i \in 1..Len(ls) |-> ls[i].k])
Matches(n, v, pkg) == IsStr(n) /\ Same(n.v, v, pkg)
InBase(e, v, pkg) == \E i \in 1..Len(Elems(Lists(e))) : Matches(Elems(Lists(e))[i], v, pkg)

\* the element-wise operations; m is [op, v, pkg, ...]
Deletable(n, v, pkg) == Matches(n, v, pkg) /\ ~(Keeps(pkg) /\ \E i \in 1..Len(n.c) : Chr(n.c[i], 1) \in {"B", "S"})
DeleteFrom(l, v, pkg) == WithK(l, SelectSeq(l.k, LAMBDA n : ~Deletable(n, v, pkg)))
RECURSIVE DelBase(_, _, _), DelSel(_, _, _)
DelBase(e, v, pkg) == IF IsList(e) THEN DeleteFrom(e, v, pkg) ELSE IF IsPlus(e) THEN WithK(e, <<DelBase(e.k[1], v, pkg), DelBase(e.k[2], v, pkg)>>) ELSE e
OnBranches(sel, F(_)) ==
  LET d == sel.k[2] IN WithK(sel, [sel.k EXCEPT ![2] = WithK(d, [i \in 1..Len(d.k) |->
     IF d.k[i].t = "kv" /\ IsList(d.k[i].k[2]) THEN WithK(d.k[i], <<d.k[i].k[1], F(d.k[i].k[2])>>) ELSE d.k[i]])])
DelSel(e, v, pkg) ==
  IF HasDict(e) THEN OnBranches(e, LAMBDA l : DeleteFrom(l, v, pkg))
  ELSE IF IsPlus(e) THEN WithK(e, <<DelSel(e.k[1], v, pkg), DelSel(e.k[2], v, pkg)>>) ELSE e
DelAll(e, v, pkg) == DelSel(DelBase(e, v, pkg), v, pkg)
\* the elements deleted, those of the selects last
Deleted(e, v, pkg) ==
  SelectSeq(Elems(Lists(e)) \o Elems(Flat([i \in 1..Len(Selects(e)) |-> Branches(Selects(e)[i])])), LAMBDA n : Deletable(n, v, pkg))

\* order of insertion: labels starting with // after the others
ElemLess(a, b) ==
  IF IsStr(a) # IsStr(b) THEN IsStr(b)
  ELSE IF ~IsStr(a) THEN FALSE
  ELSE IF HasPrefix(a.v, "//") # HasPrefix(b.v, "//") THEN HasPrefix(b.v, "//")
  ELSE StrLess(a.v, b.v)
Insert(q, x, sorted) ==
  LET I == {i \in 1..Len(q) : ElemLess(x, q[i])}
  IN IF ~sorted \/ I = {} THEN Append(q, x) ELSE InsertAtIdx(q, Min2(I), x)
RECURSIVE InsertFirst(_, _, _)
InsertFirst(e, x, sorted) ==
  IF IsList(e) THEN WithK(e, Insert(e.k, x, sorted))
  ELSE IF Lists(e.k[1]) # <<>> THEN WithK(e, <<InsertFirst(e.k[1], x, sorted), e.k[2]>>)
  ELSE WithK(e, <<e.k[1], InsertFirst(e.k[2], x, sorted)>>)
AddTo(e, x, pkg, sorted) ==
  IF e = None THEN L(<<x>>)
  ELSE IF IsStr(x) /\ InBase(e, x.v, pkg) THEN e
  ELSE LET e1 == IF IsStr(x) THEN DelSel(e, x.v, pkg) ELSE e
       IN IF Lists(e1) # <<>> THEN InsertFirst(e1, x, sorted) ELSE Plus(e1, L(<<x>>))
RECURSIVE AddAll(_, _, _, _)
AddAll(e, xs, pkg, sorted) == IF xs = <<>> THEN e ELSE AddAll(AddTo(e, Head(xs), pkg, sorted), Tail(xs), pkg, sorted)

\* a list with other things than strings only counts as far as it is known
RECURSIVE Scan(_, _), InterAll(_, _)
Scan(v, q) == IF q = <<>> THEN "no" ELSE IF ~IsStr(q[1]) THEN "unknown" ELSE IF q[1].v = v THEN "yes" ELSE Scan(v, Tail(q))
InterAll(q, ls) ==
  IF ls = <<>> \/ q = <<>> THEN q
  ELSE IF \E i \in 1..Len(q) : Scan(q[i].v, ls[1].k) = "unknown" THEN <<>>
  ELSE InterAll(SelectSeq(q, LAMBDA x : Scan(x.v, ls[1].k) = "yes"), Tail(ls))
\* elements that are in every branch of a select do not depend on it
Common(sel) ==
  IF ~HasDict(sel) \/ Len(sel.k) # 2 \/ sel.k[2].k = <<>> THEN <<>>
  ELSE LET vals == [i \in 1..Len(sel.k[2].k) |-> IF sel.k[2].k[i].t = "kv" THEN sel.k[2].k[i].k[2] ELSE None]
       IN IF \E i \in 1..Len(vals) : ~IsList(vals[i]) THEN <<>>
          ELSE IF \E j \in 1..Len(vals[1].k) : ~IsStr(vals[1].k[j]) THEN <<>>
          ELSE InterAll(vals[1].k, Tail(vals))
\* comments at the end of a list that disappears go to the front of what is left
Fronted(c) == [i \in 1..Len(c) |-> IF Chr(c[i], 1) = "E" THEN "B" \o From(c[i], 2) ELSE c[i]]
RECURSIVE DropEmpty(_)
\* a select whose branches are all empty and an empty operand of + disappear; neighbouring lists are joined
DropEmpty(e) ==
  IF IsPlus(e)
  THEN LET x == DropEmpty(e.k[1])
           y == DropEmpty(e.k[2])
       IN IF IsList(x) /\ IsList(y) THEN [L(x.k \o y.k) EXCEPT !.c = e.c \o x.c \o y.c]
          ELSE IF IsList(x) /\ x.k = <<>> THEN [y EXCEPT !.c = e.c \o Fronted(x.c) \o @]
          ELSE IF IsList(y) /\ y.k = <<>> THEN [x EXCEPT !.c = e.c \o Fronted(y.c) \o @]
          ELSE WithK(e, <<x, y>>)
  ELSE IF IsSelect(e)
  THEN IF Len(e.k) = 1 THEN L(<<>>)
       ELSE IF HasDict(e) /\ \A i \in 1..Len(e.k[2].k) : e.k[2].k[i].t = "kv" /\ IsList(e.k[2].k[i].k[2]) /\ e.k[2].k[i].k[2].k = <<>> THEN L(<<>>)
       ELSE e
  ELSE e
Resolve(e, pkg) ==
  IF e = None THEN None
  ELSE LET sels == Selects(e)
           xs == Flat([i \in 1..Len(sels) |-> Common(sels[i])])
       IN DropEmpty(AddAll(e, xs, pkg, FALSE))
ResolveAttr(call, a, pkg) == IF HasAttr(call, a) THEN SetAttr(call, a, Resolve(Attr(call, a), pkg)) ELSE call

\* remove one value of an attribute; the attribute goes with its last element
DelValue(call, a, v, pkg) ==
  LET e == Attr(call, a)
      e1 == DelAll(e, Unq(v), pkg)
  IN IF ~HasAttr(call, a) \/ Deleted(e, Unq(v), pkg) = <<>> THEN call
     ELSE IF IsList(e1) /\ e1.k = <<>> THEN DelAttr(call, a) ELSE SetAttr(call, a, e1)
RECURSIVE DelValues(_, _, _, _)
DelValues(call, a, vs, pkg) == IF vs = <<>> THEN call ELSE DelValues(DelValue(call, a, Head(vs), pkg), a, Tail(vs), pkg)
DropIfEmpty(call, a) == IF IsList(Attr(call, a)) /\ Attr(call, a).k = <<>> THEN DelAttr(call, a) ELSE call

\* replace one element (mode "=": old label -> new label; "~": regular expression)
(* Regular expressions: re.k says which: "in" the literal re.a anywhere (the first occurrence counts), "pre" at the
   beginning, "suf" at the end, "cap" a prefix and a suffix with the middle captured and put between t[1] and t[3]. *)
Sub(s, re, t) ==
  CASE re.k = "in" -> LET i == Index(s, re.a) IN IF i = 0 THEN <<>> ELSE <<Upto(s, i - 1) \o t[1] \o From(s, i + Len(re.a))>>
    [] re.k = "pre" -> IF HasPrefix(s, re.a) THEN <<t[1] \o From(s, Len(re.a) + 1)>> ELSE <<>>
    [] re.k = "suf" -> IF HasSuffix(s, re.a) THEN <<Upto(s, Len(s) - Len(re.a)) \o t[1]>> ELSE <<>>
    [] re.k = "cap" -> IF HasPrefix(s, re.a) /\ HasSuffix(s, re.b) /\ Len(s) >= Len(re.a) + Len(re.b)
                       THEN <<t[1] \o SubSeq(s, Len(re.a) + 1, Len(s) - Len(re.b)) \o t[3]>> ELSE <<>>
NewElem(n, m, pkg) ==
  IF ~IsStr(n) THEN n
  ELSE IF m.op = "=" THEN (IF Same(n.v, m.old, pkg) THEN WithV(n, Short(m.new, pkg)) ELSE n)
  ELSE LET r == Sub(n.v, m.re, m.t) IN IF r = <<>> THEN n ELSE WithV(n, r[1])
MapList(l, m, pkg) == WithK(l, [i \in 1..Len(l.k) |-> NewElem(l.k[i], m, pkg)])
RECURSIVE MapAll(_, _, _)
MapAll(e, m, pkg) ==
  IF IsList(e) THEN MapList(e, m, pkg)
  ELSE IF HasDict(e) THEN OnBranches(e, LAMBDA l : MapList(l, m, pkg))
  ELSE IF IsPlus(e) THEN WithK(e, <<MapAll(e.k[1], m, pkg), MapAll(e.k[2], m, pkg)>>)
  ELSE e

(* ---- dictionaries ---- *)
KeyAt(d, key) == LET I == {i \in 1..Len(d.k) : d.k[i].t = "kv" /\ IsStr(d.k[i].k[1]) /\ d.k[i].k[1].v = key} IN IF I = {} THEN 0 ELSE Min2(I)
DictGet(d, key) == IF KeyAt(d, key) = 0 THEN None ELSE d.k[KeyAt(d, key)].k[2]
DictSet(d, key, v) == IF KeyAt(d, key) = 0 THEN WithK(d, Append(d.k, Kv(S(key), v))) ELSE WithK(d, [d.k EXCEPT ![KeyAt(d, key)] = WithK(@, <<@.k[1], v>>)])
DictDel(d, key) == WithK(d, SelectSeq(d.k, LAMBDA kv : ~(kv.t = "kv" /\ IsStr(kv.k[1]) /\ kv.k[1].v = key)))
DictOf(call, a) == IF Attr(call, a).t = "dict" THEN Attr(call, a) ELSE Dict(<<>>)
Colon(x) == Index(x, ":")
RECURSIVE DictPuts(_, _, _, _)
DictPuts(d, xs, over, pkg) ==
  IF xs = <<>> THEN d
  ELSE LET i == Colon(Head(xs))
           key == Upto(Head(xs), i - 1)
           v == StrOf(From(Head(xs), i + 1), pkg)
       IN DictPuts(IF over \/ KeyAt(d, key) = 0 THEN DictSet(d, key, v) ELSE d, Tail(xs), over, pkg)
RECURSIVE DictDels(_, _)
DictDels(d, ks) == IF ks = <<>> THEN d ELSE DictDels(DictDel(d, Unq(Head(ks))), Tail(ks))
RECURSIVE SelPuts(_, _, _, _)
SelPuts(d, xs, attr, pkg) ==
  IF xs = <<>> THEN d
  ELSE LET key == xs[1]
           v == StrOf(xs[2], pkg)
           new == IF attr \in ListAttrs THEN AddTo(IF KeyAt(d, key) = 0 THEN L(<<>>) ELSE DictGet(d, key), v, pkg, ~Unsorted(attr)) ELSE v
       IN SelPuts(DictSet(d, key, new), SubSeq(xs, 3, Len(xs)), attr, pkg)

(* ---- rules in a file ---- *)
RECURSIVE GetP(_, _), PutP(_, _, _)
GetP(n, p) == IF p = <<>> THEN n ELSE GetP(n.k[p[1]], Tail(p))
PutP(n, p, x) == IF p = <<>> THEN x ELSE WithK(n, [n.k EXCEPT ![p[1]] = PutP(@, Tail(p), x)])
RECURSIVE CallPaths(_, _)
CallPaths(n, p) == IF IsCall(n) THEN <<p>> ELSE Flat([i \in 1..Len(n.k) |-> CallPaths(n.k[i], Append(p, i))])
RulePaths(f) == CallPaths(f, <<>>)
\* the name of the one nameless rule of a package is that of its directory
Implicit(f, dir) ==
  LET tops == SelectSeq(f.k, IsCall)
      anon == SelectSeq(tops, LAMBDA c : Kind(c) # "" /\ StrAttr(c, "name") = "")
  IN IF dir = "." \/ Len(anon) # 1 \/ \E i \in 1..Len(tops) : StrAttr(tops[i], "name") = dir THEN "" ELSE dir
RuleName(call, f, dir) == IF StrAttr(call, "name") = "" /\ Kind(call) # "package" THEN Implicit(f, dir) ELSE StrAttr(call, "name")
Synthetic == Call("package", <<>>)
PkgPlace(f) ==
  LET skip(s) == s.t \in {"comment", "load", "str"} \/ IsCallOf(s, "workspace")
      F == {i \in 1..Len(f.k) : ~skip(f.k[i])}
  IN IF F = {} THEN Len(f.k) + 1 ELSE Min2(F)
\* Calls carry the number of their span in a mark, as they are found by it long after statements have been added or deleted
MarkNo(n) == LET I == {i \in 1..Len(n.c) : Chr(n.c[i], 1) = "M"} IN IF I = {} THEN 0 ELSE CHOOSE j \in 1..9999 : "M" \o ToString(j) = n.c[Min2(I)]
RECURSIVE MarkFrom(_, _, _), Unmark(_)
MarkFrom(f, ps, i) == IF i > Len(ps) THEN f ELSE LET n == GetP(f, ps[i]) IN MarkFrom(PutP(f, ps[i], [n EXCEPT !.c = Append(@, "M" \o ToString(i))]), ps, i + 1)
Mark(f, e) == LET ps == RulePaths(f) IN IF Len(ps) = Len(e.spans) THEN MarkFrom(f, ps, 1) ELSE f
Unmark(n) == IF n.t = "call" THEN [n EXCEPT !.c = SelectSeq(@, LAMBDA x : Chr(x, 1) # "M")] ELSE WithK(n, [i \in 1..Len(n.k) |-> Unmark(n.k[i])])
SpanOf(call, e) == IF MarkNo(call) = 0 THEN <<0, 0, 0, 0>> ELSE e.spans[MarkNo(call)]
\* index of the statement that is the rule of that name (or stands on that line), 0 if there is none
TopNamed(f, name, e) ==
  LET isl == HasPrefix(name, "%") /\ IsNum(From(name, 2))
      I == {i \in 1..Len(f.k) : IsCall(f.k[i]) /\ (RuleName(f.k[i], f, e.dir) = name \/ (isl /\ ToString(SpanOf(f.k[i], e)[1]) = From(name, 2)))}
  IN IF I = {} THEN 0 ELSE Min2(I)
\* The rules a target denotes: [ok, f, ps]; f is the file, to which the package statement may have been added
Targets(f, name, e) ==
  LET all == RulePaths(f)
      top == TopNamed(f, name, e)
      exp == SelectSeq(all, LAMBDA p : IsCallOf(GetP(f, p), "exports_files") /\ Len(GetP(f, p).k) > 1 /\ InBase(GetP(f, p).k[2], name, ""))
      ok(ps) == [ok |-> TRUE, f |-> f, ps |-> SelectSeq(ps, LAMBDA p : e.types = <<>> \/ InSeq(Kind(GetP(f, p)), e.types))]
      rest == From(name, 2)
  IN IF name = "__pkg__"
     THEN LET P == {i \in 1..Len(f.k) : IsCallOf(f.k[i], "package")}
          IN IF P # {} THEN ok(<<<<Min2(P)>>>>)
             ELSE [ok |-> TRUE, f |-> WithK(f, InsertAtIdx(f.k, PkgPlace(f), Synthetic)), ps |-> IF e.types = <<>> \/ InSeq("package", e.types) THEN <<<<PkgPlace(f)>>>> ELSE <<>>]
     ELSE IF top # 0 THEN ok(<<<<top>>>>)
     ELSE IF exp # <<>> THEN ok(<<exp[1]>>)
     ELSE IF name \in {"all", "*"} THEN ok(all)
     ELSE IF HasPrefix(name, "%") /\ ~IsNum(rest) THEN ok(SelectSeq(all, LAMBDA p : Kind(GetP(f, p)) = rest))
     ELSE IF HasPrefix(name, "%")
     THEN LET I == {i \in 1..Len(all) : LET sp == SpanOf(GetP(f, all[i]), e) IN \E n \in sp[1]..sp[2] : ToString(n) = rest}
          IN IF \E i \in I : I = {i} THEN ok(<<all[Min2(I)]>>) ELSE [ok |-> FALSE, f |-> f, ps |-> <<>>]
     ELSE [ok |-> FALSE, f |-> f, ps |-> <<>>]

(* ---- comments ---- *)
CommentLines(text, how) == LET q == Split(ReplaceAll(text, "\\n", "\n"), "\n") IN [i \in 1..Len(q) |-> how \o "# " \o q[i]]
Trim(s) == LET RECURSIVE tl(_), tr(_)
               tl(x) == IF x # "" /\ Chr(x, 1) \in {" ", "\t"} THEN tl(From(x, 2)) ELSE x
               tr(x) == IF x # "" /\ Chr(x, Len(x)) \in {" ", "\t"} THEN tr(Upto(x, Len(x) - 1)) ELSE x
           IN tr(tl(s))
Without(n, kinds) == [n EXCEPT !.c = SelectSeq(@, LAMBDA c : Upto(c, 1) \notin kinds)]
SetC(n, kind, cs) == [n EXCEPT !.c = cs \o SelectSeq(@, LAMBDA c : Upto(c, 1) # kind)]

(* ---- the commands on a rule ---- *)
\* result: the rule afterwards, whether anything was (possibly) changed, whether it failed
\* out: the record printed, if any
RC(k, ch, err) == [k |-> k, ch |-> ch, err |-> err, del |-> FALSE, out |-> <<>>]
Done(k) == RC(k, TRUE, FALSE)
Nothing(k) == RC(k, FALSE, FALSE)
Fails(k) == RC(k, FALSE, TRUE)
Keys(call, pat) == IF pat = "*" THEN AttrNames(call) ELSE <<pat>>

RECURSIVE RemoveFrom(_, _, _, _)
RemoveFrom(call, keys, vs, pkg) ==
  IF keys = <<>> THEN call
  ELSE RemoveFrom(DropIfEmpty(ResolveAttr(DelValues(call, keys[1], vs, pkg), keys[1], pkg), keys[1]), Tail(keys), vs, pkg)
RECURSIVE MoveVals(_, _, _, _, _)
MoveVals(r, a, b, vs, pkg) == \* r = [k, ch]
  IF vs = <<>> THEN r
  ELSE LET d == Deleted(Attr(r.k, a), Unq(vs[1]), pkg)
           k1 == DelValue(r.k, a, vs[1], pkg)
       IN IF d = <<>> THEN MoveVals(r, a, b, Tail(vs), pkg)
          ELSE MoveVals([k |-> SetAttr(k1, b, AddTo(Attr(k1, b), d[Len(d)], pkg, ~Unsorted(b))), ch |-> TRUE], a, b, Tail(vs), pkg)
RECURSIVE MapAttrs(_, _, _, _)
MapAttrs(call, keys, m, pkg) ==
  IF keys = <<>> THEN call
  ELSE LET a == keys[1]
           v == Attr(call, a)
           one == IF IsStr(v)
                  THEN (IF m.op = "=" THEN (IF Same(v.v, m.old, pkg) THEN SetAttr(call, a, ValueOf(a, <<m.new>>, pkg)) ELSE call)
                        ELSE LET r == Sub(v.v, m.re, m.t) IN IF r = <<>> THEN call ELSE SetAttr(call, a, StrOf(r[1], pkg)))
                  ELSE IF HasAttr(call, a) THEN SetAttr(call, a, MapAll(v, m, pkg)) ELSE call
       IN MapAttrs(one, Tail(keys), m, pkg)
FindElem(e, v, pkg) == Deleted(e, v, pkg) # <<>>
\* edit the comments of the first list element that matches, base lists first
RECURSIVE PathsTo(_, _)
PathsTo(e, p) == \* paths of the elements: those of the base lists
  IF IsList(e) THEN [i \in 1..Len(e.k) |-> Append(p, i)] ELSE IF IsPlus(e) THEN PathsTo(e.k[1], Append(p, 1)) \o PathsTo(e.k[2], Append(p, 2)) ELSE <<>>
RECURSIVE SelPathsTo(_, _)
SelPathsTo(e, p) ==
  IF HasDict(e) THEN Flat([i \in 1..Len(e.k[2].k) |-> LET v == e.k[2].k[i].k[2] IN IF IsList(v) THEN [j \in 1..Len(v.k) |-> p \o <<2, i, 2, j>>] ELSE <<>>])
  ELSE IF IsPlus(e) THEN SelPathsTo(e.k[1], Append(p, 1)) \o SelPathsTo(e.k[2], Append(p, 2)) ELSE <<>>
ElemPath(e, v, pkg) == LET q == SelectSeq(PathsTo(e, <<>>) \o SelPathsTo(e, <<>>), LAMBDA p : Matches(GetP(e, p), v, pkg)) IN IF q = <<>> THEN <<>> ELSE q[1]

(* ---- fixes ---- *)
FixOn(names, n) == names = {} \/ n \in names
RECURSIVE SortGlobs(_), Varrefs(_), SplitIn(_), ShortIn(_, _), MergeSums(_), SumOf(_), UsedIn(_), Heur(_, _, _)
Alnum == WordChars \ {"_"}
SpaceWords(s) == SelectSeq(Split(s, " "), LAMBDA x : x # "")
\* pieces of a command: alternately made of label characters and of others
LabelChars == Alnum \cup {":", "/", "_", ".", "+", "-"}
RECURSIVE PartsOf(_, _)
PartsOf(s, cur) == IF s = "" THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
                   ELSE IF cur = "" \/ ((Chr(s, 1) \in LabelChars) <=> (Chr(cur, 1) \in LabelChars)) THEN PartsOf(From(s, 2), cur \o Chr(s, 1))
                   ELSE <<cur>> \o PartsOf(From(s, 2), Chr(s, 1))
Heur(ps, labs, free) ==
  IF ps = <<>> THEN ""
  ELSE LET w == ps[1]
           free1 == IF w \in {"location", "locations", "execpath", "execpaths", "rootpath", "rootpaths", "rlocationpath", "rlocationpaths"} THEN FALSE ELSE free
           lab == IF w \in labs THEN w ELSE IF ":" \o w \in labs THEN ":" \o w ELSE ""
       IN IF lab = "" THEN w \o Heur(Tail(ps), labs, free1)
          ELSE IF ~free1 THEN w \o Heur(Tail(ps), labs, TRUE)
          ELSE "$(location " \o lab \o ")" \o Heur(Tail(ps), labs, free1)
StrsIn(e) == LET q == Elems(Lists(e)) IN {q[i].v : i \in {i \in 1..Len(q) : IsStr(q[i])}}
RECURSIVE OnStrings(_, _)
OnStrings(e, labs) == IF IsStr(e) THEN WithV(e, Heur(PartsOf(e.v, ""), labs, TRUE)) ELSE IF IsPlus(e) THEN WithK(e, <<OnStrings(e.k[1], labs), OnStrings(e.k[2], labs)>>) ELSE e
SortGlobs(n) == LET m == IF IsCallOf(n, "glob") /\ Len(n.k) > 1 THEN WithK(n, [n.k EXCEPT ![2] = SortList(@, DefaultTb)]) ELSE n IN WithK(m, [i \in 1..Len(m.k) |-> SortGlobs(m.k[i])])
Varrefs(n) == LET m == IF IsCallOf(n, "varref") /\ Len(n.k) = 2 /\ IsStr(n.k[2]) THEN [WithV(n.k[2], "$(" \o n.k[2].v \o ")") EXCEPT !.c = @ \o n.c] ELSE n
              IN WithK(m, [i \in 1..Len(m.k) |-> Varrefs(m.k[i])])
OnAttr(call, a, F(_)) == IF HasAttr(call, a) THEN SetAttr(call, a, F(Attr(call, a))) ELSE call
SplitOne(x) == IF IsStr(x) /\ Contains(x.v, " ") /\ ~Contains(x.v, "'") /\ ~Contains(x.v, "\"") /\ ~Contains(x.v, "$(location")
               THEN [i \in 1..Len(SpaceWords(x.v)) |-> [S(SpaceWords(x.v)[i]) EXCEPT !.c = IF i = 1 THEN x.c ELSE <<>>]] ELSE <<x>>
SplitList(l) == WithK(l, Flat([i \in 1..Len(l.k) |-> SplitOne(l.k[i])]))
ShortList(l, pkg) == WithK(l, [i \in 1..Len(l.k) |-> IF IsStr(l.k[i]) THEN WithV(l.k[i], Short(l.k[i].v, pkg)) ELSE l.k[i]])
SplitIn(e) == IF IsList(e) THEN SplitList(e) ELSE IF IsPlus(e) THEN WithK(e, <<SplitIn(e.k[1]), SplitIn(e.k[2])>>) ELSE e
ShortIn(e, pkg) == IF IsList(e) THEN ShortList(e, pkg) ELSE IF IsPlus(e) THEN WithK(e, <<ShortIn(e.k[1], pkg), ShortIn(e.k[2], pkg)>>) ELSE e
SumOf(n) == IF ~IsPlus(n) THEN n
            ELSE LET x == SumOf(n.k[1])
                     y == SumOf(n.k[2])
                 IN IF IsList(x) /\ IsList(y) THEN [L(x.k \o y.k) EXCEPT !.c = n.c \o x.c \o y.c] ELSE n
MergeSums(n) == LET m == SumOf(n) IN WithK(m, [i \in 1..Len(m.k) |-> MergeSums(m.k[i])])
PkgCall(f) == LET P == {i \in 1..Len(f.k) : IsCallOf(f.k[i], "package")} IN IF P = {} THEN None ELSE f.k[Min2(P)]
StrList(e) == IF IsList(e) /\ \A i \in 1..Len(e.k) : IsStr(e.k[i]) THEN SortBy([i \in 1..Len(e.k) |-> e.k[i].v], StrLess) ELSE <<>>
Literal(e) == IF e.t \in {"id", "num"} THEN e.v ELSE ""
UselessVis(call, f) == LET p == PkgCall(f)
                           def == IF p # None /\ HasAttr(p, "default_visibility") THEN StrList(Attr(p, "default_visibility")) ELSE <<"//visibility:private">>
                       IN StrList(Attr(call, "visibility")) # <<>> /\ StrList(Attr(call, "visibility")) = def
UselessTest(call, f, e) ==
  LET p == PkgCall(f)
      tst == HasSuffix(Kind(call), "_test") \/ Kind(call) = "test_suite"
      dt == IF p = None THEN None ELSE Attr(p, "default_testonly")
      def == tst \/ (IF dt = None THEN HasPrefix(e.pkg, "javatests/") ELSE Literal(dt) = "1")
      unknown == ~tst /\ dt # None /\ Literal(dt) \notin {"0", "1"}
  IN ~unknown /\ Literal(Attr(call, "testonly")) = (IF def THEN "1" ELSE "0")
FixRule(call, f, names, e) ==
  LET on(n) == FixOn(names, n)
      r1 == IF on("sortGlob") THEN SortGlobs(call) ELSE call
      r2 == IF on("splitOptions") THEN OnAttr(OnAttr(r1, "copts", SplitIn), "linkopts", SplitIn) ELSE r1
      r3 == IF on("shortenLabels") THEN WithK(r2, [i \in 1..Len(r2.k) |-> IF ArgName(r2.k[i]) \in LabelListAttrs /\ ~(Kind(r2) = "package_group" /\ ArgName(r2.k[i]) = "packages")
                                                     THEN WithK(r2.k[i], <<r2.k[i].k[1], ShortIn(r2.k[i].k[2], e.pkg)>>) ELSE r2.k[i]]) ELSE r2
      r4 == IF on("removeVisibility") /\ UselessVis(r3, f) THEN DelAttr(r3, "visibility") ELSE r3
      r5 == IF on("removeTestOnly") /\ UselessTest(r4, f, e) THEN DelAttr(r4, "testonly") ELSE r4
      r6 == IF on("genruleRenameDepsTools") /\ Kind(r5) = "genrule" /\ HasAttr(r5, "deps") /\ ~HasAttr(r5, "tools")
            THEN WithK(r5, [r5.k EXCEPT ![AttrAt(r5, "deps")] = WithK(@, <<WithV(@.k[1], "tools"), @.k[2]>>)]) ELSE r5
      r7 == IF on("genruleFixHeuristicLabels") /\ Kind(r6) = "genrule" /\ HasAttr(r6, "cmd")
            THEN SetAttr(r6, "cmd", OnStrings(Attr(r6, "cmd"), StrsIn(Attr(r6, "tools")) \cup StrsIn(Attr(r6, "srcs")))) ELSE r6
      r8 == IF on("sortExportsFiles") /\ Kind(r7) = "exports_files" /\ Len(r7.k) > 1 THEN WithK(r7, [r7.k EXCEPT ![2] = SortList(@, DefaultTb)]) ELSE r7
      r9 == IF on("varref") THEN Varrefs(r8) ELSE r8
  IN IF on("mergeLiteralLists") THEN MergeSums(r9) ELSE r9
\* names a file uses; the left side of an assignment does not count
UsedIn(n) == IF n.t = "id" THEN {n.v} ELSE IF IsLoad(n) THEN {}
             ELSE UNION {IF n.t = "asg" /\ i = 1 /\ n.k[1].t = "id" THEN {} ELSE UsedIn(n.k[i]) : i \in 1..Len(n.k)}
\* the statements of a file as pairs of how they are held (h, perhaps a place) and what they are (x)
MovePkg(q) ==
  LET P == {i \in 1..Len(q) : IsCallOf(q[i].x, "package")}
      R == {i \in 1..Len(q) : q[i].x.t \notin {"comment", "str", "asg", "load"}}
  IN IF P = {} \/ Min2(P) = Min2(R) THEN q ELSE InsertAtIdx(RemoveIdx(q, Min2(P)), Min2(R), q[Min2(P)])
PlusEqual(q) == [i \in 1..Len(q) |->
  LET x == q[i].x
      is == x.t = "call" /\ Len(x.k) = 2 /\ x.k[1].t = "dot" /\ x.k[1].v \in {"extend", "append"} /\ x.k[1].k[1].t = "id"
      y == NC("asg", "+=", <<x.k[1].k[1], IF x.k[1].v = "extend" THEN x.k[2] ELSE L(<<x.k[2]>>)>>, x.c)
  IN IF is THEN [h |-> y, x |-> y] ELSE q[i]]
RECURSIVE CleanLoads(_, _, _)
\* mods: the module the symbol was loaded from last
CleanLoads(q, used, mods) ==
  IF q = <<>> THEN <<>>
  ELSE IF ~IsLoad(q[1].x) \/ HasC(q[1].x, "@unused") THEN <<q[1]>> \o CleanLoads(Tail(q), used, mods)
  ELSE LET x == q[1].x
           \* of several symbols of one name in one statement the first counts
           keep == SelectSeq([i \in 1..Len(x.k) |-> [i |-> i, s |-> x.k[i]]], LAMBDA y : y.s.v \in used /\ ~(y.s.v \in DOMAIN mods /\ mods[y.s.v] = x.v) /\ \A j \in 1..y.i - 1 : x.k[j].v # y.s.v)
           syms == [i \in 1..Len(keep) |-> keep[i].s]
           y == WithK(x, SortBy(syms, LAMBDA a, b : StrLess(a.v, b.v)))
           mods1 == [z \in DOMAIN mods \cup {syms[i].v : i \in 1..Len(syms)} |-> IF \E i \in 1..Len(syms) : syms[i].v = z THEN x.v ELSE mods[z]]
           left == SelectSeq(x.c, LAMBDA c : Upto(c, 1) \in {"B", "A"})
           blk == NC("comment", "", <<>>, [i \in 1..Len(left) |-> "A" \o From(left[i], 2)])
       IN (IF syms # <<>> THEN <<[h |-> y, x |-> y]>> ELSE IF left = <<>> THEN <<>> ELSE <<[h |-> blk, x |-> blk]>>) \o CleanLoads(Tail(q), used, mods1)
Licensed(q) ==
  LET is(s) == IsCallOf(s, "licenses") /\ Len(s.k) = 2
      I == {i \in 1..Len(q) : is(q[i].x)}
      P == {i \in 1..Len(q) : IsCallOf(q[i].x, "package")}
      new == q[Max2(I)].x
      pk == SetAttr(q[Min2(P)].x, "licenses", new.k[2])
      with == WithK(pk, [pk.k EXCEPT ![AttrAt(pk, "licenses")] = [@ EXCEPT !.c = new.c]])
  IN IF I = {} \/ P = {} THEN q ELSE SelectSeq([i \in 1..Len(q) |-> IF i = Min2(P) THEN [q[i] EXCEPT !.x = with] ELSE q[i]], LAMBDA y : ~is(y.x))
FileFixes(q, names) ==
  LET q1 == IF FixOn(names, "movePackageToTop") THEN MovePkg(q) ELSE q
      q2 == IF FixOn(names, "usePlusEqual") THEN PlusEqual(q1) ELSE q1
      q3 == IF FixOn(names, "unusedLoads") THEN CleanLoads(q2, UNION {UsedIn(q2[i].x) : i \in 1..Len(q2)}, <<>>) ELSE q2
  IN IF FixOn(names, "moveLicenses") THEN Licensed(q3) ELSE q3
RECURSIVE FixCalls(_, _, _, _), FixStmts(_, _, _, _), Sorted(_, _)
FixCalls(n, f, names, e) == IF IsCall(n) THEN FixRule(n, f, names, e) ELSE WithK(n, [i \in 1..Len(n.k) |-> FixCalls(n.k[i], f, names, e)])
FixStmts(f, i, names, e) == IF i > Len(f.k) THEN f ELSE FixStmts(WithK(f, [f.k EXCEPT ![i] = FixCalls(@, f, names, e)]), i + 1, names, e)
\* sorting the files of a glob or of exports_files counts as a change, sorted or not
Sorted(n, names) == (n.t = "call" /\ Len(n.k) > 1 /\ n.k[1].t = "id" /\ ((n.k[1].v = "glob" /\ FixOn(names, "sortGlob")) \/ (n.k[1].v = "exports_files" /\ FixOn(names, "sortExportsFiles"))))
                     \/ \E i \in 1..Len(n.k) : Sorted(n.k[i], names)

(* ---- queries ---- *)
\* A record printed: text, a tree (whatever is printed is its source), or something that is only printed together with other things
Text(x) == [k |-> "text", s |-> x, n |-> None]
Source(n) == [k |-> "tree", s |-> "", n |-> n]
Mixed == [k |-> "mixed", s |-> "", n |-> None]
LabelOf(call, f, e) == Format(Lbl("", RealPkg(e.pkg), RuleName(call, f, e.dir)))
Field(x, call, f, e) ==
  LET v == Attr(call, x) IN
  CASE x = "kind" -> Text(Kind(call))
    [] x = "name" -> Text(RuleName(call, f, e.dir))
    [] x = "label" -> Text(LabelOf(call, f, e))
    [] x = "rule" -> Source(call)
    [] x = "startline" -> Text(ToString(SpanOf(call, e)[3]))
    [] x = "endline" -> Text(ToString(SpanOf(call, e)[4]))
    [] x = "path" -> Text(e.path)
    [] x = "attrs" -> Text("[" \o Join(AttrNames(call), " ") \o "]")
    [] ~HasAttr(call, x) -> Text("(missing)")
    [] v.t \in {"num", "id"} -> Text(v.v)
    [] v.t = "str" -> IF Contains(v.v, " ") THEN Text("\"" \o v.v \o "\"") ELSE Text(v.v)
    [] v.t = "list" /\ \A i \in 1..Len(v.k) : IsStr(v.k[i]) -> Text("[" \o Join([i \in 1..Len(v.k) |-> v.k[i].v], " ") \o "]")
    [] OTHER -> Source(v)
Printed(fields, call, f, e) ==
  IF "label" \in {fields[i] : i \in 1..Len(fields)} /\ RuleName(call, f, e.dir) = "" THEN <<>> \* a rule without a name has no label
  ELSE LET q == [i \in 1..Len(fields) |-> Field(fields[i], call, f, e)]
       IN IF \A i \in 1..Len(q) : q[i].k = "text" THEN <<Text(Join([i \in 1..Len(q) |-> q[i].s], " "))>>
          ELSE IF Len(q) = 1 THEN q ELSE <<Mixed>>
Words(cs) == Join([i \in 1..Len(cs) |-> LET t == From(cs[i], 2) IN Trim(IF HasPrefix(t, "#") THEN From(t, 2) ELSE t)], " ")
OfKind(n, kinds) == SelectSeq(n.c, LAMBDA c : Upto(c, 1) \in kinds)
\* [out, err]
PrintComment(a, call, e) ==
  LET extra(w) == IF w = "" THEN "" ELSE " " \o w
      v == Attr(call, a[1])
      p == ElemPath(v, a[2], e.pkg)
  IN IF a = <<>> THEN [out |-> <<Text(Words(OfKind(call, {"B"})) \o extra(Words(OfKind(call, {"S"}))) \o extra(Words(OfKind(call, {"A"}))))>>, err |-> FALSE]
     ELSE IF ~HasAttr(call, a[1]) THEN [out |-> <<Text("(missing)")>>, err |-> TRUE]
     ELSE IF Len(a) = 1 THEN [out |-> <<Text(Words(OfKind(call.k[AttrAt(call, a[1])], {"B"}) \o OfKind(call.k[AttrAt(call, a[1])], {"S"})))>>, err |-> FALSE]
     ELSE IF p = <<>> THEN [out |-> <<Text("")>>, err |-> TRUE]
     ELSE [out |-> <<Text(Words(OfKind(GetP(v, p), {"B"}) \o OfKind(GetP(v, p), {"S"})))>>, err |-> FALSE]

RuleCmd(c, call, f, e) ==
  LET a == c.a
      pkg == e.pkg
      from(i) == SubSeq(a, i, Len(a))
      attr == IF a = <<>> THEN "" ELSE a[1]
  IN
  CASE c.c = "add" -> Done(ResolveAttr(SetAttr(call, attr, AddAll(Attr(call, attr), [i \in 1..Len(a) - 1 |-> StrOf(a[i + 1], pkg)], pkg, ~Unsorted(attr))), attr, pkg))
    [] c.c = "remove" ->
         IF Len(a) > 1 THEN (IF Keys(call, attr) = <<>> THEN Nothing(call) ELSE Done(RemoveFrom(call, Keys(call, attr), from(2), pkg)))
         ELSE IF attr = "*" THEN (IF \E i \in 1..Len(AttrNames(call)) : AttrNames(call)[i] # "name"
                                  THEN Done(WithK(call, SelectSeq(call.k, LAMBDA x : ArgName(x) \in {"", "name"}))) ELSE Nothing(call))
         ELSE IF HasAttr(call, attr) THEN Done(DelAttr(call, attr)) ELSE Nothing(call)
    [] c.c = "move" ->
         LET b == a[2] IN
         IF Len(a) = 3 /\ a[3] = "*"
         THEN IF ~HasAttr(call, attr) THEN Fails(call)
              ELSE IF ~HasAttr(call, b) THEN Done(WithK(call, [call.k EXCEPT ![AttrAt(call, attr)] = WithK(@, <<WithV(@.k[1], b), @.k[2]>>)]))
              ELSE IF IsList(Attr(call, attr)) THEN Done(DelAttr(SetAttr(call, b, AddAll(Attr(call, b), Attr(call, attr).k, pkg, ~Unsorted(b))), attr))
              ELSE Fails(call)
         ELSE LET r == MoveVals([k |-> call, ch |-> FALSE], attr, b, from(3), pkg) IN RC(r.k, r.ch, FALSE)
    [] c.c = "replace" -> Done(MapAttrs(call, Keys(call, attr), [op |-> "=", old |-> Unq(a[2]), new |-> Unq(a[3])], pkg))
    [] c.c = "substitute" -> Done(MapAttrs(call, Keys(call, attr), [op |-> "~", re |-> c.re, t |-> c.t], pkg))
    [] c.c = "set" -> Done(IF attr = "kind" THEN WithK(call, [call.k EXCEPT ![1] = DotOf(Split(a[2], "."))]) ELSE SetAttr(call, attr, ValueOf(attr, from(2), pkg)))
    [] c.c = "set_if_absent" -> IF attr = "kind" THEN Fails(call) ELSE Done(IF HasAttr(call, attr) THEN call ELSE SetAttr(call, attr, ValueOf(attr, from(2), pkg)))
    [] c.c = "remove_if_equal" ->
         LET v == Attr(call, attr) IN
         IF (IsStr(v) /\ Same(v.v, a[2], pkg)) \/ (v.t = "id" /\ v.v = a[2]) THEN Done(DelAttr(call, attr)) ELSE Nothing(call)
    [] c.c = "rename" ->
         IF HasAttr(call, a[2]) \/ ~HasAttr(call, attr) THEN Fails(call)
         ELSE Done(WithK(call, [call.k EXCEPT ![AttrAt(call, attr)] = WithK(@, <<WithV(@.k[1], a[2]), @.k[2]>>)]))
    [] c.c \in {"copy", "copy_no_overwrite"} ->
         LET i == TopNamed(f, a[2], e) IN
         IF c.c = "copy_no_overwrite" /\ HasAttr(call, attr) THEN Done(call)
         ELSE IF i = 0 THEN Fails(call)
         ELSE IF ~HasAttr(f.k[i], attr) THEN Fails(call)
         ELSE Done(SetAttr(call, attr, Attr(f.k[i], attr)))
    [] c.c \in {"dict_add", "dict_set"} ->
         IF \E i \in 2..Len(a) : Colon(a[i]) = 0 THEN Fails(call)
         ELSE Done(SetAttr(call, attr, DictPuts(DictOf(call, attr), from(2), c.c = "dict_set", pkg)))
    [] c.c = "dict_remove" ->
         IF Attr(call, attr).t # "dict" THEN Done(call)
         ELSE LET d == DictDels(Attr(call, attr), from(2)) IN Done(IF d.k = <<>> THEN DelAttr(call, attr) ELSE SetAttr(call, attr, d))
    [] c.c = "dict_replace_if_equal" ->
         LET d == Attr(call, attr)
             v == DictGet(d, a[2])
         IN IF d.t # "dict" THEN Done(call)
            ELSE IF KeyAt(d, a[2]) = 0 THEN Fails(call)
            ELSE IF (IsStr(v) /\ Same(v.v, Unq(a[3]), pkg)) \/ (v.t = "id" /\ v.v = Unq(a[3])) THEN Done(SetAttr(call, attr, DictSet(d, a[2], StrOf(Unq(a[4]), pkg))))
            ELSE Done(call)
    [] c.c = "dict_list_add" ->
         LET d == DictOf(call, attr)
             v == IF KeyAt(d, a[2]) = 0 THEN L(<<>>) ELSE DictGet(d, a[2])
         IN Done(SetAttr(call, attr, DictSet(d, a[2], AddAll(v, [i \in 1..Len(a) - 2 |-> StrOf(a[i + 2], pkg)], pkg, TRUE))))
    [] c.c = "set_select" ->
         IF Len(a) % 2 = 0 THEN Fails(call) ELSE Done(SetAttr(call, attr, Call("select", <<SelPuts(Dict(<<>>), from(2), attr, pkg)>>)))
    [] c.c = "delete" -> [Done(call) EXCEPT !.del = TRUE]
    [] c.c = "comment" ->
         LET full == ~e.eol \/ Contains(a[Len(a)], "\\n")
             cs(how) == CommentLines(a[Len(a)], how)
             i == AttrAt(call, attr)
             p == IF Len(a) = 3 THEN ElemPath(Attr(call, attr), a[2], pkg) ELSE <<>>
         IN IF Len(a) = 1 THEN Done(SetC(call, "B", cs("B")))
            ELSE IF i = 0 THEN Done(call)
            ELSE IF Len(a) = 2 THEN Done(WithK(call, [call.k EXCEPT ![i] = IF full THEN WithK(@, <<SetC(@.k[1], "B", cs("B")), @.k[2]>>) ELSE SetC(@, "S", cs("S"))]))
            ELSE IF p = <<>> THEN Done(call)
            ELSE LET x == GetP(Attr(call, attr), p) IN Done(SetAttr(call, attr, PutP(Attr(call, attr), p, IF full THEN SetC(x, "B", cs("B")) ELSE SetC(x, "S", cs("S")))))
    [] c.c = "remove_comment" ->
         LET i == AttrAt(call, attr)
             bare(n) == Without(n, {"B", "S", "A"})
             p == IF Len(a) = 2 THEN ElemPath(Attr(call, attr), a[2], pkg) ELSE <<>>
         IN IF Len(a) = 0 THEN Done(bare(call))
            ELSE IF i = 0 THEN Done(call)
            ELSE IF Len(a) = 1 THEN Done(WithK(call, [call.k EXCEPT ![i] = bare(WithK(@, <<bare(@.k[1]), bare(@.k[2])>>))]))
            ELSE IF p = <<>> THEN Done(call)
            ELSE Done(SetAttr(call, attr, PutP(Attr(call, attr), p, bare(GetP(Attr(call, attr), p)))))
    [] c.c = "fix" -> LET g == FixRule(call, f, SetOf(a), e) IN IF g # call \/ Sorted(call, SetOf(a)) THEN Done(g) ELSE Nothing(call)
    [] c.c = "print" -> [Nothing(call) EXCEPT !.out = Printed(IF a = <<>> THEN <<"name", "kind">> ELSE a, call, f, e)]
    [] c.c = "print_comment" -> LET r == PrintComment(a, call, e) IN [Nothing(call) EXCEPT !.out = r.out, !.err = r.err]

(* ---- the commands on a file ---- *)
Eq(x) == Index(x, "=")
SymOf(x) == IF Eq(x) = 0 THEN N("sym", x, <<Id(x)>>) ELSE N("sym", Upto(x, Eq(x) - 1), <<Id(From(x, Eq(x) + 1))>>)
LastIdx(q, P(_)) == LET I == {i \in 1..Len(q) : P(q[i])} IN IF I = {} THEN 0 ELSE Max2(I)
NewLoad(f, full, mod, syms) ==
  LET same == {i \in 1..Len(f.k) : IsLoad(f.k[i]) /\ f.k[i].v = mod}
      have == UNION {{f.k[i].k[j].v : j \in 1..Len(f.k[i].k)} : i \in same}
      \* of two requests for one local name the last counts
      asked == SelectSeq([i \in 1..Len(syms) |-> <<i, syms[i]>>], LAMBDA x : x[2].v \notin have /\ \A j \in x[1] + 1..Len(syms) : syms[j].v # x[2].v)
      add == [i \in 1..Len(asked) |-> asked[i][2]]
      skip(i) == f.k[i].t = "comment" \/ (f.k[i].t = "str" /\ i = 1) \/ IsCallOf(full.k[i], "workspace")
      F == {i \in 1..Len(f.k) : ~skip(i)}
      at == IF F = {} THEN Len(f.k) + 1 ELSE Min2(F)
  IN IF same # {} THEN WithK(f, [f.k EXCEPT ![Max2(same)] = WithK(@, @.k \o add)])
     ELSE WithK(f, InsertAtIdx(f.k, at, N("load", mod, syms)))
DropSyms(f, names) ==
  WithK(f, SelectSeq([i \in 1..Len(f.k) |-> IF IsLoad(f.k[i]) THEN WithK(f.k[i], SelectSeq(f.k[i].k, LAMBDA s : s.v \notin names)) ELSE f.k[i]],
           LAMBDA s : ~IsLoad(s) \/ s.k # <<>>))
InsertEnd(f, x) == LET i == LastIdx(f.k, LAMBDA s : s.t # "comment") IN WithK(f, InsertAtIdx(f.k, i + 1, x))
FC(f, ch, err) == [f |-> f, ch |-> ch, err |-> err]
\* f: the file with places for the rules taken out; full: the file with the rules in place
FileCmd(c, f, full, e) ==
  LET a == c.a
      syms == [i \in 1..Len(a) - 1 |-> SymOf(a[i + 1])]
  IN
  CASE c.c = "new" ->
         LET new == Call(a[1], <<Asg("name", S(a[2]))>>)
             rel == IF Len(a) < 4 THEN 0 ELSE IF a[4] = "__pkg__" THEN (LET P == {i \in 1..Len(f.k) : IsCallOf(full.k[i], "package")} IN IF P = {} THEN 0 ELSE Min2(P)) ELSE TopNamed(full, a[4], e)
             last == LastIdx(full.k, LAMBDA s : IsCallOf(s, a[1]))
         IN IF (rel # 0 /\ a[3] \notin {"before", "after"}) \/ TopNamed(full, a[2], e) # 0 THEN FC(f, FALSE, TRUE)
            ELSE IF rel # 0 THEN FC(WithK(f, InsertAtIdx(f.k, IF a[3] = "before" THEN rel ELSE rel + 1, new)), TRUE, FALSE)
            ELSE IF last # 0 THEN FC(WithK(f, InsertAtIdx(f.k, last + 1, new)), TRUE, FALSE)
            ELSE FC(InsertEnd(f, new), TRUE, FALSE)
    [] c.c = "new_load" -> FC(NewLoad(f, full, a[1], syms), TRUE, FALSE)
    [] c.c = "replace_load" -> FC(LET names == {syms[i].v : i \in 1..Len(syms)} IN NewLoad(DropSyms(f, names), DropSyms(full, names), a[1], syms), TRUE, FALSE)
    [] c.c = "substitute_load" -> FC(WithK(f, [i \in 1..Len(f.k) |-> IF ~IsLoad(f.k[i]) THEN f.k[i] ELSE LET r == Sub(f.k[i].v, c.re, c.t) IN IF r = <<>> THEN f.k[i] ELSE WithV(f.k[i], r[1])]), TRUE, FALSE)
    [] c.c = "format" -> FC(f, TRUE, FALSE)
FileCmds == {"new", "new_load", "replace_load", "substitute_load", "format"}
Queries == {"print", "print_comment"}

(* ---- one run ---- *)
\* The rules a target denotes are resolved once, before its commands run.  They are taken out of the file, which holds
\* a place for each of them; a rule is deleted by deleting its place.
Place(i) == N("@", ToString(i), <<>>)
PlaceNo(n) == CHOOSE i \in 1..9999 : ToString(i) = n.v
RECURSIVE Fill(_, _), TakeOut(_, _, _)
Fill(n, rs) == IF n.t = "@" THEN rs[PlaceNo(n)] ELSE WithK(n, [i \in 1..Len(n.k) |-> Fill(n.k[i], rs)])
TakeOut(f, ps, i) == IF i > Len(ps) THEN f ELSE TakeOut(PutP(f, ps[i], Place(i)), ps, i + 1)

\* state of a run: f (with places), rs (the rules taken out), ch, errs (number), out
RECURSIVE OnRules(_, _, _, _), OnCmds(_, _, _), OnTargets(_, _, _)
\* on the package declaration: the whole file is fixed
FixFile(s, names, e) ==
  LET full == Fill(s.f, s.rs)
      g == FixStmts(full, 1, names, e)
      q == FileFixes([i \in 1..Len(g.k) |-> [h |-> s.f.k[i], x |-> g.k[i]]], names)
      at(j) == {i \in 1..Len(q) : q[i].h.t = "@" /\ PlaceNo(q[i].h) = j}
      rs1 == [j \in 1..Len(s.rs) |-> IF at(j) = {} THEN s.rs[j] ELSE q[Min2(at(j))].x]
      f1 == WithK(s.f, [i \in 1..Len(q) |-> IF q[i].h.t = "@" THEN q[i].h ELSE q[i].x])
  IN [s EXCEPT !.f = f1, !.rs = rs1, !.ch = @ \/ WithK(full, [i \in 1..Len(q) |-> q[i].x]) # full \/ Sorted(full, names)]
\* with -edit-variables, values added to an attribute that is a variable of the file go into the variable
VarAt(f, name) == LET I == {i \in 1..Len(f.k) : f.k[i].t = "asg" /\ f.k[i].k[1].t = "id" /\ f.k[i].k[1].v = name} IN IF I = {} THEN 0 ELSE Max2(I)
Target(c) == IF c.c = "add" THEN c.a[1] ELSE IF c.c = "move" /\ c.a[1] # c.a[2] THEN c.a[2] ELSE ""
VarOf(s, c, i, e) == IF ~e.vars \/ Target(c) = "" THEN 0 ELSE LET v == Attr(s.rs[i], Target(c)) IN IF v.t = "id" THEN VarAt(s.f, v.v) ELSE 0
OnVariable(s, c, i, n, e) ==
  LET a == Target(c)
      r == IF c.c = "add" THEN Done(SetAttr(s.rs[i], a, AddAll(s.f.k[n].k[2], [j \in 1..Len(c.a) - 1 |-> StrOf(c.a[j + 1], e.pkg)], e.pkg, ~Unsorted(a))))
           ELSE RuleCmd(c, SetAttr(s.rs[i], a, s.f.k[n].k[2]), Fill(s.f, s.rs), e)
  IN [s EXCEPT !.rs[i] = SetAttr(r.k, a, Attr(s.rs[i], a)), !.ch = @ \/ r.ch, !.errs = IF r.err THEN @ + 1 ELSE @,
               !.f = WithK(@, [@.k EXCEPT ![n] = WithK(@, <<@.k[1], Attr(r.k, a)>>)])]
OnRules(s, c, i, e) ==
  IF i > Len(s.rs) \/ (s.errs > 0 /\ ~e.keep) THEN s
  ELSE IF VarOf(s, c, i, e) # 0 THEN OnRules(OnVariable(s, c, i, VarOf(s, c, i, e), e), c, i + 1, e)
  ELSE IF c.c = "fix" /\ Kind(s.rs[i]) = "package" THEN OnRules(FixFile(s, SetOf(c.a), e), c, i + 1, e)
  ELSE LET r == RuleCmd(c, s.rs[i], Fill(s.f, s.rs), e)
           s1 == [s EXCEPT !.rs[i] = r.k, !.ch = @ \/ r.ch, !.errs = IF r.err THEN @ + 1 ELSE @, !.out = @ \o r.out,
                           !.f = IF r.del THEN WithK(@, SelectSeq(@.k, LAMBDA x : ~(x.t = "@" /\ x.v = ToString(i)))) ELSE @]
       IN OnRules(s1, c, i + 1, e)
\* use_repo statements are calls, which may be among those taken out
UseRepo(s, c) ==
  LET full == Fill(s.f, s.rs)
      r == UseRepoCmd(c.c = "use_repo_add", full, c.a)
      placed(i) == s.f.k[i].t = "@"
      rs1 == [j \in 1..Len(s.rs) |-> LET I == {i \in r.at : placed(i) /\ PlaceNo(s.f.k[i]) = j} IN IF I = {} THEN s.rs[j] ELSE r.with[Min2(I)]]
      f1 == WithK(s.f, [i \in 1..Len(s.f.k) |-> IF i \in r.at /\ ~placed(i) THEN r.with[i] ELSE s.f.k[i]])
  IN IF r.err THEN [s EXCEPT !.errs = @ + 1]
     ELSE [s EXCEPT !.ch = TRUE, !.rs = rs1, !.f = IF r.after = 0 THEN f1 ELSE WithK(f1, InsertAtIdx(f1.k, r.after + 1, r.new))]
OnCmds(s, cs, e) ==
  IF cs = <<>> \/ (s.errs > 0 /\ ~e.keep) THEN s
  ELSE IF Head(cs).c \in {"use_repo_add", "use_repo_remove"} THEN OnCmds(UseRepo(s, Head(cs)), Tail(cs), e)
  ELSE IF Head(cs).c \in FileCmds
  THEN LET r == FileCmd(Head(cs), s.f, Fill(s.f, s.rs), e)
       IN OnCmds(IF r.err THEN [s EXCEPT !.errs = @ + 1] ELSE [s EXCEPT !.ch = @ \/ r.ch, !.f = r.f], Tail(cs), e)
  ELSE OnCmds(OnRules(s, Head(cs), 1, e), Tail(cs), e)
\* s: f, ch, errs between targets; q: the targets with their commands
OnTargets(s, q, e) ==
  IF q = <<>> \/ (s.errs > 0 /\ ~e.keep) THEN s
  ELSE LET t == Targets(s.f, q[1].t, e)
           s0 == [f |-> TakeOut(t.f, t.ps, 1), rs |-> [i \in 1..Len(t.ps) |-> GetP(t.f, t.ps[i])], ch |-> s.ch, out |-> s.out, errs |-> IF t.ok THEN s.errs ELSE s.errs + 1]
           s1 == OnCmds(s0, q[1].cs, e)
       IN OnTargets([f |-> Fill(s1.f, s1.rs), ch |-> s1.ch, out |-> s1.out, errs |-> s1.errs], Tail(q), e)
\* two different symbols of one file under one name: which one counts is not defined
Conflict(f) == \E i, j \in 1..Len(f.k) : IsLoad(f.k[i]) /\ IsLoad(f.k[j]) /\ f.k[i].v = f.k[j].v
                 /\ \E a \in 1..Len(f.k[i].k), b \in 1..Len(f.k[j].k) : f.k[i].k[a].v = f.k[j].k[b].v /\ f.k[i].k[a].k[1].v # f.k[j].k[b].k[1].v
RECURSIVE HasBad(_)
HasBad(n) == n.t = "bad" \/ \E i \in 1..Len(n.k) : HasBad(n.k[i])
EmptyPackage(s) == IsCallOf(s, "package") /\ Len(s.k) = 1
EmptyUseRepo(s) == IsCallOf(s, "use_repo") /\ Len(s.k) = 2
\* What a run leaves behind: [f, ch, errs]; without a change, or with an error that is not to be ignored, the file stays
RunQ(f, q, e) ==
  LET s == OnTargets([f |-> Mark(f, e), ch |-> FALSE, out |-> <<>>, errs |-> 0], q, e)
      u == Unmark(s.f)
      g == WithK(u, SelectSeq(u.k, LAMBDA x : ~EmptyPackage(x) /\ ~(f.v = "MODULE.bazel" /\ EmptyUseRepo(x))))
  IN IF (s.errs > 0 /\ ~e.keep) \/ ~s.ch THEN [f |-> f, ch |-> FALSE, errs |-> s.errs, out |-> s.out, vague |-> FALSE]
     ELSE IF HasBad(g) THEN [f |-> f, ch |-> FALSE, errs |-> s.errs + 1, out |-> s.out, vague |-> FALSE]
     ELSE [f |-> CanonTb(g, DefaultTb), ch |-> TRUE, errs |-> s.errs, out |-> s.out, vague |-> Conflict(g)]
Run(f, ts, cs, e) == RunQ(f, [i \in 1..Len(ts) |-> [t |-> ts[i], cs |-> cs]], e)
====
