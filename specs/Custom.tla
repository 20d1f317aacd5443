---- MODULE Custom ----
(* The tables in effect: the built-in ones, changed by files that replace them or add to them. *)
EXTENDS Canon, FiniteSets
NoMap == [x \in {} |-> 0]
BuiltIn == [list |-> NoMap] @@ DefaultTb
\* an attribute that Bazel knows to be a list
LangLists == {"deps", "srcs", "exports", "runtime_deps", "data", "tools", "hdrs", "plugins", "visibility", "tags", "outs", "args", "copts", "linkopts", "features"}
\* what a file says about a table: entries [t, k, v]
Entries(l, t) == LET K == {i \in 1..Len(l.ents) : l.ents[i].t = t} IN [k \in {l.ents[i].k : i \in K} |-> l.ents[CHOOSE i \in K : l.ents[i].k = k].v]
Yes(m) == {k \in DOMAIN m : m[k] = 1}
Flag(l, t) == \E i \in 1..Len(l.ents) : l.ents[i].t = t /\ l.ents[i].v = 1
\* the file's tables and no others
Replace(tb, l) ==
  [label |-> Yes(Entries(l, "IsLabelArg")), deny |-> Yes(Entries(l, "LabelDenylist")), sortable |-> Yes(Entries(l, "IsSortableListArg")),
   sdeny |-> Yes(Entries(l, "SortableDenylist")), sallow |-> Yes(Entries(l, "SortableAllowlist")), prio |-> Entries(l, "NamePriority"),
   list |-> Entries(l, "IsListArg"), strip |-> Flag(l, "StripLabelLeadingSlashes"), shorten |-> Flag(l, "ShortenAbsoluteLabelsToRelative"), pkg |-> tb.pkg]
\* the file's entries, and the others as they were
Over(set, m) == (set \ DOMAIN m) \cup Yes(m)
Add(tb, l) ==
  [label |-> Over(tb.label, Entries(l, "IsLabelArg")), deny |-> Over(tb.deny, Entries(l, "LabelDenylist")), sortable |-> Over(tb.sortable, Entries(l, "IsSortableListArg")),
   sdeny |-> Over(tb.sdeny, Entries(l, "SortableDenylist")), sallow |-> Over(tb.sallow, Entries(l, "SortableAllowlist")), prio |-> Entries(l, "NamePriority") @@ tb.prio,
   list |-> Entries(l, "IsListArg") @@ tb.list, strip |-> tb.strip \/ Flag(l, "StripLabelLeadingSlashes"), shorten |-> tb.shorten \/ Flag(l, "ShortenAbsoluteLabelsToRelative"), pkg |-> tb.pkg]
Usable(l) == l.bad = ""
Take(tb, l) == IF ~Usable(l) THEN tb ELSE IF l.merge THEN Add(tb, l) ELSE Replace(tb, l)
RECURSIVE TakeAll(_, _)
TakeAll(tb, q) == IF q = <<>> THEN tb ELSE TakeAll(Take(tb, Head(q)), Tail(q))
IsListAttr(tb, a) == IF a \in DOMAIN tb.list THEN tb.list[a] = 1 ELSE a \in tb.sortable \/ a \in LangLists
PkgOf(path) == LET i == LastIndex(path, "/") IN IF i = 0 THEN "." ELSE Upto(path, i - 1)
====
