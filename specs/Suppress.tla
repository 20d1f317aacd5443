---- MODULE Suppress ----
(* Suppression comments.  A node has the lines s..e and comments, each with its line; the comment silences the findings of
   the category it names on all lines of the node and of its comments before and after. *)
EXTENDS Tree, FiniteSets, TLC
CatChar(c) == Index("abcdefghijklmnopqrstuvwxyz0123456789-_", c) > 0
\* the text names the category: the marker, the name, and not a longer name
RECURSIVE NamesFrom(_, _, _)
NamesFrom(t, m, i) ==
  IF i > Len(t) - Len(m) + 1 THEN FALSE
  ELSE IF SubSeq(t, i, i + Len(m) - 1) = m /\ (i + Len(m) > Len(t) \/ ~CatChar(Chr(t, i + Len(m)))) THEN TRUE
  ELSE NamesFrom(t, m, i + 1)
NamesCat(text, cat) == LET t == Lower(text) IN NamesFrom(t, "buildifier: disable=" \o cat, 1) \/ NamesFrom(t, "buildozer: disable=" \o cat, 1)
FirstLine(n) == LET b == SelectSeq(n.c, LAMBDA c : c.k = "B") IN IF b = <<>> THEN n.s ELSE b[1].l
LastLine(n) == LET a == SelectSeq(n.c, LAMBDA c : c.k = "A") IN IF a = <<>> THEN n.e ELSE a[Len(a)].l
SilencedBy(n, cat, line) == FirstLine(n) <= line /\ line <= LastLine(n) /\ \E i \in 1..Len(n.c) : NamesCat(n.c[i].t, cat)
Silenced(nodes, cat, line) == \E i \in 1..Len(nodes) : SilencedBy(nodes[i], cat, line)
====
