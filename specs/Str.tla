---- MODULE Str ----
\* String helpers.  Strings are TLC strings; Len, SubSeq and \o work on them.
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC

Chr(s, i) == SubSeq(s, i, i)
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(S) == CHOOSE x \in S : \A y \in S : x >= y

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
TrimPrefix(s, p) == IF HasPrefix(s, p) THEN From(s, Len(p) + 1) ELSE s
TrimSuffix(s, p) == IF HasSuffix(s, p) THEN Upto(s, Len(s) - Len(p)) ELSE s

\* Position of the first occurrence of t in s, 0 if there is none.
Index(s, t) ==
  LET I == {i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t}
  IN IF I = {} THEN 0 ELSE Min2(I)
LastIndex(s, t) ==
  LET I == {i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t}
  IN IF I = {} THEN 0 ELSE Max2(I)
Contains(s, t) == Index(s, t) # 0

RECURSIVE TrimLeft(_, _)
TrimLeft(s, c) == IF s # "" /\ Chr(s, 1) = c THEN TrimLeft(From(s, 2), c) ELSE s

RECURSIVE Split(_, _)
\* Split at every occurrence of the separator t (non-empty).
Split(s, t) ==
  LET i == Index(s, t)
  IN IF i = 0 THEN <<s>> ELSE <<Upto(s, i - 1)>> \o Split(From(s, i + Len(t)), t)

RECURSIVE Chars(_)
Chars(s) == IF s = "" THEN <<>> ELSE <<Chr(s, 1)>> \o Chars(From(s, 2))

RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(s, t, u) ==
  LET i == Index(s, t)
  IN IF i = 0 THEN s ELSE Upto(s, i - 1) \o u \o ReplaceAll(From(s, i + Len(t)), t, u)

\* Byte order of printable ASCII.
Alphabet == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Rank == [c \in {Chr(Alphabet, i) : i \in 1..Len(Alphabet)} |-> CHOOSE i \in 1..Len(Alphabet) : Chr(Alphabet, i) = c]
UpperA == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerA == "abcdefghijklmnopqrstuvwxyz"
LowerC(c) == LET i == Index(UpperA, c) IN IF i = 0 THEN c ELSE Chr(LowerA, i)
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerC(Chr(s, 1)) \o Lower(From(s, 2))

\* Lexicographic byte order on strings: -1, 0, 1
RECURSIVE Cmp(_, _)
Cmp(a, b) ==
  IF a = b THEN 0
  ELSE IF a = "" THEN -1
  ELSE IF b = "" THEN 1
  ELSE IF Chr(a, 1) = Chr(b, 1) THEN Cmp(From(a, 2), From(b, 2))
  ELSE IF Rank[Chr(a, 1)] < Rank[Chr(b, 1)] THEN -1 ELSE 1
StrLess(a, b) == Cmp(a, b) = -1

\* Sequence helpers
FilterSeq(q, P(_)) == SelectSeq(q, P)
MapSeq(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
SetOf(q) == {q[i] : i \in 1..Len(q)}
InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
RemoveIdx(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertAtIdx(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

\* Stable sort by a strict order: each element goes to the position given by how many precede it.
SortBy(q, Lt(_, _)) ==
  LET pos(i) == 1 + Cardinality({j \in 1..Len(q) : Lt(q[j], q[i]) \/ (j < i /\ ~Lt(q[i], q[j]))})
      P == [i \in 1..Len(q) |-> pos(i)]
  IN [k \in 1..Len(q) |-> q[CHOOSE i \in 1..Len(q) : P[i] = k]]
\* Remove later duplicates.
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>>
           ELSE LET p == Uniq(SubSeq(q, 1, Len(q) - 1)) IN IF InSeq(q[Len(q)], p) THEN p ELSE Append(p, q[Len(q)])
====
