---- MODULE StrLit ----
(* String literals: what a literal denotes.  A literal and a value are sequences of bytes (numbers). *)
EXTENDS Integers, Sequences
BS == 92  DQ == 34  SQ == 39  NL == 10  RR == 114
Mx(S) == CHOOSE x \in S : \A y \in S : y <= x
Mn(S) == CHOOSE x \in S : \A y \in S : x <= y
At(b, i) == IF i >= 1 /\ i <= Len(b) THEN b[i] ELSE -1
Raw(b) == At(b, 1) = RR /\ At(b, 2) \in {DQ, SQ}
Open(b) == IF Raw(b) THEN 2 ELSE 1                        \* index of the opening quote
Quo(b) == At(b, Open(b))
IsLit(b) == Quo(b) \in {DQ, SQ}
Triple(b) == LET o == Open(b) IN At(b, o + 1) = Quo(b) /\ At(b, o + 2) = Quo(b)
Body(b) == IF Triple(b) THEN Open(b) + 3 ELSE Open(b) + 1 \* index of the first byte of the contents
\* index of the first byte of the closing quotes; 0: there are none before the end of the file or of the line.  A backslash takes the byte behind it along.
RECURSIVE Close(_, _)
Close(b, i) ==
  IF i > Len(b) THEN 0
  ELSE IF Triple(b) /\ b[i] = Quo(b) /\ At(b, i + 1) = Quo(b) /\ At(b, i + 2) = Quo(b) THEN i
  ELSE IF ~Triple(b) /\ b[i] = Quo(b) THEN i
  ELSE IF ~Triple(b) /\ b[i] = NL THEN 0
  ELSE IF b[i] = BS THEN (IF i = Len(b) THEN 0 ELSE Close(b, i + 2))
  ELSE Close(b, i + 1)
CloseAt(b) == Close(b, Body(b))
EndAt(b) == IF CloseAt(b) = 0 THEN 0 ELSE CloseAt(b) + (IF Triple(b) THEN 2 ELSE 0)
Whole(b) == IsLit(b) /\ EndAt(b) = Len(b)                 \* the literal is all of b
Open0(b) == IsLit(b) /\ CloseAt(b) = 0                    \* the literal is never closed
\* ---- escapes
Oct(x) == x >= 48 /\ x <= 55
HexVal(x) == IF x >= 48 /\ x <= 57 THEN x - 48 ELSE IF x >= 65 /\ x <= 70 THEN x - 55 ELSE IF x >= 97 /\ x <= 102 THEN x - 87 ELSE -1
RECURSIVE Hex(_, _, _)
\* value of n hexadecimal digits from i on, -1: there are none; huge values are cut (they are all out of range)
Hex(b, i, n) == IF n = 0 THEN 0 ELSE LET h == HexVal(At(b, i + n - 1)) r == Hex(b, i, n - 1) IN IF h < 0 \/ r < 0 THEN -1 ELSE IF r > 10000000 THEN r ELSE r * 16 + h
Utf8(n) == IF n < 128 THEN <<n>>
           ELSE IF n < 2048 THEN <<192 + n \div 64, 128 + (n % 64)>>
           ELSE IF n < 65536 THEN <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
           ELSE <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
Simple == [x \in {97, 98, 102, 110, 114, 116, 118, 92, 39, 34} |->
  CASE x = 97 -> 7 [] x = 98 -> 8 [] x = 102 -> 12 [] x = 110 -> 10 [] x = 114 -> 13 [] x = 116 -> 9 [] x = 118 -> 11 [] OTHER -> x]
No == [ok |-> FALSE, v |-> <<>>, n |-> 0]
Yes(v, n) == [ok |-> TRUE, v |-> v, n |-> n]
Rune(b, i, n) == LET h == Hex(b, i + 2, n) IN IF h < 0 \/ (h >= 55296 /\ h <= 57343) \/ h > 1114111 THEN No ELSE Yes(Utf8(h), n + 2)
\* the escape at i: its value and its length
Escape(b, i) ==
  LET x == At(b, i + 1) IN
  CASE x = -1 -> No
    [] x = NL -> Yes(<<>>, 2)
    [] x \in DOMAIN Simple -> Yes(<<Simple[x]>>, 2)
    [] Oct(x) -> LET n == IF Oct(At(b, i + 2)) THEN (IF Oct(At(b, i + 3)) THEN 3 ELSE 2) ELSE 1
                     v == IF n = 1 THEN x - 48 ELSE IF n = 2 THEN (x - 48) * 8 + b[i + 2] - 48 ELSE (x - 48) * 64 + (b[i + 2] - 48) * 8 + b[i + 3] - 48
                 IN IF v > 255 THEN No ELSE Yes(<<v>>, n + 1)
    [] x = 120 -> LET h == Hex(b, i + 2, 2) IN IF h < 0 THEN No ELSE Yes(<<h>>, 4)
    [] x = 117 -> Rune(b, i, 4)
    [] x = 85 -> Rune(b, i, 8)
    [] OTHER -> Yes(<<BS, x>>, 2)                          \* an unknown escape stands for itself
RECURSIVE Unesc(_)
Unesc(c) == IF c = <<>> THEN [ok |-> TRUE, v |-> <<>>]
            ELSE IF c[1] # BS
            THEN LET J == {j \in 1..Len(c) : c[j] = BS}
                     n == IF J = {} THEN Len(c) ELSE Mn(J) - 1
                     r == Unesc(SubSeq(c, n + 1, Len(c)))
                 IN [ok |-> r.ok, v |-> SubSeq(c, 1, n) \o r.v]
            ELSE LET e == Escape(c, 1) r == Unesc(SubSeq(c, e.n + 1, Len(c))) IN IF ~e.ok THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> r.ok, v |-> e.v \o r.v]
\* what a whole literal denotes
Denote(b) == LET c == SubSeq(b, Body(b), CloseAt(b) - 1) IN IF Raw(b) THEN [ok |-> TRUE, v |-> c] ELSE Unesc(c)
\* ---- writing: one literal for every value
RECURSIVE Esc(_, _)
Esc(v, triple) ==
  IF v = <<>> THEN <<>>
  ELSE (IF Head(v) \in {BS, DQ} THEN <<BS, Head(v)>> ELSE IF Head(v) = NL /\ ~triple THEN <<BS, 110>>
        ELSE IF Head(v) < 32 \/ Head(v) > 126 THEN <<BS, 48 + Head(v) \div 64, 48 + ((Head(v) \div 8) % 8), 48 + (Head(v) % 8)>> ELSE <<Head(v)>>) \o Esc(Tail(v), triple)
Quote(v, triple) == LET q == IF triple THEN <<DQ, DQ, DQ>> ELSE <<DQ>> IN q \o Esc(v, triple) \o q
\* ---- the docstring of a function follows the indentation of the function: every line but the first is shifted
\* (to the left only over spaces), and loses its trailing spaces unless it is the last one
RECURSIVE Lines(_), Unlines(_)
Lines(b) == LET J == {j \in 1..Len(b) : b[j] = NL} IN IF J = {} THEN <<b>> ELSE <<SubSeq(b, 1, Mn(J) - 1)>> \o Lines(SubSeq(b, Mn(J) + 1, Len(b)))
Unlines(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<NL>> \o Unlines(Tail(q))
Lead(l) == LET J == {j \in 1..Len(l) : l[j] # 32} IN IF J = {} THEN Len(l) ELSE Mn(J) - 1
RTrim(l) == LET J == {j \in 1..Len(l) : l[j] # 32} IN IF J = {} THEN <<>> ELSE SubSeq(l, 1, Mx(J))
Shift(l, d) == IF d >= 0 THEN [i \in 1..d |-> 32] \o l
               ELSE IF Lead(l) = Len(l) THEN (IF Len(l) <= -d THEN l ELSE SubSeq(l, 1 - d, Len(l))) \* blanks only
               ELSE SubSeq(l, 1 + (IF Lead(l) < -d THEN Lead(l) ELSE -d), Len(l))
Reindent(b, d) == LET q == Lines(b) IN Unlines([i \in 1..Len(q) |-> IF i = 1 THEN q[1] ELSE IF i < Len(q) THEN RTrim(Shift(q[i], d)) ELSE Shift(q[i], d)])
====
