----------------------------- MODULE BoundedQueue -----------------------------
(***************************************************************************)
(* A queue of at most `max` elements that keeps the greatest.  Its contents *)
(* are a sequence in descending order (a bag, written out).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Descending(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
\* v put where it belongs
Place(s, v) == LET before == SelectSeq(s, LAMBDA w : w >= v)
               IN before \o <<v>> \o SubSeq(s, Len(before) + 1, Len(s))
Cut(s, n) == SubSeq(s, 1, IF Len(s) <= n THEN Len(s) ELSE n)

\* Is v kept?  When full, only if it beats the worst.
Keeps(s, max, v) == Len(s) < max \/ (max > 0 /\ v > s[Len(s)])
Push(s, max, v) == Cut(Place(s, v), max)
Pop(s) == IF s = <<>> THEN s ELSE Tail(s)
Greatest(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Least(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
=============================================================================
