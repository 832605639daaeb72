-------------------------------- MODULE Phrases --------------------------------
(***************************************************************************)
(* Sets of phrases as the binding hands them out.  A phrase is a sequence   *)
(* of words; the numbers that finishing gives follow their order.           *)
(*   words: the phrases in the order in which they were inserted, each once *)
(*   by:    words that are read as others                                   *)
(*   map:   number while building -> number in the finished set             *)
(***************************************************************************)
EXTENDS Values

NewPhrases == [words |-> <<>>, by |-> <<>>, done |-> FALSE, map |-> <<>>, bins |-> [n \in {} |-> <<>>]]

ReadAs(by, w) == LET n == {i \in 1..Len(by) : by[i].from = w}
                 IN IF n = {} THEN w ELSE by[CHOOSE i \in n : \A j \in n : i <= j].to
Read(f, ws) == [i \in 1..Len(ws) |-> ReadAs(f.by, ws[i])]
Has1(f, ws) == \E i \in 1..Len(f.words) : f.words[i] = ws
Inserted(f, ws) == IF Has1(f, Read(f, ws)) THEN f ELSE [f EXCEPT !.words = Append(@, Read(f, ws))]
NumberOf(f, ws) == IF Has1(f, Read(f, ws)) THEN (CHOOSE i \in 1..Len(f.words) : f.words[i] = Read(f, ws)) - 1 ELSE Len(f.words)

-----------------------------------------------------------------------------
(* The alphabetical order of words, and of phrases word by word. *)
Letters == "abcdefghijklmnopqrstuvwxyz"
Letter == [c \in {SubSeq(Letters, i, i) : i \in 1..26} |-> CHOOSE i \in 1..26 : SubSeq(Letters, i, i) = c]
RECURSIVE WordLt(_, _)
WordLt(a, b) ==
    IF a = "" THEN b # "" ELSE IF b = "" THEN FALSE
    ELSE LET x == Letter[SubSeq(a, 1, 1)]
             y == Letter[SubSeq(b, 1, 1)]
         IN x < y \/ (x = y /\ WordLt(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))))
RECURSIVE PhraseLt(_, _)
PhraseLt(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
                  ELSE WordLt(a[1], b[1]) \/ (a[1] = b[1] /\ PhraseLt(Tail(a), Tail(b)))

IsRenumbering(f, map) ==
    /\ Len(map) = Len(f.words)
    /\ \A i \in 1..Len(map) : map[i] = P(Cardinality({j \in 1..Len(map) : PhraseLt(f.words[j], f.words[i])}))
Sorted1(f) == [n \in 1..Len(f.words) |-> f.words[CHOOSE i \in 1..Len(f.words) : f.map[i] = P(n - 1)]]
ByNumber(f, id) == IF id[1] = 0 /\ id[2] < Len(f.words) THEN <<TRUE, Sorted1(f)[id[2] + 1]>> ELSE <<FALSE, <<>>>>

\* Boundaries of bins: the first number of each, and one beyond the last.
BinsOf(f, most) ==
    LET n == Len(f.words)
        bins == (n + most - 1) \div most
    IN IF n = 0 THEN <<>> ELSE [i \in 1..(bins + 1) |-> IF i <= bins THEN P((i - 1) * most) ELSE P(n)]

\* Many phrases, numbered 0, 1, ... in order, of which the k-th inserted is the (k * step) % n-th: what holds for few holds for them.
Padded9(i) == SubSeq("000000000", 1, 9 - Len(ToString(i))) \o ToString(i)
CrowdAs(n, step, most, asked, some, got) ==
    LET place(k) == (k * step) % n
        bins == (n + most - 1) \div most
    IN /\ Len(got.ids) = n /\ \A k \in 1..n : got.ids[k] = k - 1
       /\ Len(got.map) = n /\ \A k \in 1..n : got.map[k] = place(k - 1)
       /\ got.bins = [i \in 1..(bins + 1) |-> IF i <= bins THEN (i - 1) * most ELSE n]
       /\ \A j \in 1..Len(asked) : /\ got.words[j] = (IF asked[j] < n THEN "w" \o Padded9(asked[j]) ELSE "")
                                  /\ got.ranges[j] = (IF asked[j] < n THEN <<<<asked[j], asked[j]>>>> ELSE <<>>)
       /\ Len(got.places) = Cardinality({some[i] : i \in 1..Len(some)})
       /\ {got.places[i] : i \in 1..Len(got.places)} = {<<place(some[i]), <<some[i]>>>> : i \in 1..Len(some)}
       /\ \A i \in 1..(Len(got.places) - 1) : got.places[i][1] < got.places[i + 1][1]

-----------------------------------------------------------------------------
(* Looking for phrases, whole or by their beginning. *)
StartsWith(a, b) == Len(a) >= Len(b) /\ SubSeq(a, 1, Len(b)) = b
Matches1(p, q, ending) ==
    CASE ending = "nonPrefix" -> p = q
      [] ending = "wordBoundaryPrefix" -> StartsWith(p, q)
      [] ending = "anyPrefix" -> /\ Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q) - 1) = SubSeq(q, 1, Len(q) - 1)
                                 /\ StartsWith(p[Len(q)], q[Len(q)])
HasPhrase(f, ws, ending) == ws # <<>> /\ \E i \in 1..Len(f.words) : Matches1(f.words[i], Read(f, ws), ending)

RECURSIVE Edits(_, _)
Edits(a, b) ==
    IF a = "" THEN Len(b) ELSE IF b = "" THEN Len(a)
    ELSE LET x == SubSeq(a, 2, Len(a))
             y == SubSeq(b, 2, Len(b))
         IN IF SubSeq(a, 1, 1) = SubSeq(b, 1, 1) THEN Edits(x, y)
            ELSE 1 + Min2(Edits(x, y), Min2(Edits(x, b), Edits(a, y)))
EndingCode == [nonPrefix |-> 0, anyPrefix |-> 1, wordBoundaryPrefix |-> 2]
Range1(f, q, ending) ==
    LET ns == {n \in 1..Len(f.words) : Matches1(Sorted1(f)[n], q, ending)}
    IN <<P((CHOOSE n \in ns : \A m \in ns : n <= m) - 1), P((CHOOSE n \in ns : \A m \in ns : n >= m) - 1)>>
FuzzyMatches(f, ws, word, phrase, ending) ==
    LET q == Read(f, ws)
        n == Len(q)
        enough(p) == IF ending = "nonPrefix" THEN Len(p) = n ELSE Len(p) >= n
        begins(p) == ending = "anyPrefix" /\ StartsWith(p[n], q[n])
        found(p) == [i \in 1..n |-> IF i = n /\ begins(p) THEN q[n] ELSE p[i]]
        off(p) == [i \in 1..n |-> Edits(found(p)[i], q[i])]
        sum(p) == FoldLeft(LAMBDA a, b : a + b, 0, off(p))
        close(p) == enough(p) /\ (\A i \in 1..n : off(p)[i] <= word) /\ sum(p) <= phrase
        \* what merely resembles the last word is a whole word
        kind(p) == IF ending = "anyPrefix" /\ ~begins(p) THEN "wordBoundaryPrefix" ELSE ending
    IN {[phrase |-> found(p), edits |-> sum(p), ending |-> EndingCode[kind(p)], range |-> Range1(f, found(p), kind(p))]
          : p \in {f.words[i] : i \in {i \in 1..Len(f.words) : close(f.words[i])}}}
Windows(f, ws, word, phrase, ending) ==
    UNION {{[phrase |-> m.phrase, edits |-> m.edits, ending |-> m.ending, range |-> m.range, at |-> i - 1]
              : m \in FuzzyMatches(f, SubSeq(ws, i, j), word, phrase, IF j = Len(ws) THEN ending ELSE "nonPrefix")}
           : <<i, j>> \in {<<i, j>> \in (1..Len(ws)) \X (1..Len(ws)) : i <= j}}
=============================================================================
