-------------------------------- MODULE Binding --------------------------------
(***************************************************************************)
(* What calls of the node binding mean: how JavaScript's values stand for   *)
(* those of the crate.  An argument that may be left out is                 *)
(*   [k |-> "absent"], [k |-> "undefined"], [k |-> "null"] or               *)
(*   [k |-> "value", v |-> ...].                                            *)
(***************************************************************************)
EXTENDS GridStore

\* A language set is an array of the languages' numbers, those beyond 127 counting for nothing; without one, all languages.
ByteOf(ns, i) == LET in(b) == ((16 - i) * 8 + b) \in ns
                 IN FoldSet(LAMBDA b, n : n + 2 ^ b, 0, {b \in 0..7 : in(b)})
Langs(ls) == IF ls.k = "value" THEN [i \in 1..16 |-> ByteOf(ToSet2(ls.v), i)] ELSE AllLangs
KeyOf(p, ls) == [p |-> p, l |-> Langs(ls)]
\* A key that is listed has its languages in ascending order.
Listed(k) == KeyOf(k.p, [k |-> "value", v |-> k.ls])
WellListed(k) == \A i \in 1..(Len(k.ls) - 1) : k.ls[i] < k.ls[i + 1]

\* Numbers that the fields of an entry can hold.
Fits(e) == /\ e.x \in 0..65535 /\ e.y \in 0..65535 /\ e.s \in 0..255 /\ e.h \in 0..255
           /\ e.id[1] \in 0..65535 /\ e.id[2] \in 0..65535
FitsAll(es) == \A i \in 1..Len(es) : Fits(es[i])

Option(a) == IF a.k = "value" THEN a.v ELSE <<>>
\* Only true makes a match key wait for others; the length of a phrase is that of its UTF-8 bytes.
MeantPm(p) ==
    [store |-> p.store, idx |-> p.idx, weight |-> p.weight, mask |-> p.mask, nonov |-> p.nonov,
     keys |-> <<[key |-> [kind |-> p.key.kind, start |-> p.key.start, end |-> p.key.end, l |-> Langs(p.ls)],
                 nearby |-> p.nearby.k = "value" /\ p.nearby.v, id |-> p.id, len |-> p.bytes]>>]
Meant(q) == [pms |-> [i \in 1..Len(q.pms) |-> MeantPm(q.pms[i])],
             opts |-> [zoom |-> q.opts.zoom, bbox |-> Option(q.opts.bbox), prox |-> Option(q.opts.prox)]]

\* Answers to one question, given twice.  Where several phrasematches are coalesced as they are, what is on a par may change places.
Lead(c) == <<c.rb, c.entries[1].sd>>
SameAnswers(q, a, b) ==
    IF q.how = "coalesce" /\ Len(q.pms) > 1
    THEN Len(a) = Len(b) /\ \A i \in 1..Len(a) : Lead(a[i]) = Lead(b[i])
    ELSE a = b
=============================================================================
