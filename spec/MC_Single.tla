------------------------------- MODULE MC_Single -------------------------------
(***************************************************************************)
(* How one phrasematch is coalesced: a pass over the stream of its matches  *)
(* that keeps one match per feature and stops early.  Checked against what  *)
(* a user is promised (SoundSingle, CompleteSingle), for all streams.       *)
(*                                                                          *)
(* Old is the set of steps that are taken as they were before the repairs   *)
(* of C13; with any of them TLC finds a feature that is lost or is not      *)
(* represented by its best match (models expected to fail).                 *)
(***************************************************************************)
EXTENDS Coalescing, Json

CONSTANTS Ids, Relevs, Dists, MaxLen, Most, Weight,
          Near,             \* is there a proximity point?  then score-distances come in any order within a relevance
          Mixed,            \* are there matches in another language?  those that are not near are penalised
          Old, Emit

VARIABLES stream, i, found, prev, max, least, count, done
vars == <<stream, i, found, prev, max, least, count, done>>

Pm == [type |-> 1, zoom |-> 6, idx |-> 1, weight |-> Weight, mask |-> {0}, nonov |-> {}, keys |-> <<>>]
\* g: the relevance before the penalty, which is what matches are sorted by; they differ in their tiles
At(g, pen, ml, d, id, n) == [r |-> IF pen THEN (g \div 100) * 96 ELSE g, g |-> g, s |-> 0, x |-> n, y |-> 0, id |-> P(id), h |-> 0,
                             ml |-> ml, d2 |-> <<0, 0>>, sd |-> <<d>>]
\* may m come next in the stream?
Follows(s, m) ==
    /\ ~Near => ~(m.r = m.g /\ ~m.ml)     \* none is near
    /\ s # <<>> => \E l \in {s[Len(s)]} :
          /\ m.g <= l.g
          /\ ~Near => (m.r < l.r \/ (m.r = l.r /\ LexLe(m.sd, l.sd)))

Init == /\ stream = <<>>
        /\ i = 0 /\ found = <<>> /\ max = 0 /\ count = 0 /\ done = FALSE
        /\ prev = [id |-> P(0), r |-> 0, sd |-> IF "zero" \in Old THEN <<0>> ELSE <<-1>>]
        /\ least = <<999>>
\* first the stream is made up, then it is read
Grow == /\ i = 0 /\ Len(stream) < MaxLen
        /\ \E g \in Relevs, d \in Dists, id \in Ids, k \in IF Mixed THEN {<<FALSE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, FALSE>>} ELSE {<<FALSE, TRUE>>} :
           \E m \in {At(g, k[1], k[2], d, id, Len(stream) + 1)} :
              Follows(stream, m) /\ stream' = Append(stream, m)
        /\ UNCHANGED <<i, found, prev, max, least, count, done>>
Begin == i = 0 /\ i' = 1 /\ UNCHANGED <<stream, found, prev, max, least, count, done>>

Stop == done' = TRUE /\ UNCHANGED <<stream, i, found, prev, max, least, count>>
Skip == i' = i + 1 /\ UNCHANGED <<stream, found, prev, max, least, count, done>>
Bigger == 2 * MaxContexts
Take1(m, r) ==
    LET vacant == m.id \notin DOMAIN found
        better == ~vacant /\ LexLt(found[m.id].sd, m.sd) /\ found[m.id].r <= m.r
        n == IF (IF "count" \in Old THEN m.id # prev.id ELSE vacant) THEN count + 1 ELSE count
    IN /\ found' = IF vacant \/ better THEN (m.id :> m) @@ found ELSE found
       /\ max' = Max2(max, r)
       /\ count' = n
       /\ prev' = [id |-> m.id, r |-> r, sd |-> m.sd]
       /\ least' = IF LexLt(m.sd, least) THEN m.sd ELSE least
       /\ i' = i + 1
       /\ done' = (~Near /\ n > Bigger)
       /\ UNCHANGED stream
Read ==
    i > 0 /\ ~done /\
    IF i > Len(stream) THEN Stop
    ELSE \E m \in {stream[i]} : \E r \in {Weighted(Pm, m.r)} :
         IF m.id = prev.id /\ LexLe(m.sd, prev.sd) /\ (r <= prev.r \/ "skip" \in Old) THEN Skip
         ELSE IF count > Bigger /\ LexLt(m.sd, least) THEN Skip
         ELSE IF count > Bigger /\ r < prev.r THEN Stop
         ELSE IF max - r >= 250000
              THEN IF m.ml \/ "cut" \in Old \/ max - Weighted(Pm, m.g) >= 250000 THEN Stop ELSE Skip
         ELSE Take1(m, r)
Next == Grow \/ Begin \/ (~Emit /\ Read)
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Read)

Rank(m) == <<m.r>> \o m.sd \o <<m.x, m.y>> \o m.id
Sorted == SortSeq(SetToSeq({found[f] : f \in DOMAIN found}), LAMBDA a, b : LexLt(Rank(b), Rank(a)))
Answer == LET s == Sorted
              kept == SelectSeq(SubSeq(s, 1, Min2(Len(s), MaxContexts)), LAMBDA m : Weighted(Pm, s[1].r) - Weighted(Pm, m.r) < 250000)
          IN [k \in 1..Len(kept) |-> Lone(Pm, 0, kept[k])]

Sound == done => SoundSingle(Pm, 0, stream, stream, Answer)
Complete ==
    done => \A cs \in {Answer} :
            CompleteSingle(Pm, stream, cs, LAMBDA v : Len(cs) = MaxContexts /\ \A k \in 1..Len(cs) : LexLe(v, Value(cs[k].r, cs[k].es[1].sd)))
PrintScenario == (Emit /\ i = 1 /\ found = <<>> /\ ~done /\ stream # <<>>) =>
    PrintT("@@SCN " \o ToJson([stream |-> [k \in 1..Len(stream) |-> LET m == stream[k] IN <<m.g, m.r # m.g, m.ml, m.sd[1], m.id[2]>>]]))
Finishes == (i > 0) ~> done
=============================================================================
