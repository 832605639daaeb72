-------------------------------- MODULE MC_Multi --------------------------------
(***************************************************************************)
(* Stacking several phrasematches level by level (Multi): what a user can   *)
(* count on, for all small sets of matches.                                 *)
(***************************************************************************)
EXTENDS Coalescing, Json

CONSTANTS ZoomLists, MaskLists, Weights, Relevs, Xs, MaxMs, Emit

\* for the configurations
ZL2 == {<<6, 6>>, <<6, 7>>, <<0, 16>>}
ZL3 == {<<6, 6, 6>>, <<6, 6, 7>>, <<6, 7, 7>>, <<6, 7, 8>>}
ML2 == {<<{0}, {1}>>, <<{1}, {0}>>, <<{0}, {0}>>, <<{0}, {0, 1}>>}
ML3 == {<<{0}, {1}, {2}>>, <<{0}, {1}, {0}>>, <<{0}, {0}, {1}>>, <<{0, 1}, {1}, {2}>>, <<{0}, {1}, {0, 1}>>}

VARIABLES stack
PmAt(k, zoom, mask, w) == [type |-> k, zoom |-> zoom, idx |-> k, weight |-> w, mask |-> mask, nonov |-> {},
                           keys |-> <<[id |-> 0, ms |-> <<>>]>>]
Match(k, n, r, x) == [r |-> r, s |-> 0, x |-> x, y |-> 0, id |-> P(10 * k + n), h |-> 0, ml |-> TRUE, d2 |-> <<0, 0>>, sd |-> <<0>>]

Init == \E zs \in ZoomLists : \E masks \in {m \in MaskLists : Len(m) = Len(zs)} : \E w \in [1..Len(zs) -> Weights] :
        stack = [k \in 1..Len(zs) |-> PmAt(k, zs[k], masks[k], w[k])]
Ms(k) == stack[k].keys[1].ms
\* matches are added in order: to the last that has some, or to a later one
Grow == \E k \in 1..Len(stack) :
        /\ \A j \in (k + 1)..Len(stack) : Ms(j) = <<>>
        /\ Len(Ms(k)) < MaxMs
        /\ \E r \in Relevs, x \in Xs :
              /\ x < 2 ^ (stack[k].zoom - stack[1].zoom + 1)
              /\ stack' = [stack EXCEPT ![k].keys[1].ms = Append(@, Match(k, Len(@) + 1, r, x))]
Next == Grow
Spec == Init /\ [][Next]_stack

-----------------------------------------------------------------------------
Covers(a, m, b, n) == stack[b].zoom <= stack[a].zoom /\ Out(m.x, stack[a].zoom - stack[b].zoom) = n.x
\* Only stacks that begin with a match of the first phrasematch are built upon.
RECURSIVE Rooted(_, _)
Rooted(b, n) == b = 1 \/ \E c \in 1..(b - 1) : \E k \in 1..Len(Ms(c)) : Covers(b, Ms(b)[n], c, Ms(c)[k]) /\ Rooted(c, k)
\* Every stack that could be built on match m of phrasematch a, by those before it: choices of one match or none of each.
Ways(a, m) == {f \in [1..(a - 1) -> 0..MaxMs] : \A b \in 1..(a - 1) : f[b] = 0 \/ (f[b] <= Len(Ms(b)) /\ Covers(a, m, b, Ms(b)[f[b]]) /\ Rooted(b, f[b]))}
Worth(a, m, f) == Weighted(stack[a], m.r) + FoldLeft(LAMBDA sum, b : IF f[b] = 0 THEN sum ELSE sum + Weighted(stack[b], Ms(b)[f[b]].r), 0,
                                                     [b \in 1..(a - 1) |-> b])
Best(a, m) == Max({Worth(a, m, f) : f \in Ways(a, m)})

AllLegal == \A built \in {Multi(stack)} : \A c \in built.all : LegalStack(stack, c)
\* No context is above the maximum that the others are compared with.
AtMost == \A built \in {Multi(stack)} : \A c \in built.all : c.r <= built.max
\* Masks that do not overlap: every match of the last phrasematch leads a context, with the best of what covers it.
Disjoint == \A i, j \in 1..Len(stack) : i # j => stack[i].mask \cap stack[j].mask = {}
BestOfAll == Disjoint => \A built \in {Multi(stack)} :
    \A n \in 1..Len(Ms(Len(stack))) : \A m \in {Ms(Len(stack))[n]} :
        \E c \in built.all : c.es[1].tmp = <<Len(stack) * 512 + m.id[1], m.id[2]>> /\ Sum(c) = Best(Len(stack), m)
\* Every two matches that can be stacked are.
Pairs == Disjoint => \A built \in {Multi(stack)} :
    \A a \in 1..Len(stack) : \A b \in 1..(a - 1) : \A m \in ToSet2(Ms(a)) : \A k \in 1..Len(Ms(b)) : \A n \in {Ms(b)[k]} :
        Covers(a, m, b, n) /\ Rooted(b, k) => \E c \in built.all : c.es[1].idx = a /\ c.es[1].id = m.id
                                                  /\ Sum(c) >= Weighted(stack[a], m.r) + Weighted(stack[b], n.r)
PrintScenario == (Emit /\ \A k \in 1..Len(stack) : Ms(k) # <<>>) =>
    PrintT("@@SCN " \o ToJson([pms |-> [k \in 1..Len(stack) |-> [zoom |-> stack[k].zoom, mask |-> SetToSortSeq(stack[k].mask, <), weight |-> stack[k].weight,
                                        ms |-> [n \in 1..Len(Ms(k)) |-> <<Ms(k)[n].r, Ms(k)[n].x, Ms(k)[n].id[2]>>]]]]))
=============================================================================
