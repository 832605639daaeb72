------------------------------- MODULE Stacking -------------------------------
(***************************************************************************)
(* Phrasematches that are stacked: each covers part of the query (mask),    *)
(* comes from a store with an index, a type and a zoom, has a weight, and   *)
(* lists the indexes it cannot be stacked with (nonov).                     *)
(* pms: sequence of records with fields type, idx, zoom, weight, mask,      *)
(* nonov; a path is a sequence of positions in it.                          *)
(***************************************************************************)
EXTENDS Integers, TLC, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Total(pms, path) == FoldLeft(LAMBDA acc, i : acc + pms[i].weight, 0, path)
Covered(pms, path) == UNION {pms[path[i]].mask : i \in 1..Len(path)}

\* May j be stacked onto the path?
Fits(pms, path, j) ==
    path = <<>> \/
    LET last == pms[path[Len(path)]] IN
    /\ pms[j].type > last.type
    /\ pms[j].mask \cap Covered(pms, path) = {}
    /\ \A i \in 1..Len(path) : pms[j].idx \notin pms[path[i]].nonov
    /\ last.idx \notin pms[j].nonov

RECURSIVE Grown(_, _)
Grown(pms, paths) ==
    LET more == UNION {{Append(p, j) : j \in {j \in 1..Len(pms) : Fits(pms, p, j)}} : p \in paths}
    IN IF more = {} THEN paths ELSE paths \cup Grown(pms, more)
LegalPaths(pms) == Grown(pms, {<<>>}) \ {<<>>}
\* those that nothing can be stacked onto
Ends(pms, legal) == {p \in legal : \A j \in 1..Len(pms) : ~Fits(pms, p, j)}
Legal(pms, p) == \A i \in 1..Len(p) : Fits(pms, SubSeq(p, 1, i - 1), p[i])

-----------------------------------------------------------------------------
(* A tree as it is found: nodes in preorder, each [parent, pm, mask, idx,   *)
(* zoom, max, leaf]; parent 0 is the root.                                  *)
Paths(nodes) == FoldLeft(LAMBDA acc, n : Append(acc, (IF n.parent = 0 THEN <<>> ELSE acc[n.parent]) \o <<n.pm>>),
                         <<>>, nodes)
\* the greatest total of a path through each node, the root's as the last
BestThrough(pms, nodes, paths) ==
    LET n == Len(nodes)
        own == [i \in 1..(n + 1) |-> IF i > n THEN 0 ELSE Total(pms, paths[i])]
        up(i) == IF nodes[i].parent = 0 THEN n + 1 ELSE nodes[i].parent
    IN FoldRight(LAMBDA i, acc : IF acc[i] > acc[up(i)] THEN [acc EXCEPT ![up(i)] = acc[i]] ELSE acc,
                 [i \in 1..n |-> i], own)

NodesDescribe(pms, nodes, paths) ==
    \A i \in 1..Len(nodes) :
        LET n == nodes[i] IN
        /\ n.mask = Covered(pms, paths[i])
        /\ n.idx = pms[n.pm].idx /\ n.zoom = pms[n.pm].zoom
NodesPromise(pms, nodes, paths, rootmax) ==
    \A best \in {BestThrough(pms, nodes, paths)} :
        (\A i \in 1..Len(nodes) : nodes[i].max = best[i]) /\ rootmax = best[Len(nodes) + 1]
LeavesAre(nodes) == \A i \in 1..Len(nodes) : nodes[i].leaf = (\A j \in 1..Len(nodes) : nodes[j].parent # i)

IsWhole(legal, paths) == LET s == {paths[i] : i \in 1..Len(paths)}
                         IN s = legal /\ Cardinality(s) = Len(paths)

LeafTotals(pms, nodes, paths) ==
    LET pick(parents) == SelectSeq([i \in 1..Len(nodes) |-> i], LAMBDA i : i \notin parents)
        total(leaves) == [k \in 1..Len(leaves) |-> Total(pms, paths[leaves[k]])]
    IN CHOOSE t \in {total(leaves) : leaves \in {pick(parents) : parents \in {{nodes[i].parent : i \in 1..Len(nodes)}}}} : TRUE
\* What is left out is no better than `limit` leaves that are kept.
KeepsTheBest(pms, legal, nodes, paths, limit) ==
    \A kept \in {{paths[i] : i \in 1..Len(paths)}} :
    \A lost \in {{Total(pms, p) : p \in legal \ kept}} :
        /\ Cardinality(kept) = Len(paths)
        /\ lost # {} => \A totals \in {LeafTotals(pms, nodes, paths)} : \A most \in {Max(lost)} :
                            Cardinality({i \in 1..Len(totals) : totals[i] >= most}) >= limit
\* Not more than needed: fewer than `limit` leaves beat the worst.
NoMoreThanNeeded(pms, nodes, paths, limit) ==
    \A totals \in {LeafTotals(pms, nodes, paths)} :
        totals = <<>> \/ \A worst \in {Min({totals[i] : i \in 1..Len(totals)})} :
                             Cardinality({i \in 1..Len(totals) : totals[i] > worst}) < limit

-----------------------------------------------------------------------------
(* Collapsing: phrasematches of one weight, index and mask become one.      *)
Kind(pm) == <<pm.weight, pm.idx, pm.mask>>
Collapsed(pms) ==
    FoldLeft(LAMBDA acc, pm :
        LET at == SelectInSeq(acc, LAMBDA c : Kind(c) = Kind(pm))
        IN IF at = 0 THEN Append(acc, pm) ELSE [acc EXCEPT ![at].keys = @ \o pm.keys],
        <<>>, pms)
=============================================================================
