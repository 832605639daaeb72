------------------------------ MODULE MC_Stacking ------------------------------
(***************************************************************************)
(* The way the tree is grown (depth first, types in order, best first       *)
(* within a type, with a limit on the number of leaves kept by culling the  *)
(* worst) for all small lists of phrasematches.                             *)
(***************************************************************************)
EXTENDS Stacking, TLC, Json
CONSTANTS Types, Masks, Weights, MaxPms, Limits, Emit

\* Exclusions are mutual: a set of pairs of types (index = type here).
Pairs == {q \in SUBSET Types : Cardinality(q) = 2}
PmSet == [type : Types, mask : Masks, weight : Weights]
VARIABLES list, excl, limit
vars == <<list, excl, limit>>

pms == [i \in 1..Len(list) |-> [type |-> list[i].type, idx |-> list[i].type, zoom |-> list[i].type,
                                weight |-> list[i].weight, mask |-> list[i].mask,
                                nonov |-> {t \in Types : t # list[i].type /\ {t, list[i].type} \in excl}]]

Init == excl \in SUBSET Pairs /\ limit \in Limits /\ list = <<>>
Next == Len(list) < MaxPms /\ \E p \in PmSet : list' = Append(list, p) /\ UNCHANGED <<excl, limit>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Order(t) == SortSeq(SelectSeq([i \in 1..Len(pms) |-> i], LAMBDA i : pms[i].type = t),
                    LAMBDA a, b : pms[a].weight > pms[b].weight \/ (pms[a].weight = pms[b].weight /\ a < b))
BestOf(t) == FoldSet(LAMBDA i, m : IF pms[i].weight > m THEN pms[i].weight ELSE m, 0, {i \in 1..Len(pms) : pms[i].type = t})
After(t) == FoldSet(LAMBDA u, m : m + BestOf(u), 0, {u \in Types : u > t})

\* arena: [nodes: number -> [path, kids, max], min, leaves, next]
NoMin == 1000000
NewArena == [nodes |-> [n \in {} |-> 0], min |-> NoMin, leaves |-> 0, next |-> 1]
Leafs(nodes, rel) == Cardinality({n \in DOMAIN nodes : nodes[n].max = rel /\ nodes[n].kids = <<>>})
Cull(A) == LET rest == {n \in DOMAIN A.nodes : A.nodes[n].max # A.min}
               nodes == [n \in rest |-> A.nodes[n]]
           IN [A EXCEPT !.nodes = nodes, !.leaves = @ - Leafs(A.nodes, A.min),
                        !.min = IF rest = {} THEN NoMin
                                ELSE CHOOSE m \in {nodes[n].max : n \in rest} : \A n \in rest : m <= nodes[n].max]
\* [A, at]: at 0 when not added
Add(A, node) ==
    IF A.leaves >= limit /\ node.max < A.min THEN [A |-> A, at |-> 0]
    ELSE LET B == [A EXCEPT !.nodes = (A.next :> node) @@ @, !.next = @ + 1,
                            !.leaves = @ + (IF node.kids = <<>> THEN 1 ELSE 0)]
             C == IF A.leaves < limit THEN [B EXCEPT !.min = IF node.max < @ THEN node.max ELSE @]
                  ELSE IF node.max > B.min /\ B.leaves - Leafs(B.nodes, B.min) >= limit THEN Cull(B) ELSE B
         IN [A |-> C, at |-> A.next]

RECURSIVE Grow(_, _, _)
Grow(path, from, A) ==
    LET own == Total(pms, path)
        cand == FoldLeft(LAMBDA acc, t : acc \o Order(t), <<>>,
                         SetToSortSeq({t \in Types : t >= from}, LAMBDA a, b : a < b))
        try(acc, j) ==
            IF ~Fits(pms, path, j) THEN acc
            ELSE IF acc.A.leaves >= limit /\ own + pms[j].weight + After(pms[j].type) < acc.A.min THEN acc
            ELSE LET r == Grow(Append(path, j), pms[j].type + 1, acc.A)
                     a == Add(r.A, r.node)
                 IN IF a.at = 0 THEN [acc EXCEPT !.A = a.A]
                    ELSE [A |-> a.A, kids |-> Append(acc.kids, a.at),
                          max |-> IF r.node.max > acc.max THEN r.node.max ELSE acc.max]
        done == FoldLeft(try, [A |-> A, kids |-> <<>>, max |-> own], cand)
    IN [node |-> [path |-> path, kids |-> done.kids, max |-> done.max], A |-> done.A]

Result == Grow(<<>>, 0, NewArena)
\* what can be reached from the root, in preorder
RECURSIVE Walk(_, _, _)
Walk(A, kids, parent) ==
    FoldLeft(LAMBDA acc, k :
        IF k \notin DOMAIN A.nodes THEN acc
        ELSE LET n == A.nodes[k]
                 me == parent.base + Len(acc) + 1
             IN acc \o <<[parent |-> parent.at, path |-> n.path, max |-> n.max]>>
                    \o Walk(A, n.kids, [at |-> me, base |-> me]),
        <<>>, kids)
TreeIsRight ==
    LET r == Result
        walked == Walk(r.A, r.node.kids, [at |-> 0, base |-> 0])
        nodes == [i \in 1..Len(walked) |-> [parent |-> walked[i].parent, pm |-> walked[i].path[Len(walked[i].path)],
                                             max |-> walked[i].max]]
        paths == Paths(nodes)
        legal == LegalPaths(pms)
    IN /\ \A i \in 1..Len(paths) : paths[i] = walked[i].path /\ Legal(pms, paths[i])
       /\ Cardinality(Ends(pms, legal)) < limit => IsWhole(legal, paths)
       /\ NodesPromise(pms, nodes, paths, r.node.max)
       /\ KeepsTheBest(pms, legal, nodes, paths, limit)
       /\ NoMoreThanNeeded(pms, nodes, paths, limit)
       /\ Len(walked) = Cardinality(DOMAIN r.A.nodes)          \* nothing is kept that cannot be reached

PrintScenario == (Emit /\ list # <<>>) => PrintT("@@SCN " \o ToJson([pms |-> pms]))
=============================================================================
