------------------------------ MODULE Trace_Stack ------------------------------
(* Trees of stackable phrasematches (C17, C18) and their collapsing (C19) as    *)
(* recorded from the real code.                                                 *)
EXTENDS TraceBase, Stacking
VARIABLE stores         \* name -> [type, zoom]
vars == <<l, stores>>
Limit == 2000

TraceInit == l = 1 /\ stores = [s \in {} |-> 0]
Begin == At("begin") /\ stores' = [s \in {} |-> 0]
Setup == (At("build") \/ At("insert") \/ At("finish")) /\ Event.ok /\ UNCHANGED stores
Open == At("open") /\ Event.ok /\ stores' = (Event.s :> [type |-> Event.type, zoom |-> Event.zoom]) @@ stores
End == At("end") /\ UNCHANGED stores

Set(s) == {s[i] : i \in 1..Len(s)}
Pms == [i \in 1..Len(Event.pms) |->
          LET p == Event.pms[i]
          IN [type |-> stores[p.store].type, zoom |-> stores[p.store].zoom, idx |-> p.idx, weight |-> p.weight,
              mask |-> Set(p.mask), nonov |-> Set(p.nonov)]]
Tree ==
    /\ At("tree")
    \* singletons bind values that are worked out once
    /\ \A pms \in {Pms} :
       \A nodes \in {[i \in 1..Len(Event.nodes) |-> [Event.nodes[i] EXCEPT !.mask = Set(@)]]} :
       \A paths \in {Paths(nodes)} :
       \A legal \in {LegalPaths(pms)} :
          /\ \A i \in 1..Len(nodes) : nodes[i].pm \in 1..Len(pms)
          /\ Check({"C17", "C18"}, "an illegal combination", \A i \in 1..Len(paths) : Legal(pms, paths[i]))
          /\ Check({"C17"}, "not exactly the legal combinations", Cardinality(Ends(pms, legal)) < Limit => IsWhole(legal, paths))
          /\ Check({"C17"}, "a node misdescribes its path", NodesDescribe(pms, nodes, paths))
          /\ Check({"C17", "C18"}, "a node promises another relevance than its best path has",
                NodesPromise(pms, nodes, paths, Event.rootmax))
          /\ Check({"C17"}, "the root is no phrasematch", ~Event.rootpm)
          /\ Check({"C18"}, "a better combination was left out for a worse one",
                KeepsTheBest(pms, legal, nodes, paths, Limit))
          /\ Check({"C18"}, "more combinations kept than needed", NoMoreThanNeeded(pms, nodes, paths, Limit))
    /\ UNCHANGED stores
Collapse ==
    /\ At("collapse")
    /\ LET norm(ps) == [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.mask = Set(@), !.nonov = Set(@)]] IN
       Check({"C19"}, "not collapsed as it should be", norm(Event.out) = Collapsed(norm(Event.pms)))
    /\ UNCHANGED stores

TraceNext == More /\ Announce /\ (Begin \/ Setup \/ Open \/ Tree \/ Collapse \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
