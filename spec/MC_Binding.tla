------------------------------- MODULE MC_Binding -------------------------------
(***************************************************************************)
(* Who keeps a store: JavaScript's own reference, iterators over its keys   *)
(* and queries in flight.  A store is freed when nobody keeps it; iterators *)
(* and queries may be stepped long after JavaScript has let go of it.       *)
(* Queries are worked on by a pool beside the main thread and called back   *)
(* by it once the call that asked has returned.                             *)
(*   Weak: what does not keep its store (designs that fail)                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Stores, Iters, Queries, Steps, Weak, Emit
VARIABLES held,     \* stores that JavaScript can reach
          alive,    \* stores that exist
          iters,    \* iterator -> store, or -1
          query,    \* query -> [st: its state, s: its store, calls: how often it called back, in: is its call still running]
          used,     \* stores used after they were freed
          hist
vars == <<held, alive, iters, query, used, hist>>
Now == <<held, alive, iters, query, used>>

Init == /\ held = Stores /\ alive = Stores /\ iters = [i \in Iters |-> -1]
        /\ query = [q \in Queries |-> [st |-> "none", s |-> -1, calls |-> 0, in |-> FALSE]] /\ used = {} /\ hist = <<>>
Keeps(s) == \/ s \in held
            \/ "iterator" \notin Weak /\ \E i \in Iters : iters[i] = s
            \/ "query" \notin Weak /\ \E q \in Queries : query[q].s = s /\ query[q].st \in {"queued", "working", "worked"}
Say(op) == hist' = Append(hist, op)
Last == IF hist = <<>> THEN <<"turn">> ELSE hist[Len(hist)]
InCall == \E q \in Queries : query[q].in
Main == Len(hist) < Steps /\ ~InCall

Drop(s) == Main /\ s \in held /\ held' = held \ {s} /\ Say(<<"drop", s>>) /\ UNCHANGED <<alive, iters, query, used>>
Collect == /\ Main /\ Last # <<"gc">>
           /\ alive' = {s \in alive : Keeps(s)} /\ Say(<<"gc">>) /\ UNCHANGED <<held, iters, query, used>>
Start(i, s) == /\ Main /\ s \in held /\ iters[i] = -1
               /\ iters' = [iters EXCEPT ![i] = s] /\ Say(<<"iterator", s, i>>) /\ UNCHANGED <<held, alive, query, used>>
Step(i) == /\ Main /\ iters[i] # -1
           /\ used' = used \cup ({iters[i]} \ alive) /\ Say(<<"next", i>>) /\ UNCHANGED <<held, alive, iters, query>>
Forget(i) == Main /\ iters[i] # -1 /\ iters' = [iters EXCEPT ![i] = -1] /\ Say(<<"forget", i>>) /\ UNCHANGED <<held, alive, query, used>>
Ask(q, s) == /\ Main /\ s \in held /\ query[q].st = "none"
             /\ query' = [query EXCEPT ![q] = [st |-> "queued", s |-> s, calls |-> 0, in |-> TRUE]]
             /\ Say(<<"ask", s, q>>) /\ UNCHANGED <<held, alive, iters, used>>
Return(q) == query[q].in /\ query' = [query EXCEPT ![q].in = FALSE] /\ UNCHANGED <<held, alive, iters, used, hist>>
\* the pool
Work(q) == /\ query[q].st = "queued" /\ query' = [query EXCEPT ![q].st = "working"]
           /\ used' = used \cup ({query[q].s} \ alive) /\ UNCHANGED <<held, alive, iters, hist>>
Worked(q) == /\ query[q].st = "working" /\ query' = [query EXCEPT ![q].st = "worked"]
             /\ used' = used \cup ({query[q].s} \ alive) /\ UNCHANGED <<held, alive, iters, hist>>
\* the main thread, when it has nothing else to do
Back(q) == /\ ~InCall /\ query[q].st = "worked"
           /\ query' = [query EXCEPT ![q].st = "answered", ![q].calls = @ + 1]
           /\ UNCHANGED <<held, alive, iters, used, hist>>
Turn == /\ Main /\ (\A q \in Queries : query[q].st \in {"none", "answered"}) /\ \E q \in Queries : query[q].st = "answered"
        /\ Last # <<"turn">>
        /\ Say(<<"turn">>) /\ UNCHANGED <<held, alive, iters, query, used>>
Next == \/ Collect \/ Turn
        \/ \E s \in Stores : Drop(s) \/ (\E i \in Iters : Start(i, s)) \/ (\E q \in Queries : Ask(q, s))
        \/ \E i \in Iters : Step(i) \/ Forget(i)
        \/ \E q \in Queries : Return(q) \/ Work(q) \/ Worked(q) \/ Back(q)
Spec == Init /\ [][Next]_vars

NothingDangles == used = {}
OnceEach == \A q \in Queries : query[q].calls = IF query[q].st = "answered" THEN 1 ELSE 0
AfterReturning == \A q \in Queries : query[q].in => query[q].calls = 0
PrintScenario == (Emit /\ Len(hist) = Steps /\ \A q \in Queries : query[q].st \in {"none", "answered"} /\ ~query[q].in)
                    => PrintT("@@SCN " \o ToJson([hist |-> hist]))
=============================================================================
