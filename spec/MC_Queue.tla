------------------------------- MODULE MC_Queue -------------------------------
(* All short histories of bounded queues.  The machine below replaces the       *)
(* worst element as the code does; it must agree with BoundedQueue, and with    *)
(* the best of all pushed while nothing was popped.                             *)
EXTENDS BoundedQueue, FiniteSets, TLC, Json
CONSTANTS Values, Maxes, Steps, Emit
VARIABLES max, bag, spec, pushed, popped, hist
vars == <<max, bag, spec, pushed, popped, hist>>

Worst(b) == CHOOSE v \in DOMAIN b : \A w \in DOMAIN b : v <= w
Best(b) == CHOOSE v \in DOMAIN b : \A w \in DOMAIN b : v >= w
RECURSIVE Size(_)
Size(b) == IF DOMAIN b = {} THEN 0 ELSE b[Worst(b)] + Size([v \in DOMAIN b \ {Worst(b)} |-> b[v]])
Out(b, v) == IF b[v] = 1 THEN [w \in DOMAIN b \ {v} |-> b[w]] ELSE [b EXCEPT ![v] = @ - 1]
In(b, v) == IF v \in DOMAIN b THEN [b EXCEPT ![v] = @ + 1] ELSE (v :> 1) @@ b
RECURSIVE Listed(_)
Listed(b) == IF DOMAIN b = {} THEN <<>> ELSE <<Best(b)>> \o Listed(Out(b, Best(b)))

Init == /\ max \in Maxes /\ bag = [v \in {} |-> 0] /\ spec = <<>> /\ pushed = [v \in {} |-> 0]
        /\ popped = FALSE /\ hist = <<>>
DoPush(v) == /\ bag' = IF Size(bag) < max THEN In(bag, v)
                       ELSE IF DOMAIN bag # {} /\ v > Worst(bag) THEN In(Out(bag, Worst(bag)), v) ELSE bag
             /\ spec' = Push(spec, max, v)
             /\ pushed' = In(pushed, v)
             /\ hist' = Append(hist, v)
             /\ UNCHANGED <<max, popped>>
DoPop == /\ bag' = IF DOMAIN bag = {} THEN bag ELSE Out(bag, Best(bag))
         /\ spec' = Pop(spec)
         /\ popped' = TRUE
         /\ hist' = Append(hist, 0)
         /\ UNCHANGED <<max, pushed>>
Next == Len(hist) < Steps /\ (DoPop \/ \E v \in Values : DoPush(v))
Spec == Init /\ [][Next]_vars

Agrees == spec = Listed(bag) /\ Descending(spec)
Bounded == Len(spec) <= max
BestOfAll == ~popped => spec = Cut(Listed(pushed), max)
PrintScenario == (Emit /\ Len(hist) = Steps) => PrintT("@@SCN " \o ToJson([max |-> max, hist |-> hist]))
KeptMeansIn == \A v \in Values : Keeps(spec, max, v) = (Push(spec, max, v) # spec)
=============================================================================
