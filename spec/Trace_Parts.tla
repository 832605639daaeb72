------------------------------ MODULE Trace_Parts ------------------------------
(***************************************************************************)
(* Calls of the parts that need no store: search areas (C20, C21), bounded  *)
(* queues (C22), grouping (C23).                                            *)
(***************************************************************************)
EXTENDS TraceBase, Zooms, BoundedQueue, Grouping
vars == <<l>>
TraceInit == l = 1
Begin == At("begin")
End == At("end")

AdjustTo ==
    /\ At("adjust")
    /\ LET want == Adjust(Event.opts, Event.to) IN
       /\ Check({"C20"}, "the box does not cover the same tiles", Event.out.bbox = want.bbox)
       /\ Check({"C20"}, "the point is elsewhere", Event.out.prox = want.prox)
       /\ Check({"C20"}, "wrong zoom", Event.out.zoom = want.zoom)
Global == /\ At("global")
          /\ Check({"C20"}, "not the whole grid", Event.out = <<<<0, 0, Top(Event.zoom), Top(Event.zoom)>>>>)
LimitNearby == /\ At("nearby")
               /\ Check({"C21"}, "not the surroundings of the point", NearbyAs(Event.opts, Event.out))

\* What each operation on a queue should have said, and what is left.
Played(max, ops, out) ==
    FoldLeft(LAMBDA acc, i :
        LET op == ops[i]
            o == out[i]
            s == IF op[1] = "push" THEN Push(acc.s, max, op[2]) ELSE Pop(acc.s)
        IN [s |-> s,
            ok |-> /\ acc.ok
                   /\ IF op[1] = "push" THEN o.kept = Keeps(acc.s, max, op[2]) ELSE o.popped = Greatest(acc.s)
                   /\ o.len = Len(s) /\ o.min = Least(s) /\ o.max = Greatest(s)],
        [s |-> <<>>, ok |-> TRUE], [i \in 1..Len(ops) |-> i])
Queue == /\ At("queue")
         /\ LET p == Played(Event.max, Event.ops, Event.out) IN
            /\ Check({"C22"}, "an operation of the queue misreports", Len(Event.out) = Len(Event.ops) /\ p.ok)
            /\ Check({"C22"}, "the queue holds something else",
                  IF Event.desc THEN Event.rest = p.s
                  ELSE SortSeq(Event.rest, LAMBDA a, b : a > b) = p.s)

Group == /\ At("groupby")
         /\ Check({"C23"}, "not a grouping", IsGrouping(Event.items, Event.out))
         /\ Check({"C23"}, "an element changed",
               \A i \in 1..Len(Event.out) : LET g == Event.out[i] IN
                   /\ Len(g.keys) = Len(g.group)
                   /\ \A j \in 1..Len(g.keys) : g.keys[j] = Event.items[g.group[j]])
         /\ Check({"C23"}, "read too far ahead",
               \A i \in 1..Len(Event.out) :
                   Event.out[i].pulled <= Len(Strung(SubSeq(Event.out, 1, i))) + 1)
         /\ Check({"C23"}, "more after the end", ~Event.again)

TraceNext == More /\ Announce /\ (Begin \/ AdjustTo \/ Global \/ LimitNearby \/ Queue \/ Group \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
