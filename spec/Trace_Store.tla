------------------------------ MODULE Trace_Store ------------------------------
(***************************************************************************)
(* Plays recorded calls of builders and stores on the abstract state        *)
(* machine of GridStore and checks every answer (C03 to C12, C25, C26, C28, C29).*)
(***************************************************************************)
EXTENDS TraceBase, GridStore

VARIABLES
    builders,   \* name -> [data, bounds]
    dbs,        \* directory -> [data, bounds, whole]; not whole: an unknown part of it was written
    stores,     \* name -> [data, bounds, whole, zoom, radius, listed]
    faults,     \* [write, get, open]: how many more operations succeed before one fails; -1: none does
    answers     \* set of <<content and question, answer>> given so far
vars == <<l, builders, dbs, stores, faults, answers>>

None == [write |-> -1, get |-> -1, open |-> -1]
TraceInit == l = 1 /\ builders = Empty /\ dbs = Empty /\ stores = Empty /\ faults = None /\ answers = {}

Has(f) == f \in DOMAIN Event
Get(f, else) == IF Has(f) THEN Event[f] ELSE else

Begin == /\ At("begin")
         /\ builders' = Empty /\ dbs' = Empty /\ stores' = Empty /\ faults' = None /\ answers' = {}

Rest == UNCHANGED <<dbs, stores, faults, answers>>

-----------------------------------------------------------------------------
(* Building *)
Build == /\ At("build")
         /\ Event.ok
         /\ builders' = (Event.b :> NewBuilder) @@ builders
         /\ Rest

Load == /\ \/ /\ At("insert") /\ Event.ok
              /\ builders' = [builders EXCEPT ![Event.b] = Insert(@, Event.key, Event.entries)]
           \/ /\ At("append") /\ Event.ok
              /\ builders' = [builders EXCEPT ![Event.b] = Append1(@, Event.key, Event.entries)]
           \/ /\ At("compact")
              /\ builders' = [builders EXCEPT ![Event.b] = Append1(@, Event.key, Compacted(Event))]
           \/ /\ At("bounds") /\ Event.ok
              /\ builders' = [builders EXCEPT ![Event.b].bounds = Event.bounds]
        /\ Rest

Renumber ==
    /\ At("renumber")
    /\ LET b == builders[Event.b]
           can == CanRenumber(b, Event.map)
       IN /\ Check({"C06"}, "a mapping was wrongly accepted or rejected", Event.ok = can)
          \* a mapping that is rejected changes nothing
          /\ builders' = IF can THEN [builders EXCEPT ![Event.b] = Renumbered(b, Event.map)] ELSE builders
    /\ Rest

Fires(kind, n) == faults[kind] >= 0 /\ faults[kind] < n

Finish ==
    /\ At("finish")
    /\ LET hit == Fires("write", Event.writes) \/ Fires("open", Event.opens) IN
       /\ Check({"C25"}, "a failed write was not reported", hit => ~Event.ok)
       /\ Check({"C34", "C03", "C25", "C26", "C05", "C06", "C07", "C08", "C29"}, "finishing failed", ~hit => Event.ok)
       /\ dbs' = (Event.b :> [data |-> builders[Event.b].data, bounds |-> builders[Event.b].bounds,
                              whole |-> Event.ok]) @@ dbs
       /\ faults' = None
    /\ UNCHANGED <<builders, stores, answers>>

\* What a crash leaves of a finished build is some part of it.
Crash == /\ At("crash")
         /\ dbs' = (Event.as :> [dbs[Event.b] EXCEPT !.whole = FALSE]) @@ dbs
         /\ UNCHANGED <<builders, stores, faults, answers>>

\* makes operations fail
SetFaults == /\ At("faults")
             /\ faults' = [write |-> Get("write", -1), get |-> Get("get", -1), open |-> Get("open", -1)]
             /\ UNCHANGED <<builders, dbs, stores, answers>>

-----------------------------------------------------------------------------
(* Opening *)
NoSuch ==
    /\ At("open") /\ Event.b \notin DOMAIN dbs
    /\ Check({"C29"}, "opened though there is no store", ~Event.ok)
    /\ UNCHANGED <<builders, dbs, stores, faults, answers>>

\* What a directory holds: nothing if nothing was built in it, otherwise what it held when last looked at (C29).
State ==
    /\ At("state")
    /\ Check({"C29"}, "a directory in which nothing was built holds a store", Event.b \notin DOMAIN dbs => ~Event.exists)
    /\ Check({"C29"}, "a database has changed", \A a \in answers : a[1] = Event.b => a[2] = Event.bytes)
    /\ answers' = answers \cup {<<Event.b, Event.bytes>>}
    /\ UNCHANGED <<builders, dbs, stores, faults>>

Open ==
    /\ At("open") /\ Event.b \in DOMAIN dbs
    /\ LET db == dbs[Event.b]
           hit == Fires("open", Event.opens) \/ Fires("get", Event.gets)
       IN /\ Check({"C25"}, "a store that cannot be read was opened", hit => ~Event.ok)
          /\ ((~hit /\ db.whole) => Event.ok)
          /\ IF Event.ok
             THEN /\ Check({"C34", "C08", "C25"}, "the boundaries are not those loaded",
                         db.whole => ToSet2(Event.boundaries) = ToSet2(db.bounds))
                  /\ Check({"C26"}, "boundaries that were never loaded",
                         ToSet2(Event.boundaries) \subseteq ToSet2(db.bounds))
                  /\ stores' = (Event.s :> [data |-> db.data, bounds |-> db.bounds, whole |-> db.whole,
                                            zoom |-> Get("zoom", 6), radius |-> Get("radius", 0),
                                            listed |-> <<>>]) @@ stores
             ELSE UNCHANGED stores
          /\ faults' = None
    /\ UNCHANGED <<builders, dbs, answers>>

Close == /\ At("close")
         /\ stores' = [s \in DOMAIN stores \ {Event.s} |-> stores[s]]
         /\ UNCHANGED <<builders, dbs, faults, answers>>

-----------------------------------------------------------------------------
(* Asking *)
S == stores[Event.s]
Asking == UNCHANGED <<builders, dbs>>

\* Stores with the same content give the same answers (C05).
Sig(what) == <<S.data, ToSet2(S.bounds), S.zoom, S.radius, what>>
Same(what, answer) ==
    /\ Check({"C05"}, "two stores with the same content answer differently",
          \A a \in answers : a[1] = Sig(what) => a[2] = answer)
    /\ answers' = IF Prop = "C05" THEN answers \cup {<<Sig(what), answer>>} ELSE answers

Lookup ==
    /\ At("get") /\ S.whole
    /\ LET key == Event.key
           hit == Fires("get", Event.gets)
       IN /\ Check({"C25"}, "a failed read was not reported", hit => ~Event.ok)
          /\ (~hit => Event.ok)
          /\ Event.ok =>
             /\ Check({"C34", "C03", "C25", "C26", "C06", "C29"}, "a key is wrongly present or absent",
                   Event.found = (key \in DOMAIN S.data))
             /\ Check({"C34", "C03", "C25", "C26", "C06", "C29"}, "the entries are not those loaded",
                   /\ ToSet2(Event.out) = At0(S.data, key)
                   /\ Len(Event.out) = Cardinality(At0(S.data, key)))
             /\ Check({"C34", "C04"}, "entries out of order", Canonical(Event.out))
          /\ (Event.ok => Same(<<"get", key>>, Event.out))
          /\ (~Event.ok => UNCHANGED answers)
    /\ faults' = None
    /\ UNCHANGED stores /\ Asking

ByPhrase(ks) == \A i \in 1..(Len(ks) - 1) : Le(ks[i].p, ks[i + 1].p)

Keys ==
    /\ At("keys")
    /\ Check({"C07"}, "listing failed", Event.ok)
    /\ Check({"C07", "C26", "C06"}, "a key is listed that was never loaded", ToSet2(Event.list) \subseteq DOMAIN S.data)
    /\ Check({"C34", "C07", "C06", "C26", "C29"}, "the keys listed are not those loaded",
          S.whole => (ToSet2(Event.list) = DOMAIN S.data /\ Len(Event.list) = Cardinality(DOMAIN S.data)))
    /\ Check({"C07"}, "keys out of order", ByPhrase(Event.list))
    /\ Check({"C07"}, "keys and entries are listed in different orders", S.listed # <<>> => S.listed = Event.list)
    /\ IF S.whole THEN Same(<<"keys">>, Event.list) /\ stores' = [stores EXCEPT ![Event.s].listed = Event.list]
       ELSE \* now it is known which part there is
            /\ stores' = [stores EXCEPT ![Event.s].data = [k \in ToSet2(Event.list) \cap DOMAIN S.data |-> S.data[k]],
                                        ![Event.s].whole = TRUE]
            /\ UNCHANGED answers
    /\ UNCHANGED faults /\ Asking

Listing ==
    /\ At("iter") /\ S.whole
    /\ LET ks == [i \in 1..Len(Event.list) |-> Event.list[i].key] IN
       /\ Check({"C07"}, "listing failed", Event.ok)
       /\ Check({"C34", "C07", "C26"}, "the keys listed are not those loaded",
             ToSet2(ks) = DOMAIN S.data /\ Len(ks) = Cardinality(DOMAIN S.data))
       /\ Check({"C07"}, "keys out of order", ByPhrase(ks))
       /\ Check({"C07"}, "keys and entries are listed in different orders", S.listed # <<>> => S.listed = ks)
       /\ Check({"C34", "C07", "C26"}, "a key is listed with other entries than it has",
             \A i \in 1..Len(ks) : /\ ToSet2(Event.list[i].entries) = At0(S.data, ks[i])
                                   /\ Len(Event.list[i].entries) = Cardinality(At0(S.data, ks[i])))
       /\ Check({"C34", "C04", "C07"}, "entries out of order", \A i \in 1..Len(ks) : Canonical(Event.list[i].entries))
       /\ stores' = [stores EXCEPT ![Event.s].listed = ks]
       /\ Same(<<"iter">>, Event.list)
    /\ UNCHANGED faults /\ Asking

\* One search, unlimited or limited to k matches.
Found(q, k, r) ==
    /\ r.ok
    /\ k = -1 =>
       /\ Check({"C34", "C09", "C08", "C26", "C29"}, "a search misses entries or finds others", FindsEntries(S.data, q, r.out))
       /\ Check({"C08", "C10"}, "wrong language match", FindsExactly(S.data, q, r.out))
       /\ Check({"C09"}, "a search returns an entry too often or too seldom", OncePerStream(S.data, S.bounds, q, r.out))
       /\ Check({"C10"}, "wrong distance, score-distance or relevance",
             \A i \in 1..Len(r.out) : ScoredAs(S.radius, q, r.out[i]))
       /\ Check({"C10"}, "score-distances out of order", ScoresInOrder(q, r.out))
       /\ Check({"C11"}, "matches out of order",
             (FindsExactly(S.data, q, r.out) /\ OncePerStream(S.data, S.bounds, q, r.out))
               => OrderedAs(S.data, S.bounds, q, r.out))
    /\ k >= 0 => Check({"C12"}, "a limited search finds what is not there",
                    Entries(r.out) \subseteq {w[1] : w \in Matches(S.data, q)})

Search == /\ At("search") /\ S.whole
          /\ Found([key |-> Event.key, opts |-> Event.opts], Get("k", -1), Event)
          /\ Same(<<"search", Event.key, Event.opts, Get("k", -1)>>, Event.out)
          /\ UNCHANGED <<stores, faults>> /\ Asking

Searches ==
    /\ At("searches") /\ S.whole
    /\ LET K(i) == IF "k" \in DOMAIN Event.qs[i] THEN Event.qs[i].k ELSE -1
           Q(i) == [key |-> Event.qs[i].key, opts |-> Event.qs[i].opts]
           n == Len(Event.qs)
       IN /\ Len(Event.outs) = n
          /\ \A i \in 1..n : IF Found(Q(i), K(i), Event.outs[i]) THEN TRUE ELSE PrintT("@@NO query " \o ToString(i)) /\ FALSE
          /\ Check({"C12"}, "a limit drops a better match for a worse one",
                \A i, j \in 1..n : (K(i) >= 0 /\ K(j) = -1 /\ Q(i) = Q(j)) =>
                    KeepsBest(K(i), Event.outs[i].out, Event.outs[j].out))
          /\ Same(<<"searches", Event.qs>>, Event.outs)
    /\ UNCHANGED <<stores, faults>> /\ Asking

-----------------------------------------------------------------------------
(* Streams (C28): each read alone, then several interleaved. *)
Alone == /\ At("alone")
         /\ answers' = answers \cup {<<n, Event.outs[n]>> : n \in DOMAIN Event.outs}
         /\ UNCHANGED <<builders, dbs, stores, faults>>

Interleaved ==
    /\ At("streams")
    /\ Check({"C28", "C29"}, "a stream yields something else than when read alone",
         LET whole == [n \in {a[1] : a \in answers} |-> (CHOOSE a \in answers : a[1] = n)[2]]
             step(acc, p) ==
               CASE p.a = "open" -> [acc EXCEPT !.at = (p.n :> 0) @@ @]
                 [] p.a = "next" ->
                      LET i == acc.at[p.n] + 1
                          want == IF i <= Len(whole[p.n]) THEN <<whole[p.n][i]>> ELSE <<>>
                      IN [ok |-> acc.ok /\ p.v = want, at |-> [acc.at EXCEPT ![p.n] = i]]
                 [] OTHER -> acc
         IN FoldLeft(step, [ok |-> TRUE, at |-> Empty], Event.played).ok)
    /\ UNCHANGED <<builders, dbs, stores, faults, answers>>

\* A question over several stores: other modules decide the answer; here it only must leave the databases alone.
Queried == At("tree_coalesce") /\ UNCHANGED <<builders, dbs, stores, faults, answers>>

End == At("end") /\ UNCHANGED <<builders, dbs, stores, faults, answers>>

StoreStep == \/ Begin \/ Build \/ Load \/ Renumber \/ Finish \/ Crash \/ SetFaults \/ NoSuch \/ Open \/ State \/ Close
             \/ Lookup \/ Keys \/ Listing \/ Search \/ Searches \/ Alone \/ Interleaved \/ Queried \/ End

\* A panic, a hang or a crash is no action of the specification.
TraceNext == More /\ Announce /\ StoreStep
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
