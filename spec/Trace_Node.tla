------------------------------- MODULE Trace_Node -------------------------------
(***************************************************************************)
(* Plays recorded calls of the node binding on the state machine of builders*)
(* and stores, and checks what they return and call back (C30 to C33).      *)
(* Answers to queries are compared with those of the crate to the question  *)
(* that the call means, which the trace has beside it.                      *)
(***************************************************************************)
EXTENDS TraceBase, Binding, Phrases

VARIABLES
    builders,   \* name -> [open, data, bounds]
    dbs,        \* directory -> [data, bounds]
    stores,     \* name -> [data, bounds]
    iters,      \* name -> [data, seen: keys given so far, done]
    pending,    \* number of a query not answered -> its event
    sets,       \* name -> phrases: [words, replacements, done, map]
    faults      \* [write, get, open]: how many more operations of the database succeed before one fails; -1: none does
vars == <<l, builders, dbs, stores, iters, pending, sets, faults>>

None == [write |-> -1, get |-> -1, open |-> -1]
TraceInit == l = 1 /\ builders = Empty /\ dbs = Empty /\ stores = Empty /\ iters = Empty /\ pending = Empty /\ sets = Empty /\ faults = None
Begin == /\ At("begin")
         /\ builders' = Empty /\ dbs' = Empty /\ stores' = Empty /\ iters' = Empty /\ pending' = Empty /\ sets' = Empty /\ faults' = None

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

-----------------------------------------------------------------------------
(* Building.  Whatever cannot be done throws and changes nothing. *)
B == builders[Event.b]
Key == KeyOf(Event.p, Event.ls)
Build == /\ At("build") /\ Event.ok
         /\ builders' = (Event.b :> [open |-> TRUE, data |-> Empty, bounds |-> <<>>]) @@ builders
         /\ UNCHANGED <<dbs, stores, iters, pending, sets>>

Done(can, b) ==
    /\ Check({"C31"}, "a call that cannot be followed did not throw", can \/ ~Event.ok)
    /\ Check({"C30", "C31", "C33"}, "a proper call threw", ~can \/ Event.ok)
    /\ Check({"C31"}, "something other than an Error was thrown", Event.ok \/ Event.name \in {"TypeError", "Error", "RangeError"})
    /\ builders' = IF can THEN [builders EXCEPT ![Event.b] = b] ELSE builders

Load == /\ \/ /\ At("insert")
              /\ Done(B.open /\ FitsAll(Event.entries), Insert(B, Key, Event.entries))
           \/ /\ At("append")
              /\ Done(B.open /\ FitsAll(Event.entries), Append1(B, Key, Event.entries))
           \/ /\ At("compact")
              /\ Done(B.open, Append1(B, Key, Compacted(Event)))
           \/ /\ At("bounds")
              /\ Done(B.open, [B EXCEPT !.bounds = IF "from" \in DOMAIN Event THEN sets[Event.f].bins[Event.from] ELSE Event.bounds])
           \/ /\ At("renumber")
              /\ LET map == IF "from" \in DOMAIN Event THEN sets[Event.from].map ELSE Event.map
                     can == B.open /\ CanRenumber(B, map)
                 IN Done(can, IF can THEN Renumbered(B, map) ELSE B)
        /\ UNCHANGED <<dbs, stores, iters, pending, sets>>

\* A failing database makes finishing throw as well; the builder is used up all the same, and what is left is not the whole.
SetFaults == /\ At("faults")
             /\ faults' = [write |-> Event.write, get |-> Event.get, open |-> Event.open]
             /\ UNCHANGED <<builders, dbs, stores, iters, pending, sets>>
Fires(kind, n) == faults[kind] >= 0 /\ faults[kind] < n
Finish == /\ At("finish")
          /\ LET hit == Fires("write", Event.writes) \/ Fires("open", Event.opens) IN
             IF hit THEN /\ Check({"C31"}, "a failed write was not reported", ~Event.ok)
                         /\ builders' = [builders EXCEPT ![Event.b].open = FALSE]
             ELSE Done(B.open, [B EXCEPT !.open = FALSE])
          /\ dbs' = IF B.open THEN (Event.b :> [data |-> B.data, bounds |-> B.bounds, whole |-> Event.ok]) @@ dbs ELSE dbs
          /\ UNCHANGED <<stores, iters, pending, sets>>

\* a store can be opened once it was finished
Open == /\ At("open")
        /\ LET can == Event.b \in DOMAIN dbs
               hit == Fires("open", Event.opens) \/ Fires("get", Event.gets)
           IN
           /\ Check({"C31"}, "opened though there is no finished store", can \/ ~Event.ok)
           /\ Check({"C31"}, "a store that cannot be read was opened", hit => ~Event.ok)
           /\ Check({"C30", "C31", "C32", "C33"}, "a finished store cannot be opened", hit \/ ~can \/ (can /\ ~dbs[Event.b].whole) \/ Event.ok)
           /\ stores' = IF can /\ Event.ok THEN (Event.s :> dbs[Event.b]) @@ stores ELSE stores
        /\ UNCHANGED <<builders, dbs, iters, pending, sets>>

\* Nobody but the binding knows about it any more: what was begun with it goes on all the same.
Drop == /\ At("drop")
        /\ UNCHANGED <<builders, dbs, stores, iters, pending, sets>>
Collect == At("gc") /\ UNCHANGED <<builders, dbs, stores, iters, pending, sets>>

-----------------------------------------------------------------------------
(* Reading *)
S == stores[Event.s]
Reading == UNCHANGED <<builders, dbs, pending, sets>>
Lookup ==
    /\ At("get")
    /\ Check({"C31"}, "a failed read was not reported", Fires("get", Event.gets) => ~Event.ok)
    /\ Check({"C30", "C31", "C32", "C33"}, "a key is wrongly present or absent",
          Fires("get", Event.gets) \/ (Event.ok /\ Event.found = (Key \in DOMAIN S.data)))
    /\ Check({"C30", "C31", "C32", "C33"}, "the entries are not those loaded",
          Fires("get", Event.gets) \/
          /\ ToSet2(Event.out) = At0(S.data, Key)
          /\ Len(Event.out) = Cardinality(At0(S.data, Key))
          /\ Canonical(Event.out))
    /\ UNCHANGED <<stores, iters>> /\ Reading

InOrder(ks) == \A i \in 1..(Len(ks) - 1) : Le(ks[i].p, ks[i + 1].p)
Keys ==
    /\ At("keys") /\ Event.ok
    /\ Check({"C30", "C31", "C32"}, "the keys listed are not those loaded",
          /\ {Listed(Event.list[i]) : i \in 1..Len(Event.list)} = DOMAIN S.data
          /\ Len(Event.list) = Cardinality(DOMAIN S.data)
          /\ InOrder(Event.list))
    /\ Check({"C30"}, "languages out of order", \A i \in 1..Len(Event.list) : WellListed(Event.list[i]))
    /\ UNCHANGED <<stores, iters>> /\ Reading

\* Iterators go on by themselves: each lists the keys of its store once, then is done for ever.
Begun == /\ At("iterator") /\ Event.ok
         /\ iters' = (Event.it :> [data |-> S.data, seen |-> <<>>, done |-> FALSE]) @@ iters
         /\ UNCHANGED stores /\ Reading
Next == /\ At("next")
        /\ LET it == iters[Event.it]
               k == Event.list[1]
           IN /\ Check({"C32"}, "an iterator failed", Event.ok)
              /\ Check({"C32"}, "an iterator is done too early or too late",
                    Event.done = (Len(it.seen) = Cardinality(DOMAIN it.data)))
              /\ Check({"C32"}, "an iterator gives a key twice, out of order, or one that was not loaded",
                    Event.done \/ (/\ Listed(k) \in DOMAIN it.data /\ Listed(k) \notin ToSet2(it.seen)
                                   /\ it.seen = <<>> \/ Le(it.seen[Len(it.seen)].p, k.p)))
              /\ iters' = IF Event.done THEN [iters EXCEPT ![Event.it].done = TRUE]
                          ELSE [iters EXCEPT ![Event.it].seen = Append(@, Listed(k))]
        /\ UNCHANGED stores /\ Reading

-----------------------------------------------------------------------------
(* Queries: asked now, answered later, once. *)
Ask == /\ At("ask")
       \* what makes the comparison one: the crate was asked what the call means
       /\ Assert(Event.core.panicked \/ Event.core.q = Meant(Event), "the crate was asked another question")
       /\ Check({"C30", "C32"}, "a proper query threw", Event.ok)
       /\ Check({"C32"}, "a query returned something", Event.returned = "undefined")
       /\ pending' = (Event.q :> Event) @@ pending
       /\ UNCHANGED <<builders, dbs, stores, iters, sets>>
Answered ==
    /\ At("answered")
    /\ Check({"C32", "C31"}, "called back without having been asked, twice, or before the call returned",
          Event.q \in DOMAIN pending /\ Event.late)
    /\ \A q \in {pending[Event.q]} : q.core.panicked \/
          /\ Check({"C30", "C32"}, "a query failed here and not in the crate, or the reverse", (Event.err = "") = q.core.ok)
          /\ Check({"C30", "C32", "C33"}, "another answer than the crate's", q.core.ok => SameAnswers(q, Event.contexts, q.core.contexts))
    /\ pending' = Without(pending, Event.q)
    /\ UNCHANGED <<builders, dbs, stores, iters, sets>>
\* by now all have been answered
Settled == /\ At("settled")
           /\ Check({"C32"}, "a query was not answered", DOMAIN pending = {})
           /\ UNCHANGED <<builders, dbs, stores, iters, pending, sets>>
Stackable == /\ At("stackable")
             /\ Check({"C30"}, "stackable failed", Event.ok)
             /\ UNCHANGED <<builders, dbs, stores, iters, pending, sets>>

\* Calls with wrong arguments or on wrong objects.
Wrong == /\ At("wrong")
         /\ Check({"C31"}, "a wrong call did not throw", ~Event.ok)
         /\ UNCHANGED <<builders, dbs, stores, iters, pending, sets>>

-----------------------------------------------------------------------------
(* Phrases *)
F == sets[Event.f]
Others == UNCHANGED <<builders, dbs, stores, iters, pending>>
PhraseBuilding ==
    \/ /\ At("phrases") /\ Event.ok
       /\ sets' = (Event.f :> NewPhrases) @@ sets
       /\ Others
    \/ /\ At("replace")
       /\ Check({"C31"}, "a call that cannot be followed did not throw", ~F.done \/ ~Event.ok)
       /\ Check({"C33"}, "a proper call threw", F.done \/ Event.ok)
       /\ sets' = IF F.done THEN sets ELSE [sets EXCEPT ![Event.f].by = Event.words]
       /\ Others
    \/ /\ At("phrase")
       /\ LET can == ~F.done /\ Event.words # <<>> IN
          /\ Check({"C31"}, "a call that cannot be followed did not throw", can \/ ~Event.ok)
          /\ Check({"C33"}, "a proper call threw", ~can \/ Event.ok)
          /\ can => Check({"C33"}, "the phrase has another number", Event.id = P(NumberOf(F, Event.words)))
          /\ sets' = IF can THEN [sets EXCEPT ![Event.f] = Inserted(F, Event.words)] ELSE sets
       /\ Others
    \/ /\ At("phrases_done")
       /\ Check({"C31"}, "a call that cannot be followed did not throw", ~F.done \/ ~Event.ok)
       /\ Check({"C33"}, "a proper call threw", F.done \/ Event.ok)
       /\ ~F.done => Check({"C33"}, "the numbers do not map to the sorted phrases'", IsRenumbering(F, Event.map))
       /\ sets' = IF F.done THEN sets ELSE [sets EXCEPT ![Event.f].done = TRUE, ![Event.f].map = Event.map]
       /\ Others
    \/ /\ At("bins")
       /\ Check({"C33"}, "a proper call threw", Event.ok)
       /\ Check({"C33"}, "the boundaries are not those of bins of that size", Event.bins = BinsOf(F, Event.max))
       /\ sets' = [sets EXCEPT ![Event.f].bins = (Event.as :> Event.bins) @@ @]
       /\ Others

\* A set of its own with very many phrases.
Crowd == /\ At("crowd")
         /\ Check({"C33"}, "a proper call threw", Event.ok)
         /\ Event.ok => Check({"C33"}, "many phrases are not numbered, found and placed as few are",
                CrowdAs(Event.n, Event.step, Event.max, Event.asked, Event.some, Event))
         /\ UNCHANGED <<builders, dbs, stores, iters, pending, sets>>

\* From a phrase, or what it begins with, to its places: all that was loaded for the phrases meant.
Reach == /\ At("reach")
         /\ Check({"C33"}, "a phrase is wrongly present or absent", Event.ok /\ Event.found = HasPhrase(F, Event.words, Event.ending))
         /\ pending' = IF Event.found THEN (Event.q :> Event) @@ pending ELSE pending
         /\ UNCHANGED <<builders, dbs, stores, iters, sets>>
Reached ==
    /\ At("reached")
    /\ Check({"C33"}, "called back without having been asked", Event.q \in DOMAIN pending)
    /\ \A q \in {pending[Event.q]} :
          LET f == sets[q.f]
              meant == {k \in DOMAIN stores[q.s].data : Matches1(Sorted1(f)[k.p[2] + 1], Read(f, q.words), q.ending)}
          IN Check({"C33"}, "the places found are not those loaded for the phrases",
                /\ Event.err = ""
                /\ ToSet2(Event.ids) = UNION {{e.id : e \in stores[q.s].data[k]} : k \in meant})
    /\ pending' = Without(pending, Event.q)
    /\ UNCHANGED <<builders, dbs, stores, iters, sets>>

PhraseReading ==
    /\ \/ /\ At("phrases_open")
          /\ Check({"C31"}, "opened though there is nothing", (Event.f \in DOMAIN sets /\ F.done) \/ ~Event.ok)
          /\ Check({"C33"}, "a finished set cannot be opened", ~(Event.f \in DOMAIN sets /\ F.done) \/ Event.ok)
       \/ /\ At("contains")
          /\ Check({"C33"}, "a phrase is wrongly present or absent", Event.ok /\ Event.found = HasPhrase(F, Event.words, Event.ending))
       \/ /\ At("by_id")
          /\ Check({"C33"}, "another phrase than the number's", Event.ok /\ <<Event.found, Event.words>> = ByNumber(F, Event.id))
       \/ /\ At("fuzzy")
          /\ Check({"C33"}, "other phrases than match", Event.ok /\ ToSet2(Event.out) = FuzzyMatches(F, Event.words, Event.word, Event.phrase, Event.ending))
       \/ /\ At("windows")
          /\ Check({"C33"}, "other phrases than match", Event.ok /\ ToSet2(Event.out) = Windows(F, Event.words, Event.word, Event.phrase, Event.ending))
       \/ /\ At("multi")
          /\ Check({"C33"}, "other phrases than match",
                /\ Event.ok /\ Len(Event.outs) = Len(Event.qs)
                /\ \A i \in 1..Len(Event.qs) :
                     ToSet2(Event.outs[i]) = FuzzyMatches(F, Event.qs[i].words, Event.word, Event.phrase, Event.qs[i].ending))
    /\ UNCHANGED sets /\ Others

End == At("end") /\ UNCHANGED <<builders, dbs, stores, iters, pending, sets>>

\* A process that dies or hangs is no action of the specification.
TraceNext == More /\ Announce
             /\ ((Begin \/ SetFaults \/ ((Build \/ Load \/ Finish \/ Open \/ Drop \/ Collect \/ Lookup \/ Keys \/ Begun \/ Next \/ Ask \/ Answered
                 \/ Settled \/ Stackable \/ Wrong \/ PhraseBuilding \/ Crowd \/ Reach \/ Reached \/ PhraseReading \/ End)
                     /\ faults' = IF Event.e \in {"finish", "open", "get"} THEN None ELSE faults)))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
