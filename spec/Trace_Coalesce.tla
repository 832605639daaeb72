---------------------------- MODULE Trace_Coalesce ----------------------------
(* Contexts recorded from coalescing on the real code (C13 to C16, C24, C27),   *)
(* together with what each match key's search yields on its own.                *)
EXTENDS TraceBase, Coalescing
VARIABLES dbs,          \* directory -> keys loaded
          stores,       \* name -> [type, zoom, keys, dir]
          answers       \* number of a question -> the answer first given
vars == <<l, dbs, stores, answers>>

TraceInit == l = 1 /\ dbs = <<>> /\ stores = <<>> /\ answers = <<>>
Begin == At("begin") /\ dbs' = <<>> /\ stores' = <<>> /\ answers' = <<>>
Build == At("build") /\ Event.ok /\ dbs' = (Event.b :> {}) @@ dbs /\ UNCHANGED <<stores, answers>>
Load == (At("insert") \/ At("append")) /\ Event.ok
        /\ dbs' = (IF Prop \in {"C24", "C27"} THEN dbs ELSE [dbs EXCEPT ![Event.b] = @ \cup {Event.key}])
        /\ UNCHANGED <<stores, answers>>
Setup == (At("bounds") \/ At("finish")) /\ Event.ok /\ UNCHANGED <<dbs, stores, answers>>
Open == At("open") /\ Event.ok
        /\ stores' = (Event.s :> [type |-> Event.type, zoom |-> Event.zoom, keys |-> Cardinality(dbs[Event.b]), dir |-> Event.b]) @@ stores
        /\ UNCHANGED <<dbs, answers>>
End == At("end") /\ UNCHANGED <<dbs, stores, answers>>

MatchIn(m) == [r |-> m.r, s |-> m.s, x |-> m.x, y |-> m.y, id |-> m.id, h |-> m.h, ml |-> m.ml, d2 |-> m.d2, sd |-> m.sd]
KeyIn(k, stream, nkeys) ==
    CHOOSE key \in {[id |-> k.id, nearby |-> k.nearby, len |-> k.len,
                     range |-> k.key.kind = "range" /\ k.key.end # Succ(k.key.start),
                     ms |-> ms, once |-> once,
                     seen |-> IF nkeys <= 2 * MaxContexts THEN ms ELSE SubSeq(ms, 1, Min2(Len(ms), 2 * MaxContexts))]
                    : once \in {Once(m) : m \in {[n \in 1..Len(stream.out) |-> MatchIn(stream.out[n])]}},
                      ms \in {[n \in 1..Len(stream.out) |-> MatchIn(stream.out[n])]}} : TRUE
PmIn(p, streams) ==
    [type |-> stores[p.store].type, zoom |-> stores[p.store].zoom, idx |-> p.idx, weight |-> p.weight,
     mask |-> ToSet2(p.mask), nonov |-> ToSet2(p.nonov),
     keys |-> [k \in 1..Len(p.keys) |-> KeyIn(p.keys[k], streams[k], stores[p.store].keys)]]
PmsIn == [i \in 1..Len(Event.pms) |-> PmIn(Event.pms[i], Event.streams[i])]
EntryIn(e) == [r |-> e.r, s |-> e.s, x |-> e.x, y |-> e.y, id |-> e.id, h |-> e.h, ml |-> e.ml, d2 |-> e.d2, sd |-> e.sd,
               idx |-> e.idx, tmp |-> e.tmp, mask |-> ToSet2(e.mask), pm |-> e.pm]
ContextIn(c) == [es |-> [i \in 1..Len(c.entries) |-> EntryIn(c.entries[i])], mask |-> ToSet2(c.mask), r |-> c.r]
ContextsIn(cs) == [i \in 1..Len(cs) |-> ContextIn(cs[i])]

Place(c) == LET e == c.entries[1] IN c.rb \o e.sd \o <<-e.idx, e.x, e.y>> \o e.id
Sorted(cs) == \A places \in {[i \in 1..Len(cs) |-> Place(cs[i])]} : \A i \in 1..(Len(cs) - 1) : LexLe(places[i + 1], places[i])

Single(pm, cs) ==
    /\ Check({"C13"}, "an entry that is no match of the phrasematch, a feature twice, or not by its best tile",
          SoundSingle(pm, 0, pm.keys[1].ms, pm.keys[1].seen, cs))
    /\ Check({"C13"}, "too many results", Len(cs) <= MaxContexts)
    /\ Check({"C13"}, "a result too far below the best", \A i \in 1..Len(cs) : cs[1].r - cs[i].r <= 250000)
    /\ Check({"C13"}, "a feature is missing",
          CompleteSingle(pm, pm.keys[1].seen, cs,
              LAMBDA v : Len(cs) = MaxContexts /\ \A i \in 1..Len(cs) : LexLe(v, Value(cs[i].r, cs[i].es[1].sd))))

Coalesce ==
    /\ At("coalesce") /\ Event.ok
    /\ \A pms \in {PmsIn} : \A cs \in {ContextsIn(Event.contexts)} :
          /\ Check({"C13", "C14"}, "contexts out of order", Sorted(Event.contexts))
          /\ IF pms = <<>> THEN Check({"C14"}, "contexts of nothing", cs = <<>>)
             ELSE IF Len(pms) = 1 THEN Single(pms[1], cs)
             ELSE \A stack \in {Prepared(pms)} :
                  /\ Check({"C14"}, "a context that is no legal stack", \A i \in 1..Len(cs) : LegalStack(stack, cs[i]))
                  /\ \A built \in {Multi(stack)} :
                     Check({"C14"}, "not the contexts there should be", AnswerOf(built, cs))
    /\ UNCHANGED <<dbs, stores, answers>>

Tree ==
    /\ At("tree_coalesce") \/ At("stack_and_coalesce")
    /\ Prop \in {"C15", "C16"} /\ Event.ok
    /\ Check({"C15", "C16"}, "contexts out of order", Sorted(Event.contexts))
    /\ \A pms \in {IF Event.e = "stack_and_coalesce" THEN Collapsed(PmsIn) ELSE PmsIn} : \A cs \in {ContextsIn(Event.contexts)} :
       \A nodes \in {TreeNodes(pms)} :
          /\ Check({"C15"}, "a context that is no legal stack or has another relevance", SoundTree(pms, nodes, cs))
          /\ Check({"C16"}, "a context is missing", CompleteTree(pms, nodes, cs))
    /\ UNCHANGED <<dbs, stores, answers>>

-----------------------------------------------------------------------------
(* The same question asked again (C24), from a pool of another size, with its   *)
(* fetches held back into another order, or at the same time as others.         *)
SameAnswer(a, b) == a = b
Ask ==
    /\ At("tree_coalesce") \/ At("stack_and_coalesce")
    /\ Prop = "C24" /\ Event.ok
    /\ IF Event.q \in DOMAIN answers
       THEN Check({"C24"}, "another answer than before", SameAnswer(answers[Event.q], Event.contexts)) /\ UNCHANGED answers
       ELSE answers' = (Event.q :> Event.contexts) @@ answers
    /\ UNCHANGED <<dbs, stores>>
Concurrent ==
    /\ At("concurrent")
    /\ \A i \in 1..Len(Event.alone) : Event.alone[i].ok
    /\ Check({"C24"}, "another answer than when asked alone",
          \A i \in 1..Len(Event.outs) : LET o == Event.outs[i] IN
              o.q > 0 /\ o.v.ok /\ SameAnswer(Event.alone[o.q].contexts, o.v.contexts))
    /\ UNCHANGED <<dbs, stores, answers>>

-----------------------------------------------------------------------------
(* Which scans are started (C27).  Here all match keys have a start of their    *)
(* own within their database, so a scan tells for which of them it is.          *)
Bytes(p) == <<p[1] \div 256, p[1] % 256, p[2] \div 256, p[2] % 256>>
WantIn(p) ==
    [type |-> stores[p.store].type, zoom |-> stores[p.store].zoom, idx |-> p.idx, weight |-> p.weight,
     mask |-> ToSet2(p.mask), nonov |-> ToSet2(p.nonov),
     keys |-> [k \in 1..Len(p.keys) |->
                 [id |-> p.keys[k].id, nearby |-> p.keys[k].nearby, len |-> p.keys[k].len,
                  range |-> p.keys[k].key.kind = "range" /\ p.keys[k].key.end # Succ(p.keys[k].key.start),
                  scan |-> <<stores[p.store].dir>> \o Bytes(p.keys[k].key.start)]]]
ScanIn(s) == <<s.dir>> \o SubSeq(s.from, 2, 5)
\* [pm, key, kinds, weight, scan, may be skipped]
Wanted(pms, best) ==
    UNION {{[pm |-> j, key |-> k, kinds |-> {kind \in Kinds : OfKind(kind, pms[j], pms[j].keys[k])},
             weight |-> pms[j].weight, scan |-> pms[j].keys[k].scan,
             skip |-> Skippable(pms[j], pms[j].keys[k], TRUE, pms[j].weight, best)]
            : k \in 1..Len(pms[j].keys)} : j \in 1..Len(pms)}
\* How often a phrasematch may come up in the tree.
Comings(pms) ==
    IF \A i, j \in 1..Len(pms) : pms[i].type = pms[j].type THEN [j \in 1..Len(pms) |-> 1]
    ELSE CHOOSE c \in {[j \in 1..Len(pms) |-> Cardinality({p \in legal : p[Len(p)] = j})] : legal \in {LegalPaths(pms)}} : TRUE
Flat(comings) == \A j \in DOMAIN comings : comings[j] = 1

\* A phrasematch that nothing can be stacked on is scanned on its own, and again if it can be stacked on another.
QuotasKept(pms, wanted, scans) ==
    \A done \in {ToSet2(scans)} :
    \A times \in {[s \in done |-> Cardinality({i \in 1..Len(scans) : scans[i] = s})]} :
    /\ done \subseteq {w.scan : w \in wanted}
    /\ \A w \in wanted : w.scan \in done =>
          \/ times[w.scan] = 1
          \/ times[w.scan] = 2 /\ Nexts(pms, <<w.pm>>) = {} /\ \E j \in 1..Len(pms) : Fits(pms, <<j>>, w.pm)
    /\ \A kind \in Kinds :
          FoldSet(LAMBDA w, n : n + times[w.scan], 0, {w \in wanted : kind \in w.kinds /\ w.scan \in done}) <= Quota(kind)
\* full: so many contexts that the rest may be left undone
\* A scan is refused only if as many of its kind were started; if nothing is stacked, as many at least as good.
QuotasUsed(wanted, comings, scans, full) ==
    \A done \in {ToSet2(scans)} :
    \A times \in {[s \in done |-> Cardinality({i \in 1..Len(scans) : scans[i] = s})]} :
    \A best \in {Flat(comings) /\ (\A w \in wanted : ~w.skip)} :
       \A w \in wanted :
          \/ w.scan \in done \/ w.skip \/ full
          \/ \E kind \in w.kinds :
                FoldSet(LAMBDA v, n : n + times[v.scan], 0,
                        {v \in wanted : kind \in v.kinds /\ v.scan \in done /\ (best => v.weight >= w.weight)}) >= Quota(kind)
Scans ==
    /\ At("tree_coalesce") \/ At("stack_and_coalesce")
    /\ Prop = "C27" /\ Event.ok
    /\ \A pms \in {[i \in 1..Len(Event.pms) |-> WantIn(Event.pms[i])]} :
       \A wanted \in {Wanted(pms, IF Event.contexts = <<>> THEN 0 ELSE Event.contexts[1].r)} :
       \A scans \in {[i \in 1..Len(Event.scans) |-> ScanIn(Event.scans[i])]} :
          /\ Assert(Cardinality({w.scan : w \in wanted}) = Cardinality(wanted), "scenario: keys that start alike")
          /\ Check({"C27"}, "more scans of a kind than allowed, the same twice, or for nobody", QuotasKept(pms, wanted, scans))
          /\ Check({"C27"}, "a scan was refused for no reason",
                QuotasUsed(wanted, Comings(pms), scans, Len(Event.contexts) >= MaxAll))
    /\ UNCHANGED <<dbs, stores, answers>>

TraceNext == More /\ Announce /\ (Begin \/ Build \/ Load \/ Setup \/ Open \/ Coalesce \/ Tree \/ Ask \/ Concurrent \/ Scans \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
