-------------------------------- MODULE MC_Tree --------------------------------
(***************************************************************************)
(* Searching the tree of stackable phrasematches: nodes are taken from a    *)
(* queue, most promising first, a chunk at a time; the scans of a chunk are *)
(* made in parallel, then its nodes are stacked in parallel, and what comes *)
(* out is kept in a bounded queue.  Scans are refused by quotas and skipped *)
(* when they promise too little, and the search ends early when nothing     *)
(* that is left can be among the best.  Checked against what a user is      *)
(* promised: SoundTree, CompleteTree, the quotas, and that neither the      *)
(* order of a chunk's scans nor that of its nodes matters.                  *)
(* Wrong is a set of changes that break it (models expected to fail).       *)
(***************************************************************************)
EXTENDS Coalescing, Json

CONSTANTS Shapes,           \* lists of [type, zoom, mask, weight, keys: sequence of [range, len, nearby]]
          Relevs, Xs, MaxMs,
          Most, MostAll, Chunk, Few,
          Wrong, Emit

QuotaHere(kind) == Few[kind]

VARIABLES pms, phase, steps, cache, counts, contexts, chunk, todo, singles, results, complete, scans, expected
vars == <<pms, phase, steps, cache, counts, contexts, chunk, todo, singles, results, complete, scans, expected>>

KeyAt(i, k, shape) == [id |-> 10 * i + k, nearby |-> shape.nearby, len |-> shape.len, range |-> shape.range, ms |-> <<>>]
PmAt(i, s) == [type |-> s.type, zoom |-> s.zoom, idx |-> s.type, weight |-> s.weight, mask |-> s.mask, nonov |-> {},
               keys |-> [k \in 1..Len(s.keys) |-> KeyAt(i, k, s.keys[k])]]
Match(i, k, n, r, x) == [r |-> r, s |-> 0, x |-> x, y |-> 0, id |-> P(100 * i + 10 * k + n), h |-> 0, ml |-> TRUE, d2 |-> <<0, 0>>, sd |-> <<0>>]
Nothing == [known |-> FALSE, cache |-> {}, contexts |-> {}, steps |-> {}]
Idle == /\ steps = {} /\ cache = <<>> /\ counts = [kind \in Kinds |-> 0] /\ contexts = {}
        /\ chunk = {} /\ todo = {} /\ singles = {} /\ results = {} /\ complete = FALSE /\ scans = <<>> /\ expected = Nothing
Init == /\ \E shapes \in Shapes : pms = [i \in 1..Len(shapes) |-> PmAt(i, shapes[i])]
        /\ phase = "grow" /\ Idle

-----------------------------------------------------------------------------
(* The matches are made up first. *)
Slots == UNION {{<<i, k>> : k \in 1..Len(pms[i].keys)} : i \in 1..Len(pms)}
Later(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
Grow ==
    /\ phase = "grow"
    /\ \E at \in Slots : LET ms == pms[at[1]].keys[at[2]].ms IN
       /\ \A b \in Slots : Later(b, at) => pms[b[1]].keys[b[2]].ms = <<>>
       /\ Len(ms) < MaxMs
       /\ \E r \in Relevs, x \in Xs :
             /\ x < 2 ^ Min2(3, pms[at[1]].zoom - 5)
             /\ ms # <<>> => (r < ms[Len(ms)].r \/ (r = ms[Len(ms)].r /\ x < ms[Len(ms)].x))
             /\ pms' = [pms EXCEPT ![at[1]].keys[at[2]].ms = Append(@, Match(at[1], at[2], Len(@) + 1, r, x))]
    /\ UNCHANGED <<phase, steps, cache, counts, contexts, chunk, todo, singles, results, complete, scans, expected>>
Whole(p) == [i \in 1..Len(p) |-> [p[i] EXCEPT !.keys = [k \in 1..Len(@) |-> [id |-> @[k].id, nearby |-> @[k].nearby, len |-> @[k].len, range |-> @[k].range,
                                                                        ms |-> @[k].ms, once |-> @[k].ms, seen |-> @[k].ms]]]]
\* the greatest total of a path through this one
Reach(path) == Max({Total(pms, p) : p \in {p \in LegalPaths(pms) : Len(p) >= Len(path) /\ SubSeq(p, 1, Len(path)) = path}})
StepOf(path, state, zoom, possible) ==
    [path |-> path, state |-> state, zoom |-> zoom, possible |-> possible,
     reach |-> IF "bound" \in Wrong THEN possible ELSE Reach(path)]
Begin ==
    /\ phase = "grow" /\ \A at \in Slots : pms[at[1]].keys[at[2]].ms # <<>>
    /\ pms' = Whole(pms)
    /\ steps' = {StepOf(<<j>>, {}, 0, pms[j].weight) : j \in 1..Len(pms)}
    /\ phase' = "pick"
    /\ UNCHANGED <<cache, counts, contexts, chunk, todo, singles, results, complete, scans, expected>>

-----------------------------------------------------------------------------
(* A chunk is picked. *)
Worst == Min({c.r : c \in contexts})
BestR == IF contexts = {} THEN 0 ELSE Max({c.r : c \in contexts})
Latest(step) == step.path[Len(step.path)]
IsLeaf(step) == Nexts(pms, step.path) = {}
IsAlone(step) == Len(step.path) = 1 /\ IsLeaf(step)
\* "waste": those before the one that is exhausted are used up nonetheless.
KindsInOrder == <<"letter", "wordslow", "word", "slowrange", "slow">>
Asked(counts0, kinds) ==
    IF "waste" \in Wrong
    THEN FoldLeft(LAMBDA acc, kind : IF ~acc.ok \/ kind \notin kinds THEN acc
                                     ELSE IF acc.counts[kind] < Quota(kind) THEN [acc EXCEPT !.counts[kind] = @ + 1]
                                     ELSE [acc EXCEPT !.ok = FALSE],
                  [ok |-> TRUE, counts |-> counts0], KindsInOrder)
    ELSE IF \E kind \in kinds : counts0[kind] >= Quota(kind) THEN [ok |-> FALSE, counts |-> counts0]
    ELSE [ok |-> TRUE, counts |-> [kind \in Kinds |-> counts0[kind] + IF kind \in kinds THEN 1 ELSE 0]]
\* Looks at one key of a step's phrasematch.  acc: [counts, todo]
Look(step, acc, k) ==
    LET pm == pms[Latest(step)]
        key == pm.keys[k]
        item == [pm |-> Latest(step), key |-> k, single |-> IsAlone(step)]
        word == key.range /\ Cardinality(pm.mask) = 1
        kinds == {kind \in Kinds : OfKind(kind, pm, key)}
        \* each scan of a chunk is counted once; "twice": the kinds that are not about single words for each of its nodes
        counting == IF item \notin acc.todo THEN kinds
                    ELSE IF "twice" \in Wrong THEN kinds \ {"letter", "wordslow", "word"} ELSE {}
    IN IF ~IsAlone(step) /\ key.id \in DOMAIN cache THEN acc
       ELSE IF word /\ Slow(pm) /\ (IsLeaf(step) \/ "leaf" \in Wrong) /\ 4 * step.possible <= 3 * BestR THEN acc
       ELSE CHOOSE r \in {[counts |-> a.counts, todo |-> IF a.ok THEN acc.todo \cup {item} ELSE acc.todo]
                          : a \in {Asked(acc.counts, IF "quota" \in Wrong THEN kinds \ {"word"} ELSE counting)}} : TRUE

Ready == steps = {} \/ Cardinality(chunk) + Cardinality({t.pm : t \in {t \in todo : t.single}}) >= Chunk
Pick ==
    /\ phase = "pick" /\ ~Ready
    /\ \E step \in {t \in steps : \A u \in steps : t.reach >= u.reach} :
       /\ IF Cardinality(contexts) >= MaxAll /\ step.reach <= Worst
          THEN \* nothing that is left can be among the best; what comes of those in the chunk might
               complete' = TRUE /\ steps' = {} /\ UNCHANGED <<chunk, todo, counts>>
          ELSE /\ steps' = steps \ {step}
               /\ \E acc \in {FoldLeft(LAMBDA acc, k : Look(step, acc, k), [counts |-> counts, todo |-> todo],
                                       [k \in 1..Len(pms[Latest(step)].keys) |-> k])} :
                     /\ counts' = acc.counts /\ todo' = acc.todo
               /\ chunk' = IF IsAlone(step) THEN chunk ELSE chunk \cup {step}
               /\ UNCHANGED complete
    /\ expected' = Nothing
    /\ UNCHANGED <<pms, phase, cache, contexts, singles, results, scans>>

-----------------------------------------------------------------------------
(* What comes of scans and steps. *)
Rank(c) == <<c.r>> \o RankOf(c) \o <<Len(c.es)>> \o (IF Len(c.es) > 1 THEN c.es[2].id ELSE <<0, 0>>) \o (IF Len(c.es) > 2 THEN c.es[3].id ELSE <<0, 0>>)
TopOf(S, n) == IF Cardinality(S) <= n THEN S
               ELSE LET sorted == SetToSortSeq(S, LAMBDA a, b : LexLt(Rank(b), Rank(a))) IN {sorted[i] : i \in 1..n}
AloneOf(item) ==
    LET pm == pms[item.pm]
        all == {Lone(pm, pm.keys[item.key].id, m) : m \in ToSet2(pm.keys[item.key].ms)}
    IN TopOf({c \in all : \A d \in all : d.r - c.r < 250000}, MaxContexts)
\* [out: contexts, next: steps]
ResultOf(step, known) ==
    LET pm == pms[Latest(step)]
        root == Len(step.path) = 1
        of(k) == IF pm.keys[k].id \notin DOMAIN known THEN {}
                 ELSE IF root THEN Begun(pm, pm.keys[k]) ELSE Stacked(pm, pm.keys[k], step.state, pm.zoom - step.zoom)
        sets == [k \in 1..Len(pm.keys) |-> of(k)]
        state == UNION {sets[k] : k \in 1..Len(sets)}
        sofar == IF state = {} THEN 0 ELSE Max({c.r : c \in state})
    IN [out |-> UNION {TopOf({Penalised(c) : c \in sets[k]}, MaxContexts) : k \in 1..Len(sets)},
        next |-> IF state = {} THEN {}
                 ELSE {StepOf(Append(step.path, j), state, pm.zoom, sofar + pms[j].weight) : j \in Nexts(pms, step.path)}]
Known == [id \in DOMAIN cache \cup {pms[t.pm].keys[t.key].id : t \in {t \in todo : ~t.single}} |-> TRUE]

StartChunk ==
    /\ phase = "pick" /\ Ready
    /\ phase' = IF chunk = {} /\ todo = {} THEN "done" ELSE "fetch"
    /\ expected' = [known |-> TRUE, cache |-> DOMAIN Known, contexts |-> TopOf(TopOf(contexts \cup UNION {AloneOf(t) : t \in {t \in todo : t.single}}, MaxAll)
                                                               \cup UNION {ResultOf(s, Known).out : s \in chunk}, MaxAll),
                    steps |-> steps \cup UNION {ResultOf(s, Known).next : s \in chunk}]
    /\ UNCHANGED <<pms, steps, cache, counts, contexts, chunk, todo, singles, results, complete, scans>>
\* The scans of a chunk end in any order ...
Fetch ==
    /\ phase = "fetch" /\ todo # {}
    /\ \E t \in todo :
       /\ todo' = todo \ {t}
       /\ scans' = Append(scans, t)
       /\ IF t.single THEN singles' = singles \cup AloneOf(t) /\ UNCHANGED cache
          ELSE cache' = (pms[t.pm].keys[t.key].id :> TRUE) @@ cache /\ UNCHANGED singles
    /\ UNCHANGED <<pms, phase, steps, counts, contexts, chunk, results, complete, expected>>
Fetched ==
    /\ phase = "fetch" /\ todo = {}
    /\ contexts' = TopOf(contexts \cup singles, MaxAll) /\ singles' = {}
    /\ phase' = "work"
    /\ UNCHANGED <<pms, steps, cache, counts, chunk, todo, results, complete, scans, expected>>
\* ... and so do its nodes.
Work ==
    /\ phase = "work" /\ chunk # {}
    /\ \E s \in chunk : chunk' = chunk \ {s} /\ results' = results \cup {ResultOf(s, cache)}
    /\ UNCHANGED <<pms, phase, steps, cache, counts, contexts, todo, singles, complete, scans, expected>>
Worked ==
    /\ phase = "work" /\ chunk = {}
    /\ contexts' = TopOf(contexts \cup UNION {r.out : r \in results}, MaxAll)
    /\ steps' = steps \cup UNION {r.next : r \in results}
    /\ results' = {}
    /\ phase' = IF complete /\ "ends" \in Wrong THEN "done" ELSE "pick"
    /\ UNCHANGED <<pms, cache, counts, chunk, todo, singles, complete, scans, expected>>

Next == Grow \/ Begin \/ (~Emit /\ (Pick \/ StartChunk \/ Fetch \/ Fetched \/ Work \/ Worked))
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Pick \/ StartChunk \/ Fetch \/ Fetched \/ Work \/ Worked)

-----------------------------------------------------------------------------
Answer == SetToSortSeq(contexts, LAMBDA a, b : LexLt(Rank(b), Rank(a)))
Sound == phase = "done" => SoundTree(pms, TreeNodes(pms), Answer)
Complete == phase = "done" => CompleteTree(pms, TreeNodes(pms), Answer)
\* Nothing that is left can be among the best (so it may end early).
EndsInTime == complete => Cardinality(contexts) >= MaxAll
\* The order in which the parts of a chunk end does not matter.
OrderIsNothing ==
    phase = "pick" /\ expected.known =>
        DOMAIN cache = expected.cache /\ contexts = expected.contexts /\ steps = expected.steps
Started == [kind \in Kinds |-> Cardinality({i \in 1..Len(scans) : OfKind(kind, pms[scans[i].pm], pms[scans[i].pm].keys[scans[i].key])})]
QuotasHold == \A kind \in Kinds : Started[kind] <= Quota(kind)
\* What was never scanned was skipped, or was of a kind of which there were as many as may be.
RefusedForAReason ==
    phase = "done" /\ ~complete =>
    \A i \in 1..Len(pms) : \A k \in 1..Len(pms[i].keys) :
        \/ \E n \in 1..Len(scans) : scans[n].pm = i /\ scans[n].key = k
        \/ Skippable(pms[i], pms[i].keys[k], TRUE, pms[i].weight, BestR)
        \/ Exhausted(pms[i], pms[i].keys[k], Started)
\* Each is scanned once, or once for itself and once to be stacked.
OnceEach == \A i, j \in 1..Len(scans) : i # j => scans[i] # scans[j]
Finishes == (phase = "pick") ~> (phase = "done")
PrintScenario == (Emit /\ phase = "pick" /\ scans = <<>> /\ chunk = {} /\ todo = {} /\ contexts = {} /\ cache = <<>>
                  /\ Cardinality(steps) = Len(pms)) =>
    PrintT("@@SCN " \o ToJson([pms |-> [i \in 1..Len(pms) |->
        [type |-> pms[i].type, zoom |-> pms[i].zoom, mask |-> SetToSortSeq(pms[i].mask, <), weight |-> pms[i].weight,
         keys |-> [k \in 1..Len(pms[i].keys) |-> [range |-> pms[i].keys[k].range, len |-> pms[i].keys[k].len, nearby |-> pms[i].keys[k].nearby,
             ms |-> [n \in 1..Len(pms[i].keys[k].ms) |-> LET m == pms[i].keys[k].ms[n] IN <<m.r, m.x, m.id[2]>>]]]]]]))

-----------------------------------------------------------------------------
(* For the configurations *)
Exact == [range |-> FALSE, len |-> 5, nearby |-> FALSE]
Prefix == [range |-> TRUE, len |-> 5, nearby |-> FALSE]
Letter == [range |-> TRUE, len |-> 1, nearby |-> FALSE]
NearPrefix == [range |-> TRUE, len |-> 5, nearby |-> TRUE]
ShapeOf(type, zoom, mask, weight, keys) == [type |-> type, zoom |-> zoom, mask |-> mask, weight |-> weight, keys |-> keys]
\* few contexts fit
Crowded == {<<ShapeOf(1, 6, {0}, w1, <<Exact>>), ShapeOf(2, 6, {1}, w2, <<Exact>>), ShapeOf(3, 7, m, 400000, <<Exact>>)>>
            : w1 \in {600000, 300000}, w2 \in {400000, 300000}, m \in {{0}, {1}, {2}}}
\* some phrasematches stand alone
Lonely == {<<ShapeOf(2, 6, {0}, w1, <<Exact, Exact>>), ShapeOf(2, 6, m, w2, <<Exact>>), ShapeOf(3, 7, {0}, 500000, <<Exact>>)>>
           : w1 \in {600000, 300000}, w2 \in {500000, 300000}, m \in {{0}, {1}}}
\* scans of leaves at high zooms, and of letters
Slowly == {<<ShapeOf(1, 6, {0}, w1, <<a>>), ShapeOf(2, 14, m, w2, <<b>>), ShapeOf(3, 14, {1}, 300000, <<c>>)>>
           : w1 \in {700000, 400000}, w2 \in {500000, 200000}, m \in {{0}, {1}}, a \in {Exact, Letter}, b \in {Prefix, Letter}, c \in {Prefix, NearPrefix, Exact}}
\* kinds that come together
Mingled == {<<ShapeOf(2, 14, {0}, 900000, <<a>>), ShapeOf(2, 14, {0}, 800000, <<b>>), ShapeOf(1, 6, {0}, 700000, <<c>>)>>
            : a \in {Prefix, Letter}, b \in {Prefix, Letter}, c \in {Letter, Prefix}}
\* two nodes of a chunk want the same scan
Shared == {<<ShapeOf(1, 6, {0}, 600000, <<Exact>>), ShapeOf(1, 6, {0}, 500000, <<Exact>>), ShapeOf(2, 14, {1, 2}, w, <<Prefix>>), ShapeOf(2, 14, {1, 2}, 300000, <<Prefix>>)>>
           : w \in {400000, 300000}}
\* a chunk's last step is refused, and those before it go deeper
Deep == {<<ShapeOf(1, 6, {0}, 300000, <<Exact>>), ShapeOf(2, 6, {1}, w, <<Exact>>), ShapeOf(3, 7, {2}, 400000, <<Exact>>),
           ShapeOf(1, 6, {0, 1, 2}, l, <<Exact>>)>> : w \in {200000, 300000}, l \in {500000, 750000}}
Plenty == [kind \in Kinds |-> 100]
Scarce == [kind \in Kinds |-> CASE kind = "letter" -> 1 [] kind = "wordslow" -> 1 [] kind = "word" -> 2 [] kind = "slowrange" -> 2 [] kind = "slow" -> 3]
=============================================================================
