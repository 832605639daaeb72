------------------------------ MODULE Coalescing ------------------------------
(***************************************************************************)
(* Coalescing the matches of phrasematches into contexts.                   *)
(*                                                                          *)
(* A phrasematch here is one of Stacking with its matches: keys is a        *)
(* sequence of records [id, nearby, range, len, ms], ms being the sequence  *)
(* of matches that the key's search yields, best first.                     *)
(* A context is [es, mask, r]: its entries (the last stacked first), the    *)
(* union of their masks, its relevance in millionths.                       *)
(***************************************************************************)
EXTENDS Stacking, Values

MaxContexts == 40

Weighted(pm, r) == (r \div 1000) * (pm.weight \div 1000)
EntryOf(pm, key, m) ==
    [r |-> Weighted(pm, m.r), s |-> m.s, x |-> m.x, y |-> m.y, id |-> m.id, h |-> m.h, ml |-> m.ml, d2 |-> m.d2, sd |-> m.sd,
     idx |-> pm.idx, tmp |-> <<pm.idx * 512 + m.id[1], m.id[2]>>, mask |-> pm.mask, pm |-> key]
Lone(pm, key, m) == [es |-> <<EntryOf(pm, key, m)>>, mask |-> pm.mask, r |-> Weighted(pm, m.r)]

\* masks as numbers
MaskLess(a, b) == LET d == (a \ b) \cup (b \ a) IN d # {} /\ Max(d) \in b
Penalty(c) == IF Len(c.es) = 1 \/ MaskLess(c.es[2].mask, c.es[1].mask) THEN 10000 ELSE 0
Penalised(c) == [c EXCEPT !.r = @ - Penalty(c)]

\* the tile of a lower zoom a tile is in, `by` zooms further out
Out(n, by) == n \div (2 ^ by)

-----------------------------------------------------------------------------
(* One phrasematch: each feature once (C13).                                *)
(* seen: the matches that are certain to be looked at; cs: contexts found.  *)
Beaten(m, M) == \E n \in M : n.id = m.id /\ n.r >= m.r /\ LexLt(m.sd, n.sd)
Monotone(ms) == \A i \in 1..(Len(ms) - 1) : ms[i + 1].r <= ms[i].r
Value(r, sd) == <<r>> \o sd
\* Is it decided which features are kept?
Decided(ms) == Monotone(ms) \/ Cardinality({ms[i].id : i \in 1..Len(ms)}) <= 2 * MaxContexts

SoundSingle(pm, key, ms, seen, cs) ==
    \A M \in {ToSet2(ms)} : \A S \in {ToSet2(seen)} :
    /\ \A i, j \in 1..Len(cs) : i # j => cs[i].es[1].id # cs[j].es[1].id
    /\ \A i \in 1..Len(cs) : \E m \in M : /\ cs[i] = Lone(pm, key, m)
                                          /\ Decided(seen) => ~Beaten(m, S)
\* room: is there no room for one whose value is v?
CompleteSingle(pm, seen, cs, Full(_)) ==
    Decided(seen) /\ seen # <<>> =>
    \A S \in {ToSet2(seen)} : \A best \in {Max({m.r : m \in S})} : \A got \in {{cs[i].es[1].id : i \in 1..Len(cs)}} :
    \A f \in {m.id : m \in S} \ got :
        \E m \in S : /\ m.id = f /\ ~Beaten(m, S)
                     /\ \/ Weighted(pm, m.r) <= Weighted(pm, best) - 250000
                        \/ Full(Value(Weighted(pm, m.r), m.sd))

-----------------------------------------------------------------------------
(* Several phrasematches stacked (C14): contexts are built up over the      *)
(* phrasematches in order of zoom and index.  `at` holds the contexts that  *)
(* have been built on each tile.                                            *)
Prepared(pms) == SortSeq(pms, LAMBDA a, b : a.zoom < b.zoom \/ (a.zoom = b.zoom /\ a.idx < b.idx))
Zooms(stack, i) ==
    FoldLeft(LAMBDA acc, b : IF b.idx = stack[i].idx \/ b.zoom > stack[i].zoom \/ (acc # <<>> /\ acc[Len(acc)] = b.zoom) THEN acc
                             ELSE Append(acc, b.zoom), <<>>, stack)
On(at, tile) == IF tile \in DOMAIN at THEN at[tile] ELSE <<>>

\* adds an entry of a context on a lower zoom's tile
Take(acc, e) ==
    IF e.mask = acc.prev.mask /\ e.r > acc.prev.r
    THEN [c |-> [acc.c EXCEPT !.es = Append(SubSeq(@, 1, Len(@) - 1), e), !.r = @ - acc.prev.r + e.r],
          prev |-> [mask |-> e.mask, r |-> e.r]]
    ELSE IF acc.c.mask \cap e.mask = {}
    THEN [c |-> [es |-> Append(acc.c.es, e), mask |-> acc.c.mask \cup e.mask, r |-> acc.c.r + e.r],
          prev |-> [mask |-> e.mask, r |-> e.r]]
    ELSE acc
TakeAll(c, parents) ==
    FoldLeft(LAMBDA acc, p : FoldLeft(Take, acc, p.es), [c |-> c, prev |-> [mask |-> {}, r |-> 0]], parents).c

Built(stack, i, zooms, at, m) ==
    FoldLeft(LAMBDA c, z : TakeAll(c, On(at, <<z, Out(m.x, stack[i].zoom - z), Out(m.y, stack[i].zoom - z)>>)),
             Lone(stack[i], 0, m), zooms)
MultiStep(stack, acc, i) ==
    LET last == i = Len(stack)
        one(b, m) ==
            LET tile == <<stack[i].zoom, m.x, m.y>>
                add(c) == [new |-> IF ~last /\ (i = 1 \/ Len(c.es) > 1) THEN (tile :> Append(On(b.new, tile), c)) @@ b.new ELSE b.new,
                           out |-> IF last THEN b.out \cup {Penalised(c)} ELSE b.out,
                           max |-> IF c.r > b.max THEN c.r ELSE b.max]
            IN CHOOSE r \in {add(c) : c \in {Built(stack, i, zooms, acc.at, m) : zooms \in {Zooms(stack, i)}}} : TRUE
        done(b) == [at |-> [t \in DOMAIN acc.at \cup DOMAIN b.new |-> On(acc.at, t) \o On(b.new, t)], out |-> b.out, max |-> b.max]
    IN CHOOSE r \in {done(b) : b \in {FoldLeft(one, [new |-> <<>>, out |-> acc.out, max |-> acc.max], stack[i].keys[1].ms)}} : TRUE
\* [all: the contexts, max: the greatest relevance without penalties]
Multi(stack) ==
    LET whole(b) == [all |-> b.out \cup UNION {ToSet2(b.at[t]) : t \in DOMAIN b.at}, max |-> b.max]
    IN CHOOSE r \in {whole(b) : b \in {FoldLeft(LAMBDA acc, i : MultiStep(stack, acc, i),
                                                [at |-> <<>>, out |-> {}, max |-> 0], [i \in 1..Len(stack) |-> i])}} : TRUE

Sum(c) == FoldLeft(LAMBDA n, e : n + e.r, 0, c.es)
\* What a user can count on in a stacked context.
LegalStack(stack, c) ==
    /\ \A i \in 1..Len(c.es) : \E k \in 1..Len(stack) :
          /\ stack[k].idx = c.es[i].idx /\ stack[k].mask = c.es[i].mask
          /\ \E n \in 1..Len(stack[k].keys[1].ms) : EntryOf(stack[k], 0, stack[k].keys[1].ms[n]) = c.es[i]
    /\ \A i, j \in 1..Len(c.es) : i # j => c.es[i].mask \cap c.es[j].mask = {}
    /\ c.mask = UNION {c.es[i].mask : i \in 1..Len(c.es)}
    /\ c.r \in {Sum(c), Sum(c) - 10000}
    /\ \A i \in 2..Len(c.es) : \E a, b \in 1..Len(stack) :
          /\ stack[a].idx = c.es[1].idx /\ stack[b].idx = c.es[i].idx /\ stack[b].zoom <= stack[a].zoom
          /\ Out(c.es[1].x, stack[a].zoom - stack[b].zoom) = c.es[i].x
          /\ Out(c.es[1].y, stack[a].zoom - stack[b].zoom) = c.es[i].y

\* The answer made of the contexts: best first, each feature leading at most one, at most 40, none 0.25 below.
AnswerOf(built, cs) ==
    /\ \A i \in 1..Len(cs) : cs[i] \in built.all
    /\ \A i, j \in 1..Len(cs) : i # j => cs[i].es[1].tmp # cs[j].es[1].tmp
    /\ Len(cs) <= MaxContexts
    /\ \A i \in 1..Len(cs) : cs[1].r - cs[i].r <= 250000
    /\ built.all # {} =>
       \A lead \in {[f \in {c.es[1].tmp : c \in built.all} |-> Max({c.r : c \in {c \in built.all : c.es[1].tmp = f}})]} :
       \A got \in {{cs[i].es[1].tmp : i \in 1..Len(cs)}} :
       /\ \A i \in 1..Len(cs) : cs[i].r = lead[cs[i].es[1].tmp]
       /\ \A f \in DOMAIN lead \ got : \/ lead[f] <= built.max - 250000
                                       \/ Len(cs) = MaxContexts /\ lead[f] <= cs[Len(cs)].r

-----------------------------------------------------------------------------
(* Searching the tree of stackable phrasematches (C15, C16).                *)
\* a key's matches, each feature on a tile once
Once(ms) == LET firsts == SelectSeq([i \in 1..Len(ms) |-> i],
                                    LAMBDA i : \A j \in 1..(i - 1) : ~(ms[j].x = ms[i].x /\ ms[j].y = ms[i].y /\ ms[j].id = ms[i].id))
            IN [k \in 1..Len(firsts) |-> ms[firsts[k]]]

Stacked(pm, key, parents, by) ==
    Join([n \in 1..Len(key.once) |->
          LET e == EntryOf(pm, key.id, key.once[n])
              x == Out(e.x, by)
              y == Out(e.y, by)
          IN {[es |-> <<e>> \o c.es, mask |-> c.mask \cup pm.mask, r |-> c.r + e.r] :
                c \in {c \in parents : c.es[1].x = x /\ c.es[1].y = y}}])
Begun(pm, key) == {Lone(pm, key.id, key.once[n]) : n \in 1..Len(key.once)}

Nexts(pms, path) == {j \in 1..Len(pms) : Fits(pms, path, j)}
\* Every node of the tree but those that stand alone: [path, leaf, bound, sets], where sets are the contexts
\* that each key leads to, and bound is what the node can reach given what was stacked before.
RECURSIVE Below(_, _, _, _)
Below(pms, path, state, zoom) ==
    UNION {
      LET p == Append(path, j)
          pm == pms[j]
          before == IF path = <<>> \/ state = {} THEN 0 ELSE Max({c.r : c \in state})
      IN UNION {{[path |-> p, leaf |-> nexts = {}, bound |-> before + pm.weight, sets |-> sets]}
                  \cup (IF nexts = {} THEN {} ELSE UNION {Below(pms, p, s, pm.zoom) : s \in {Join(sets)}})
                : sets \in {[k \in 1..Len(pm.keys) |-> IF path = <<>> THEN Begun(pm, pm.keys[k])
                                                         ELSE Stacked(pm, pm.keys[k], state, pm.zoom - zoom)]},
                  nexts \in {Nexts(pms, p)}}
      : j \in {j \in Nexts(pms, path) : path # <<>> \/ Nexts(pms, <<j>>) # {}}}
TreeNodes(pms) == Below(pms, <<>>, {}, 0)
Alone(pms) == {j \in 1..Len(pms) : Nexts(pms, <<j>>) = {}}

\* Is d ranked at least as high as c?  Relevances that are equal in millionths but were summed from
\* other parts may differ in their last bits; then either may be.
Rs(c) == [i \in 1..Len(c.es) |-> c.es[i].r]
RankOf(c) == c.es[1].sd \o <<-c.es[1].idx, c.es[1].x, c.es[1].y>> \o c.es[1].id
AtLeast(d, c) == d.r > c.r \/ (d.r = c.r /\ (Rs(d) # Rs(c) \/ LexLe(RankOf(c), RankOf(d))))

MaxAll == 20 * MaxContexts
Slow(pm) == pm.zoom >= 14
\* Scans that may be skipped when they cannot lead to 75% of the best.
Skippable(pm, key, leaf, bound, best) ==
    /\ leaf /\ Slow(pm) /\ key.range /\ Cardinality(pm.mask) = 1
    /\ 4 * bound <= 3 * best

(* Quotas: kinds of scans, and how many of each are allowed. *)
Kinds == {"letter", "wordslow", "word", "slowrange", "slow"}
Quota(kind) == CASE kind = "letter" -> 8 [] kind = "wordslow" -> 8 [] kind = "word" -> 40 [] kind = "slowrange" -> 40
                 [] kind = "slow" -> 600
OfKind(kind, pm, key) ==
    LET word == key.range /\ Cardinality(pm.mask) = 1
    IN CASE kind = "letter" -> word /\ key.len = 1
         [] kind = "wordslow" -> word /\ Slow(pm) /\ ~key.nearby
         [] kind = "word" -> word
         [] kind = "slowrange" -> key.range /\ Slow(pm) /\ ~key.nearby
         [] kind = "slow" -> Slow(pm) /\ ~key.nearby
\* Is there a reason to refuse a scan when as many of each kind were started?
Exhausted(pm, key, started) == \E kind \in Kinds : OfKind(kind, pm, key) /\ started[kind] >= Quota(kind)
\* Kinds of which the tree wants no more than may be.
Wants(pms, nodes, kind) ==
    LET of(j) == Cardinality({k \in 1..Len(pms[j].keys) : OfKind(kind, pms[j], pms[j].keys[k])})
    IN FoldSet(LAMBDA n, sum : sum + of(n.path[Len(n.path)]), 0, nodes) + FoldSet(LAMBDA j, sum : sum + of(j), 0, Alone(pms))
Free(pms, nodes) == {kind \in Kinds : Wants(pms, nodes, kind) <= Quota(kind)}
KeyFree(free, pm, key) == \A kind \in Kinds : OfKind(kind, pm, key) => kind \in free
\* The key of a context's i-th phrasematch.
KeyOf(pm, id) == CHOOSE k \in ToSet2(pm.keys) : k.id = id
PathFree(pms, free, path, c) ==
    \A i \in 1..Len(path) : KeyFree(free, pms[path[i]], KeyOf(pms[path[i]], c.es[Len(path) + 1 - i].pm))

NotAlone(pms, c) == Len(c.es) > 1 \/ ~\E j \in Alone(pms) : pms[j].idx = c.es[1].idx /\ pms[j].mask = c.es[1].mask
                                                          /\ \E k \in ToSet2(pms[j].keys) : k.id = c.es[1].pm
Singles(pms, j, key, cs) == SelectSeq(cs, LAMBDA c : Len(c.es) = 1 /\ c.es[1].idx = pms[j].idx /\ c.es[1].mask = pms[j].mask
                                                    /\ c.es[1].pm = key.id)

\* Every context is a legal stack of matches and has the relevance it should have (C15).
SoundTree(pms, nodes, cs) ==
    \A all \in {Join(FlattenSeq([i \in 1..Len(ns) |-> [k \in 1..Len(ns[i].sets) |-> {Penalised(c) : c \in ns[i].sets[k]}]]))
                : ns \in {SetToSeq(nodes)}} :
    /\ \A i \in 1..Len(cs) : cs[i] \in all \/ ~NotAlone(pms, cs[i])
    /\ \A j \in Alone(pms) : \A k \in ToSet2(pms[j].keys) :
          \A here \in {Singles(pms, j, k, cs)} :
             /\ SoundSingle(pms[j], k.id, k.ms, k.seen, here)
             /\ \A i \in 1..Len(here) : here[1].r - here[i].r <= 250000
    /\ Cardinality(ToSet2(cs)) = Len(cs) /\ Len(cs) <= MaxAll

\* Nothing that belongs there is missing (C16).
CompleteTree(pms, nodes, cs) ==
    \A got \in {ToSet2(cs)} : \A free \in {Free(pms, nodes)} :
    LET best == IF cs = <<>> THEN 0 ELSE cs[1].r
        crowded(r) == Len(cs) = MaxAll /\ r <= cs[MaxAll].r
    IN
    /\ Cardinality(got) >= 0
    /\ \A n \in nodes : \A k \in 1..Len(n.sets) :
         LET pm == pms[n.path[Len(n.path)]] IN
         Skippable(pm, pm.keys[k], n.leaf, n.bound, best) \/
         \A mine \in {{Penalised(c) : c \in n.sets[k]}} :
         \A kept \in {mine \cap got} :
         \A c \in mine \ kept :
            \/ crowded(c.r)
            \/ ~PathFree(pms, free, n.path, c)
            \* mostly those that were kept are the better ones
            \/ Cardinality(kept) >= MaxContexts /\ \A d \in kept : AtLeast(d, c)
            \/ Cardinality(mine) > MaxContexts /\ Cardinality({d \in mine : d # c /\ AtLeast(d, c)}) >= MaxContexts
    /\ \A j \in Alone(pms) : \A k \in ToSet2(pms[j].keys) :
         \/ Skippable(pms[j], k, TRUE, pms[j].weight, best)
         \/ ~KeyFree(free, pms[j], k)
         \/ \A here \in {Singles(pms, j, k, cs)} :
            CompleteSingle(pms[j], k.seen, here,
                LAMBDA v : crowded(v[1]) \/ (Len(here) = MaxContexts /\ \A i \in 1..Len(here) : LexLe(v, Value(here[i].r, here[i].es[1].sd))))
=============================================================================
