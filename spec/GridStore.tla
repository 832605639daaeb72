------------------------------- MODULE GridStore -------------------------------
(***************************************************************************)
(* What a builder collects, what finishing it leaves on disk and what a     *)
(* store over it answers: the abstract state machine.  A builder or store   *)
(* holds                                                                    *)
(*   data:   key -> set of entries, key = [p |-> phrase, l |-> languages]   *)
(*   bounds: the boundaries of the prefix bins                              *)
(* The trace specification plays the real code's calls on it; MC_Store      *)
(* refines it to the tables and bytes the code uses.                        *)
(***************************************************************************)
EXTENDS Values, FiniteSetsExt

Empty == [k \in {} |-> {}]
NewBuilder == [data |-> Empty, bounds |-> <<>>]

\* What is kept of an entry: relevance 0.4, 0.6, 0.8 or else 1.0; 4 bits of score; 24 bits of id.
Stored(e) == [r |-> IF e.r \in {400000, 600000, 800000} THEN e.r ELSE 1000000,
              s |-> e.s % 16, x |-> e.x, y |-> e.y,
              id |-> <<e.id[1] % 256, e.id[2]>>, h |-> e.h]
StoredAll(es) == {Stored(es[i]) : i \in 1..Len(es)}

At0(data, key) == IF key \in DOMAIN data THEN data[key] ELSE {}

Insert(b, key, es) == [b EXCEPT !.data = (key :> StoredAll(es)) @@ @]
Append1(b, key, es) == [b EXCEPT !.data = (key :> (At0(@, key) \cup StoredAll(es))) @@ @]
Compacted(ev) == [i \in 1..Len(ev.coords) |->
    [r |-> ev.r, s |-> ev.s, x |-> ev.coords[i][1], y |-> ev.coords[i][2], id |-> ev.id, h |-> ev.h]]

\* map: sequence of new phrase ids, the first for phrase 0
MapsTo(map, p) == map[p[1] * 65536 + p[2] + 1]
CanRenumber(b, map) ==
    /\ \A k \in DOMAIN b.data : k.p[1] < 32767 /\ k.p[1] * 65536 + k.p[2] < Len(map)
    /\ \A k1, k2 \in DOMAIN b.data :
          k1 # k2 => (k1.l # k2.l \/ MapsTo(map, k1.p) # MapsTo(map, k2.p))
Renumbered(b, map) ==
    LET to(k) == [p |-> MapsTo(map, k.p), l |-> k.l]
        new == {to(k) : k \in DOMAIN b.data}
    IN [b EXCEPT !.data = [n \in new |-> b.data[CHOOSE k \in DOMAIN b.data : to(k) = n]]]

-----------------------------------------------------------------------------
(* The canonical order of the entries of a key. *)
Rank(e) == <<e.r, e.s>> \o Z(e.x, e.y) \o e.id \o <<e.h>>
Canonical(out) == \A i \in 1..(Len(out) - 1) : LexLt(Rank(out[i + 1]), Rank(out[i]))

-----------------------------------------------------------------------------
(* Searches.  q = [key |-> [kind, start, end, l], opts |-> [bbox, prox, zoom]]; absent: <<>> *)
Asked(q, p) == IF q.key.kind = "exact" THEN p = q.key.start
               ELSE Le(q.key.start, p) /\ Lt(p, q.key.end)

InBox(bbox, e) == bbox = <<>> \/ (/\ bbox[1] <= e.x /\ e.x <= bbox[3]
                                  /\ bbox[2] <= e.y /\ e.y <= bbox[4])

KeysAsked(data, q) == {k \in DOMAIN data : Asked(q, k.p)}

\* The entries to be found, each with whether its key speaks the language.
Matches(data, q) ==
    LET ks == SetToSeq(KeysAsked(data, q))
    IN Join([n \in 1..Len(ks) |->
          {<<e, Speaks(ks[n].l, q.key.l)>> : e \in {e \in data[ks[n]] : InBox(q.opts.bbox, e)}}])

\* Where matches come from: one stream per stored key, or per bin and language set when the
\* range begins and ends at boundaries.
Binned(bounds, q) == /\ q.key.kind = "range"
                     /\ q.key.start \in ToSet2(bounds) /\ q.key.end \in ToSet2(bounds)
BinOf(bounds, p) == LET below == {b \in ToSet2(bounds) : Le(b, p)}
                    IN CHOOSE b \in below : \A c \in below : Le(c, b)
Streams(data, bounds, q) ==
    IF Binned(bounds, q)
    THEN LET ks == KeysAsked(data, q)
             bin == [k \in ks |-> <<BinOf(bounds, k.p), k.l>>]
             es(b) == LET of == SetToSeq({k \in ks : bin[k] = b}) IN Join([n \in 1..Len(of) |-> data[of[n]]])
         IN {[from |-> b, l |-> b[2], es |-> {e \in es(b) : InBox(q.opts.bbox, e)}] : b \in {bin[k] : k \in ks}}
    ELSE {[from |-> <<k.p, k.l>>, l |-> k.l, es |-> {e \in data[k] : InBox(q.opts.bbox, e)}]
            : k \in KeysAsked(data, q)}

\* An observed match without what the query added to it.
BaseRel(r) == CASE r \in {400000, 384000} -> 400000 [] r \in {600000, 576000} -> 600000
                [] r \in {800000, 768000} -> 800000 [] r \in {1000000, 960000} -> 1000000
                [] OTHER -> -1
Plain(m) == [r |-> BaseRel(m.r), s |-> m.s, x |-> m.x, y |-> m.y, id |-> m.id, h |-> m.h]

Entries(out) == {Plain(out[i]) : i \in 1..Len(out)}
FindsEntries(data, q, out) == Entries(out) = {w[1] : w \in Matches(data, q)}
FindsExactly(data, q, out) == {<<Plain(out[i]), out[i].ml>> : i \in 1..Len(out)} = Matches(data, q)

OncePerStream(data, bounds, q, out) ==
    LET st == Streams(data, bounds, q)
        want == {w[1] : w \in Matches(data, q)}
    IN /\ Len(out) = FoldSet(LAMBDA s, n : n + Cardinality(s.es), 0, st)
       /\ Len(out) = Cardinality(want) \/
          \A e \in want : Count(out, LAMBDA m : Plain(m) = e) = Cardinality({s \in st : e \in s.es})

-----------------------------------------------------------------------------
(* Scores. *)
\* tiles per mile, in millionths, of zooms 0 to 16: 0.8 * 1.5 ^ (zoom - 14)
TilesPerMile == <<2740, 4110, 6166, 9249, 13873, 20810, 31215, 46822, 70233, 105350, 158025, 237037,
                  355556, 533333, 800000, 1200000, 1800000>>
Dist2(prox, e) == Add(Square(Abs(prox[1] - e.x)), Square(Abs(prox[2] - e.y)))
\* the radius in hundredths of a tile, nearly
Radius100(radius, zoom) == (radius * TilesPerMile[zoom + 1]) \div 10000

\* "yes", "no", or "either" where the fractions of the code decide
Within(radius, q, e) ==
    IF q.opts.prox = <<>> THEN "no"
    ELSE LET d2 == Dist2(q.opts.prox, e)
             d == Root100(d2)
             r == Radius100(radius, q.opts.zoom)
         IN CASE q.opts.zoom = 14 /\ radius % 5 = 0 /\ radius < 8000 ->
                    IF Le(d2, Square((radius \div 5) * 4)) THEN "yes" ELSE "no"
              [] d2 = <<0, 0>> -> "yes"
              [] d * 100 < r * 99 -> "yes"
              [] d * 99 > r * 100 /\ d > r + 2 -> "no"
              [] OTHER -> "either"

\* a thousand times (6 e^min(s,7) / e^7 + 1)
ScoreBase == <<1005, 1015, 1040, 1110, 1299, 1812, 3207, 7000>>
\* a thousand times the score-distance, nearly
ScoreDist1000(radius, q, e) ==
    LET d2 == Dist2(q.opts.prox, e)
        d == IF d2 = <<0, 0>> THEN 80 ELSE Root100(d2)
        r == Radius100(radius, Max2(6, q.opts.zoom))
        base == ScoreBase[Min2(e.s, 7) + 1]
    IN IF d >= r THEN base ELSE (base * r) \div d
\* sf: a number as <<m, e>>, m of four digits
Near1000(sf, n) ==
    LET v == IF sf[2] + 3 < 0 \/ sf[2] + 3 > 5 THEN -1 ELSE sf[1] * 10 ^ (sf[2] + 3)
    IN v >= 0 /\ v * 50 <= n * 51 + 50 /\ v * 51 + 50 >= n * 50

Sci(n) == CASE n = 0 -> <<0, 0>> [] n < 10 -> <<n * 1000, -3>> [] OTHER -> <<n * 100, -2>>

ScoredAs(radius, q, m) ==
    LET e == Plain(m)
    IN IF q.opts.prox = <<>> THEN /\ m.d2 = <<0, 0>> /\ m.sf = Sci(m.s)
                                  /\ m.r = IF m.ml THEN e.r ELSE (e.r \div 100) * 96
       ELSE /\ m.d2 = Dist2(q.opts.prox, e)
            /\ Near1000(m.sf, ScoreDist1000(radius, q, e))
            /\ LET w == Within(radius, q, e) IN
               /\ (m.ml \/ w = "yes") => m.r = e.r
               /\ (~m.ml /\ w = "no") => m.r = (e.r \div 100) * 96

\* exactly: the score-distance grows with the score, falls with the distance
ScoresInOrder(q, out) ==
    q.opts.prox # <<>> =>
      \A i, j \in 1..Len(out) :
        LET a == out[i]
            b == out[j]
        IN /\ (a.d2 = b.d2 /\ Min2(a.s, 7) = Min2(b.s, 7)) => a.sd = b.sd
           /\ (a.d2 = b.d2 /\ Min2(a.s, 7) < Min2(b.s, 7)) => LexLt(a.sd, b.sd)
           /\ (Min2(a.s, 7) = Min2(b.s, 7) /\ Lt(a.d2, b.d2)) => LexLe(b.sd, a.sd)

-----------------------------------------------------------------------------
(* The order in which matches stream out. *)
SortKey(m) == m.rb \o m.sd \o <<IF m.ml THEN 1 ELSE 0, m.x, m.y>> \o m.id

\* Without a proximity point: relevance, then score.
BestFirst(out) == \A i \in 1..(Len(out) - 1) : LexLe(out[i + 1].rb \o out[i + 1].sd, out[i].rb \o out[i].sd)

\* Each match belongs to one stream only.
Unambiguous(st) == \A s, t \in st : s = t \/ s.es \cap t.es = {}

SameTile(a, b) == a.r = b.r /\ a.s = b.s /\ a.x = b.x /\ a.y = b.y
\* Which of a stream's remaining entries may come next.  last: the stream's entry before, or <<>>.
\* sd: entry -> its score-distance.
Nexts(rem, last, prox, sd) ==
    LET here == {e \in rem : last # <<>> /\ SameTile(e, last[1])}
        best == CHOOSE r \in {e.r : e \in rem} : \A e \in rem : e.r <= r
        group == {e \in rem : e.r = best}
        dist(e) == ZDist(Z(e.x, e.y), Z(prox[1], prox[2]))
        \* the heads of each score: a tile nearest along the curve, its first id
        first(S) == {e \in S : \A f \in S : SameTile(e, f) => LexLe(f.id \o <<f.h>>, e.id \o <<e.h>>)}
        heads(s) == LET S == {e \in group : e.s = s}
                        near == {e \in S : \A f \in S : Le(dist(e), dist(f))}
                    IN first(near)
        scores == {e.s : e \in group}
    IN IF rem = {} THEN {}
       ELSE IF here # {} THEN first(here)
       ELSE {e \in UNION {heads(s) : s \in scores} :
               \A s \in scores \ {e.s} : \E h \in heads(s) : LexLe(sd[h], sd[e])}

StreamOrder(data, bounds, q, out) ==
    LET st == Streams(data, bounds, q)
        of == [i \in 1..Len(out) |-> Plain(out[i])]
        which == [i \in 1..Len(out) |-> CHOOSE s \in st : of[i] \in s.es]
        obs == [e \in ToSet2(of) |-> out[CHOOSE i \in 1..Len(out) : of[i] = e]]
        sd == [e \in ToSet2(of) |-> obs[e].sd]
        step(acc, i) ==
            IF ~acc.ok THEN acc
            ELSE LET s == which[i]
                     e == of[i]
                     mine == Nexts(acc.rem[s], acc.last[s], q.opts.prox, sd)
                 IN [ok |-> /\ e \in mine
                            /\ \A t \in st \ {s} :
                                 acc.rem[t] = {} \/
                                 \E f \in Nexts(acc.rem[t], acc.last[t], q.opts.prox, sd) :
                                    LexLe(SortKey(obs[f]), SortKey(out[i])),
                     rem |-> [acc.rem EXCEPT ![s] = @ \ {e}],
                     last |-> [acc.last EXCEPT ![s] = <<e>>]]
    IN FoldLeft(step, [ok |-> TRUE, rem |-> [s \in st |-> s.es], last |-> [s \in st |-> <<>>]],
                [i \in 1..Len(out) |-> i]).ok

\* Order as documented; the exact order of the merge is decided when no two streams share entries.
OrderedAs(data, bounds, q, out) ==
    IF q.opts.prox = <<>> THEN BestFirst(out)
    ELSE Unambiguous(Streams(data, bounds, q)) => StreamOrder(data, bounds, q, out)

\* The first k of a search limited to k are the first k of the unlimited one.
KeepsBest(k, lim, all) ==
    LET n == Min2(k, Len(all))
        keys == [i \in 1..Len(all) |-> SortKey(all[i])]
        \* up to the first match that is on a par with a later one there is nothing to choose
        tied == {i \in 1..n : \E j \in (i + 1)..Len(all) : keys[i] = keys[j]}
        m == IF tied = {} THEN n ELSE Min(tied) - 1
    IN /\ Len(lim) >= n
       /\ SubSeq(lim, 1, m) = SubSeq(all, 1, m)
       /\ (\A i \in 1..Len(all) : all[i].d2 = <<0, 0>>) =>
             \A i \in 1..n : lim[i].rb = all[i].rb /\ lim[i].sd = all[i].sd

-----------------------------------------------------------------------------
(* Dumps (C34).  A dump is a list of records, [key, entries], and a list of boundaries.  Loading one inserts its records. *)
FromDump(lines) == FoldLeft(LAMBDA b, r : Insert(b, r.key, r.entries), NewBuilder, lines).data
IsDump(data, bounds, lines, splits) ==
    /\ {lines[i].key : i \in 1..Len(lines)} = DOMAIN data /\ Len(lines) = Cardinality(DOMAIN data)
    /\ \A i \in 1..Len(lines) : /\ ToSet2(lines[i].entries) = At0(data, lines[i].key)
                              /\ Len(lines[i].entries) = Cardinality(At0(data, lines[i].key))
                              /\ Canonical(lines[i].entries)
    /\ \A i \in 1..(Len(lines) - 1) : Le(lines[i].key.p, lines[i + 1].key.p)
    /\ ToSet2(splits) = ToSet2(bounds) /\ \A i \in 1..(Len(splits) - 1) : Lt(splits[i], splits[i + 1])
=============================================================================
