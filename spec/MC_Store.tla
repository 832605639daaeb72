-------------------------------- MODULE MC_Store --------------------------------
(***************************************************************************)
(* The tables, bytes and writes by which the code represents a builder and  *)
(* a database, next to the abstract content they stand for.  TLC checks     *)
(* that in every reachable state, that is after every history of calls and  *)
(* after every prefix of the writes of a build, the bytes say what the      *)
(* abstract content says (C03 to C08, C25, C26).  With -simulate, complete  *)
(* histories are printed as scenarios for the real code.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS
    Phrases, LangCodes, \* keys: a phrase, and a language set of two digits in base 2
    EntCodes,           \* entries: <<relevance and score, tile, id>>, as the number rs * 100 + tile * 10 + id
    MaxLoads, MaxList,  \* calls, and the length of the list in each
    MaxBounds,
    Renumber,           \* whether renumbering is part of the history
    Partial,            \* whether a rejected renumbering leaves what it had done (as it once did)
    Emit

VARIABLES
    data, bounds,       \* the abstract content: key -> set of entries
    table,              \* key -> relevance+score -> tile -> list of ids
    queue,              \* writes that are still to come
    db,                 \* bytes of the key -> value
    phase,              \* "load", "write", "done", "failed"
    loads, hist
vars == <<data, bounds, table, queue, db, phase, loads, hist>>

Langs == {<<c \div 2, c % 2>> : c \in LangCodes}
Ents == {<<c \div 100, (c \div 10) % 10, c % 10>> : c \in EntCodes}
All2 == <<1, 1>>
Zero == <<0, 0>>

-----------------------------------------------------------------------------
(* Bytes *)
\* leading zeros are left out, all languages are no bytes, none is one zero
LangBytes(g) == CASE g = All2 -> <<>> [] g = Zero -> <<0>>
                  [] g[1] = 0 -> <<g[2]>> [] OTHER -> g
KeyBytes(marker, k) == <<marker, k[1]>> \o LangBytes(k[2])
Padded(bs) == IF Len(bs) = 1 THEN <<0>> \o bs ELSE bs
KeyOf(bytes) == <<bytes[2], IF Len(bytes) = 2 THEN All2 ELSE Padded(SubSeq(bytes, 3, Len(bytes)))>>
BoundsKey == <<9>>      \* "~BOUNDS" sorts behind all other keys

Desc(S) == SetToSortSeq(S, LAMBDA a, b : a > b)
\* a value: groups by relevance+score, in each tiles, in each ids, all descending and once
Encode(t) == [i \in 1..Cardinality(DOMAIN t) |->
                LET rs == Desc(DOMAIN t)[i] IN
                <<rs, [j \in 1..Cardinality(DOMAIN t[rs]) |->
                        LET z == Desc(DOMAIN t[rs])[j] IN <<z, Desc(ToSet(t[rs][z]))>>]>>]
Decode(v) == FlattenSeq([i \in 1..Len(v) |-> FlattenSeq([j \in 1..Len(v[i][2]) |->
                [n \in 1..Len(v[i][2][j][2]) |-> <<v[i][1], v[i][2][j][1], v[i][2][j][2][n]>>]])])

-----------------------------------------------------------------------------
(* Tables *)
NoTable == [x \in {} |-> {}]
Row(f, x, else) == IF x \in DOMAIN f THEN f[x] ELSE else
AddEntry(t, e) ==
    LET r == Row(t, e[1], NoTable)
        ids == Append(Row(r, e[2], <<>>), e[3])
    IN (e[1] :> ((e[2] :> ids) @@ r)) @@ t
AddAll(t, es) == FoldLeft(AddEntry, t, es)
Copy(from, to) == FoldLeft(LAMBDA acc, e : AddEntry(acc, e), to,
    FlattenSeq([i \in 1..Cardinality(DOMAIN from) |->
        LET rs == Desc(DOMAIN from)[i] IN
        FlattenSeq([j \in 1..Cardinality(DOMAIN from[rs]) |->
            LET z == Desc(DOMAIN from[rs])[j] IN [n \in 1..Len(from[rs][z]) |-> <<rs, z, from[rs][z][n]>>]])]))

-----------------------------------------------------------------------------
(* Loading *)
Keys == Phrases \X Langs
Lists == UNION {[1..n -> Ents] : n \in 0..MaxList}

Init == /\ data = NoTable /\ bounds = {} /\ table = NoTable /\ queue = <<>> /\ db = NoTable
        /\ phase = "load" /\ loads = 0 /\ hist = <<>>

\* with -simulate: one random choice instead of all
Some(S) == IF Emit THEN {RandomElement(S)} ELSE S
Did(step) == hist' = IF Emit THEN Append(hist, step) ELSE hist
Loading == phase = "load" /\ loads < MaxLoads /\ loads' = loads + 1
           /\ UNCHANGED <<bounds, queue, db, phase>>

Insert == /\ Loading
          /\ \E k \in Some(Keys), es \in Some(Lists) :
               /\ data' = (k :> ToSet(es)) @@ data
               /\ table' = (k :> AddAll(NoTable, es)) @@ table
               /\ Did([op |-> "insert", key |-> k, es |-> es])
Append1 == /\ Loading
           /\ \E k \in Some(Keys), es \in Some(Lists) :
                /\ data' = (k :> (Row(data, k, {}) \cup ToSet(es))) @@ data
                /\ table' = (k :> AddAll(Row(table, k, NoTable), es)) @@ table
                /\ Did([op |-> "append", key |-> k, es |-> es])
\* one feature on several tiles
Compact == /\ Loading
           /\ \E k \in Some(Keys), e \in Some(Ents), zs \in Some(SUBSET {e[2] : e \in Ents}) :
                LET es == [i \in 1..Cardinality(zs) |-> <<e[1], Desc(zs)[i], e[3]>>] IN
                /\ data' = (k :> (Row(data, k, {}) \cup ToSet(es))) @@ data
                /\ table' = (k :> AddAll(Row(table, k, NoTable), es)) @@ table
                /\ Did([op |-> "compact", key |-> k, es |-> es])

KeyLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2][1] * 2 + a[2][2] < b[2][1] * 2 + b[2][2]))
SortedKeys == SetToSortSeq(DOMAIN table, KeyLt)

\* What a rejected mapping leaves.  It used to leave what had been moved before the failure.
Rejected(m) ==
    IF ~Partial THEN table
    ELSE FoldLeft(LAMBDA acc, k :
            IF acc.failed THEN acc
            ELSE IF k[1] + 1 > Len(m) \/ <<m[k[1] + 1], k[2]>> \in DOMAIN acc.t THEN [acc EXCEPT !.failed = TRUE]
            ELSE [acc EXCEPT !.t = (<<m[k[1] + 1], k[2]>> :> table[k]) @@ @],
         [failed |-> FALSE, t |-> NoTable], SortedKeys).t
\* moves every key, or is rejected and changes nothing
DoRenumber ==
    /\ Renumber /\ phase = "load"
    /\ \E n \in Some(0..Cardinality(Phrases)) : \E m \in Some([1..n -> Phrases]) :
         LET ok == /\ \A k \in DOMAIN data : k[1] + 1 <= n
                   /\ \A k1, k2 \in DOMAIN data : (k1[2] = k2[2] /\ k1 # k2) => m[k1[1] + 1] # m[k2[1] + 1]
             to(k) == <<m[k[1] + 1], k[2]>>
             new == {to(k) : k \in DOMAIN data}
             back(k) == CHOOSE o \in DOMAIN data : to(o) = k
         IN /\ IF ok THEN /\ data' = [k \in new |-> data[back(k)]]
                          /\ table' = [k \in new |-> table[back(k)]]
               ELSE UNCHANGED data /\ table' = Rejected(m)
            /\ Did([op |-> "renumber", map |-> m])
    /\ UNCHANGED <<bounds, queue, db, phase, loads>>

LoadBounds ==
    /\ phase = "load"
    /\ \E b \in Some(SUBSET (Phrases \cup {Cardinality(Phrases)})) :
         /\ b # bounds /\ Cardinality(b) <= MaxBounds
         /\ bounds' = b
         /\ Did([op |-> "bounds", bounds |-> Reverse(Desc(b))])
    /\ UNCHANGED <<data, table, queue, db, phase, loads>>

-----------------------------------------------------------------------------
(* Finishing: the keys of each bin, then the bin, and the boundaries at last *)
BinOf(p) == LET below == {b \in bounds : b <= p} IN IF below = {} THEN -1 ELSE Max(below)
BinTable(b, g) == FoldLeft(LAMBDA acc, k : Copy(table[k], acc), NoTable,
                           SelectSeq(SortedKeys, LAMBDA k : BinOf(k[1]) = b /\ k[2] = g))
PutsOfBin(b) ==
    LET ks == SelectSeq(SortedKeys, LAMBDA k : BinOf(k[1]) = b)
        gs == SetToSeq({k[2] : k \in ToSet(ks)})
    IN [i \in 1..Len(ks) |-> <<KeyBytes(0, ks[i]), Encode(table[ks[i]])>>]
       \o (IF b = -1 THEN <<>>
           ELSE [i \in 1..Len(gs) |-> <<KeyBytes(1, <<b, gs[i]>>), Encode(BinTable(b, gs[i]))>>])
Puts == FlattenSeq([i \in 1..(Cardinality(bounds) + 1) |->
                      PutsOfBin((<<-1>> \o Reverse(Desc(bounds)))[i])])
        \o <<<<BoundsKey, bounds>>>>

Finish == /\ phase = "load" /\ loads > 0
          /\ queue' = Puts /\ phase' = "write"
          /\ Did([op |-> "finish"])
          /\ UNCHANGED <<data, bounds, table, db, loads>>
Put == /\ phase = "write" /\ queue # <<>>
       /\ db' = (queue[1][1] :> queue[1][2]) @@ db
       /\ queue' = Tail(queue)
       /\ phase' = IF Len(queue) = 1 THEN "done" ELSE "write"
       /\ UNCHANGED <<data, bounds, table, loads, hist>>
\* a write fails: finishing reports it and writes nothing more
Fail == /\ phase = "write" /\ phase' = "failed" /\ queue' = <<>>
        /\ UNCHANGED <<data, bounds, table, db, loads, hist>>

Next == Insert \/ Append1 \/ Compact \/ DoRenumber \/ LoadBounds \/ Finish \/ Put \/ (~Emit /\ Fail)
MSpec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* A store over the database as it is, after any number of writes. *)
Single == {b \in DOMAIN db : b[1] = 0}
HasBounds == BoundsKey \in DOMAIN db
Strictly(s) == \A i \in 1..(Len(s) - 1) :
    LET a == s[i]
        b == s[i + 1]
    IN b[1] < a[1] \/ (b[1] = a[1] /\ (b[2] < a[2] \/ (b[2] = a[2] /\ b[3] < a[3])))

\* C07: a key can be told from its bytes, and bytes sort by phrase
KeysDecode == \A k \in Keys : KeyOf(KeyBytes(0, k)) = k
\* C03, C04, C26: every key there is has all its entries, in order
Listed == \A b \in Single : LET out == Decode(db[b]) IN
            KeyOf(b) \in DOMAIN data /\ ToSet(out) = data[KeyOf(b)] /\ Strictly(out)
\* C06 and C03 before anything is written
NothingLost == phase # "failed" =>
    /\ DOMAIN table = DOMAIN data
    /\ \A k \in DOMAIN data : ToSet(Decode(Encode(table[k]))) = data[k]
\* C08, C26: where boundaries can be read, searches by bins find what the keys hold
Found(marker, s, e) == UNION {{<<x, KeyOf(b)[2]>> : x \in ToSet(Decode(db[b]))} :
                              b \in {b \in DOMAIN db : b[1] = marker /\ s <= b[2] /\ b[2] < e}}
BinsAgree == HasBounds => \A s, e \in db[BoundsKey] : s < e => Found(1, s, e) = Found(0, s, e)
BoundsLast == HasBounds => queue = <<>> /\ db[BoundsKey] = bounds
WholeAtTheEnd == phase = "done" => {KeyOf(b) : b \in Single} = DOMAIN data

\* C34: what a listing of a finished database says, loaded again, gives the same content and the same bytes
BytesLt(a, b) == \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ Len(a) < Len(b)) \/ (a[2] = b[2] /\ Len(a) = Len(b) /\ a # b /\
                       \E n \in 3..Len(a) : a[n] < b[n] /\ \A m \in 3..(n - 1) : a[m] = b[m]))
Dump == LET bs == SetToSortSeq(Single, BytesLt) IN [i \in 1..Len(bs) |-> <<KeyOf(bs[i]), Decode(db[bs[i]])>>]
Reloaded == FoldLeft(LAMBDA t, r : (r[1] :> AddAll(NoTable, r[2])) @@ t, NoTable, Dump)
DumpComesBack == phase = "done" =>
    /\ DOMAIN Reloaded = DOMAIN data
    /\ \A k \in DOMAIN data : Encode(Reloaded[k]) = db[KeyBytes(0, k)]
    /\ \A i \in 1..(Len(Dump) - 1) : Dump[i][1][1] <= Dump[i + 1][1][1]

PrintScenario == (Emit /\ phase = "done") => PrintT("@@SCN " \o ToJson([ops |-> hist]))
=============================================================================
