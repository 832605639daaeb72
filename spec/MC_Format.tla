------------------------------- MODULE MC_Format -------------------------------
(* Exhaustive check of the layout with tiny bytes (B = 4): every change of     *)
(* pointer width and of length encoding happens within a few dozen bytes.      *)
(* Every complete record is printed as a scenario for the real writer.         *)
EXTENDS FormatWriter, TLC, Json

CONSTANTS MaxIdLists, IdLens, MaxTileLists, MaxTiles, MaxGroups, Extras, Emit,
    Sample  \* TRUE with -simulate: look at one random choice of arguments instead of all

Some(S) == IF Sample THEN {RandomElement(S)} ELSE S

IdVals == {<<0,0,0,0>>, <<B-1,1,0,B-2>>}
CoordVals == {<<1,2,3,0>>, <<B-1,B-1,B-1,B-1>>}

VARIABLE hist
mvars == <<vars, hist>>

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
NonEmpty(S, n) == UNION {[1..k -> S] : k \in 1..n}

\* one-hot representation of long id lists: k copies of one value
IdLists == {[i \in 1..k |-> v] : k \in IdLens, v \in IdVals}

MInit == Init /\ hist = <<>>

DoIds == /\ Cardinality(Kind("ids")) < MaxIdLists
         /\ \E ids \in Some(IdLists) :
              /\ WriteIds(ids)
              /\ hist' = Append(hist, [op |-> "ids", val |-> ids])

DoTiles == /\ Cardinality(Kind("tiles")) < MaxTileLists
           /\ Kind("ids") # {}
           /\ \E ts \in Some(SeqsUpTo([coord : CoordVals, ref : Kind("ids")], MaxTiles)), x \in Some(Extras) :
                /\ TileWidth([i \in 1..Len(ts) |-> [coord |-> ts[i].coord, at |-> objs[ts[i].ref].at]]) + x <= W
                /\ WriteTiles(ts, x)
                /\ hist' = Append(hist, [op |-> "tiles", val |-> ts])

DoGroups == /\ Kind("groups") = {} /\ Kind("tiles") # {}
            /\ \E k \in 1..MaxGroups :
               \E f \in Some([1..k -> Kind("tiles")]) :
                 LET gs == [i \in 1..k |-> [rs |-> (B - i) % B, ref |-> f[i]]] IN
                 /\ WriteGroups(gs)
                 /\ hist' = Append(hist, [op |-> "groups", val |-> gs])

DoRoot == /\ Kind("groups") # {}
          /\ \E r \in Kind("groups") : WriteRoot(r) /\ hist' = Append(hist, [op |-> "root", ref |-> r])

MNext == DoIds \/ DoTiles \/ DoGroups \/ DoRoot
MSpec == MInit /\ [][MNext]_mvars

\* the property BufferOnlyGrows, over the model's own variables
Grows == [][Len(buf') > Len(buf) /\ SubSeq(buf', 1, Len(buf)) = buf]_mvars

PrintScenario == (Emit /\ root # 0) => PrintT("@@SCN " \o ToJson([ops |-> hist, mem |-> buf, meant |-> GroupsOf(root)]))
=============================================================================
