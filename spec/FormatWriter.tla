----------------------------- MODULE FormatWriter -----------------------------
(***************************************************************************)
(* The record writer as a state machine: a buffer that only grows, and the *)
(* positions that have been handed out for the lists in it.                *)
(***************************************************************************)
EXTENDS GridFormat, FiniteSets

VARIABLES
    buf,    \* the bytes written so far
    objs,   \* the lists written so far: [kind, at, val]; val refers to other lists by index
    root    \* 0, or the index of the group list the root points to

vars == <<buf, objs, root>>

Init == buf = <<>> /\ objs = <<>> /\ root = 0

Kind(k) == {i \in 1..Len(objs) : objs[i].kind = k}

Append1(bytes, kind, val) ==
    /\ root = 0
    /\ objs' = Append(objs, [kind |-> kind, at |-> Len(buf), val |-> val])
    /\ buf' = buf \o bytes
    /\ UNCHANGED root

WriteIds(ids) == Append1(EncIds(ids), "ids", ids)

\* ts: sequence of [coord, ref] where ref is the index of an id list
WriteTiles(ts, extra) ==
    LET enc == [i \in 1..Len(ts) |-> [coord |-> ts[i].coord, at |-> objs[ts[i].ref].at]]
    IN Append1(EncTiles(enc, TileWidth(enc) + extra), "tiles", ts)

\* gs: sequence of [rs, ref] where ref is the index of a tile list
WriteGroups(gs) ==
    LET enc == [i \in 1..Len(gs) |-> [rs |-> gs[i].rs, at |-> objs[gs[i].ref].at]]
    IN Append1(EncGroups(enc), "groups", gs)

WriteRoot(r) ==
    /\ root = 0
    /\ root' = r
    /\ buf' = buf \o EncRoot(objs[r].at)
    /\ UNCHANGED objs

-----------------------------------------------------------------------------
(* What the list with index i stands for, without positions. *)
TilesOf(i) == [t \in 1..Len(objs[i].val) |->
                 [coord |-> objs[i].val[t].coord, ids |-> objs[objs[i].val[t].ref].val]]
GroupsOf(i) == [g \in 1..Len(objs[i].val) |->
                 [rs |-> objs[i].val[g].rs, tiles |-> TilesOf(objs[i].val[g].ref)]]

Mem(i) == buf[i + 1]

ReadTiles(at) == LET ts == DecTiles(Mem, at) IN
    [t \in 1..Len(ts) |-> [coord |-> ts[t].coord, ids |-> DecIds(Mem, ts[t].at)]]
ReadGroups(at) == LET gs == DecGroups(Mem, at) IN
    [g \in 1..Len(gs) |-> [rs |-> gs[g].rs, tiles |-> ReadTiles(gs[g].at)]]

\* C01 (a position stays valid after later writes) and the heart of C02.
EveryListReadsBack ==
    \A i \in 1..Len(objs) :
        CASE objs[i].kind = "ids"    -> DecIds(Mem, objs[i].at) = objs[i].val
          [] objs[i].kind = "tiles"  -> ReadTiles(objs[i].at) = TilesOf(i)
          [] objs[i].kind = "groups" -> ReadGroups(objs[i].at) = GroupsOf(i)

RecordReadsBack == root # 0 => DecRecord(Mem, Len(buf)) = GroupsOf(root)

BufferOnlyGrows == [][Len(buf') > Len(buf) /\ SubSeq(buf', 1, Len(buf)) = buf]_vars
=============================================================================
