----------------------------- MODULE Trace_Format -----------------------------
(***************************************************************************)
(* Checks what the real record writer and readers did (C01, C02).          *)
(*                                                                         *)
(* A record is written list by list, as in FormatWriter; lists may be long *)
(* and are therefore run-length coded, [count, value] pairs without equal  *)
(* neighbours.  When the record is finished, the trace gives the bytes as  *)
(* segments (a run of equal bytes or a literal) and what each list reads   *)
(* back as by each reading route.                                          *)
(***************************************************************************)
EXTENDS TraceBase, SequencesExt

F == INSTANCE GridFormat WITH B <- 256, W <- 4

VARIABLES objs, root
vars == <<l, objs, root>>

TraceInit == l = 1 /\ objs = <<>> /\ root = 0

-----------------------------------------------------------------------------
(* Run-length coded sequences. *)
Norm(rs) == FoldLeft(LAMBDA acc, r :
    IF r[1] = 0 THEN acc
    ELSE IF acc # <<>> /\ acc[Len(acc)][2] = r[2]
         THEN [acc EXCEPT ![Len(acc)] = <<acc[Len(acc)][1] + r[1], r[2]>>]
         ELSE Append(acc, r), <<>>, rs)

Total(rs) == FoldLeft(LAMBDA acc, r : acc + r[1], 0, rs)

MapRuns(rs, f(_)) == Norm([k \in 1..Len(rs) |-> <<rs[k][1], f(rs[k][2])>>])

Listed(rs) == [len |-> Total(rs), items |-> rs]

-----------------------------------------------------------------------------
(* What the list with index i stands for: the contents, without positions. *)
IdsOf(i) == Listed(Norm(objs[i].val))
TilesOf(i) == Listed(MapRuns(objs[i].val, LAMBDA t : [coord |-> t.coord, ids |-> IdsOf(t.ref)]))
GroupsOf(i) == Listed(MapRuns(objs[i].val, LAMBDA g : [rs |-> g.rs, tiles |-> TilesOf(g.ref)]))
Meaning(i) == CASE objs[i].kind = "ids" -> IdsOf(i)
                [] objs[i].kind = "tiles" -> TilesOf(i)
                [] objs[i].kind = "groups" -> GroupsOf(i)
                [] objs[i].kind = "root" -> GroupsOf(objs[i].val)

-----------------------------------------------------------------------------
(* The memory.  Out of bounds reads as 0 so that damaged records decode to   *)
(* something, and not to an evaluation error.                                *)
Seg(mem, i) == CHOOSE s \in 1..Len(mem) : mem[s].s <= i /\ i < mem[s].s + mem[s].n
Inside(mem, i) == i >= 0 /\ Len(mem) > 0 /\ i < mem[Len(mem)].s + mem[Len(mem)].n
Byte(mem, i) ==
    IF ~Inside(mem, i) THEN 0
    ELSE LET s == mem[Seg(mem, i)] IN IF s.b >= 0 THEN s.b ELSE s.lit[i - s.s + 1]

\* the byte that fills [i, i + n), or -1
Filled(mem, i, n) ==
    IF n < 64 \/ ~Inside(mem, i) \/ ~Inside(mem, i + n - 1) THEN -1
    ELSE LET s == mem[Seg(mem, i)] IN IF i + n <= s.s + s.n THEN s.b ELSE -1

Runs(seq) == Norm([k \in 1..Len(seq) |-> <<1, seq[k]>>])
LIMIT == 70000

\* The decoders of GridFormat, with a short cut for long runs of one byte.
DecIds(mem, at) ==
    LET M(i) == Byte(mem, i)
        c == F!DecVarint(M, at)
        b == Filled(mem, at + c.n, 4 * c.v)
    IN IF b >= 0 THEN Listed(<<<<c.v, <<b, b, b, b>>>>>>)
       ELSE IF c.v > LIMIT THEN Listed(<<<<c.v, "too long">>>>)
       ELSE Listed(Runs(F!DecIds(M, at)))

DecTiles(mem, at) ==
    LET M(i) == Byte(mem, i)
        c == F!DecVarint(M, at)
        size == M(at + c.n)
        b == Filled(mem, at + c.n + 1, size * c.v)
        Deref(t) == [coord |-> t.coord, ids |-> DecIds(mem, t.at)]
    IN IF c.v > LIMIT /\ b = -1 THEN Listed(<<<<c.v, "too long">>>>)
       ELSE IF c.v > 0 /\ (size < 5 \/ size > 8) THEN Listed(<<<<c.v, "record size">>>>)
       ELSE Listed(MapRuns(
                IF b >= 0
                THEN <<<<c.v, [coord |-> <<b, b, b, b>>, at |-> F!DecDigits(M, at + c.n + 5, size - 4)]>>>>
                ELSE Runs(F!DecTiles(M, at)),
                Deref))

DecRecord(mem, len) ==
    LET M(i) == Byte(mem, i)
        at == F!DecRoot(M, len)
        c == F!DecVarint(M, at)
        b == Filled(mem, at + c.n, 2 * c.v)
        Deref(g) == [rs |-> g.rs, tiles |-> DecTiles(mem, g.at)]
    IN IF b >= 0 /\ b < 128 THEN Listed(MapRuns(<<<<c.v, [rs |-> b, at |-> b]>>>>, Deref))
       ELSE IF c.v > 2000 THEN Listed(<<<<c.v, "too long">>>>)
       ELSE Listed(MapRuns(Runs(F!DecGroups(M, at)), Deref))

-----------------------------------------------------------------------------
Begin == /\ At("begin") /\ objs' = <<>> /\ root' = 0

\* one list or the root; val refers to earlier lists by index
Refers(kind, val, i) ==
    CASE kind = "ids" -> TRUE
      [] kind = "tiles" -> \A k \in 1..Len(val) : val[k][2].ref < i /\ objs[val[k][2].ref].kind = "ids"
      [] kind = "groups" -> \A k \in 1..Len(val) : val[k][2].ref < i /\ objs[val[k][2].ref].kind = "tiles"
      [] kind = "root" -> val < i /\ objs[val].kind = "groups"

WriteList == /\ At("list")
             /\ Refers(Event.kind, Event.val, Len(objs) + 1)
             /\ objs' = Append(objs, [kind |-> Event.kind, val |-> Event.val])
             /\ root' = IF Event.kind = "root" THEN Event.val ELSE root

\* all routes agree, on what was written
SameEverywhere(reads, meaning) == Len(reads) = 1 /\ reads[1].v = meaning

Finish == /\ At("finish")
          /\ Len(Event.objs) = Len(objs)
          /\ Check({"C01"}, "a list does not read back as it was written",
                \A i \in 1..Len(objs) : SameEverywhere(Event.objs[i], Meaning(i)))
          /\ Check({"C02"}, "the bytes do not decode to what was written",
                root # 0 => DecRecord(Event.mem, Event.len) = GroupsOf(root))
          /\ UNCHANGED <<objs, root>>

\* Bytes laid out by the specification, read by the library.
ReadForeign == /\ At("read")
               /\ Check({"C02"}, "a record laid out by the specification is misread",
                     /\ DecRecord(Event.mem, Event.len) = Event.meant
                     /\ SameEverywhere(Event.rec, Event.meant))
               /\ UNCHANGED <<objs, root>>

\* Scalars: three ways to place one value at a position handed out.
Scalars == /\ At("scalars")
           /\ Check({"C01"}, "a scalar does not read back as it was written",
                /\ Event.first = Event.u32
                /\ Event.last = <<IF Event.u32[1] % 2 = 0 THEN Event.u32[1] + 1 ELSE Event.u32[1] - 1>>
                                  \o Tail(Event.u32)
                /\ Event.tile.coord = Event.u32 /\ Event.tile.ids = Listed(<<<<1, <<7,0,0,0>>>>, <<1, <<8,0,0,0>>>>, <<1, <<9,0,0,0>>>>>>)
                /\ Event.group.rs = Event.u32[1]
                /\ Event.group.tiles.len = 2)
           /\ Check({"C02"}, "a scalar is not laid out as documented",
                LET M(i) == Byte(Event.mem, i)
                    end == Event.len
                    v == F!DecVarint(M, end - 4 - Event.glen + 1)
                IN /\ [d \in 1..4 |-> M(end - 5 + d)] = Event.last
                   /\ M(end - 4 - Event.glen) = Event.u32[1]
                   /\ v.n + 1 = Event.glen
                   /\ [d \in 1..4 |-> M(end - 4 - Event.glen - Event.size - 1 + d)] = Event.u32
                   /\ [d \in 1..4 |-> M(end - 4 - Event.glen - Event.size - 5 + d)] = Event.u32)
           /\ UNCHANGED <<objs, root>>

End == At("end") /\ UNCHANGED <<objs, root>>

\* A panic, a hang or a crash is no action of the specification.
TraceNext == More /\ Announce /\ (Begin \/ WriteList \/ Finish \/ ReadForeign \/ Scalars \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
