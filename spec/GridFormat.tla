------------------------------ MODULE GridFormat ------------------------------
(***************************************************************************)
(* The on-disk layout of a phrase record, as a pair of codecs.             *)
(*                                                                         *)
(* A "byte" takes B values (256 on disk) and a u32 is W of them, little    *)
(* endian.  Both are constants so that TLC can cross every change of       *)
(* pointer width and of length encoding with records of a few dozen bytes  *)
(* (B = 4), while the trace specification uses the real B = 256.           *)
(*                                                                         *)
(* Values of type u32 that are data (ids, tile coordinates) are kept as    *)
(* sequences of W digits; lengths and positions are numbers.               *)
(*                                                                         *)
(*   ids   ::= count:varint  (W digits)^count                              *)
(*   tiles ::= count:varint  size:byte  (W digits, position:size-W)^count  *)
(*   groups::= count:varint  (relev_score:byte  position:varint)^count     *)
(*   root  ::= position:W    -- the last W bytes of the record             *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS B, W

Half == B \div 2

-----------------------------------------------------------------------------
(* Encoding. *)

RECURSIVE Varint(_)
Varint(n) == IF n < Half THEN <<n>> ELSE <<(n % Half) + Half>> \o Varint(n \div Half)

RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE <<n % B>> \o Digits(n \div B, k - 1)

\* The fewest digits (at least one) that hold n.
RECURSIVE Width(_)
Width(n) == IF n < B THEN 1 ELSE 1 + Width(n \div B)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m

EncIds(ids) == Varint(Len(ids)) \o Concat(ids)

\* The narrowest common pointer width of a list of tiles; an empty list needs none.
TileWidth(ts) == IF ts = <<>> THEN 1 ELSE MaxOf({Width(ts[i].at) : i \in 1..Len(ts)})

\* width may be any width of at least TileWidth(ts)
EncTiles(ts, width) ==
    Varint(Len(ts)) \o <<W + width>>
        \o Concat([i \in 1..Len(ts) |-> ts[i].coord \o Digits(ts[i].at, width)])

EncGroups(gs) ==
    Varint(Len(gs)) \o Concat([i \in 1..Len(gs) |-> <<gs[i].rs>> \o Varint(gs[i].at)])

EncRoot(at) == Digits(at, W)

-----------------------------------------------------------------------------
(* Decoding.  ByteAt(i) is the byte at position i (from 0) of the memory.    *)
(* The recursive walks take it as an operator argument.                     *)

RECURSIVE DecVarint(_, _)
DecVarint(ByteAt(_), i) ==      \* [v: the number, n: bytes it takes]
    LET b == ByteAt(i) IN
    IF b < Half THEN [v |-> b, n |-> 1]
    ELSE LET r == DecVarint(ByteAt, i + 1) IN [v |-> (b - Half) + Half * r.v, n |-> 1 + r.n]

RECURSIVE DecDigits(_, _, _)
DecDigits(ByteAt(_), i, k) ==
    IF k = 0 THEN 0 ELSE ByteAt(i) + B * DecDigits(ByteAt, i + 1, k - 1)

DecIds(ByteAt(_), at) ==
    LET c == DecVarint(ByteAt, at) IN
    [k \in 1..c.v |-> [d \in 1..W |-> ByteAt(at + c.n + (k - 1) * W + d - 1)]]

DecTiles(ByteAt(_), at) ==
    LET c == DecVarint(ByteAt, at)
        size == ByteAt(at + c.n)
        base == at + c.n + 1
    IN [k \in 1..c.v |->
          [coord |-> [d \in 1..W |-> ByteAt(base + (k - 1) * size + d - 1)],
           at    |-> DecDigits(ByteAt, base + (k - 1) * size + W, size - W)]]

RECURSIVE DecGroupList(_, _, _)
DecGroupList(ByteAt(_), i, k) ==
    IF k = 0 THEN <<>>
    ELSE LET p == DecVarint(ByteAt, i + 1) IN
         <<[rs |-> ByteAt(i), at |-> p.v]>> \o DecGroupList(ByteAt, i + 1 + p.n, k - 1)

DecGroups(ByteAt(_), at) ==
    LET c == DecVarint(ByteAt, at) IN DecGroupList(ByteAt, at + c.n, c.v)

DecRoot(ByteAt(_), len) == DecDigits(ByteAt, len - W, W)

\* A whole record, with every position replaced by what it points to.
DecRecord(ByteAt(_), len) ==
    LET gs == DecGroups(ByteAt, DecRoot(ByteAt, len)) IN
    [g \in 1..Len(gs) |->
       [rs |-> gs[g].rs,
        tiles |-> LET ts == DecTiles(ByteAt, gs[g].at) IN
                  [t \in 1..Len(ts) |->
                     [coord |-> ts[t].coord, ids |-> DecIds(ByteAt, ts[t].at)]]]]
=============================================================================
