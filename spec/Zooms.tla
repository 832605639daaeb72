-------------------------------- MODULE Zooms --------------------------------
(***************************************************************************)
(* Tiles of a pyramid of grids, and how a search area (a bounding box, a    *)
(* proximity point; absent: <<>>) is brought from one zoom to another and   *)
(* limited to the surroundings of its proximity point.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Top(z) == 2 ^ z - 1                         \* the last column and row of zoom z
Tiles(b) == (b[1]..b[3]) \X (b[2]..b[4])    \* of a box <<west, north, east, south>>
Ancestor(t, k) == <<t[1] \div 2 ^ k, t[2] \div 2 ^ k>>      \* k zooms up

\* The tile nearest to the middle: of the four, the one to the north-west.
Middle(n, k) == n * 2 ^ k + 2 ^ (k - 1) - 1

AdjustPoint(p, from, to) ==
    IF p = <<>> \/ from = to THEN p
    ELSE IF to < from THEN Ancestor(p, from - to)
    ELSE <<Middle(p[1], to - from), Middle(p[2], to - from)>>

AdjustBox(b, from, to) ==
    IF b = <<>> \/ from = to THEN b
    ELSE IF to < from THEN [i \in 1..4 |-> b[i] \div 2 ^ (from - to)]
    ELSE [i \in 1..4 |-> IF i <= 2 THEN b[i] * 2 ^ (to - from) ELSE (b[i] + 1) * 2 ^ (to - from) - 1]

Adjust(o, to) == [zoom |-> to, prox |-> AdjustPoint(o.prox, o.zoom, to), bbox |-> AdjustBox(o.bbox, o.zoom, to)]

-----------------------------------------------------------------------------
\* 25 miles in tiles, rounded up; the equator is 24901 miles long.
Padding(z) == (25 * 2 ^ z + 24900) \div 24901

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
\* `top` is where the grid ends.
NearbyBox(p, pad, top, b) ==
    LET around == <<Max(0, p[1] - pad), Max(0, p[2] - pad), Min(top, p[1] + pad), Min(top, p[2] + pad)>>
    IN IF b = <<>> THEN around
       ELSE <<Max(b[1], around[1]), Max(b[2], around[2]), Min(b[3], around[3]), Min(b[4], around[4])>>

Nearby(o, top) == IF o.prox = <<>> THEN o
                  ELSE [o EXCEPT !.bbox = NearbyBox(o.prox, Padding(o.zoom), top, o.bbox)]
\* Tiles past the grid's edge do not exist: it is all the same whether a box reaches there.
NearbyAs(o, out) ==
    LET exact == Nearby(o, Top(o.zoom))
        loose == Nearby(o, 65535)
    IN /\ out.zoom = o.zoom /\ out.prox = o.prox
       /\ IF o.prox = <<>> THEN out.bbox = o.bbox
          ELSE /\ Len(out.bbox) = 4
               /\ out.bbox[1] = exact.bbox[1] /\ out.bbox[2] = exact.bbox[2]
               /\ \A i \in 3..4 : exact.bbox[i] <= out.bbox[i] /\ out.bbox[i] <= loose.bbox[i]
=============================================================================
