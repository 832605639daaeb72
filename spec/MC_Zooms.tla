------------------------------- MODULE MC_Zooms -------------------------------
(* All search areas of small zooms, brought to another zoom or limited: the     *)
(* arithmetic of Zooms does what it should to sets of tiles.                    *)
EXTENDS Zooms, TLC, Json
CONSTANTS MaxZoom, MaxFrom, Pads, Emit

VARIABLES from, to, box, pt, pad
vars == <<from, to, box, pt, pad>>

Points(z) == (0..Top(z)) \X (0..Top(z))
Boxes(z) == {b \in [1..4 -> 0..Top(z)] : b[1] <= b[3] /\ b[2] <= b[4]}
Init == /\ from \in 0..MaxFrom /\ to = from /\ pad = 0
        /\ \/ box \in Boxes(from) /\ pt = <<0, 0>>
           \/ box = <<0, 0, Top(from), Top(from)>> /\ pt \in Points(from)
           \/ from <= 1 /\ box \in Boxes(from) /\ pt \in Points(from)
Next == \/ to' \in 0..MaxZoom /\ UNCHANGED <<from, box, pt, pad>>
        \/ pad' \in Pads /\ pt' \in Points(from) /\ UNCHANGED <<from, to, box>>
Spec == Init /\ [][Next]_vars

O == [zoom |-> from, prox |-> pt, bbox |-> box]
A == Adjust(O, to)
Contains == to <= from =>
    /\ Tiles(A.bbox) = {Ancestor(t, from - to) : t \in Tiles(box)}
    /\ A.prox = Ancestor(pt, from - to)
Inside == to >= from =>
    /\ Tiles(A.bbox) = {t \in Points(to) : Ancestor(t, to - from) \in Tiles(box)}
    /\ Ancestor(A.prox, to - from) = pt
ThereAndBack == to >= from => Adjust(A, from) = O
BackAndThere == to <= from => Tiles(box) \subseteq Tiles(Adjust(A, from).bbox)
InSteps == \A z \in 0..MaxZoom : ((to <= z /\ z <= from) \/ (from <= z /\ z <= to)) =>
               Adjust(Adjust(O, z), to).bbox = A.bbox /\ (to <= from => Adjust(Adjust(O, z), to).prox = A.prox)
StaysInGrid == \A i \in 1..4 : A.bbox[i] \in 0..Top(to)

N == NearbyBox(pt, pad, Top(from), box)
Near(t) == t[1] - pt[1] \in -pad..pad /\ t[2] - pt[2] \in -pad..pad
OnlyNearby == Tiles(N) = {t \in Tiles(box) : Near(t)}
PointStays == pt \in Tiles(box) => pt \in Tiles(N)

PrintScenario == Emit => PrintT("@@SCN " \o ToJson([opts |-> O, to |-> to, nearby |-> pad > 0]))
=============================================================================
