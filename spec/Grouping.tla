------------------------------- MODULE Grouping -------------------------------
(***************************************************************************)
(* Grouping neighbours with the same key: `keys` is the sequence of the     *)
(* elements' keys; a grouping is a sequence of [key, group], a group the    *)
(* positions of its elements.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Strung(out) == FoldLeft(LAMBDA acc, g : acc \o g.group, <<>>, out)
IsGrouping(keys, out) ==
    /\ Strung(out) = [i \in 1..Len(keys) |-> i]                     \* nothing lost, added or moved
    /\ \A i \in 1..Len(out) : out[i].group # <<>>
    /\ \A i \in 1..Len(out) : \A j \in 1..Len(out[i].group) : keys[out[i].group[j]] = out[i].key
    /\ \A i \in 1..(Len(out) - 1) : out[i].key # out[i + 1].key
=============================================================================
