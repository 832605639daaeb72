------------------------------ MODULE MC_Grouping ------------------------------
(* The machine that groups while reading, over all short sequences.             *)
EXTENDS Grouping, TLC, Json
CONSTANTS Keys, MaxLen, Emit
VARIABLES keys, read, key, group, out, done
vars == <<keys, read, key, group, out, done>>
Init == /\ keys \in UNION {[1..n -> Keys] : n \in 0..MaxLen}
        /\ read = 0 /\ key = <<>> /\ group = <<>> /\ out = <<>> /\ done = FALSE
Same == /\ read < Len(keys) /\ (key = <<>> \/ key = <<keys[read + 1]>>)
        /\ key' = <<keys[read + 1]>> /\ group' = Append(group, read + 1) /\ read' = read + 1
        /\ UNCHANGED <<keys, out, done>>
Other == /\ read < Len(keys) /\ key # <<>> /\ key # <<keys[read + 1]>>
         /\ out' = Append(out, [key |-> key[1], group |-> group])
         /\ key' = <<keys[read + 1]>> /\ group' = <<read + 1>> /\ read' = read + 1
         /\ UNCHANGED <<keys, done>>
Finish == /\ read = Len(keys) /\ ~done
          /\ out' = IF key = <<>> THEN out ELSE Append(out, [key |-> key[1], group |-> group])
          /\ done' = TRUE /\ group' = <<>> /\ UNCHANGED <<keys, read, key>>
Next == Same \/ Other \/ Finish
Spec == Init /\ [][Next]_vars
PrintScenario == (Emit /\ done) => PrintT("@@SCN " \o ToJson([keys |-> keys]))
WhenDone == done => IsGrouping(keys, out)
OneAhead == Len(out) > 0 /\ ~done => read <= Len(Strung(out)) + Len(group)
=============================================================================
