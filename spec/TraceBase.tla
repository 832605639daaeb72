------------------------------- MODULE TraceBase -------------------------------
(* What every trace specification needs: the recorded events, the position in   *)
(* them, and a conjunct that says why an event was refused.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Prop       \* the property under check; conjuncts of other properties are skipped

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l          \* the next event

More == l <= Len(Trace)
Event == Trace[l]
\* Also tells the runner how far validation got, should evaluation fail.
At(e) == /\ Event.e = e /\ l' = l + 1
Announce == PrintT("@@AT " \o ToString(l - 1))

\* A conjunct of the given properties.
Check(props, name, cond) ==
    IF Prop \notin props THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT("@@NO " \o name) /\ FALSE

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
