------------------------------ MODULE Trace_Dump ------------------------------
(* Stores dumped to files and files loaded as stores (C34), as recorded from    *)
(* the real dump_store and load_store; all else as in Trace_Store.              *)
EXTENDS Trace_Store
VARIABLE files          \* name -> [lines, splits]
dvars == <<vars, files>>

DumpInit == TraceInit /\ files = Empty

Records(lines) == SelectSeq(lines, LAMBDA r : "key" \in DOMAIN r)
\* Files from elsewhere: any order, blank lines, keys more than once.
Written ==
    /\ At("written")
    /\ files' = (Event.f :> [lines |-> Records(Event.lines), splits |-> Event.splits]) @@ files
    /\ UNCHANGED <<builders, dbs, stores, faults, answers>>
Dump ==
    /\ At("dump") /\ dbs[Event.b].whole
    /\ LET db == dbs[Event.b]
           hit == Fires("open", Event.opens) \/ Fires("get", Event.gets)
       IN IF "full" \in DOMAIN Event
          THEN /\ Check({"C34"}, "a dump that could not be written was reported as done", ~Event.ok)
               /\ UNCHANGED files
          ELSE /\ Check({"C34"}, "a dump of what could not be read was reported as done", hit => ~Event.ok)
               /\ Check({"C34"}, "dumping failed", ~hit => Event.ok)
               /\ IF Event.ok
                  THEN /\ Check({"C34"}, "a dump that cannot be read", Event.readable)
                       /\ Check({"C34"}, "a dump that says something else than the store",
                             IsDump(db.data, db.bounds, Event.lines, Event.splits))
                       /\ files' = (Event.f :> [lines |-> Event.lines, splits |-> Event.splits]) @@ files
                  ELSE UNCHANGED files
    /\ faults' = None
    /\ UNCHANGED <<builders, dbs, stores, answers>>
LoadFile ==
    /\ At("load") /\ Event.f \in DOMAIN files
    /\ LET hit == Fires("write", Event.writes) \/ Fires("open", Event.opens) IN
       /\ Check({"C34"}, "a failed write was not reported", hit => ~Event.ok)
       /\ Check({"C34"}, "loading failed", ~hit => Event.ok)
       /\ dbs' = (Event.b :> [data |-> FromDump(files[Event.f].lines), bounds |-> files[Event.f].splits,
                              whole |-> Event.ok]) @@ dbs
       /\ faults' = None
    /\ UNCHANGED <<builders, stores, answers, files>>

DumpNext == More /\ Announce /\ \/ StoreStep /\ files' = (IF Event.e = "begin" THEN Empty ELSE files)
                                \/ Written \/ Dump \/ LoadFile
DumpSpec == DumpInit /\ [][DumpNext]_dvars
=============================================================================
