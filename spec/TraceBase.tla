----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of every trace specification. The recorded events are read  *)
(* from the file named by the environment variable TRACE, one JSON object  *)
(* per line. l is the position of the next event; a trace specification    *)
(* consumes it with IsEvent(name) conjoined with the action of the system  *)
(* specification it stands for. A recording is accepted when every event   *)
(* was consumed, otherwise TLC stops in a deadlock at the first event that *)
(* no action explains.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLE l

Log == ndJsonDeserialize(IOEnv.TRACE)
Ev  == Log[l]

Has(e, f) == f \in DOMAIN e
Returned(e) == ~Has(e, "panic")        \* the call did not panic

IsEvent(name) == /\ l <= Len(Log)
                 /\ Ev.op = name
                 /\ l' = l + 1

Finished == l > Len(Log)
=============================================================================
