---------------------------- MODULE RefusalTrace ----------------------------
(***************************************************************************)
(* Recorded outcomes of the cases of Refusal.tla. The first event of a     *)
(* recording describes the parameter sets the harness built, which must be *)
(* the ones of Refusal.tla; every other one is a case with its outcome:    *)
(* refused or accepted, in the latter case with level and number of parts  *)
(* of the resulting ciphertext. Every recording is of a case in Cases.     *)
(***************************************************************************)
EXTENDS Refusal, TraceBase

Sets == /\ IsEvent("sets")
        /\ Len(Ev.p) = Cardinality(Ids)
        /\ \A i \in Ids : [deg |-> Ev.p[i].deg, t |-> Ev.p[i].t, var |-> Ev.p[i].var, dec |-> Ev.p[i].dec, q |-> Ev.p[i].q] = P[i]
        /\ \A i \in Ids : \A v \in Levels(i) : Ev.p[i].ctx[v + 1] = Ctx(i, v).q

Case == /\ IsEvent("case")
        /\ \A c \in {<<Ev.name>> \o Ev.a} :
              IF Pre(c)
              THEN /\ Ev.refused = FALSE
                   /\ IF c[1] \in Shaped
                      THEN /\ Ev.lv = Level(c) /\ Ev.parts = Len(Type(c))
                           /\ \A i \in 1..Len(Type(c)) : Ev.moduli[i] = Len(Type(c)[i].ctx.q)
                      ELSE TRUE
              ELSE Ev.refused = TRUE

TraceInit == l = 1 /\ case = <<"none">>
TraceNext == /\ Sets \/ Case \/ (Finished /\ UNCHANGED l)
             /\ UNCHANGED case
=============================================================================
