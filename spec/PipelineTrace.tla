--------------------------- MODULE PipelineTrace ---------------------------
(* Judges recorded histories of solve runs (C21) as behaviours of Pipeline. *)
(* Record: [id, solvers, ev]; after the first event that must not happen    *)
(* the rest of its history is not judged.                                   *)
EXTENDS Judge, PipelineSteps

VARIABLES j, i, st
Rec == Data[j]
Init == j \in DOMAIN Data /\ i = 1 /\ st = AtRest
Stop == i = Len(Rec.ev) + 1
Next ==
  /\ i <= Len(Rec.ev) + 1 /\ j' = j
  /\ IF Stop THEN /\ Report(Rec.id, i, Cl("ends_idle", st.pc = "idle")) /\ Finished(Rec.id, i)
                  /\ i' = Len(Rec.ev) + 2 /\ st' = st
     ELSE LET e == Rec.ev[i]  nx == StepOf(Rec.solvers, st, e) IN
          IF nx = {} THEN /\ Report(Rec.id, i, {e.k \o "_at_" \o st.pc}) /\ Finished(Rec.id, i)
                          /\ i' = Len(Rec.ev) + 2 /\ st' = st
          ELSE i' = i + 1 /\ st' \in nx
=============================================================================
