--------------------------- MODULE ObjectiveTrace ---------------------------
(* Judges objective values computed by the library (C14).                   *)
(* Record: [id, inst, obj, routes, trips, stops, rvals, pval, resval, picks]*)
(*   routes: contents with requested starts; values as tuples               *)
(*   picks: [kind, args, got]: the position of the winner (0: none), args   *)
(*     being routes/plans (sequences of indices into routes) or plain values*)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
I == Rec.inst
Val(k) == RouteValue(I, Rec.obj, Rec.routes[k])
TripVals(k) == LET R == Rec.routes[k]  S == Sched(I, R) IN
  \A m \in DOMAIN Rec.trips[k] : Rec.trips[k][m].v = TripValue(I, Rec.obj, R, S, Rec.trips[k][m].t)
StopVals(k) == LET R == Rec.routes[k]  S == Sched(I, R) IN
  Rec.stops[k] = [m \in DOMAIN R.s |-> StopValue(I, Rec.obj, R, S, m)]
Total == FoldLeft(LAMBDA a, k : AddT(a, Val(k)), Zero(Rec.obj), [k \in DOMAIN Rec.routes |-> k])
(* the first argument that no other beats, absent ones (<< >>) being ignored *)
ArgVal(p, k) == IF p.kind = "values" THEN p.args[k]
                ELSE FoldLeft(LAMBDA a, m : AddT(a, Val(m)), Zero(Rec.obj), p.args[k].of)
Present(p) == {k \in DOMAIN p.args : IF p.kind = "values" THEN p.args[k] # << >> ELSE p.args[k].there}
Winner(p) == IF Present(p) = {} THEN 0
             ELSE CHOOSE k \in Present(p) : \A m \in Present(p) :
                    /\ ~LexLess(ArgVal(p, k), ArgVal(p, m))
                    /\ m < k => LexLess(ArgVal(p, m), ArgVal(p, k))
Bad ==
     Cl("trip_value", \A k \in DOMAIN Rec.routes : TripVals(k))
\cup Cl("stop_value", \A k \in DOMAIN Rec.routes : StopVals(k))
\cup Cl("route_value", Rec.rvals = [k \in DOMAIN Rec.routes |-> Val(k)])
\cup Cl("plan_value", Rec.pval = Total)
\cup Cl("result_value", Rec.resval = Total)
\cup Cl("better_means_lexicographically_larger", \A k \in DOMAIN Rec.picks : Rec.picks[k].got = Winner(Rec.picks[k]))

Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(Rec.picks))
=============================================================================
