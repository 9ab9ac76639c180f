--------------------------- MODULE InsertionTrace ---------------------------
(* Validates recorded insertion runs step by step (C09, C10; C01-C03 of     *)
(* every intermediate plan).                                                *)
(* Trace: [id, checks, inst, mode, crit, scheme, k, maximal, routes0, pend0, ev, final]     *)
(*   routes: sequence over vehicles of contents (pin: announced start)      *)
(*   ev: seq of [chosen, routes, pending]: the route the iterator gave, and *)
(*       the container and pending trips once it was accepted               *)
EXTENDS Judge

VARIABLES j, pos, routes, pending
tv == <<j, pos, routes, pending>>
Tr == Data[j]
I == Tr.inst
Same(a, b) == \A v \in DOMAIN a : v \in DOMAIN b /\ SameContent(a[v], b[v])

Account(e) ==
  LET R == e.chosen  v == R.v  new == Picked(R) \ Picked(routes[v])  pend2 == ToSet(e.pending) IN
     Cl("accepted_route_installed", SameContent(e.routes[v], R))
\cup Cl("other_routes_untouched", \A w \in DOMAIN routes \ {v} : SameContent(e.routes[w], routes[w]))
\cup Cl("served_trips_kept", Picked(routes[v]) \subseteq Picked(R))
\cup Cl("one_trip_added", Cardinality(new) = 1)
\cup Cl("added_trip_was_pending", new \subseteq pending)
\cup Cl("pending_exact", pend2 = PendingOf(I, e.routes))
\cup Cl("pending_listed_once", Len(e.pending) = Cardinality(pend2))

(* C10 *)
Cand(v) == Offers(I, Tr.mode, routes, pending, v)
Sc(r) == Score(I, Tr.crit, r, Sched(I, r))
BeatenBy(R, C) == LET s == Sc(R) IN {q \in C : BetterScore(Tr.crit, Sc(q), s)}
IdleOffered(v) == IF v \in IdleVeh(routes) THEN {v} ELSE IdleVeh(routes)
Loads == LoadedVeh(routes)
(* Candidates of pairs (t, i, j) counted as such: Offers is a set of routes, distinct pairs give distinct routes *)
Choice(e) ==
  LET R == e.chosen  v == R.v IN
     Cl("chosen_feasible", Feasible(I, R))
\cup (IF Tr.scheme = "first" THEN {}
      ELSE IF Tr.scheme = "best" \/ Tr.k = 1
      THEN LET fixed == UNION {BeatenBy(R, Cand(w)) : w \in Loads}
               nf == Cardinality(fixed) IN
           Cl("not_beaten", IF IdleVeh(routes) = {} THEN nf < Tr.k
                            ELSE \E w \in IdleOffered(v) : nf + Cardinality(BeatenBy(R, Cand(w))) < Tr.k)
      ELSE Cl("among_the_best_of_its_vehicle", Cardinality(BeatenBy(R, Cand(v))) < Tr.k))

StepBad(e) ==
  IF ~(Sound(I, e.chosen) /\ \A v \in DOMAIN e.routes : Sound(I, e.routes[v])) THEN {"not_a_plan"}
  ELSE (IF Wants(Tr, "account") THEN Account(e) ELSE {})
  \cup (IF Wants(Tr, "choice") /\ \A t \in Picked(e.chosen) : t \in pending \cup Picked(routes[e.chosen.v])
        THEN Choice(e) ELSE {})
EndBad ==
     (IF Wants(Tr, "account") THEN Cl("final_plan", Same(routes, Tr.final)) ELSE {})
\cup (IF Wants(Tr, "maximal") /\ Tr.maximal
      THEN Cl("nothing_feasible_left", \A v \in Vehicles(I) : Offers(I, Tr.mode, routes, pending, v) = {}) ELSE {})
StartBad == IF Wants(Tr, "account")
            THEN Cl("pending_exact", ToSet(Tr.pend0) = PendingOf(I, Tr.routes0)) \cup
                 Cl("starts_from_given_plan", Same(Tr.routes0, Tr.given)) ELSE {}

Init == /\ j \in DOMAIN Data /\ pos = 0
        /\ routes = Data[j].routes0 /\ pending = ToSet(Data[j].pend0)
Start == pos = 0 /\ pos' = 1 /\ Report(Tr.id, 0, StartBad) /\ UNCHANGED <<j, routes, pending>>
Step == /\ pos \in 1..Len(Tr.ev)
        /\ LET e == Tr.ev[pos]  bad == StepBad(e) IN
           /\ Report(Tr.id, pos, bad)
           /\ IF "not_a_plan" \in bad
              THEN pos' = Len(Tr.ev) + 2 /\ Finished(Tr.id, pos) /\ UNCHANGED <<routes, pending>>
              ELSE pos' = pos + 1 /\ routes' = e.routes /\ pending' = ToSet(e.pending)
        /\ UNCHANGED j
End == /\ pos = Len(Tr.ev) + 1 /\ pos' = pos + 1
       /\ Report(Tr.id, pos, EndBad) /\ Finished(Tr.id, pos) /\ UNCHANGED <<j, routes, pending>>
Next == Start \/ Step \/ End
=============================================================================
