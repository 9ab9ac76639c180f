----------------------------- MODULE PlanTrace -----------------------------
(* Judges plans returned by the real solving methods (C01, C02, C03, C05).  *)
(* Record: [id, checks, inst, routes, full, planok, x]                      *)
(*   routes: seq of contents (pin: announced start) with links and verdict  *)
EXTENDS Judge

VARIABLES j, done

Times(routes, t, f(_)) ==
  FoldLeft(LAMBDA a, r : a + FoldLeft(LAMBDA b, s : b + Cardinality({m \in DOMAIN f(s) : f(s)[m] = t}), 0, r.s), 0, routes)
Ups(s) == s.P
Downs(s) == s.D

Unique(I, rec) ==
     Cl("vehicles_of_the_fleet", \A k \in DOMAIN rec.routes : rec.routes[k].v \in Vehicles(I))
\cup Cl("one_route_per_vehicle", \A a, b \in DOMAIN rec.routes : a # b => rec.routes[a].v # rec.routes[b].v)
\cup Cl("requested_trips_only", \A k \in DOMAIN rec.routes : \A m \in DOMAIN rec.routes[k].s :
          (Up(rec.routes[k].s[m]) \cup Down(rec.routes[k].s[m])) \subseteq Trips(I))
\cup Cl("picked_up_at_most_once", \A t \in Trips(I) : Times(rec.routes, t, Ups) <= 1)
\cup Cl("delivered_at_most_once", \A t \in Trips(I) : Times(rec.routes, t, Downs) <= 1)
\cup Cl("route_for_every_vehicle", rec.full => Vehicles(I) \subseteq {rec.routes[k].v : k \in DOMAIN rec.routes})

Chained(r) ==
     Cl("chain", \A k \in DOMAIN r.links : r.links[k].prev = k - 1)
\cup Cl("one_vehicle", \A k \in DOMAIN r.links : r.links[k].v = r.v)
\cup Cl("records_point_to_stops", \A k \in DOMAIN r.links : \A m \in DOMAIN r.links[k].pt :
          LET x == r.links[k].pt[m] IN   \* <<trip, pickup, delivery, vehicle>>
          /\ x[4] = r.v
          /\ x[2] \in DOMAIN r.s /\ x[3] \in DOMAIN r.s
          /\ x[2] < x[3]
          /\ x[1] \in Up(r.s[x[2]]) /\ x[1] \in Down(r.s[x[3]])
          /\ k \in {x[2], x[3]})

Bad(rec) ==
  LET I == rec.inst
      known == \A k \in DOMAIN rec.routes : Known(I, rec.routes[k])
      sound == known /\ \A k \in DOMAIN rec.routes : Structure(I, rec.routes[k]) = {}
  IN (IF Wants(rec, "unique") THEN Unique(I, rec) ELSE {})
\cup (IF Wants(rec, "structure")
      THEN UNION {Cl("known_names", Known(I, r)) \cup Chained(r)
                  \cup (IF Known(I, r)
                        THEN Structure(I, r) \cup Cl("empty_at_the_end", LoadAtEnd(I, r) = 0) ELSE {})
                  : r \in ToSet(rec.routes)}
      ELSE {})
\cup (IF Wants(rec, "limits")
      THEN IF sound THEN UNION {Limits(I, r, Sched(I, r), rec.x) : r \in ToSet(rec.routes)} ELSE {"not_a_plan"}
      ELSE {})
\cup (IF Wants(rec, "verdict")
      THEN IF sound
           THEN Cl("plan_verdict", rec.planok = (\A k \in DOMAIN rec.routes : Feasible(I, rec.routes[k])))
                \cup Cl("route_verdict", \A k \in DOMAIN rec.routes : rec.routes[k].ok = Feasible(I, rec.routes[k]))
           ELSE {"not_a_plan"}
      ELSE {})

Init == j \in DOMAIN Data /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ j' = j
        /\ Report(Data[j].id, 1, Bad(Data[j]))
        /\ Finished(Data[j].id, Len(Data[j].routes))
=============================================================================
