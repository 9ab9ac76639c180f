--------------------------- MODULE DescribeTrace ---------------------------
(* Judges what the library says about its objects (C25): the pairs of name  *)
(* and value which every object lists, and the names of stops and routes.   *)
(* Record: [id, inst, obj, routes, unchanged, trips, vehicles, fleet,   *)
(*   job, places, told, plan, result, printed]                              *)
(*   told[k]: what route k tells about itself, its stops and its trips      *)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
I == Rec.inst
Name(t) == ToString(t - 1)
Service(p, e, l, d) == [p |-> I.pos[p], e |-> e, l |-> l, d |-> d]
TripData(t) ==
  LET x == Trip(I, t) IN
  [name |-> Name(t), o |-> Service(x.o, x.oe, x.ol, x.od), d |-> Service(x.d, x.de, x.dl, x.dd),
   bonus |-> x.bonus, cap |-> x.cap, to |-> x.to]
(* vehicles without an end service of their own list their start service twice, whose latest time is the end of the shift *)
VehData(v) ==
  LET x == I.veh[v]  lone == x.o = x.d /\ (v - 1 + Len(I.trips)) % 2 = 0 IN
  [name |-> Name(v), o |-> Service(x.o, x.oe, IF lone THEN x.dl ELSE INF, 0),
   d |-> IF lone THEN Service(x.o, x.oe, x.dl, 0) ELSE Service(x.d, 0, x.dl, 0),
   cap |-> x.cap, to |-> x.to]
Used == {I.pos[p] : p \in {I.veh[v].o : v \in Vehicles(I)} \cup {I.veh[v].d : v \in Vehicles(I)}
                          \cup {Trip(I, t).o : t \in Trips(I)} \cup {Trip(I, t).d : t \in Trips(I)}}
(* a name lists the pickups, then the deliveries *)
Says(n, s) == n.exact /\ ToSet(n.P) = Up(s) /\ Len(n.P) = Len(s.P) /\ ToSet(n.D) = Down(s) /\ Len(n.D) = Len(s.D)
RouteTold(R, q) ==
  LET S == Sched(I, R) IN
     Cl("route_vehicle", q.vehicle = Name(R.v))
\cup Cl("route_names_its_stops", Len(q.stops) = Len(R.s) /\ \A k \in DOMAIN R.s : Says(q.stops[k], R.s[k]))
\cup Cl("route_name", q.joined)
\cup Cl("stop_names", Len(q.each) = Len(R.s) /\ \A k \in DOMAIN R.s : Says(q.each[k].name, R.s[k]) /\ q.each[k].p = I.pos[R.s[k].p])
\cup Cl("planned_trips", /\ {q.rides[k].t : k \in DOMAIN q.rides} = {Name(t) : t \in Picked(R)}
                         /\ Len(q.rides) = Cardinality(Picked(R)))
\cup Cl("planned_trip_data", \A k \in DOMAIN q.rides : \A t \in Picked(R) : Name(t) = q.rides[k].t =>
          /\ q.rides[k].pickup = PickAt(R, t) /\ q.rides[k].delivery = DropAt(R, t)
          /\ q.rides[k].ok = RideOK(I, R, S, t) /\ q.rides[k].vehicle = Name(R.v))
Bad ==
     Cl("trip_data", Rec.trips = [t \in Trips(I) |-> TripData(t)])
\cup Cl("vehicle_data", Rec.vehicles = [v \in Vehicles(I) |-> VehData(v)])
\cup Cl("fleet_names", ToSet(Rec.fleet) = {Name(v) : v \in Vehicles(I)} /\ Len(Rec.fleet) = Len(I.veh))
\cup Cl("job_names", ToSet(Rec.job.names) = {Name(t) : t \in Trips(I)} /\ Len(Rec.job.names) = Len(I.trips))
\cup Cl("job_objective", Rec.job.objective = Rec.obj \o "Objective")
\cup Cl("places_of_the_surface", ToSet(Rec.places) = Used /\ Len(Rec.places) = Cardinality(Used))
\cup UNION {RouteTold(Rec.routes[k], Rec.told[k]) : k \in DOMAIN Rec.routes}
\cup Cl("plan", Rec.plan) \cup Cl("result", Rec.result) \cup Cl("printed", Rec.printed)
\cup Cl("nothing_changed", Rec.unchanged)
Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(Rec.routes))
=============================================================================
