---------------------------- MODULE ReportTrace ----------------------------
(* Judges written reports against the plan they are about (C20).            *)
(* Record: [id, kind, inst, obj, routes, remove, report, stored]            *)
(*   routes: contents with requested starts, up[k][m] the trips picked up   *)
(*   at a stop in the order the library keeps them                          *)
(*   report: what was read in the text (columnar or hashcode)               *)
(* Numbers are ticks; the text rounds to one, two or three decimals.        *)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
I == Rec.inst
T == Rec.report
Near(a, b, tol) == a = b \/ (Abs(a) < INF /\ Abs(b) < INF /\ Abs(a - b) <= tol)
N1 == 206   \* half of 0.1, and one tick
N2 == 22
N3 == 4
Place(q, p) == Len(q) = Len(I.pos[p]) /\ \A k \in DOMAIN q : Near(q[k], I.pos[p][k], N3)
Served(R) == FoldLeft(LAMBDA a, s : a \o s.P, << >>, R.s)
Shown == IF Rec.remove THEN SelectSeq(Rec.routes, LAMBDA R : Served(R) # << >>) ELSE Rec.routes
(* the trips in pickup order; trips of one stop may be listed in any order *)
InPickupOrder(R, q) ==
  /\ Len(q) = Cardinality(ToSet(q))
  /\ \A a, b \in DOMAIN q : a < b => PickAt(R, q[a]) <= PickAt(R, q[b])
WithLoad(R) == {t \in Picked(R) : Trip(I, t).cap # 0}

(* ---- HashCode: lines [n, trips] ---- *)
LineOf(R, l) == l.n = Cardinality(WithLoad(R)) /\ ToSet(l.trips) = WithLoad(R) /\ InPickupOrder(R, l.trips)
(* each shown route has its line, and there are no others *)
LinesMatch ==
  /\ Len(T.lines) = Len(Shown)
  /\ \A k \in DOMAIN Shown : WithLoad(Shown[k]) # {} => \E m \in DOMAIN T.lines : LineOf(Shown[k], T.lines[m])
  /\ Cardinality({m \in DOMAIN T.lines : T.lines[m].n = 0 /\ T.lines[m].trips = << >>})
       = Cardinality({k \in DOMAIN Shown : WithLoad(Shown[k]) = {}})
HashBad ==
     Cl("line_per_route", Len(T.lines) = Len(Shown))
\cup Cl("trips_of_each_line", LinesMatch)
\cup Cl("sorted_lines", T.sorted) \cup Cl("exact_lines", T.exact)

(* ---- columnar ---- *)
Group(v) == {m \in DOMAIN T.routes : T.routes[m].v = v}
The(v) == T.routes[CHOOSE m \in Group(v) : TRUE]
VehicleBad(v, g) ==
  LET V == I.veh[v] IN
     Cl("vehicle_places", Place(g.initial, V.o) /\ Place(g.final, V.d))
\cup Cl("vehicle_capacity", Near(g.cap, V.cap, N2))
\cup Cl("vehicle_earliest", Near(g.earliest, V.oe, N2))
TripBad(R, S, x) ==
  LET t == x.t  a == PickAt(R, t)  b == DropAt(R, t) IN
     Cl("trip_places", Place(x.o, Trip(I, t).o) /\ Place(x.d, Trip(I, t).d))
\cup Cl("trip_window", Near(x.from, OE(I, t), N1) /\ Near(x.upto, DL(I, t), N1))
\cup Cl("trip_waiting", Near(x.wait, SumSeq([m \in 1..(b - a) |-> S[a + m].st - S[a + m].arr]), N1))
\cup Cl("trip_transit", Near(x.transit, AlongRide(R, S, t), N1))
\cup Cl("trip_service", Near(x.load, StopLoadTime(I, R.s[a]) + StopLoadTime(I, R.s[b]), N1))
\cup Cl("trip_duration", Near(x.duration, RideTime(R, S, t), N1))
\cup Cl("trip_times", Near(x.pickup, S[a].dep, N1) /\ Near(x.delivery, S[b].st, N1))
\cup Cl("trip_load", Near(x.cap, Trip(I, t).cap, 1))
StopBad(R, S, k, x) ==
     Cl("stop_trips", ToSet(x.P) = Up(R.s[k]) /\ ToSet(x.D) = Down(R.s[k]) /\ Len(x.P) = Len(R.s[k].P) /\ Len(x.D) = Len(R.s[k].D))
\cup Cl("stop_place", Place(x.p, R.s[k].p))
\cup Cl("stop_window", Near(x.from, S[k].ear, N1) /\ Near(x.upto, S[k].lat, N1))
\cup Cl("stop_waiting", Near(x.wait, S[k].st - S[k].arr, N1))
\cup Cl("stop_transit", Near(x.transit, S[k].tr, N1))
\cup Cl("stop_service", Near(x.load, S[k].ld, N1))
\cup Cl("stop_departure", Near(x.dep, S[k].dep, N1))
\cup Cl("stop_load", Near(x.cap, S[k].load, 1))
RouteBad(R) ==
  IF Cardinality(Group(R.v)) # 1 THEN {"route_shown_once"}
  ELSE LET g == The(R.v)  S == Sched(I, R)  ts == [m \in DOMAIN g.trips |-> g.trips[m].t] IN
     VehicleBad(R.v, g)
\cup Cl("trips_count", g.ntrips = Len(Served(R)) /\ Len(g.trips) = g.ntrips)
\cup Cl("stops_count", g.nstops = Len(R.s) /\ Len(g.stops) = g.nstops)
\cup (IF ToSet(ts) = Picked(R) /\ Len(ts) = Cardinality(Picked(R))
      THEN Cl("trips_in_order", InPickupOrder(R, ts)) \cup UNION {TripBad(R, S, g.trips[m]) : m \in DOMAIN g.trips}
      ELSE {"trips_of_route"})
\cup (IF Len(g.stops) = Len(R.s) THEN UNION {StopBad(R, S, k, g.stops[k]) : k \in DOMAIN R.s} ELSE {})
Completed == UNION {WithLoad(Rec.routes[k]) : k \in DOMAIN Rec.routes}
ColumnarBad ==
     Cl("routes_count", T.count = Len(Shown) /\ Len(T.routes) = Len(Shown))
\cup UNION {RouteBad(Shown[k]) : k \in DOMAIN Shown}
\cup Cl("uuid", T.uuid) \cup Cl("time", T.time)
\cup Cl("coverage", IF Len(I.trips) = 0 THEN T.coverage = UNIT ELSE T.coverage = Cardinality(Completed) * UNIT)
\cup Cl("objective", T.objective = Rec.obj \o "Objective")
\cup Cl("direction", T.direction = "Maximization")
\cup Cl("value", T.value = PlanValue(I, Rec.obj, Rec.routes))
\cup Cl("feasible", T.feasible = (\A k \in DOMAIN Rec.routes : Feasible(I, Rec.routes[k])))
Bad == IF ~T.readable THEN {"readable"}
       ELSE (IF Rec.kind = "hashcode" THEN HashBad ELSE ColumnarBad)
            \cup Cl("file_is_the_text", Rec.stored.file) \cup Cl("prompt_is_the_text", Rec.stored.prompt)
            \cup Cl("set_stores_both", Rec.stored.set)
Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(Rec.routes))
=============================================================================
