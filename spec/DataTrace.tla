----------------------------- MODULE DataTrace -----------------------------
(* Judges data as the library presents it (C16): windows and defaults of    *)
(* trips, vehicles and services, statistics of plans and results.           *)
(* Record: [id, metric, pos, dist, raw, seen, vraw, vseen, requested,       *)
(*          routes, stats, rstats]; raw trips and vehicles lack what the    *)
(* user omitted.                                                            *)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
TripDefaults == [oe |-> 0, ol |-> INF, od |-> 0, de |-> 0, dl |-> INF, dd |-> 0, cap |-> UNIT, to |-> INF, bonus |-> 0]
Fill(raw, def) == [k \in DOMAIN raw \cup DOMAIN def |-> IF k \in DOMAIN raw THEN raw[k] ELSE def[k]]
I == [metric |-> Rec.metric, pos |-> Rec.pos, dist |-> Rec.dist,
      trips |-> [k \in DOMAIN Rec.raw |-> Fill(Rec.raw[k], TripDefaults)], veh |-> << >>]
TripBad(t) ==
  LET x == Trip(I, t)  y == Rec.seen[t] IN
     Cl("origin_earliest", y.oe = OE(I, t)) \cup Cl("origin_latest", y.ol = OL(I, t))
\cup Cl("destination_earliest", y.de = DE(I, t)) \cup Cl("destination_latest", y.dl = DL(I, t))
\cup Cl("service_times", y.od = x.od /\ y.dd = x.dd)
\cup Cl("places", y.o = x.o /\ y.d = x.d)
\cup Cl("load", y.cap = x.cap /\ y.empty = (x.cap = 0))
\cup Cl("ride_limit", y.to = x.to) \cup Cl("bonus", y.bonus = x.bonus)
\cup Cl("direct_distance", y.dist = Direct(I, t) /\ y.time = Direct(I, t))

(* a vehicle without an end service ends where and when its start service says *)
VehDefaults == [oe |-> 0, ol |-> INF, od |-> 0, cap |-> UNIT, to |-> INF]
VehBad(v) ==
  LET raw == Rec.vraw[v]  x == Fill(raw, VehDefaults)  y == Rec.vseen[v]
      own == "d" \in DOMAIN raw
      end == IF own THEN Fill([k \in DOMAIN raw \cap {"d", "de", "dl", "dd"} |-> raw[k]], [de |-> 0, dl |-> INF, dd |-> 0])
             ELSE [d |-> x.o, de |-> x.oe, dl |-> x.ol, dd |-> x.od] IN
     Cl("vehicle_start", y.o = x.o /\ y.oe = x.oe /\ y.ol = x.ol /\ y.od = x.od)
\cup Cl("vehicle_end", y.d = end.d /\ y.de = end.de /\ y.dl = end.dl /\ y.dd = end.dd)
\cup Cl("vehicle_limits", y.cap = x.cap /\ y.to = x.to)

(* statistics *)
All == [k \in DOMAIN Rec.routes |-> FoldLeft(LAMBDA a, s : a \o s.P, << >>, Rec.routes[k].s)]
WithLoad(q) == SelectSeq(q, LAMBDA t : Trip(I, t).cap # 0)
Everyone == FoldLeft(LAMBDA a, q : a \o q, << >>, All)
Sorted(q) == SetToSortSeq(ToSet(q), <)
Stats ==
  LET y == Rec.stats  n == Cardinality(ToSet(Rec.requested))  c == Cardinality(ToSet(WithLoad(Everyone))) IN
     Cl("completed_trips", y.completed = Sorted(WithLoad(Everyone)))
\cup Cl("coverage", IF n = 0 THEN y.coverage = UNIT ELSE y.coverage = c * UNIT)   \* n > 0: coverage times n
\cup Cl("plan_trips", y.trips = Sorted(Everyone))
\cup Cl("plan_loaded_routes", y.loaded = SortedSeq({Rec.routes[k].v : k \in {m \in DOMAIN Rec.routes : All[m] # << >>}}))
\cup Cl("plan_vehicles", y.vehicles = SortedSeq({Rec.routes[k].v : k \in DOMAIN Rec.routes}))
\cup Cl("result_requests", y.requested = Sorted(Rec.requested) /\ y.fleet = [v \in DOMAIN Rec.vraw |-> v])
RouteStats(k) ==
  LET y == Rec.rstats[k] IN
     Cl("route_trips", y.trips = Sorted(All[k]))
\cup Cl("route_loaded_trips", y.loadedtrips = Sorted(WithLoad(All[k])) /\ y.count = Len(WithLoad(All[k])))
\cup Cl("route_loaded", y.loaded = (All[k] # << >>))

Bad == UNION {TripBad(t) : t \in DOMAIN Rec.raw} \cup UNION {VehBad(v) : v \in DOMAIN Rec.vraw}
       \cup Stats \cup UNION {RouteStats(k) : k \in DOMAIN Rec.routes}
Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(Rec.raw))
=============================================================================
