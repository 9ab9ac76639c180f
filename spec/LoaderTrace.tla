---------------------------- MODULE LoaderTrace ----------------------------
(* Judges loaded instances against the files they come from (C18, C19).     *)
(* Record: [id, format, one, rows, vehicles, trips, objective, one_surface, *)
(*          again]; all numbers are whole in the scale of the record: one   *)
(* is a unit (thousandths or finer for Cordeau-Laporte), INF unbounded.     *)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
R == Rec.rows
One == Rec.one

(* ---- what a file means ---- *)
Numbered(from, n) == [k \in 1..n |-> ToString(from + k - 1)]
CordeauVehicles ==
  [k \in 1..(R[1][1] \div One) |->
     [id |-> ToString(k - 1), o |-> <<R[2][2], R[2][3]>>, d |-> <<R[2][2], R[2][3]>>, oe |-> 0, ol |-> INF, od |-> 0,
      de |-> 0, dl |-> INF, dd |-> 0, cap |-> R[1][4], to |-> R[1][3]]]
CordeauTrips ==
  LET n == (R[1][2] \div One) \div 2 IN
  [k \in 1..n |->
     LET p == R[k + 2]  q == R[k + 2 + n] IN
     [id |-> ToString(k), o |-> <<p[2], p[3]>>, d |-> <<q[2], q[3]>>, oe |-> p[6], ol |-> p[7], od |-> p[4],
      de |-> q[6], dl |-> q[7], dd |-> q[4], cap |-> p[5], to |-> R[1][5], bonus |-> 0]]
HashVehicles ==
  [k \in 1..R[1][3] |->
     [id |-> ToString(k - 1), o |-> <<0, 0>>, d |-> <<0, 0>>, oe |-> 0, ol |-> R[1][6], od |-> 0,
      de |-> 0, dl |-> R[1][6], dd |-> 0, cap |-> 1, to |-> INF]]
HashTrips ==
  [k \in 1..(Len(R) - 1) |->
     LET p == R[k + 1] IN
     [id |-> ToString(k - 1), o |-> <<p[1], p[2]>>, d |-> <<p[3], p[4]>>, oe |-> p[5], ol |-> INF, od |-> 0,
      de |-> 0, dl |-> p[6], dd |-> 0, cap |-> 1, to |-> INF, bonus |-> R[1][5]]]
Vehicles_ == IF Rec.format = "cordeau" THEN CordeauVehicles ELSE HashVehicles
Trips_ == IF Rec.format = "cordeau" THEN CordeauTrips ELSE HashTrips

(* ---- what was loaded: compared by identifier (the loader's sets have no order; the harness sorts them) ---- *)
TripKeys == {"o", "d", "oe", "ol", "od", "de", "dl", "dd", "cap", "to", "bonus"}
VehKeys == {"o", "d", "oe", "ol", "od", "de", "dl", "dd", "cap", "to"}
Differ(kind, seen, want, keys) ==
     Cl(kind \o "_count", Len(seen) = Len(want))
\cup Cl(kind \o "_names", [k \in DOMAIN seen |-> seen[k].id] = [k \in DOMAIN want |-> want[k].id])
\cup UNION {Cl(kind \o "_" \o key, \A k \in DOMAIN seen \cap DOMAIN want : seen[k][key] = want[k][key]) : key \in keys}
Spread(a, b) ==
  IF Rec.format = "cordeau" THEN (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) ELSE Abs(a[1] - b[1]) + Abs(a[2] - b[2])
IsDist(a, b, got) ==
  IF One > 1000 THEN TRUE      \* too fine to square
  ELSE IF Rec.format = "cordeau" THEN got \in 0..46000 /\ Spread(a, b) <= (got + 1) * (got + 1) /\ Max2(0, got - 1) * Max2(0, got - 1) <= Spread(a, b)
  ELSE got = Spread(a, b)
Bad ==
     Differ("vehicle", Rec.vehicles, Vehicles_, VehKeys)
\cup Differ("trip", Rec.trips, Trips_, TripKeys)
\cup Cl("distance", \A k \in DOMAIN Rec.trips \cap DOMAIN Trips_ : IsDist(Trips_[k].o, Trips_[k].d, Rec.trips[k].dist))
\cup Cl("from_depot", \A k \in DOMAIN Rec.trips \cap DOMAIN Trips_ :
                        Len(Rec.vehicles) = 0 \/ IsDist(Vehicles_[1].d, Trips_[k].o, Rec.trips[k].depot))
\cup Cl("objective", Rec.objective = (IF Rec.format = "cordeau" THEN "DialARideObjective" ELSE "HashCodeObjective"))
\cup Cl("one_surface", Rec.one_surface)
\cup Cl("same_again", Rec.again)
Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(Rec.trips))
=============================================================================
