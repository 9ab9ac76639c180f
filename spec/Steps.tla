------------------------------- MODULE Steps -------------------------------
(***************************************************************************)
(* The steps of the planning process as relations over explicit values, so *)
(* that the model Planner and the trace specifications use the same ones.  *)
(***************************************************************************)
EXTENDS Dar

Vehicles(I) == DOMAIN I.veh
Trips(I)    == DOMAIN I.trips
ServedBy(routes) == UNION {Picked(routes[v]) : v \in DOMAIN routes}
PendingOf(I, routes) == Trips(I) \ ServedBy(routes)

(* ---- vehicles an insertion step may use: every loaded one and one idle one ---- *)
LoadedVeh(routes) == {v \in DOMAIN routes : Loaded(routes[v])}
IdleVeh(routes)   == DOMAIN routes \ LoadedVeh(routes)

PairsFor(mode, R) == IF mode = "tail" THEN {TailPair(Len(R.s))} ELSE Pairs(Len(R.s))
Offers(I, mode, routes, pend, v) == FeasibleInsertions(I, routes[v], pend, PairsFor(mode, routes[v]))

(* ---- comparison of routes by timetable and order only (requested starts are internal) ---- *)
Shape(I, R) == LET S == Sched(I, R) IN
  [v |-> R.v, s |-> [k \in DOMAIN R.s |-> [p |-> R.s[k].p, P |-> Up(R.s[k]), D |-> Down(R.s[k]), st |-> S[k].st]]]

(* ---- insertion step: C09 ---- *)
InsertionStep(I, routes, pend, v, R, routes2, pend2) ==
     (IF R.v = v /\ routes2[v] = R THEN {} ELSE {"accepted_route_installed"})
\cup (IF \A w \in DOMAIN routes \ {v} : routes2[w] = routes[w] THEN {} ELSE {"other_routes_untouched"})
\cup (IF Picked(routes[v]) \subseteq Picked(R) THEN {} ELSE {"served_trips_kept"})
\cup (IF Cardinality(Picked(R) \ Picked(routes[v])) = 1 THEN {} ELSE {"one_trip_added"})
\cup (IF (Picked(R) \ Picked(routes[v])) \subseteq pend THEN {} ELSE {"added_trip_was_pending"})
\cup (IF pend2 = pend \ Picked(R) THEN {} ELSE {"pending_updated"})
\cup (IF pend2 = PendingOf(I, routes2) THEN {} ELSE {"pending_exact"})

(* stops left once the added trips are removed again, in order *)
Order(R) == [k \in DOMAIN R.s |-> [p |-> R.s[k].p, P |-> Up(R.s[k]), D |-> Down(R.s[k])]]
KeepsOrder(R, base) ==
  LET new == Picked(R) \ Picked(base)
      strip(s) == [p |-> s.p, P |-> Up(s) \ new, D |-> Down(s) \ new]
      gone(s) == ~NoTrips(s) /\ Up(s) \subseteq new /\ Down(s) \subseteq new
      kept == SelectSeq(R.s, LAMBDA s : ~gone(s))
  IN [k \in DOMAIN kept |-> strip(kept[k])] = Order(base)

(* ---- local search: neighbours of a plan (routes: function from vehicles) ---- *)
Plan(routes) == [k \in 1..Cardinality(DOMAIN routes) |-> routes[SortedSeq(DOMAIN routes)[k]]]
Value(I, obj, routes) == PlanValue(I, obj, Plan(routes))
Better(I, obj, a, b) == LexLess(Value(I, obj, b), Value(I, obj, a))     \* a better than b

Reallocations(I, routes) ==
  UNION {LET base == DropTrip(routes[x[1]], x[3]) IN
         IF ~Feasible(I, base) THEN {}
         ELSE {[routes EXCEPT ![x[1]] = base, ![x[2]] = r] :
                 r \in FeasibleInsertions(I, routes[x[2]], {x[3]}, Pairs(Len(routes[x[2]].s)))}
         : x \in {y \in (DOMAIN routes) \X (DOMAIN routes) \X ServedBy(routes) :
                    y[1] # y[2] /\ y[3] \in Picked(routes[y[1]])}}
Swaps(I, routes) ==
  UNION {{[routes EXCEPT ![v] = r] :
            r \in {q \in {Swapped(routes[v], k) : k \in 2..(Len(routes[v].s) - 2)} : Ordered(q) /\ Feasible(I, q)}}
         : v \in DOMAIN routes}
BlockReversals(I, R) ==
  LET n == Len(R.s) IN
  {q \in {Reversed(R, x[1], x[2]) : x \in {y \in (2..(n - 1)) \X (2..(n - 1)) : y[2] >= y[1] + 2}} :
     Ordered(q) /\ Feasible(I, q)}
Reversals(I, routes) == UNION {{[routes EXCEPT ![v] = r] : r \in BlockReversals(I, routes[v])} : v \in DOMAIN routes}
Neighbours(I, strat, routes) ==
  CASE strat = "reallocation" -> Reallocations(I, routes)
    [] strat = "one_shift"    -> Swaps(I, routes)
    [] strat = "two_opt"      -> Reversals(I, routes)

(* ---- invariants of any plan (C01, C02, C03) over a function of routes ---- *)
UniqueService(I, routes) ==
  /\ \A v \in DOMAIN routes : routes[v].v = v
  /\ ServedBy(routes) \subseteq Trips(I)
  /\ \A v, w \in DOMAIN routes : v # w => Picked(routes[v]) \cap Picked(routes[w]) = {}
=============================================================================
