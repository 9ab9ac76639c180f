----------------------------- MODULE ExactTrace -----------------------------
(***************************************************************************)
(* Judges plans of the exact method (C17): enumerates every plan of a small*)
(* instance.  A visiting order is feasible when some start times satisfy   *)
(* all windows, ride limits, the shift and the duration limit: a system of *)
(* difference constraints, solved by raising lower bounds to a fixpoint.   *)
(* Record: [id, inst, routes, ok]; all vehicles are alike.                 *)
(***************************************************************************)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
I == Rec.inst
V == I.veh[1]
Node(t, up) == IF up THEN [t |-> t, up |-> TRUE, p |-> Trip(I, t).o, ld |-> Trip(I, t).od, lo |-> OE(I, t), hi |-> OL(I, t)]
               ELSE [t |-> t, up |-> FALSE, p |-> Trip(I, t).d, ld |-> Trip(I, t).dd, lo |-> DE(I, t), hi |-> DL(I, t)]
Start == [t |-> 0, up |-> TRUE, p |-> V.o, ld |-> 0, lo |-> V.oe, hi |-> V.dl]
End == [t |-> 0, up |-> FALSE, p |-> V.d, ld |-> 0, lo |-> V.oe, hi |-> V.dl]
Length(q) == SumSeq([k \in 1..(Len(q) - 1) |-> Dist(I, q[k].p, q[k + 1].p)])

(* lower bounds of the start times of the visits q *)
Forward(q, lb) ==
  FoldLeft(LAMBDA a, k : Append(a, IF k = 1 THEN lb[1] ELSE Max2(lb[k], a[k - 1] + q[k - 1].ld + Dist(I, q[k - 1].p, q[k].p))),
           << >>, [k \in DOMAIN q |-> k])
Pull(q, lb) ==
  [k \in DOMAIN q |->
     IF q[k].t = 0 THEN IF k = 1 THEN Max2(lb[1], Minus(lb[Len(q)], V.to)) ELSE lb[k]
     ELSE IF ~q[k].up THEN lb[k]
     ELSE LET d == {m \in (k + 1)..Len(q) : q[m].t = q[k].t} IN
          IF d = {} THEN lb[k] ELSE Max2(lb[k], Minus(lb[CHOOSE m \in d : TRUE], Plus(Trip(I, q[k].t).to, q[k].ld)))]
RECURSIVE Settle(_, _, _)
Settle(q, lb, n) ==
  LET a == Forward(q, lb)  b == Pull(q, a) IN
  IF \E k \in DOMAIN q : a[k] > q[k].hi THEN FALSE
  ELSE IF b = a THEN TRUE
  ELSE IF n = 0 THEN FALSE ELSE Settle(q, b, n - 1)
Possible(q) == Settle(q, [k \in DOMAIN q |-> q[k].lo], 2 * Len(q) + 2)

(* cheapest feasible route serving exactly the trips T; INF when there is none *)
RECURSIVE Best(_, _, _, _, _)
Best(q, todo, aboard, load, bound) ==
  IF todo = {} /\ aboard = {} THEN LET f == Append(q, End) IN IF Length(f) < bound /\ Possible(f) THEN Length(f) ELSE bound
  ELSE FoldSet(LAMBDA x, b :
                 LET f == Append(q, Node(x[1], x[2])) IN
                 IF (x[2] /\ load + Trip(I, x[1]).cap > V.cap) \/ Length(f) >= b \/ ~Possible(f) THEN b
                 ELSE IF x[2] THEN Best(f, todo \ {x[1]}, aboard \cup {x[1]}, load + Trip(I, x[1]).cap, b)
                 ELSE Best(f, todo, aboard \ {x[1]}, load - Trip(I, x[1]).cap, b),
               bound, (todo \X {TRUE}) \cup (aboard \X {FALSE}))
Cost == [T \in SUBSET Trips(I) |-> IF T = {} THEN Dist(I, V.o, V.d) ELSE Best(<<Start>>, T, {}, 0, INF)]
RECURSIVE Split(_, _, _)
Split(cost, T, n) ==
  IF n = 1 THEN cost[T]
  ELSE MinOf({Plus(cost[A], Split(cost, T \ A, n - 1)) : A \in SUBSET T}, INF)
Optimum == Split(Cost, Trips(I), Len(I.veh))

Total(rs) == SumSeq([k \in DOMAIN rs |-> RouteDistance(Sched(I, rs[k]))])
Everyone(rs) == UNION {Picked(rs[k]) : k \in DOMAIN rs}
Bad ==
  LET rs == Rec.routes  best == Optimum IN
  IF \E k \in DOMAIN rs : ~Sound(I, rs[k]) THEN {"well_formed"}
  ELSE IF best = INF
  THEN Cl("idle_when_impossible", Everyone(rs) = {} /\ \A k \in DOMAIN rs : Len(rs[k].s) = 2)
       \cup Cl("whole_fleet", [k \in DOMAIN rs |-> rs[k].v] = [v \in DOMAIN I.veh |-> v])
  ELSE Cl("serves_everyone", Everyone(rs) = Trips(I))
       \cup Cl("within_limits", \A k \in DOMAIN rs : Limits(I, rs[k], Sched(I, rs[k]), 40) = {})
       \cup Cl("shortest", Everyone(rs) = Trips(I) => Abs(Total(rs) - best) <= 40)
       \cup Cl("one_route_per_vehicle", Cardinality({rs[k].v : k \in DOMAIN rs}) = Len(rs))
Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(I.trips))
=============================================================================
