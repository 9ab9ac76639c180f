------------------------------ MODULE EndTrace ------------------------------
(* From the file to the report (C23): the instance is read off the rows of  *)
(* the problem file by this specification, the plan off the text of the     *)
(* stored report, and the plan is judged against that instance alone.       *)
(* Record: [id, format, kind, rows, report, value, feasible, coverage,      *)
(*          stored]                                                         *)
(*   rows: the file, in whole units; report: what was read in the text;     *)
(*   value, feasible, coverage: what the returned result claims;            *)
(*   stored: the text was left exactly where it was asked                   *)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]

(* ---- the instance a file describes ---- *)
Root(x) == CHOOSE d \in 0..400 : d * d = x
Sq(x) == x * x
Cordeau(F) == Rec.format = "cordeau"
Spots(F) ==      \* the places named in the file, first names first
  TLCEval(IF Rec.format = "cordeau"
          THEN [k \in 1..(Len(F) - 1) |-> <<F[k + 1][2], F[k + 1][3]>>]
          ELSE <<<<0, 0>>>> \o FoldLeft(LAMBDA a, r : a \o <<<<r[1], r[2]>>, <<r[3], r[4]>>>>, << >>, Tail(F)))
Instance(F, S) ==
  LET at(q) == CHOOSE k \in DOMAIN S : S[k] = q /\ \A m \in 1..(k - 1) : S[m] # q
      n == (F[1][2]) \div 2
      veh == IF Rec.format = "cordeau"
             THEN [o |-> 1, d |-> 1, oe |-> 0, dl |-> INF, cap |-> F[1][4] * UNIT, to |-> F[1][3] * UNIT]
             ELSE [o |-> 1, d |-> 1, oe |-> 0, dl |-> F[1][6] * UNIT, cap |-> UNIT, to |-> INF]
  IN TLCEval(
  [metric |-> IF Rec.format = "cordeau" THEN "E" ELSE "M",
   pos |-> [k \in DOMAIN S |-> [c \in 1..2 |-> S[k][c] * UNIT]],
   dist |-> IF Rec.format = "cordeau"
            THEN [a \in DOMAIN S |-> [b \in DOMAIN S |-> UNIT * Root(Sq(S[a][1] - S[b][1]) + Sq(S[a][2] - S[b][2]))]]
            ELSE << >>,
   veh |-> [k \in 1..(IF Rec.format = "cordeau" THEN F[1][1] ELSE F[1][3]) |-> veh],
   trips |->
     IF Rec.format = "cordeau"
     THEN [k \in 1..n |->
            LET p == F[k + 2]  q == F[k + 2 + n] IN
            [o |-> at(<<p[2], p[3]>>), d |-> at(<<q[2], q[3]>>), oe |-> p[6] * UNIT, ol |-> p[7] * UNIT, od |-> p[4] * UNIT,
             de |-> q[6] * UNIT, dl |-> q[7] * UNIT, dd |-> q[4] * UNIT, cap |-> p[5] * UNIT, to |-> F[1][5] * UNIT, bonus |-> 0]]
     ELSE [k \in 1..(Len(F) - 1) |->
            LET p == F[k + 1] IN
            [o |-> at(<<p[1], p[2]>>), d |-> at(<<p[3], p[4]>>), oe |-> p[5] * UNIT, ol |-> INF, od |-> 0, de |-> 0,
             dl |-> p[6] * UNIT, dd |-> 0, cap |-> UNIT, to |-> INF, bonus |-> F[1][5] * UNIT]]])
Obj == IF Rec.format = "cordeau" THEN "DialARide" ELSE "HashCode"

(* ---- columnar reports: stops with places, trips and departures ---- *)
SpotOf(I, q) == IF \E k \in DOMAIN I.pos : I.pos[k] = q
                THEN CHOOSE k \in DOMAIN I.pos : I.pos[k] = q /\ \A m \in 1..(k - 1) : I.pos[m] # q ELSE 0
Bare(I, g) == [v |-> g.v, s |-> [k \in DOMAIN g.stops |->
                 [p |-> SpotOf(I, g.stops[k].p), P |-> g.stops[k].P, D |-> g.stops[k].D, pin |-> NOPIN]]]
(* the start announced by a departure *)
Pinned(I, R, g) == [R EXCEPT !.s = TLCEval([k \in DOMAIN R.s |-> [R.s[k] EXCEPT !.pin = g.stops[k].dep - StopLoadTime(I, R.s[k])]])]
Times(routes, t) == SumSeq([k \in DOMAIN routes |-> SumSeq([m \in DOMAIN routes[k].s |->
                       Cardinality({x \in DOMAIN routes[k].s[m].P : routes[k].s[m].P[x] = t})])])
RouteBad(I, g) ==
  LET R == TLCEval(Bare(I, g)) IN
  IF ~Known(I, R) THEN {"names_of_the_file"}
  ELSE IF Structure(I, R) # {} THEN Structure(I, R)
  ELSE LET Q == TLCEval(Pinned(I, R, g))  S == TLCEval(Sched(I, Q)) IN
       Cl("departures_add_up", \A k \in DOMAIN S : S[k].dep = g.stops[k].dep)
  \cup Limits(I, Q, S, 0)
  \cup Cl("ends_empty", LoadAtEnd(I, R) = 0)
ColumnarBad(I, T) ==
  LET bad == UNION {RouteBad(I, T.routes[k]) : k \in DOMAIN T.routes} IN
     bad
\cup Cl("routes_count", T.count = Len(T.routes))
\cup Cl("one_route_per_vehicle", \A a, b \in DOMAIN T.routes : a # b => T.routes[a].v # T.routes[b].v)
\cup Cl("served_once", \A t \in Trips(I) : Times([k \in DOMAIN T.routes |-> Bare(I, T.routes[k])], t) <= 1)
\cup Cl("said_feasible", T.feasible)
\cup Cl("objective", T.objective = Obj \o "Objective")
\cup (IF bad # {} THEN {}
      ELSE LET routes == TLCEval([k \in DOMAIN T.routes |-> Pinned(I, Bare(I, T.routes[k]), T.routes[k])]) IN
           Cl("value", T.value = PlanValue(I, Obj, routes) /\ T.value = Rec.value)
      \cup Cl("coverage", T.coverage = UNIT * (IF Len(I.trips) = 0 THEN 1
                                               ELSE Cardinality(UNION {Picked(routes[k]) : k \in DOMAIN routes}))))

(* ---- HashCode reports: the rides of every vehicle, played by the rules of the contest ---- *)
Play(I, ids) ==
  FoldLeft(LAMBDA a, t :
             LET r == Trip(I, t)  start == Max2(a.now + Dist(I, a.at, r.o), r.oe)  end == start + Direct(I, t) IN
             [now |-> end, at |-> r.d, late |-> a.late \/ end > r.dl \/ end > I.veh[1].dl,
              score |-> a.score + Direct(I, t) + (IF start = r.oe THEN r.bonus ELSE 0)],
           [now |-> 0, at |-> 1, late |-> FALSE, score |-> 0], ids)
HashBad(I, T) ==
  IF \E k \in DOMAIN T.lines : ~(ToSet(T.lines[k].trips) \subseteq Trips(I)) THEN {"rides_of_the_file"}
  ELSE LET all == FoldLeft(LAMBDA a, l : a \o l.trips, << >>, T.lines)
           plays == TLCEval([k \in DOMAIN T.lines |-> Play(I, T.lines[k].trips)])
           direct(t) == Direct(I, t) IN
     Cl("at_most_one_line_per_vehicle", Len(T.lines) <= Len(I.veh))
\cup Cl("counts", \A k \in DOMAIN T.lines : T.lines[k].n = Len(T.lines[k].trips))
\cup Cl("served_once", Len(all) = Cardinality(ToSet(all)))
\cup Cl("rides_in_time", \A k \in DOMAIN plays : ~plays[k].late)
\cup Cl("score_by_the_rules", /\ Rec.value[1] <= SumSeq([k \in DOMAIN plays |-> plays[k].score])
                              /\ Rec.value[1] >= SumOver(ToSet(all), direct))
\cup Cl("coverage", Rec.coverage = UNIT * (IF Len(I.trips) = 0 THEN 1 ELSE Len(all)))

Bad == IF ~Rec.report.readable THEN {"readable"}
       ELSE LET I == Instance(Rec.rows, Spots(Rec.rows)) IN
            (IF Rec.kind = "columnar" THEN ColumnarBad(I, Rec.report) ELSE HashBad(I, Rec.report))
            \cup Cl("stored_where_asked", Rec.stored) \cup Cl("result_feasible", Rec.feasible)
Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, 1)
=============================================================================
