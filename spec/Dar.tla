-------------------------------- MODULE Dar --------------------------------
(***************************************************************************)
(* Data semantics of jinete (dial-a-ride planning).                        *)
(*                                                                         *)
(* Every operator takes the instance I explicitly, so one TLC run can      *)
(* judge routes of many instances.  All numbers are integer ticks          *)
(* (1 unit = 4096 ticks); INF stands for an unbounded value and arithmetic *)
(* on it saturates.  EPS is the library's 0.001 tolerance in ticks.        *)
(*                                                                         *)
(*  I == [metric, pos, dist, trips, veh]                                   *)
(*    trips[t] == [o, d, oe, ol, od, de, dl, dd, cap, to, bonus]           *)
(*    veh[v]   == [o, d, oe, dl, cap, to]                                  *)
(*  A route is R == [v, s], s a sequence of stops [p, P, D, pin]:          *)
(*    place, trips picked up / delivered there (as sequences), explicitly  *)
(*    requested start (NOPIN: none).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

INF   == 1000000000
NOPIN == -1
EPS   == 4
UNIT  == 4096

Abs(x)     == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Plus(a, b)  == IF a >= INF \/ b >= INF THEN INF ELSE a + b
Minus(a, b) == IF a >= INF THEN INF ELSE IF b >= INF THEN -INF ELSE a - b
MaxOf(S, default) == IF S = {} THEN default ELSE CHOOSE x \in S : \A y \in S : x >= y
MinOf(S, default) == IF S = {} THEN default ELSE CHOOSE x \in S : \A y \in S : x <= y
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : f(x) + a, 0, S)
SortedSeq(S) == SetToSortSeq(S, <)

------------------------------------------------------------------------------
(* Geometry *)
Dist(I, a, b) ==
  IF I.metric = "M"
  THEN FoldLeft(LAMBDA acc, k : acc + Abs(I.pos[a][k] - I.pos[b][k]), 0, [k \in DOMAIN I.pos[a] |-> k])
  ELSE I.dist[a][b]

------------------------------------------------------------------------------
(* Usable windows of a trip (requested windows tightened by each other) *)
Trip(I, t) == I.trips[t]
Direct(I, t) == Dist(I, Trip(I, t).o, Trip(I, t).d)
OE(I, t) == LET r == Trip(I, t) IN Max2(Minus(r.de - r.od, r.to), r.oe)
OL(I, t) == LET r == Trip(I, t) IN Min2(Minus(r.dl, r.od + Direct(I, t)), r.ol)
DE(I, t) == LET r == Trip(I, t) IN Max2(r.oe + r.od + Direct(I, t), r.de)
DL(I, t) == LET r == Trip(I, t) IN Min2(Plus(Plus(r.ol, r.od), r.to), r.dl)

------------------------------------------------------------------------------
(* Stops and timetable *)
Up(s)   == ToSet(s.P)
Down(s) == ToSet(s.D)
NoTrips(s) == Len(s.P) = 0 /\ Len(s.D) = 0
NewStop(p, P, D) == [p |-> p, P |-> P, D |-> D, pin |-> NOPIN]

StopEarliest(I, s) == MaxOf({OE(I, t) : t \in Up(s)} \cup {DE(I, t) : t \in Down(s)}, 0)
StopLatest(I, s)   == MinOf({OL(I, t) : t \in Up(s)} \cup {DL(I, t) : t \in Down(s)}, INF)
StopLoadTime(I, s) == MaxOf({Trip(I, t).od : t \in Up(s)} \cup {Trip(I, t).dd : t \in Down(s)}, 0)
LoadDelta(I, s) == LET u(t) == Trip(I, t).cap IN SumOver(Up(s), u) - SumOver(Down(s), u)

(* One row of the timetable, given the previous row's departure, place and load *)
Row(I, pdep, ppos, pload, s) ==
  LET tr  == Dist(I, ppos, s.p)
      arr == pdep + tr
      ear == StopEarliest(I, s)
      ld  == StopLoadTime(I, s)
      st  == Max2(Max2(s.pin, ear), arr)
  IN [arr |-> arr, st |-> st, dep |-> st + ld, load |-> pload + LoadDelta(I, s),
      tr |-> tr, ear |-> ear, lat |-> StopLatest(I, s), ld |-> ld]

Sched(I, R) ==
  FoldLeft(LAMBDA acc, s :
             Append(acc, IF Len(acc) = 0
                         THEN Row(I, I.veh[R.v].oe, I.veh[R.v].o, 0, s)
                         ELSE Row(I, acc[Len(acc)].dep, R.s[Len(acc)].p, acc[Len(acc)].load, s)),
           <<>>, R.s)

Idle(I, v) == [v |-> v, s |-> <<NewStop(I.veh[v].o, <<>>, <<>>), NewStop(I.veh[v].d, <<>>, <<>>)>>]

Picked(R)    == UNION {Up(R.s[k]) : k \in DOMAIN R.s}
Delivered(R) == UNION {Down(R.s[k]) : k \in DOMAIN R.s}
PickAt(R, t) == CHOOSE k \in DOMAIN R.s : t \in Up(R.s[k])
DropAt(R, t) == CHOOSE k \in DOMAIN R.s : t \in Down(R.s[k])
LoadAtEnd(I, R) == FoldLeft(LAMBDA a, s : a + LoadDelta(I, s), 0, R.s)
Loaded(R) == \E k \in DOMAIN R.s : Len(R.s[k].P) > 0

RideTime(R, S, t) == S[DropAt(R, t)].st - S[PickAt(R, t)].dep
RouteDuration(S) == S[Len(S)].dep - S[1].dep
RouteDistance(S) == SumSeq([k \in DOMAIN S |-> S[k].tr])
RouteWaiting(S) == SumSeq([k \in DOMAIN S |-> S[k].st - S[k].arr])

------------------------------------------------------------------------------
(* C02: structure.  The set of names of broken clauses (empty: well formed). *)
Structure(I, R) ==
  LET n == Len(R.s)
      ups(t) == {k \in 1..n : t \in Up(R.s[k])}
      downs(t) == {k \in 1..n : t \in Down(R.s[k])}
      all == Picked(R) \cup Delivered(R)
  IN  (IF n >= 2 THEN {} ELSE {"two_ends"})
 \cup (IF n >= 1 /\ R.s[1].p = I.veh[R.v].o THEN {} ELSE {"starts_at_depot"})
 \cup (IF n >= 1 /\ R.s[n].p = I.veh[R.v].d THEN {} ELSE {"ends_at_depot"})
 \cup (IF \A k \in 1..n : Len(R.s[k].P) = Cardinality(Up(R.s[k])) /\ Len(R.s[k].D) = Cardinality(Down(R.s[k]))
       THEN {} ELSE {"no_repetition"})
 \cup (IF \A t \in all : Cardinality(ups(t)) = 1 THEN {} ELSE {"one_pickup"})
 \cup (IF \A t \in all : Cardinality(downs(t)) = 1 THEN {} ELSE {"one_delivery"})
 \cup (IF \A t \in all : \A a \in ups(t), b \in downs(t) : a < b THEN {} ELSE {"pickup_before_delivery"})
 \cup (IF \A t \in all : \A a \in ups(t) : R.s[a].p = Trip(I, t).o THEN {} ELSE {"pickup_place"})
 \cup (IF \A t \in all : \A a \in downs(t) : R.s[a].p = Trip(I, t).d THEN {} ELSE {"delivery_place"})

(* C03: the limits of the instance, on a timetable S; x is an extra slack for rounded data *)
Limits(I, R, S, x) ==
  LET n == Len(R.s)  V == I.veh[R.v]  e == EPS + x IN
      (IF \A k \in 1..n : S[k].load <= V.cap + e THEN {} ELSE {"capacity"})
 \cup (IF \A k \in 1..n : \A t \in Up(R.s[k]) : Trip(I, t).oe <= S[k].st + e THEN {} ELSE {"pickup_too_early"})
 \cup (IF \A k \in 1..n : \A t \in Up(R.s[k]) : S[k].st <= Trip(I, t).ol + e THEN {} ELSE {"pickup_too_late"})
 \cup (IF \A k \in 1..n : \A t \in Down(R.s[k]) : Trip(I, t).de <= S[k].st + e THEN {} ELSE {"delivery_too_early"})
 \cup (IF \A k \in 1..n : \A t \in Down(R.s[k]) : S[k].st <= Trip(I, t).dl + e THEN {} ELSE {"delivery_too_late"})
 \cup (IF \A t \in Picked(R) \cap Delivered(R) : RideTime(R, S, t) <= Trip(I, t).to + e THEN {} ELSE {"ride_too_long"})
 \cup (IF RouteDuration(S) <= V.to + e THEN {} ELSE {"route_too_long"})
 \cup (IF V.oe - e <= S[1].arr /\ V.oe - e <= S[1].dep THEN {} ELSE {"before_shift"})
 \cup (IF S[n].dep <= V.dl + e THEN {} ELSE {"after_shift"})

------------------------------------------------------------------------------
(* C05: verdicts *)
StopOK(I, R, S, k) ==
  /\ S[k].ear <= S[k].st + EPS
  /\ S[k].st <= S[k].lat + EPS
  /\ S[k].load <= I.veh[R.v].cap + EPS
RideOK(I, R, S, t) ==
  /\ StopOK(I, R, S, PickAt(R, t))
  /\ StopOK(I, R, S, DropAt(R, t))
  /\ RideTime(R, S, t) <= Trip(I, t).to + EPS
FeasibleS(I, R, S) ==
  LET n == Len(R.s)  V == I.veh[R.v] IN
  /\ R.s[1].p = V.o
  /\ V.oe - EPS <= S[1].arr
  /\ R.s[n].p = V.d
  /\ S[n].dep <= V.dl + EPS
  /\ RouteDuration(S) <= V.to + EPS
  /\ \A t \in Picked(R) : RideOK(I, R, S, t)
Feasible(I, R) == FeasibleS(I, R, Sched(I, R))

------------------------------------------------------------------------------
(* C14: objectives, as tuples compared lexicographically *)
AddT(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
LexLess(a, b) == \E k \in DOMAIN a : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
Dim(obj) == IF obj = "DialARide" THEN 2 ELSE 1
Zero(obj) == [k \in 1..Dim(obj) |-> 0]
AlongRide(R, S, t) == SumSeq([k \in 1..(DropAt(R, t) - PickAt(R, t)) |-> S[PickAt(R, t) + k].tr])
TripValue(I, obj, R, S, t) ==
  LET r == Trip(I, t) IN
  CASE obj = "DialARide"   -> <<1, -AlongRide(R, S, t)>>
    [] obj = "TaxiSharing" -> <<IF r.cap = 0 THEN 0 ELSE RideTime(R, S, t)>>
    [] obj = "HashCode"    -> <<IF r.cap = 0 THEN 0
                                ELSE Direct(I, t) + (IF OE(I, t) = S[PickAt(R, t)].dep THEN r.bonus ELSE 0)>>
StopValue(I, obj, R, S, k) == FoldSet(LAMBDA t, a : AddT(TripValue(I, obj, R, S, t), a), Zero(obj), Up(R.s[k]))
RouteValueS(I, obj, R, S) ==
  IF obj = "DialARide" THEN <<Cardinality(Picked(R)), -RouteDistance(S)>>
  ELSE FoldSet(LAMBDA t, a : AddT(TripValue(I, obj, R, S, t), a), Zero(obj), Picked(R))
RouteValue(I, obj, R) == RouteValueS(I, obj, R, Sched(I, R))
PlanValue(I, obj, routes) ==      \* routes: any collection given as a sequence
  FoldLeft(LAMBDA a, R : AddT(a, RouteValue(I, obj, R)), Zero(obj), routes)

------------------------------------------------------------------------------
(* C15: criteria.  Score as a fraction <<num, den>>; every criterion ranks "better" by BetterScore. *)
MeanNum(R, S) == LET f(t) == RideTime(R, S, t) IN SumOver(Picked(R), f)
Score(I, crit, R, S) ==
  LET f(t) == Direct(I, t)
      g(t) == Direct(I, t) + (IF OE(I, t) = S[PickAt(R, t)].dep THEN Trip(I, t).bonus ELSE 0) IN
  CASE crit = "EarliestLastDeparture" -> <<S[Len(S)].dep, 1>>
    [] crit = "ShortestAverage" -> IF Picked(R) = {} THEN <<0, 1>> ELSE <<MeanNum(R, S), Cardinality(Picked(R))>>
    [] crit = "ShortestTime" -> <<RouteDuration(S), 1>>
    [] crit = "LongestTime"  -> <<RouteDuration(S), 1>>
    [] crit = "LongestUtil"  -> <<SumOver(Picked(R), f), 1>>
    [] crit = "HashCode"     -> <<SumOver(Picked(R), g), 1>>
Maximises(crit) == crit \in {"LongestTime", "LongestUtil", "HashCode"}
\* a/b < c/d by continued comparison of quotients (avoids 32-bit overflow of cross products)
RECURSIVE FracLess(_, _)
FracLess(x, y) ==
  LET qx == x[1] \div x[2]  rx == x[1] % x[2]  qy == y[1] \div y[2]  ry == y[1] % y[2] IN
  IF qx # qy THEN qx < qy
  ELSE IF rx = 0 THEN ry # 0
  ELSE IF ry = 0 THEN FALSE
  ELSE FracLess(<<y[2], ry>>, <<x[2], rx>>)
BetterScore(crit, a, b) == IF Maximises(crit) THEN FracLess(b, a) ELSE FracLess(a, b)

------------------------------------------------------------------------------
(* C07: where a copy starts: the last cut at or before the wish (0-based, as in the API) that no trip straddles *)
CutAt(R, wish) ==
  LET ok(c) == \A t \in Picked(R) : ~(PickAt(R, t) - 1 < c /\ c <= DropAt(R, t) - 1)
      c0 == IF wish = 0 THEN 0 ELSE MaxOf({c \in 0..Min2(wish - 1, Len(R.s) - 1) : c = 0 \/ ok(c)}, 0)
  IN IF c0 = 1 THEN 0 ELSE c0

(* C06: insertion of trip t, pickup after stop i and delivery before stop j (0-based, i < j) *)
Plain(I, R, t, i, j) ==
  LET n == Len(R.s) IN
  [v |-> R.v,
   s |-> SubSeq(R.s, 1, i + 1) \o <<NewStop(Trip(I, t).o, <<t>>, <<>>)>>
         \o SubSeq(R.s, i + 2, j) \o <<NewStop(Trip(I, t).d, <<>>, <<t>>)>> \o SubSeq(R.s, j + 1, n)]

LongestRide(R, S, k) ==  \* the trip picked up at k that rides longest (unique unless the stop serves several)
  CHOOSE t \in Up(R.s[k]) : \A u \in Up(R.s[k]) : RideTime(R, S, t) >= RideTime(R, S, u)
DelayPickup(I, R, k) ==
  IF Up(R.s[k]) = {} THEN R
  ELSE LET S == Sched(I, R)
           t == LongestRide(R, S, k)
           x == Max2(Minus(RideTime(R, S, t), Trip(I, t).to), 0)
       IN [R EXCEPT !.s[k].pin = S[k].st + x]
LeaveLate(I, R) ==
  LET S == Sched(I, R)  w == S[2].st - S[2].arr IN
  IF w = 0 THEN R ELSE [R EXCEPT !.s[1].pin = S[1].st + w]
Improve(I, R, from) ==   \* from: 0-based first stop that may be delayed
  LET R1 == LeaveLate(I, R)  n == Len(R.s)  lo == Max2(from, 1) + 1 IN
  IF Feasible(I, R1) THEN R1
  ELSE FoldLeft(LAMBDA r, k : DelayPickup(I, r, k), R1, [m \in 1..(n - lo + 1) |-> n - m + 1])

Insertion(I, R, t, i, j) ==
  LET S == Sched(I, R)
      cut == IF S[2].st = S[2].arr THEN CutAt(R, i + 1) ELSE 0
  IN Improve(I, Plain(I, R, t, i, j), cut)

Pairs(n) == {<<i, j>> \in (0..(n - 1)) \X (0..(n - 1)) : i < j}
TailPair(n) == <<Max2(n - 2, 0), Max2(n - 1, 0)>>
Insertions(I, R, T, prs) == {Insertion(I, R, x[1], x[2][1], x[2][2]) : x \in T \X prs}
FeasibleInsertions(I, R, T, prs) == {r \in Insertions(I, R, T, prs) : Feasible(I, r)}

------------------------------------------------------------------------------
(* Route edits and local-search moves *)
PutAfter(s, pos, x) == SubSeq(s, 1, pos) \o <<x>> \o SubSeq(s, pos + 1, Len(s))   \* after pos elements
RemoveAtIdx(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Without(q, t) == SelectSeq(q, LAMBDA u : u # t)
DropTrip(R, t) ==      \* remove a trip; stops left without trips disappear
  LET touched(s) == t \in Up(s) \/ t \in Down(s)
      strip(s) == [s EXCEPT !.P = Without(s.P, t), !.D = Without(s.D, t)]
      step(acc, s) == IF ~touched(s) THEN Append(acc, s)
                      ELSE IF NoTrips(strip(s)) THEN acc ELSE Append(acc, strip(s))
  IN [R EXCEPT !.s = FoldLeft(LAMBDA acc, s : step(acc, s), <<>>, R.s)]
Swapped(R, k) == [R EXCEPT !.s = SubSeq(R.s, 1, k - 1) \o <<R.s[k + 1], R.s[k]>> \o SubSeq(R.s, k + 2, Len(R.s))]
Reversed(R, a, b) ==
  [R EXCEPT !.s = SubSeq(R.s, 1, a - 1) \o [m \in 1..(b - a + 1) |-> R.s[b - m + 1]] \o SubSeq(R.s, b + 1, Len(R.s))]
Ordered(R) ==
  \A t \in Picked(R) \cup Delivered(R) :
    LET a == {k \in DOMAIN R.s : t \in Up(R.s[k])}  b == {k \in DOMAIN R.s : t \in Down(R.s[k])} IN
    Cardinality(a) = 1 /\ Cardinality(b) = 1 /\ \A x \in a, y \in b : x < y
=============================================================================
