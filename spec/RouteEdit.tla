----------------------------- MODULE RouteEdit -----------------------------
(***************************************************************************)
(* Histories of edits of routes: adding and removing stops and trips,      *)
(* requesting starts, reading, cloning from a point and deep copies        *)
(* (C04, C05, C07).  The abstract state has no caches: what a read must    *)
(* answer depends on the present content only.                             *)
(*                                                                         *)
(*  heap: sequence of [r, sh]: a route and how many of its leading stops   *)
(*  may be shared with another route of the heap (edits start behind them) *)
(*  hist: the operations done so far, reads with the answers they must get *)
(***************************************************************************)
EXTENDS Steps

CONSTANTS Cases,      \* sequence of [inst, r]: instance and first route
          MaxOps, MaxHeap, Starts     \* Starts: requested starts to try

VARIABLES c, heap, hist
ev == <<c, heap, hist>>
I == Cases[c].inst

Log(e) == hist' = Append(hist, e)
Put(h, r) == heap' = [heap EXCEPT ![h].r = r]
RR(h) == heap[h].r
N(h) == Len(RR(h).s)
Free(h) == Trips(I) \ Picked(RR(h))
OwnTrips(h) == {t \in Picked(RR(h)) : PickAt(RR(h), t) > heap[h].sh}

Answers(R) ==
  LET S == Sched(I, R) IN
  [content |-> R,
   rows |-> S,
   waits |-> [k \in DOMAIN S |-> S[k].st - S[k].arr],
   dur |-> RouteDuration(S), dist |-> RouteDistance(S), wait |-> RouteWaiting(S),
   fdep |-> S[1].dep, ldep |-> S[Len(S)].dep,
   rides |-> [k \in 1..Cardinality(Picked(R)) |->
      LET t == SortedSeq(Picked(R))[k]  a == PickAt(R, t)  b == DropAt(R, t) IN
      [t |-> t, dur |-> RideTime(R, S, t), from |-> S[a].dep, to |-> S[b].st,
       wait |-> SumSeq([m \in 1..(b - a) |-> S[a + m].st - S[a + m].arr]),
       drive |-> SumSeq([m \in 1..(b - a) |-> S[a + m].tr]),
       service |-> S[a].ld + S[b].ld,
       ok |-> RideOK(I, R, S, t)]],
   stopok |-> [k \in DOMAIN S |-> StopOK(I, R, S, k)],
   ok |-> FeasibleS(I, R, S)]

(* indices are 0-based positions in the list of stops, as in the API *)
AppendTrip(h, t, i, j) ==     \* pickup behind stop i, delivery in front of stop j
  /\ t \in Free(h) /\ i >= heap[h].sh - 1 /\ i >= 0 /\ i < j /\ j <= N(h) - 1
  /\ Put(h, Plain(I, RR(h), t, i, j))
  /\ Log([op |-> "append", h |-> h, t |-> t, i |-> i, j |-> j]) /\ UNCHANGED c
InsertStop(h, k, p) ==        \* a stop without trips at index k
  /\ k >= heap[h].sh /\ k >= 1 /\ k <= N(h) - 1
  /\ Put(h, [RR(h) EXCEPT !.s = PutAfter(RR(h).s, k, NewStop(p, <<>>, <<>>))])
  /\ Log([op |-> "insert", h |-> h, k |-> k, p |-> p]) /\ UNCHANGED c
Stray(h, p) ==                \* a stop behind one that is not on the route: refused
  /\ Log([op |-> "stray", h |-> h, p |-> p]) /\ UNCHANGED <<c, heap>>
RemoveStop(h, k) ==
  /\ k >= heap[h].sh /\ k >= 1 /\ k <= N(h) - 2 /\ NoTrips(RR(h).s[k + 1])
  /\ Put(h, [RR(h) EXCEPT !.s = RemoveAtIdx(RR(h).s, k + 1)])
  /\ Log([op |-> "remove", h |-> h, k |-> k]) /\ UNCHANGED c
RemoveTrip(h, t) ==
  /\ t \in OwnTrips(h)
  /\ Put(h, DropTrip(RR(h), t))
  /\ Log([op |-> "drop", h |-> h, t |-> t]) /\ UNCHANGED c
SetStart(h, k, x) ==
  /\ k >= heap[h].sh /\ k <= N(h) - 1
  /\ Put(h, [RR(h) EXCEPT !.s[k + 1].pin = x])
  /\ Log([op |-> "start", h |-> h, k |-> k, x |-> x]) /\ UNCHANGED c
NewFirst(h, x) ==             \* the first stop is replaced
  /\ heap[h].sh = 0 /\ NoTrips(RR(h).s[1])
  /\ Put(h, [RR(h) EXCEPT !.s[1] = [NewStop(I.veh[RR(h).v].o, <<>>, <<>>) EXCEPT !.pin = x]])
  /\ Log([op |-> "first", h |-> h, x |-> x]) /\ UNCHANGED c
Clone(h, w) ==                \* from stop w on the copy has its own stops
  /\ Len(heap) < MaxHeap /\ w <= N(h) - 1
  /\ heap' = Append([heap EXCEPT ![h].sh = Max2(heap[h].sh, w)], [r |-> RR(h), sh |-> w])
  /\ Log([op |-> "clone", h |-> h, w |-> w]) /\ UNCHANGED c
DeepCopy(h) ==
  /\ Len(heap) < MaxHeap
  /\ heap' = Append(heap, [r |-> RR(h), sh |-> 0])
  /\ Log([op |-> "deepcopy", h |-> h]) /\ UNCHANGED c
(* the search offers route h with trip t inserted; stops before the insertion may be shared *)
SinglePickups(R) == \A k \in DOMAIN R.s : Len(R.s[k].P) <= 1
Offer(h, t, i, j) ==
  /\ Len(heap) < MaxHeap /\ t \in Free(h) /\ 0 <= i /\ i < j /\ j <= N(h) - 1 /\ SinglePickups(RR(h))
  /\ heap' = Append([heap EXCEPT ![h].sh = Max2(heap[h].sh, i + 1)],
                    [r |-> Insertion(I, RR(h), t, i, j), sh |-> i + 1])
  /\ Log([op |-> "offer", h |-> h, t |-> t, i |-> i, j |-> j]) /\ UNCHANGED c
(* the plan made of all routes of the heap *)
PlanOK == \A h \in DOMAIN heap : FeasibleS(I, RR(h), Sched(I, RR(h)))
Read(h, what) ==
  /\ Log([op |-> "read", h |-> h, what |-> what, exp |-> Answers(RR(h)), plan |-> PlanOK]) /\ UNCHANGED <<c, heap>>

Whats == {"all", "times", "verdict", "rides", "backwards"}
Init == /\ c \in DOMAIN Cases
        /\ heap = <<[r |-> Cases[c].r, sh |-> 0]>>
        /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxOps
  /\ \E h \in DOMAIN heap :
       \/ \E t \in Trips(I) : \E i, j \in 0..(N(h) - 1) : AppendTrip(h, t, i, j)
       \/ \E k \in 0..N(h), p \in DOMAIN I.pos : InsertStop(h, k, p)
       \/ \E p \in DOMAIN I.pos : Stray(h, p)
       \/ \E k \in 0..N(h) : RemoveStop(h, k)
       \/ \E t \in Trips(I) : RemoveTrip(h, t)
       \/ \E k \in 0..(N(h) - 1), x \in Starts : SetStart(h, k, x)
       \/ \E x \in Starts : NewFirst(h, x)
       \/ \E w \in 0..(N(h) - 1) : Clone(h, w)
       \/ DeepCopy(h)
NextOffers ==
  /\ Len(hist) < MaxOps
  /\ \E h \in DOMAIN heap :
       \/ \E t \in Trips(I) : \E i, j \in 0..(N(h) - 1) : Offer(h, t, i, j)
       \/ \E t \in Trips(I) : RemoveTrip(h, t)
       \/ \E k \in 0..(N(h) - 1), x \in Starts : SetStart(h, k, x)

(* what must be true of any route reached by edits *)
InvOrdered == \A h \in DOMAIN heap : Structure(I, RR(h)) = {}
InvRecurrence == \A h \in DOMAIN heap : LET S == Sched(I, RR(h)) IN
   /\ S[1].arr = Plus(I.veh[RR(h).v].oe, Dist(I, I.veh[RR(h).v].o, RR(h).s[1].p))
   /\ \A k \in DOMAIN S : S[k].arr <= S[k].st /\ S[k].st <= S[k].dep /\ S[k].load >= 0 /\ S[k].st >= RR(h).s[k].pin
   /\ \A k \in 1..(Len(S) - 1) : S[k].dep <= S[k + 1].arr
   /\ S[Len(S)].load = 0
   /\ RouteDuration(S) >= 0
InvVerdict == \A h \in DOMAIN heap : LET R == RR(h)  S == Sched(I, R) IN
   FeasibleS(I, R, S) => Limits(I, R, S, 0) = {}
(* routes that share stops agree on them *)
InvShared == \A h \in DOMAIN heap : heap[h].sh <= N(h)
=============================================================================
