---------------------------- MODULE SearchTrace ----------------------------
(* Validates recorded local-search runs (C11, C12).                         *)
(* Trace: [id, checks, inst, obj, strat, routes0, ev, initial, final, feasible]  *)
(*   routes0: seq over vehicles with the requested starts actually made     *)
(*   ev: seq of [after]: the plan after each pass, from the plan before it  *)
(*   initial/final: announced contents before and after the whole search    *)
EXTENDS Judge

VARIABLES j, pos, cands       \* the plans (with requested starts) that may explain what was seen so far
Tr == Data[j]
I == Tr.inst

Key(s) == <<Up(s), Down(s)>>
(* requested starts move with the stops *)
CarryPins(old, new) ==
  [v \in DOMAIN new |->
     [new[v] EXCEPT !.s = [k \in DOMAIN new[v].s |->
        LET s == new[v].s[k]
            src == {m \in DOMAIN old[v].s : Key(old[v].s[m]) = Key(s) /\ (NoTrips(s) => (m = 1) = (k = 1))}
        IN [s EXCEPT !.pin = IF src = {} THEN NOPIN ELSE old[v].s[CHOOSE m \in src : TRUE].pin]]]]
SameShape(a, b) == \A v \in DOMAIN a : Shape(I, a[v]) = Shape(I, b[v])
AllSound(rs) == /\ DOMAIN rs = Vehicles(I) /\ \A v \in DOMAIN rs : rs[v].v = v /\ Sound(I, rs[v])

Adopted(rs, after) ==     \* the modelled plans after an observed pass
  IF SameShape(rs, after) THEN {rs}
  ELSE IF Tr.strat = "reallocation" THEN {n \in Neighbours(I, Tr.strat, rs) : SameShape(n, after)}
  ELSE {q \in {CarryPins(rs, after)} : SameShape(q, after)}

(* the moves that a search has to try: a trip goes at every position pair of a route of at most sixteen stops
   (120 pairs); longer routes are sampled (128 pairs), so that none of their moves is due *)
Due(rs) ==
  LET free == [v \in DOMAIN rs |-> Len(rs[v].s) <= 16] IN
  IF Tr.strat = "reallocation" /\ \E v \in DOMAIN rs : ~free[v]
  THEN {n \in Neighbours(I, Tr.strat, rs) : \A v \in DOMAIN rs : Picked(n[v]) \subseteq Picked(rs[v]) \/ free[v]}
  ELSE Neighbours(I, Tr.strat, rs)
BestMove(rs, after) ==
  Tr.strat # "reallocation" \/
  LET va == Value(I, Tr.obj, after) IN \A n \in Due(rs) : ~LexLess(va, Value(I, Tr.obj, n))
LocalOpt(rs) ==
  LET val == Value(I, Tr.obj, rs) IN \A n \in Due(rs) : ~LexLess(val, Value(I, Tr.obj, n))

Outcome ==
  IF ~AllSound(Tr.final) THEN {"not_a_plan"}
  ELSE LET a == Tr.initial  b == Tr.final  va == Value(I, Tr.obj, a)  vb == Value(I, Tr.obj, b) IN
     Cl("feasible", (\A v \in DOMAIN a : Feasible(I, a[v])) => Tr.feasible /\ \A v \in DOMAIN b : Feasible(I, b[v]))
\cup Cl("same_trips", ServedBy(a) = ServedBy(b))
\cup Cl("each_once", UniqueService(I, b))
\cup Cl("not_worse", ~LexLess(vb, va))
\cup Cl("unchanged_when_not_better", va = vb => \A v \in DOMAIN a : SameContent(a[v], b[v]))

(* a clause is broken when no explaining plan satisfies it *)
Init == j \in DOMAIN Data /\ pos = 0 /\ cands = {Data[j].routes0}
Start == /\ pos = 0 /\ pos' = 1
         /\ Report(Tr.id, 0, IF Wants(Tr, "outcome") THEN Outcome ELSE {})
         /\ UNCHANGED <<j, cands>>
Pass == /\ pos \in 1..Len(Tr.ev) /\ Wants(Tr, "optimum")
        /\ LET after == Tr.ev[pos].after IN
           IF ~AllSound(after) THEN /\ Report(Tr.id, pos, {"not_a_plan"}) /\ pos' = Len(Tr.ev) + 3
                                    /\ Finished(Tr.id, pos) /\ cands' = cands
           ELSE LET ad == UNION {Adopted(rs, after) : rs \in cands} IN
                IF ad = {} THEN /\ pos' = Len(Tr.ev) + 3 /\ Finished(Tr.id, pos) /\ cands' = cands
                                /\ Report(Tr.id, pos, {"not_a_move"})
                ELSE /\ Report(Tr.id, pos, Cl("best_move_of_the_pass", \E rs \in cands : BestMove(rs, after)))
                     /\ pos' = pos + 1 /\ cands' = ad
        /\ UNCHANGED j
End == /\ pos = (IF Wants(Tr, "optimum") THEN Len(Tr.ev) + 1 ELSE 1)
       /\ pos' = Len(Tr.ev) + 3
       /\ Report(Tr.id, pos, IF Wants(Tr, "optimum")
                             THEN Cl("returns_last_plan", \E rs \in cands : SameShape(rs, Tr.final))
                                  \cup Cl("local_optimum", \E rs \in cands : LocalOpt(rs)) ELSE {})
       /\ Finished(Tr.id, pos)
       /\ UNCHANGED <<j, cands>>
Next == Start \/ Pass \/ End
=============================================================================
