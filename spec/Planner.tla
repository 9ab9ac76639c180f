------------------------------ MODULE Planner ------------------------------
(***************************************************************************)
(* The planning process: construction by insertion, local search, episodes.*)
(***************************************************************************)
EXTENDS Steps

(* The model *)
CONSTANTS Insts,        \* sequence of instances
          Mode,         \* "all" | "tail": insertion positions
          Crit,         \* greedy criterion, or "any": take any feasible candidate
          Obj, Strats,  \* objective, set of local-search strategies
          Episodes, Restart

VARIABLES id, routes, pending, phase, strat, best, ep
vars == <<id, routes, pending, phase, strat, best, ep>>
Inst == Insts[id]
NoPlan == << >>

Init ==
  /\ id \in DOMAIN Insts
  /\ routes = [v \in Vehicles(Insts[id]) |-> Idle(Insts[id], v)]
  /\ pending = Trips(Insts[id])
  /\ phase = "insert" /\ strat = "none" /\ best = NoPlan /\ ep = 1

OfferedVeh == LoadedVeh(routes) \cup
              (IF IdleVeh(routes) = {} THEN {} ELSE {CHOOSE v \in IdleVeh(routes) : \A w \in IdleVeh(routes) : v <= w})
AllOffers == UNION {Offers(Inst, Mode, routes, pending, v) : v \in OfferedVeh}
Sc(r) == Score(Inst, Crit, r, Sched(Inst, r))
Chosen == IF Crit = "any" THEN AllOffers
          ELSE {r \in AllOffers : \A q \in AllOffers : ~BetterScore(Crit, Sc(q), Sc(r))}

Insert ==
  /\ phase = "insert"
  /\ \E r \in Chosen :
       /\ routes' = [routes EXCEPT ![r.v] = r]
       /\ pending' = pending \ Picked(r)
  /\ UNCHANGED <<id, phase, strat, best, ep>>
Stuck ==
  /\ phase = "insert" /\ AllOffers = {}
  /\ IF Strats = {} THEN phase' = "episode" /\ strat' = "none"
     ELSE phase' = "search" /\ strat' \in Strats
  /\ UNCHANGED <<id, routes, pending, best, ep>>
Move ==
  /\ phase = "search"
  /\ \E n \in Neighbours(Inst, strat, routes) : Better(Inst, Obj, n, routes) /\ routes' = n
  /\ UNCHANGED <<id, pending, phase, strat, best, ep>>
LocalOptimum ==
  /\ phase = "search"
  /\ \A n \in Neighbours(Inst, strat, routes) : ~Better(Inst, Obj, n, routes)
  /\ phase' = "episode" /\ strat' = "none"
  /\ UNCHANGED <<id, routes, pending, best, ep>>
EndEpisode ==
  /\ phase = "episode"
  /\ best' = IF best = NoPlan \/ Better(Inst, Obj, routes, best) THEN routes ELSE best
  /\ IF ep = Episodes
     THEN phase' = "done" /\ routes' = best' /\ pending' = PendingOf(Inst, best') /\ ep' = ep
     ELSE /\ phase' = "insert" /\ ep' = ep + 1
          /\ routes' = IF Restart THEN [v \in Vehicles(Inst) |-> Idle(Inst, v)] ELSE best'
          /\ pending' = PendingOf(Inst, routes')
  /\ UNCHANGED <<id, strat>>
Done == phase = "done" /\ UNCHANGED vars
Next == Insert \/ Stuck \/ Move \/ LocalOptimum \/ EndEpisode \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Insert \/ Stuck \/ Move \/ LocalOptimum \/ EndEpisode)

------------------------------------------------------------------------------
(* C01 *) InvUnique == UniqueService(Inst, routes)
(* C02 *) InvStructure == \A v \in DOMAIN routes : Structure(Inst, routes[v]) = {}
(* C03 *) InvLimits == \A v \in DOMAIN routes : Limits(Inst, routes[v], Sched(Inst, routes[v]), 0) = {}
(* C05 *) InvVerdict == \A v \in DOMAIN routes : Feasible(Inst, routes[v])
(* C04 *) InvLoad == \A v \in DOMAIN routes : LET S == Sched(Inst, routes[v]) IN
            /\ S[Len(S)].load = 0
            /\ \A k \in DOMAIN S : S[k].load >= 0 /\ S[k].st >= S[k].arr
            /\ \A k \in 1..(Len(S) - 1) : S[k].dep + S[k + 1].tr = S[k + 1].arr
(* C09 *) InvPending == pending = PendingOf(Inst, routes)
(* C16: usable windows never admit what the request forbids *)
InvWindows == \A t \in Trips(Inst) :
   OE(Inst, t) >= Trip(Inst, t).oe /\ OL(Inst, t) <= Trip(Inst, t).ol /\
   DE(Inst, t) >= Trip(Inst, t).de /\ DL(Inst, t) <= Trip(Inst, t).dl
(* C09: served trips only grow while inserting *)
PropServedGrow == [][phase = "insert" /\ phase' = "insert" /\ ep' = ep => ServedBy(routes) \subseteq ServedBy(routes')]_vars
(* C09: nothing feasible is left when the construction stops (identical vehicles) *)
Identical == \A v, w \in Vehicles(Inst) : Inst.veh[v] = Inst.veh[w]
PropStuckMaximal == [][Stuck /\ Identical => \A v \in Vehicles(Inst) : Offers(Inst, Mode, routes, pending, v) = {}]_vars
(* C11: moves never worsen and keep the served trips *)
PropMoves == [][Move => ServedBy(routes') = ServedBy(routes) /\ Better(Inst, Obj, routes', routes)]_vars
(* C12 *)
PropOptimum == [][LocalOptimum => \A n \in Neighbours(Inst, strat, routes) : ~Better(Inst, Obj, n, routes)]_vars
(* C13: the incumbent never gets worse *)
PropBest == [][best # NoPlan => best' = best \/ Better(Inst, Obj, best', best)]_vars
Terminates == <>(phase = "done")
=============================================================================
