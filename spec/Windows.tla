------------------------------ MODULE Windows ------------------------------
(* C16: tightening the requested windows of a trip by each other.  Explores *)
(* every trip over small values (INF included) and shows that the usable    *)
(* windows of Dar are never looser than the requested ones and exclude no   *)
(* pair of visit times which respects the request: nothing that a user may  *)
(* ask for is lost.  Times of service, ride and visits are enumerated.      *)
EXTENDS Dar
CONSTANT Top
VARIABLES x, g
Vals == 0..Top
Maybe == Vals \cup {INF}
Init == /\ g \in 0..2
        /\ x \in [o : {1}, d : {2}, oe : Vals, ol : Maybe, od : 0..2, de : Vals, dl : Maybe, dd : 0..2,
                  cap : {1}, to : {0, 1, 2, INF}, bonus : {0}]
        /\ x.oe <= x.ol /\ x.de <= x.dl
Next == FALSE /\ UNCHANGED <<x, g>>
I == [metric |-> "E", pos |-> <<<<0>>, <<0>>>>, dist |-> <<<<0, g>>, <<g, 0>>>>, trips |-> <<x>>, veh |-> << >>]
(* visit times (start of pickup, start of delivery) that respect the request *)
Allowed == {q \in (0..(2 * Top)) \X (0..(3 * Top)) :
              /\ x.oe <= q[1] /\ q[1] <= x.ol /\ x.de <= q[2] /\ q[2] <= x.dl
              /\ q[2] >= q[1] + x.od + g
              /\ q[2] - (q[1] + x.od) <= x.to}
InvNoLooser == OE(I, 1) >= x.oe /\ OL(I, 1) <= x.ol /\ DE(I, 1) >= x.de /\ DL(I, 1) <= x.dl
InvNothingLost == \A q \in Allowed : OE(I, 1) <= q[1] /\ q[1] <= OL(I, 1) /\ DE(I, 1) <= q[2] /\ q[2] <= DL(I, 1)
(* with one window only and time to wait the tightening is exact: each end of the other one is attained *)
InvTight == (x.oe = 0 /\ x.ol = INF /\ x.to = INF /\ x.dl # INF /\ x.dl >= x.od + g /\ x.de <= x.dl) =>
               \E q \in Allowed : q[1] = OL(I, 1)
=============================================================================
