---------------------------- MODULE RouteEditSim ----------------------------
(* Random histories of RouteEdit, printed as JSON to be replayed on the code. *)
EXTENDS RouteEdit, Json, IOUtils
SimData == JsonDeserialize(IOEnv.DATA)
SimCases == SimData
SimStarts == {k * 5 * UNIT : k \in 0..16}
Pick(S) == RandomElement(S)
SimInit == \E k \in DOMAIN Cases : c = k /\ heap = <<[r |-> Cases[k].r, sh |-> 0]>> /\ hist = <<>>
(* one random operation; \E over a singleton fixes each drawn value *)
One(S, Op(_)) == IF S = {} THEN FALSE ELSE \E x \in {RandomElement(S)} : Op(x)
Draw(h, a, i, j) ==
  \/ a \in 1..5 /\ One(Free(h), LAMBDA t : AppendTrip(h, t, Min2(i, j), Max2(i, j)))
  \/ a = 6 /\ One(DOMAIN I.pos, LAMBDA p : InsertStop(h, i, p))
  \/ a = 7 /\ One({k \in 1..(N(h) - 2) : NoTrips(RR(h).s[k + 1])}, LAMBDA k : RemoveStop(h, k))
  \/ a \in 8..10 /\ One(OwnTrips(h), LAMBDA t : RemoveTrip(h, t))
  \/ a \in 11..12 /\ One(Starts, LAMBDA x : SetStart(h, i, x))
  \/ a = 13 /\ One(Starts, LAMBDA x : NewFirst(h, x))
  \/ a = 14 /\ Clone(h, i)
  \/ a = 15 /\ DeepCopy(h)
  \/ a \in 16..22 /\ One(Whats, LAMBDA w : Read(h, w))
  \/ a = 23 /\ One(DOMAIN I.pos, LAMBDA p : Stray(h, p))
DrawOffer(h, a, i, j) ==
  \/ a \in 1..12 /\ One(Free(h), LAMBDA t : Offer(h, t, Min2(i, j), Max2(i, j)))
  \/ a \in 13..14 /\ One(Free(h), LAMBDA t : AppendTrip(h, t, Min2(i, j), Max2(i, j)))
  \/ a = 15 /\ One(OwnTrips(h), LAMBDA t : RemoveTrip(h, t))
  \/ a = 16 /\ One(Starts, LAMBDA x : SetStart(h, i, x))
  \/ a \in 17..22 /\ One(Whats, LAMBDA w : Read(h, w))
SimNextOffers ==
  /\ Len(hist) < MaxOps
  /\ \/ \E h \in {RandomElement(DOMAIN heap)}, a \in {RandomElement(1..22)} :
          \E i \in {RandomElement(0..(N(h) - 1))}, j \in {RandomElement(0..(N(h) - 1))} : DrawOffer(h, a, i, j)
     \/ UNCHANGED ev
SimNext ==
  /\ Len(hist) < MaxOps
  /\ \/ \E h \in {RandomElement(DOMAIN heap)}, a \in {RandomElement(1..23)} :
          \E i \in {RandomElement(0..(N(h) - 1))}, j \in {RandomElement(0..(N(h) - 1))} : Draw(h, a, i, j)
     \/ UNCHANGED ev
(* at the end every route is read *)
Final == [k \in DOMAIN heap |-> [op |-> "read", h |-> k, what |-> "all", exp |-> Answers(RR(k)), plan |-> PlanOK]]
Emit == Len(hist) = MaxOps => PrintT(<<"H", c, ToJson(hist \o Final)>>)
=============================================================================
