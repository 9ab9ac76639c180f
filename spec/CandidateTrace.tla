--------------------------- MODULE CandidateTrace ---------------------------
(* Validates what an insertion search offers for one route (C06).           *)
(* Record: [id, inst, base, trips, mode, count, only, timing, out]          *)
(*   base: route with its requested starts; out: routes with announced ones *)
(*   mode: "all" | "tail" | "sample" | "pair" (then at: <<i, j>>)           *)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
I == Rec.inst
B == Rec.base
n == Len(B.s)
T == ToSet(Rec.trips)

NewTrip(R) == CHOOSE t \in Picked(R) : t \notin Picked(B)
(* where the new trip was put: pickup after stop i, delivery before stop j, 0-based in the base *)
At(R) == LET t == NewTrip(R) IN <<PickAt(R, t) - 2, DropAt(R, t) - 2>>
Adds(R) ==
  /\ Sound(I, R) /\ R.v = B.v
  /\ Cardinality(Picked(R) \ Picked(B)) = 1 /\ Picked(B) \subseteq Picked(R) /\ (Picked(R) \ Picked(B)) \subseteq T
  /\ Len(R.s) = n + 2 /\ KeepsOrder(R, B)
  /\ LET t == NewTrip(R) IN Up(R.s[PickAt(R, t)]) = {t} /\ Down(R.s[PickAt(R, t)]) = {}
                            /\ Down(R.s[DropAt(R, t)]) = {t} /\ Up(R.s[DropAt(R, t)]) = {}
Offered == {[t |-> NewTrip(Rec.out[k]), at |-> At(Rec.out[k])] : k \in DOMAIN Rec.out}
OfferedAt(t) == {x.at : x \in {y \in Offered : y.t = t}}
Allowed == CASE Rec.mode = "all" -> Pairs(n) [] Rec.mode = "tail" -> {TailPair(n)}
             [] Rec.mode = "sample" -> Pairs(n) [] Rec.mode = "pair" -> {<<Rec.at[1], Rec.at[2]>>}
Everything == Rec.mode # "sample" \/ Rec.count >= Cardinality(Pairs(n))
Enough == Min2(Rec.count, Cardinality(Pairs(n)))

Bad ==
  IF \E k \in DOMAIN Rec.out : ~Adds(Rec.out[k]) THEN {"one_trip_added_order_kept"}
  ELSE Cl("only_feasible", Rec.only => \A k \in DOMAIN Rec.out : Feasible(I, Rec.out[k]))
  \cup Cl("each_pair_once", Cardinality(Offered) = Len(Rec.out))
  \cup Cl("positions_of_the_strategy", \A x \in Offered : x.at \in Allowed)
  \cup Cl("every_pair_tried", ~Rec.only /\ Everything => \A t \in T : OfferedAt(t) = Allowed)
  \cup Cl("as_many_as_asked_for", ~Rec.only /\ Rec.mode = "sample" => \A t \in T : Cardinality(OfferedAt(t)) = Enough)
  \cup Cl("not_more_than_asked_for", Rec.mode = "sample" => Cardinality({x.at : x \in Offered}) <= Enough)
  \cup Cl("no_feasible_pair_lost", Everything => \A t \in T : \A at \in Allowed :
            at \in OfferedAt(t) \/ ~Feasible(I, Plain(I, B, t, at[1], at[2])))
  \cup Cl("timing", Rec.timing => \A k \in DOMAIN Rec.out :
            LET x == [t |-> NewTrip(Rec.out[k]), at |-> At(Rec.out[k])] IN
            Shape(I, Rec.out[k]) = Shape(I, Insertion(I, B, x.t, x.at[1], x.at[2])))
  \cup Cl("feasible_after_improvement", Rec.timing /\ Everything => \A t \in T : \A at \in Allowed :
            at \in OfferedAt(t) \/ ~Feasible(I, Insertion(I, B, t, at[1], at[2])))

Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(Rec.out))
=============================================================================
