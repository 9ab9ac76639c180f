---------------------------- MODULE SurfaceTrace ----------------------------
(* Judges the answers of real surfaces along a history of Surface (C22).    *)
(* Record: [id, metrics, coords, hist]; each operation carries what was     *)
(* observed: got (distance in the scale of the case; thousandths of it for  *)
(* Euclidean ones), same, keys, n and places.                               *)
EXTENDS Judge

VARIABLES j, i, objs
Rec == Data[j]
Dist2(sf, x, y) ==      \* Manhattan distance, or square of the Euclidean one
  LET a == Rec.coords[x]  b == Rec.coords[y] IN
  FoldLeft(LAMBDA acc, k : acc + (IF Rec.metrics[sf] = "M" THEN Abs(a[k] - b[k]) ELSE (a[k] - b[k]) * (a[k] - b[k])), 0,
           [k \in DOMAIN a |-> k])
IsDistance(sf, x, y, got) ==
  IF Rec.metrics[sf] = "M" THEN got = Dist2(sf, x, y)
  ELSE got >= 0 /\ got < 46000 /\ LET s == Dist2(sf, x, y) * 1000000 IN
       Max2(0, got - 1) * Max2(0, got - 1) <= s /\ s <= (got + 1) * (got + 1) /\ (s = 0 => got = 0)
Of(sf) == {Rec.coords[objs[k].c] : k \in {n \in DOMAIN objs : objs[n].sf = sf}}
O == Rec.hist[i]
C(k) == Rec.coords[objs[k].c]
Bad ==
  CASE O.op = "make" ->
         Cl("coordinates", O.coords = Rec.coords[O.c])
         \cup Cl("places", O.n = Cardinality(Of(O.sf) \cup {Rec.coords[O.c]}))
    [] O.op = "same" ->
         Cl("equality", O.eq = (C(O.a) = C(O.b)) /\ O.ne = (C(O.a) # C(O.b)))
         \cup Cl("interchangeable", C(O.a) = C(O.b) => O.keys = 1)
         \cup Cl("distinguished", C(O.a) # C(O.b) => O.keys = 2)
         \cup Cl("services", O.service = (C(O.a) = C(O.b)))
    [] O.op = "places" -> Cl("places", ToSet(O.places) = Of(O.sf) /\ Len(O.places) = Cardinality(Of(O.sf)))
    [] OTHER -> Cl(O.op, IsDistance(objs[O.a].sf, objs[O.a].c, objs[O.b].c, O.got))
Init == j \in DOMAIN Data /\ i = 1 /\ objs = << >>
Next ==
  /\ i <= Len(Rec.hist) /\ i' = i + 1 /\ j' = j
  /\ objs' = (IF O.op = "make" THEN Append(objs, [sf |-> O.sf, c |-> O.c]) ELSE objs)
  /\ Report(Rec.id, i, Bad)
  /\ (i = Len(Rec.hist) => Finished(Rec.id, i))
=============================================================================
