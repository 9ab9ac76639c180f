------------------------------ MODULE Surface ------------------------------
(***************************************************************************)
(* Surfaces and places (C22).  A history makes place objects on several    *)
(* surfaces, asks for distances and travel times, and compares places.     *)
(* Coordinates are whole numbers in the case's own scale.  memo is what a  *)
(* surface may remember of earlier answers; it must never show.            *)
(*   Case == [metrics : Seq of "M" / "E", coords : Seq of coordinates]     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT MaxOps
Cases == JsonDeserialize(IOEnv.DATA)
VARIABLES c, objs, memo, hist
sv == <<c, objs, memo, hist>>

Diffs(a, b) == [k \in DOMAIN a |-> IF a[k] < b[k] THEN b[k] - a[k] ELSE a[k] - b[k]]
(* the metric; Euclidean distances by their squares *)
Metric(m, a, b) == FoldLeft(LAMBDA x, d : x + (IF m = "M" THEN d ELSE d * d), 0, Diffs(a, b))
Case == Cases[c]
Of(sf) == {objs[k].c : k \in {n \in DOMAIN objs : objs[n].sf = sf}}
Coord(k) == Case.coords[objs[k].c]
Value(sf, x, y) == Metric(Case.metrics[sf], Case.coords[x], Case.coords[y])
Make(sf, x) ==
  /\ objs' = Append(objs, [sf |-> sf, c |-> x]) /\ UNCHANGED <<c, memo>>
  /\ hist' = Append(hist, [op |-> "make", sf |-> sf, c |-> x, a |-> 0, b |-> 0])
Ask(op, a, b) ==
  /\ objs[a].sf = objs[b].sf
  /\ LET sf == objs[a].sf  hit == {m \in memo : m.sf = sf /\ m.a = objs[a].c /\ m.b = objs[b].c} IN
       memo' = IF hit = {} THEN memo \cup {[sf |-> sf, a |-> objs[a].c, b |-> objs[b].c,
                                            val |-> Value(sf, objs[a].c, objs[b].c)]} ELSE memo
  /\ hist' = Append(hist, [op |-> op, sf |-> objs[a].sf, c |-> 0, a |-> a, b |-> b])
  /\ UNCHANGED <<c, objs>>
Compare(a, b) ==
  /\ hist' = Append(hist, [op |-> "same", sf |-> 0, c |-> 0, a |-> a, b |-> b]) /\ UNCHANGED <<c, objs, memo>>
Places(sf) ==
  /\ hist' = Append(hist, [op |-> "places", sf |-> sf, c |-> 0, a |-> 0, b |-> 0]) /\ UNCHANGED <<c, objs, memo>>

Asks == {"distance", "time", "service_distance", "service_time", "surface_distance"}
Init == c \in DOMAIN Cases /\ objs = << >> /\ memo = {} /\ hist = << >>
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E sf \in DOMAIN Case.metrics, x \in DOMAIN Case.coords : Make(sf, x)
     \/ \E a, b \in DOMAIN objs : Ask("distance", a, b)
View == <<c, {objs[k] : k \in DOMAIN objs}, memo, Len(hist)>>
InvMemo == \A m \in memo : m.val = Value(m.sf, m.a, m.b)
InvSymmetric == \A m \in memo, n \in memo : m.sf = n.sf /\ m.a = n.b /\ m.b = n.a => m.val = n.val
InvZero == \A m \in memo : (m.val = 0) <=> Case.coords[m.a] = Case.coords[m.b]
InvTriangle == \A m, n, o \in memo : Case.metrics[m.sf] = "M" /\ m.sf = n.sf /\ n.sf = o.sf /\ m.b = n.a /\ o.a = m.a /\ o.b = n.b
                  => o.val <= m.val + n.val

(* histories drawn at random, to be replayed *)
SimInit == c \in DOMAIN Cases /\ objs = << >> /\ memo = {} /\ hist = << >>
One(S, Op(_)) == \E x \in {RandomElement(S)} : Op(x)
SimNext ==
  /\ Len(hist) < MaxOps
  /\ \E r \in {RandomElement(1..20)} :
       IF Len(objs) = 0 \/ r <= 5 \/ (Len(objs) < 3 /\ r <= 12)
       THEN \E sf \in {RandomElement(DOMAIN Case.metrics)}, x \in {RandomElement(DOMAIN Case.coords)} : Make(sf, x)
       ELSE \E a \in {RandomElement(DOMAIN objs)} :
            \E b \in {RandomElement({k \in DOMAIN objs : objs[k].sf = objs[a].sf})}, op \in {RandomElement(Asks)} :
              IF r <= 14 THEN Ask(op, a, b) ELSE IF r <= 18 THEN Compare(a, b) ELSE Places(objs[a].sf)
Emit == Len(hist) = MaxOps => PrintT(<<"H", c, ToJson(hist)>>)
=============================================================================
