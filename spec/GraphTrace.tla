----------------------------- MODULE GraphTrace -----------------------------
(* Judges plotted plans against the plan they show (C24).                   *)
(* Record: [id, inst, routes, dots, arrows, labels, kept, places]           *)
(*   dots: places drawn; arrows: [a, b, col]; labels: [at, text], all read  *)
(*   from the finished picture; places and coordinates in ticks; col: a     *)
(*   number per colour; kept: what became of picture, file and plan         *)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
I == Rec.inst
At(p) == I.pos[p]
Legs(R) == {<<At(R.s[k].p), At(R.s[k + 1].p)>> : k \in 1..(Len(R.s) - 1)}
Driven == UNION {Legs(R) : R \in ToSet(Rec.routes)}
Asked == UNION {{At(Trip(I, t).o), At(Trip(I, t).d)} : t \in Trips(I)}
Visited == UNION {{At(R.s[k].p) : k \in DOMAIN R.s} : R \in ToSet(Rec.routes)}
Shown == {<<Rec.arrows[k].a, Rec.arrows[k].b>> : k \in DOMAIN Rec.arrows}
Name(t) == ToString(t - 1)
Names(q) == {"+" \o Name(t) : t \in {u \in Trips(I) : At(Trip(I, u).o) = q}}
       \cup {"-" \o Name(t) : t \in {u \in Trips(I) : At(Trip(I, u).d) = q}}
(* some way to give every colour a route of its own explains all arrows *)
Colours == {Rec.arrows[k].col : k \in DOMAIN Rec.arrows}
Wears == [c \in Colours |-> {r \in DOMAIN Rec.routes :
            \A k \in DOMAIN Rec.arrows : Rec.arrows[k].col = c => <<Rec.arrows[k].a, Rec.arrows[k].b>> \in Legs(Rec.routes[r])}]
RECURSIVE Owned(_, _, _)
Owned(w, cols, free) ==
  cols = {} \/ LET c == CHOOSE x \in cols : \A y \in cols : Cardinality(w[x] \cap free) <= Cardinality(w[y] \cap free) IN
               \E r \in w[c] \cap free : Owned(w, cols \ {c}, free \ {r})
Explained == LET w == Wears IN Owned(w, Colours, DOMAIN Rec.routes)
Bad ==
     Cl("one_arrow_per_leg", Len(Rec.arrows) = Cardinality(Shown))
\cup Cl("arrows_are_the_legs", Shown = Driven)
\cup Cl("colour_of_the_route", (Shown = Driven) => Explained)
\cup Cl("one_dot_per_place", Len(Rec.dots) = Cardinality(ToSet(Rec.dots)))
\cup Cl("dots_are_the_places", ToSet(Rec.dots) = Asked \cup Visited)
\cup Cl("labels_on_requested_places", {Rec.labels[k].at : k \in DOMAIN Rec.labels} = Asked)
\cup Cl("one_label_per_place", Len(Rec.labels) = Cardinality({Rec.labels[k].at : k \in DOMAIN Rec.labels}))
\cup Cl("label_names_a_trip_there", \A k \in DOMAIN Rec.labels : Rec.labels[k].text \in Names(Rec.labels[k].at))
\cup Cl("kept_where_asked", Rec.kept.place) \cup Cl("plan_untouched", Rec.kept.plan)
Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(Rec.routes))
=============================================================================
