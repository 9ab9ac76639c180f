------------------------------- MODULE Judge -------------------------------
(* Reading recorded data and reporting total verdicts: every record gets a  *)
(* "D" line, and every broken clause a "V" line naming it.                   *)
EXTENDS Steps, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
Cl(name, ok) == IF ok THEN {} ELSE {name}
Report(tid, step, bad) == \A c \in bad : PrintT(<<"V", tid, step, c>>)
Finished(tid, n) == PrintT(<<"D", tid, n>>)
Wants(rec, c) == c \in ToSet(rec.checks)

(* contents as recorded: who does what where, and when it starts *)
SameContent(a, b) ==
  /\ a.v = b.v /\ Len(a.s) = Len(b.s)
  /\ \A k \in DOMAIN a.s : /\ a.s[k].p = b.s[k].p /\ a.s[k].pin = b.s[k].pin
                           /\ Up(a.s[k]) = Up(b.s[k]) /\ Down(a.s[k]) = Down(b.s[k])
(* the names used in a content are those of the instance *)
Known(I, R) ==
  /\ R.v \in Vehicles(I)
  /\ \A k \in DOMAIN R.s : /\ R.s[k].p \in DOMAIN I.pos
                           /\ Up(R.s[k]) \subseteq Trips(I) /\ Down(R.s[k]) \subseteq Trips(I)
Sound(I, R) == Known(I, R) /\ Structure(I, R) = {}
=============================================================================
