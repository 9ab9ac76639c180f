----------------------------- MODULE CopyTrace -----------------------------
(* Validates recorded histories of copying and editing (C07).  Every object  *)
(* of the heap has a version; an edit gives it a new one, a copy takes over  *)
(* its source's.  All readings of one version must be equal.                 *)
(* Trace: [id, ev], ev: [op |-> "read", h, r] | [op |-> "edit", h]           *)
(*                    | [op |-> "clone", h, w, shared] | [op |-> "new"]      *)
(*                    | [op |-> "both", h, g]: the same edit of two routes   *)
(*   of one version, e.g. a route and its clone, gives both the same new one *)
(* A history without edits says that nothing that was done altered the       *)
(* objects read (C08): a route, a plan, or all that a user has handed over,   *)
(* the problem and the options of a method (C26).                             *)
EXTENDS Judge

VARIABLES j, pos, ver, next, seen
cv == <<j, pos, ver, next, seen>>
Tr == Data[j]

Diff(a, b) == {k \in DOMAIN a : k \notin DOMAIN b \/ a[k] # b[k]}
Names(a, b) == IF a = b THEN {}
               ELSE IF DOMAIN a = DOMAIN b /\ DOMAIN a \cap {"content", "members", "options", "aim"} # {} THEN {"same_" \o k : k \in Diff(a, b)}
               ELSE {"same_plan"}
Init == j \in DOMAIN Data /\ pos = 1 /\ ver = <<1>> /\ next = 2 /\ seen = << >>
Step ==
  /\ pos <= Len(Tr.ev) /\ pos' = pos + 1 /\ j' = j
  /\ LET e == Tr.ev[pos] IN
     CASE e.op = "new" -> /\ ver' = Append(ver, next) /\ next' = next + 1 /\ UNCHANGED seen
       [] e.op = "edit" -> /\ ver' = [ver EXCEPT ![e.h] = next] /\ next' = next + 1 /\ UNCHANGED seen
       [] e.op = "both" -> /\ Assert(ver[e.h] = ver[e.g], "twins differ")
                           /\ ver' = [ver EXCEPT ![e.h] = next, ![e.g] = next] /\ next' = next + 1 /\ UNCHANGED seen
       [] e.op = "clone" -> /\ ver' = Append(ver, ver[e.h]) /\ UNCHANGED <<next, seen>>
                            /\ Report(Tr.id, pos, Cl("own_stops_from_there_on", \A k \in ToSet(e.shared) : k < e.w))
       [] e.op = "read" ->
            LET old == SelectSeq(seen, LAMBDA x : x.v = ver[e.h]) IN
            /\ Report(Tr.id, pos, IF old = << >> THEN {} ELSE Names(old[1].r, e.r))
            /\ seen' = (IF old = << >> THEN Append(seen, [v |-> ver[e.h], r |-> e.r]) ELSE seen)
            /\ UNCHANGED <<ver, next>>
End == /\ pos = Len(Tr.ev) + 1 /\ pos' = pos + 1 /\ Finished(Tr.id, pos) /\ UNCHANGED <<j, ver, next, seen>>
Next == Step \/ End
=============================================================================
