---------------------------- MODULE MCRouteEdit ----------------------------
(* Explores RouteEdit exhaustively on cases read from a JSON file; histories *)
(* leading to the same routes are identified (reads never change anything).  *)
EXTENDS RouteEdit, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
MCCases == Data
MCView == <<c, heap>>
(* a copy equals its source at once, and edits of one route leave the others alone *)
PropCopies == [][\A h \in DOMAIN heap' : h \in DOMAIN heap \/ \E k \in DOMAIN heap : heap'[h].r = heap[k].r]_heap
PropOthers == [][Cardinality({h \in DOMAIN heap : heap'[h].r # heap[h].r}) <= 1]_heap
=============================================================================
