--------------------------- MODULE ThresholdTrace ---------------------------
(* Recorded calls of the signature functions, checked against Manager's    *)
(* definitions: lists longer than Threshold.tla enumerates.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l
M == INSTANCE Manager WITH P2P <- 1, AGR <- 1, FB <- 1, CHAL <- 1, Chans <- {"c1"}
T == ndJsonDeserialize(IOEnv.TRACE)
Exp(e) == CASE e.f = "threshold" -> [rev |-> Len(e.req) <= Len(e.sg) /\ M!In("mal", e.sg),
                                     ok |-> M!VT(e.req, e.sg)]
            [] e.f = "recover"   -> [rev |-> e.s = "mal", ok |-> e.s # "mal" /\ e.who = e.s]
            [] e.f = "member"    -> [rev |-> FALSE, ok |-> M!In(e.who, e.req)]
Init == l = 1
Next == /\ l <= Len(T)
        /\ LET x == Exp(T[l]) IN IF x.rev = T[l].rev /\ (x.rev \/ x.ok = T[l].ok) THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([l |-> l, exp |-> x]))
        /\ IF l = Len(T) THEN PrintT("END " \o ToString(l)) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
