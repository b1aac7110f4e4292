----------------------------- MODULE Threshold -----------------------------
(* StateChannelUtilLibrary's signature functions on their own: every list   *)
(* of required signers, every list of provided signatures.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Signers, Others, MaxReq, MaxSig
VARIABLES req, sg
M == INSTANCE Manager WITH P2P <- 1, AGR <- 1, FB <- 1, CHAL <- 1, Chans <- {"c1"}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == req \in Seqs(Signers, MaxReq) /\ sg = <<>>
Next == Len(sg) < MaxSig /\ \E x \in Signers \cup Others : sg' = Append(sg, x) /\ req' = req
Spec == Init /\ [][Next]_<<req, sg>>
\* the library reverts on signatures that don't recover, unless there are too few in the first place
Emit == PrintT("STATE " \o ToJson([req |-> req, sg |-> sg, ok |-> M!VT(req, sg),
             rev |-> Len(req) <= Len(sg) /\ M!In("mal", sg)]))
\* adding signatures never takes a threshold away, and nobody's signature counts twice
Enough == M!VT(req, sg) => \A x \in {req[i] : i \in DOMAIN req} : M!Count(x, sg) >= M!Count(x, req)
=============================================================================
