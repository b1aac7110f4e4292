------------------------------- MODULE Proofs -------------------------------
(* Which of its evidence a client submits against which dispute: all          *)
(* evidence of each kind against all disputes within bounds. TLC prints, for  *)
(* every dispute, what of all the evidence is to be kept.                     *)
EXTENDS Peer, Json
CONSTANTS HS
VARIABLES d
Now == 20
G0 == St(0, <<"A", "B", "C">>, <<10, 20, 30>>, <<>>)
Blk(au, h, ts) == [ch |-> Ch, au |-> au, fork |-> 0, h |-> h, ts |-> ts, op |-> "add1", psh |-> G0, sh |-> St(1, <<"A", "B", "C">>, <<10, 20, 30>>, <<>>)]
B(au, h) == Blk(au, h, Now)
All ==
    LET Rech == {[t |-> "rech", b |-> B(a, h), sg |-> <<"A", "B", "C">>] : a \in {"A", "B"}, h \in HS}
        Dbl(a) == [b1 |-> B(a, 1), s1 |-> a, b2 |-> Blk(a, 1, Now - 1), s2 |-> a]
        Dbls == {[t |-> "dbl", ds |-> x] : x \in {<<>>} \cup {<<Dbl(a)>> : a \in {"A", "B", "C"}} \cup {<<Dbl(a), Dbl(b)>> : a \in {"A", "B"}, b \in {"B", "C"}}}
        Inc == {[t |-> "inc", b1 |-> B(a, 0), s1 |-> a, b2 |-> B(b, 1), s2 |-> b, st |-> G0] : a \in {"A", "B"}, b \in {"A", "B", "C"}}
        New == {[t |-> "new", b |-> B(a, h), s |-> s] : a \in {"A", "B"}, h \in HS, s \in {"A", "B", "C", "A2"}}
        Fut == {[t |-> "fut", b |-> Blk(a, 0, ts), s |-> a] : a \in {"A", "B", "C"}, ts \in {Now - 1, Now, Now + 1, Now + 4}}
        Prior == {[t |-> "prior", h |-> h] : h \in HS}
    IN SetToSeq(Rech) \o SetToSeq(Dbls) \o SetToSeq(Inc) \o SetToSeq(New) \o SetToSeq(Fut) \o SetToSeq(Prior)
Votes(hs) == [i \in DOMAIN hs |-> [b |-> B(IF hs[i] % 2 = 0 THEN "A" ELSE "B", hs[i]), sg |-> <<"A">>]]
Disputes == [sl : {<<>>, <<"A">>, <<"B">>, <<"C", "A">>, <<"A", "B", "C">>},
             votes : {Votes(hs) : hs \in {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 2>>, <<0, 1, 2>>}},
             to : {NoOne, "A", "B"}, fh : HS, psd : {"A", "B", "C"}]
P0 == NewPeer("A", 0)
C0 == NewChain(Now)
Holds(q) == IF q.t = "prior" THEN d.to # NoOne /\ q.h < d.fh ELSE ValidProof(X0(P0, C0), d, q)
Kept == SelectSeq([i \in DOMAIN All |-> i], LAMBDA i : Holds(All[i]))
\* nothing is kept that the contract refuses for what the client can know of the dispute: what is kept against
\* somebody is against one who is not slashed yet
Useful == \A i \in DOMAIN Kept : LET q == All[Kept[i]] IN
    CASE q.t = "new" -> ~In(Who(q.s), d.sl) /\ \A v \in DOMAIN d.votes : q.b.h > d.votes[v].b.h
      [] q.t = "inc" -> ~In(q.b2.au, d.sl)
      [] q.t = "fut" -> ~In(q.b.au, d.sl) /\ q.b.ts > Now
      [] q.t = "dbl" -> \E i2 \in DOMAIN q.ds : ~In(q.ds[i2].b1.au, d.sl)
      [] q.t = "rech" -> q.b.au = d.to
      [] q.t = "prior" -> d.to # NoOne
Init == d \in Disputes
Next == FALSE /\ UNCHANGED d
Spec == Init /\ [][Next]_d
\* the evidence is printed once
Emit == PrintT("CASE " \o ToJson([d |-> d, kept |-> Kept])) /\ (d = (CHOOSE x \in Disputes : TRUE) => PrintT("ALL " \o ToJson(All)))
=============================================================================
