------------------------------- MODULE Court --------------------------------
(* Every way, within bounds, in which the other participants of a channel     *)
(* take client A to court: what was agreed, who signed which of it, what they *)
(* claim and post, what arrives while A answers, and whether they go on.      *)
(* The client is Peer.tla's, the chain is Manager.tla's; the paths are        *)
(* replayed with a real client.                                               *)
EXTENDS Peer, Json
CONSTANTS Len1, Len2
VARIABLES k, p, c, log, cur, todo, path
cvars == <<k, p, c, log, cur, todo, path>>
Order == <<"A", "B", "C">>
G0(n) == St(n, Order, <<10, 20, 30>>, <<>>)
Author(n, h) == Order[((n + h) % 3) + 1]
Others(n, h) == SelectSeq(<<"B", "C">>, LAMBDA q : q # Author(n, h))

\* (late - nothing is heard of the claim before the third one has added something)
\* a case: n - whose turn it is at first; sg - for each agreed block, whether everybody signed it;
\* claim - what is claimed against whom, by whom, with the first m blocks posted; mix - what arrives
\* together with the news; more - what the third one adds to it
Claims(n, l) ==
    {[t |-> "timeout", by |-> b, m |-> m, on |-> Author(n, m)] : b \in {"B", "C"}, m \in 0..l}
    \cup {[t |-> "future", by |-> b, m |-> m, on |-> o] : b \in {"B", "C"}, o \in {"B", "C"}, m \in 0..l}
    \cup {[t |-> "own", by |-> "A", m |-> l, on |-> Author(n, l)]}
Mixes == {"alone", "block after", "block before", "signature", "play", "swapped", "late"}
Mores == {[t |-> "none", by |-> "C", m |-> 0]} \cup [t : {"future", "newer"}, by : {"B", "C"}, m : 0..Len1]
Cases == UNION {UNION {[n : {n}, sg : [1..l -> BOOLEAN], claim : {q \in Claims(n, l) : q.by # q.on}, mix : IF l > Len2 THEN {"alone", "block after"} ELSE Mixes,
                        more : {q \in Mores : q.t = "none" \/ (l <= Len2 /\ q.m <= l)}] : l \in 0..Len1} : n \in 0..2}
L == Len(k.sg)

\* the plan of a case
Signing(h) == <<[k |-> "blk"]>> \o (IF k.sg[h + 1] THEN [i \in DOMAIN Others(k.n, h) |-> [k |-> "conf", cs |-> Others(k.n, h)[i]]] ELSE <<>>)
RECURSIVE Agreeing(_)
Agreeing(h) == IF h >= L THEN <<>> ELSE Signing(h) \o Agreeing(h + 1)
Hear == [k |-> "hear"]
Ending == <<[k |-> "conf", cs |-> "B"], [k |-> "conf", cs |-> "C"], [k |-> "blk"], Hear, Hear>>
Plan == Agreeing(0) \o <<[k |-> "tick", dt |-> W]>>
        \o (IF k.claim.t = "own" THEN <<[k |-> "fire"], [k |-> "tick", dt |-> 1], [k |-> "fire"], Hear, Hear>>
            ELSE <<[k |-> "create"]>> \o (IF k.mix = "late" THEN <<[k |-> "more"], Hear, Hear>> ELSE IF k.mix = "alone" THEN <<Hear, Hear>> ELSE <<[k |-> "with"], Hear>>))
        \o <<Hear, Hear>>
        \o (IF k.more.t = "none" THEN <<>> ELSE IF k.mix = "late" THEN <<Hear, Hear>> ELSE <<[k |-> "more"], Hear, Hear, Hear, Hear>>)
        \o Ending

Block(f, h, au, ts, op, psh) ==
    LET b == [ch |-> Ch, au |-> au, fork |-> f, h |-> h, ts |-> ts, op |-> op, psh |-> psh]
    IN b @@ [sh |-> Exec(psh, b).st]
\* what the participants have of fork 0
AgF == p.forks[1].ag
Pack(m, who) ==
    [fin |-> G0(k.n), lat |-> IF m = 0 THEN G0(k.n) ELSE AgF[m].st,
     votes |-> [i \in 1..m |-> [b |-> AgF[i].b, sg |-> LET s == [j \in DOMAIN AgF[i].sg |-> Who(AgF[i].sg[j])] IN IF In(who, s) THEN s ELSE Append(s, who)]]]
Future(by) == [t |-> "fut", b |-> Block(0, 0, by, c.now + 2, "add1", G0(k.n)), s |-> by]
CreateOp == [op |-> "create", who |-> k.claim.by, ch |-> Ch, fork |-> 0,
             to |-> IF k.claim.t = "timeout" THEN k.claim.on ELSE NoOne, fh |-> IF k.claim.t = "timeout" THEN k.claim.m ELSE 0,
             proofs |-> IF k.claim.t = "timeout" THEN <<>> ELSE <<Future(k.claim.on)>>] @@ Pack(k.claim.m, k.claim.by)
\* the third one: something else against somebody, or that the one who posted knew more
MoreOp ==
    LET d == c.dp[Ch]
        o == IF k.more.by = "B" THEN "C" ELSE "B"
        last == Len(AgF)
    IN [op |-> "chal", who |-> k.more.by, ch |-> Ch, fork |-> 0, cc |-> d.cc,
        proofs |-> IF k.more.t = "future" \/ last = 0 THEN <<Future(o)>> ELSE <<[t |-> "new", b |-> AgF[last].b, s |-> d.psd]>>] @@ Pack(k.more.m, k.more.by)

Announced(c1, c2) ==
    LET n1 == Len(c1.forks[Ch])
        n2 == Len(c2.forks[Ch])
        New == c2.posted \ c1.posted
    IN (IF New = {} THEN <<>> ELSE SetToSeq({[k |-> "evpost", b |-> q.b, s |-> q.who, ts |-> q.ts] : q \in New}))
       \o [i \in 1..(n2 - n1) |-> [k |-> "evset", st |-> c2.forks[Ch][n1 + i].st, fork |-> n1 + i - 1, ts |-> c2.forks[Ch][n1 + i].ts]]
       \o (IF n2 > n1 THEN <<[k |-> "evdisp", d |-> c2.dp[Ch]]>> ELSE <<>>)

Go(x, i) == /\ p' = x.p /\ c' = x.c /\ log' = log \o Announced(c, x.c) /\ path' = Append(path, [p |-> "A", i |-> i])
ChainDid(o) == LET r == Do(c, o) IN
    /\ c' = r.c /\ log' = log \o Announced(c, r.c) /\ path' = Append(path, [p |-> "-", i |-> [k |-> "chain", o |-> o]])
    /\ UNCHANGED <<p, cur>>
Skip == UNCHANGED <<p, c, log, cur, path>>
NextBlk == IF Next1(p.sm) = "A" THEN [k |-> "play", o |-> "add1"]
           ELSE MsgBlk(Block(Cur(p), NextH(p), Next1(p.sm), c.now, "add1", p.sm), Next1(p.sm))
Sign(cs) == LET a == p.forks[Cur(p) + 1].ag IN MsgConf(a[Len(a)].b, a[Len(a)].b.au, cs)
HasBlock == p.forks[Cur(p) + 1].ag # <<>>
Extra == CASE k.mix \in {"block after", "block before"} -> NextBlk
           [] k.mix = "signature" -> IF HasBlock THEN Sign("B") ELSE NextBlk
           [] OTHER -> [k |-> "play", o |-> "add1"]
Do1(a) ==
    CASE a.k = "blk" -> (IF Next1(p.sm) = NoOne THEN Skip ELSE (\E x \in Outcomes(p, c, NextBlk) : Go(x, NextBlk)) /\ cur' = cur)
      [] a.k = "conf" -> (IF ~HasBlock THEN Skip ELSE (\E x \in Outcomes(p, c, Sign(a.cs)) : Go(x, Sign(a.cs))) /\ cur' = cur)
      [] a.k = "fire" -> (\E x \in Outcomes(p, c, [k |-> "fire"]) : Go(x, [k |-> "fire"])) /\ cur' = cur
      [] a.k = "hear" -> IF cur >= Len(log) THEN Skip /\ TRUE
                         ELSE (\E x \in Outcomes(p, c, log[cur + 1]) : Go(x, [k |-> "event"])) /\ cur' = cur + 1
      \* the news and something else at once
      \* the dispute is heard of before its outcome, and something else at the same time
      [] a.k = "with" -> IF Len(log) < cur + 2 THEN Skip
                         ELSE LET q == [k |-> "second"]
                                  is == CASE k.mix = "block before" -> <<Extra, q>> [] k.mix = "swapped" -> <<q>> [] OTHER -> <<q, Extra>>
                                  in == [n \in DOMAIN is |-> IF is[n].k = "second" THEN log[cur + 2] ELSE is[n]]
                              IN (\E x \in Outcomes(p, c, [k |-> "batch", is |-> in]) : Go(x, [k |-> "batch", is |-> is])) /\ cur' = cur
      [] a.k = "tick" -> ChainDid([op |-> "tick", dt |-> a.dt])
      [] a.k = "create" -> ChainDid(CreateOp)
      [] a.k = "more" -> IF c.dp[Ch].ex THEN ChainDid(MoreOp) ELSE Skip

Opened(n) == Open(NewChain(20), [op |-> "open", ch |-> Ch, st |-> G0(n)])
Init == \E q \in Cases :
    /\ k = q
    /\ p = (CHOOSE x \in Outcomes(NewPeer("A", 0), Opened(q.n).c, [k |-> "evset", st |-> G0(q.n), fork |-> 0, ts |-> 20]) : TRUE).p
    /\ c = Opened(q.n).c /\ log = <<>> /\ cur = 0 /\ path = <<>> /\ todo = <<[k |-> "plan"]>>
Next == /\ todo # <<>>
        /\ IF todo[1].k = "plan" THEN todo' = Plan /\ Skip ELSE Do1(todo[1]) /\ todo' = Tail(todo)
        /\ UNCHANGED k
Spec == Init /\ [][Next]_cvars

(***************************************************************************)
(* What the client makes sure of                                           *)
(***************************************************************************)
Over == todo = <<>>
D == c.dp[Ch]
\* it is never slashed
NeverBlamed == ~In("A", D.sl)
\* nobody is held to have timed out at a height that everybody signed, once the client has answered
\* (what is signed after it heard of the dispute it doesn't bring up)
Answered == D.ex /\ Len(todo) = Len(Ending) /\ k.mix # "signature" /\ cur = Len(log) /\ c.now < D.dl
NoFalseTimeout == Answered => ~(D.to # NoOne /\ D.fh < Len(AgF) /\ Everyone(p, AgF[D.fh + 1].b))
\* and what is posted isn't older than what the one who posted it is known to have signed
Newest == Answered => ~(D.psd # "A" /\ ~In(D.psd, D.sl) /\ \E i \in DOMAIN AgF : i > Len(D.votes) /\ D.psd \in Signers(AgF[i])
                        /\ (\A j \in DOMAIN D.votes : AgF[i].b.h > D.votes[j].b.h))
Emit == Over => PrintT("PATH " \o ToJson([n |-> k.n, path |-> path]))
=============================================================================
