------------------------------ MODULE Channel -------------------------------
(* Several clients of one channel together: each is a client of Peer.tla,    *)
(* the messages they send reach the others in any order, some never, and the *)
(* chain is Manager.tla's. The participants in Liars have no client and sign   *)
(* whatever they like.                                                       *)
EXTENDS Peer, Json
CONSTANTS Clients, Liars, Limit, Lies, Ticks, Moves, Depth, Wait, Every
VARIABLES pr, c, net, got, log, cur, lies, ticks, path
cvars == <<pr, c, net, got, log, cur, lies, ticks, path>>

Order == SelectSeq(<<"A", "B", "C">>, LAMBDA n : n \in Clients \cup Liars)
G0 == St(0, Order, [i \in DOMAIN Order |-> 10 * i], <<>>)
Opened == Open(NewChain(20), [op |-> "open", ch |-> Ch, st |-> G0])
Start1(n) == CHOOSE x \in Outcomes(NewPeer(n, 0), Opened.c, [k |-> "evset", st |-> G0, fork |-> 0, ts |-> 20]) : TRUE

\* what the chain announces on the way from c1 to c2
Announced(c1, c2) ==
    LET n1 == Len(c1.forks[Ch])
        n2 == Len(c2.forks[Ch])
        New == c2.posted \ c1.posted
    IN (IF New = {} THEN <<>> ELSE SetToSeq({[k |-> "evpost", b |-> q.b, s |-> q.who, ts |-> q.ts] : q \in New}))
       \o [i \in 1..(n2 - n1) |-> [k |-> "evset", st |-> c2.forks[Ch][n1 + i].st, fork |-> n1 + i - 1, ts |-> c2.forks[Ch][n1 + i].ts]]
       \o (IF n2 > n1 THEN <<[k |-> "evdisp", d |-> c2.dp[Ch]]>> ELSE <<>>)

Did(n, i, x) ==
    /\ pr' = [pr EXCEPT ![n] = x.p]
    /\ c' = x.c
    /\ net' = net \cup DOMAIN x.outs
    /\ log' = log \o Announced(c, x.c)
    /\ path' = Append(path, [p |-> n, i |-> i])

Play == \E n \in Clients : \E op \in Moves :
    /\ Next1(pr[n].sm) = n /\ NextH(pr[n]) < Limit /\ Cur(pr[n]) \notin pr[n].dis
    /\ \E x \in Outcomes(pr[n], c, [k |-> "play", o |-> op]) : x.ok /\ Did(n, [k |-> "play", o |-> op], x)
    /\ UNCHANGED <<got, cur, lies, ticks>>
Mine(n, m) == (m.k = "blk" /\ m.s = n) \/ (m.k = "conf" /\ m.cs = n)
Left(n) == {m \in net : m \notin got[n] /\ ~Mine(n, m)}
Deliver == \E n \in Clients : \E m \in Left(n) :
    /\ got' = [got EXCEPT ![n] = @ \cup {m}]
    /\ \E x \in Outcomes(pr[n], c, m) : Did(n, m, x)
    /\ UNCHANGED <<cur, lies, ticks>>
Hear == \E n \in Clients :
    /\ cur[n] < Len(log)
    /\ cur' = [cur EXCEPT ![n] = @ + 1]
    /\ \E x \in Outcomes(pr[n], c, log[cur[n] + 1]) : Did(n, [k |-> "event"], x)
    /\ UNCHANGED <<got, lies, ticks>>
Pass == /\ ticks < Ticks
        /\ \E dt \in {1, Wait} : c' = [c EXCEPT !.now = @ + dt] /\ path' = Append(path, [p |-> "-", i |-> [k |-> "chain", o |-> [op |-> "tick", dt |-> dt]]])
        /\ ticks' = ticks + 1
        /\ UNCHANGED <<pr, net, got, log, cur, lies>>
Fire == \E n \in Clients :
    /\ \E t \in pr[n].tm : t.at <= c.now
    /\ \E x \in Outcomes(pr[n], c, [k |-> "fire"]) : Did(n, [k |-> "fire"], x)
    /\ UNCHANGED <<got, cur, lies, ticks>>
Block(f, h, au, ts, op, psh) ==
    LET b == [ch |-> Ch, au |-> au, fork |-> f, h |-> h, ts |-> ts, op |-> op, psh |-> psh]
    IN b @@ [sh |-> Exec(psh, b).st]
\* what a dishonest participant may say, given what it has seen of client v
Said(a, v) ==
    LET f == Cur(v) h == NextH(v)
        mine == IF Next1(v.sm) = a THEN {Block(f, h, a, LatestTs(v, f), op, v.sm) : op \in {"add1", "add2"}} ELSE {}
        wrong == {[b EXCEPT !.sh = v.sm] : b \in {q \in mine : q.op = "add1"}}
        again == {Block(f, i - 1, a, Ag(v, f, i - 1).b.ts, "add2", AgreedPrev(v, f, i - 1))
                  : i \in {j \in DOMAIN F(v, f).ag : F(v, f).ag[j].b.au = a}}
        bs == mine \cup wrong \cup again
    IN {MsgBlk(b, a) : b \in bs}
       \cup {MsgConf(F(v, f).ag[i].b, F(v, f).ag[i].b.au, a) : i \in {j \in DOMAIN F(v, f).ag : F(v, f).ag[j].b.au # a}}
Lie == /\ lies < Lies
       /\ \E a \in Liars, n \in Clients : \E m \in Said(a, pr[n]) :
             m \notin net /\ net' = net \cup {m}
       /\ lies' = lies + 1
       /\ UNCHANGED <<pr, c, got, log, cur, ticks, path>>

Init == /\ pr = [n \in Clients |-> Start1(n).p]
        /\ c = Opened.c
        /\ net = {} /\ got = [n \in Clients |-> {}] /\ log = <<>> /\ cur = [n \in Clients |-> 0]
        /\ lies = 0 /\ ticks = 0 /\ path = <<>>
Next == Len(path) < Depth /\ (Play \/ Deliver \/ Hear \/ Pass \/ Fire \/ Lie)
Spec == Init /\ [][Next]_cvars
View == <<pr, c, net, got, cur, lies, ticks>>

(***************************************************************************)
(* What holds for all of them together                                     *)
(***************************************************************************)
Blocks(n) == UNION {{pr[n].forks[f].ag[i] : i \in DOMAIN pr[n].forks[f].ag} : f \in DOMAIN pr[n].forks}
\* every signature of a client is under what that client itself agreed to
OwnWord == \A n \in Clients :
    /\ \A m \in Clients : \A a \in Blocks(m) : n \in Signers(a) => InChain(pr[n], a.b)
    /\ \A m \in net : Mine(n, m) => InChain(pr[n], m.b)
\* so there are never two blocks of a height that everybody has signed
OneFinal == \A n, m \in Clients : \A a \in Blocks(n), b \in Blocks(m) :
    a.b.fork = b.b.fork /\ a.b.h = b.b.h /\ Everyone(pr[n], a.b) /\ Everyone(pr[m], b.b) => a.b = b.b
\* and what everybody has signed is agreed by every client that takes part, with all that is before it
FinalIsAgreed == \A n, m \in Clients : \A a \in Blocks(n) : Everyone(pr[n], a.b) /\ (\E j \in DOMAIN F(pr[n], a.b.fork).ps : F(pr[n], a.b.fork).ps[j] = m) =>
    \A h \in 0..a.b.h : InChain(pr[m], Ag(pr[n], a.b.fork, h).b)
\* without dishonest participants nobody disagrees with anybody
NoFork == Liars = {} => \A n, m \in Clients : \A f \in DOMAIN pr[n].forks \cap DOMAIN pr[m].forks :
    \A i \in DOMAIN pr[n].forks[f].ag \cap DOMAIN pr[m].forks[f].ag : pr[n].forks[f].ag[i].b = pr[m].forks[f].ag[i].b /\ pr[n].forks[f].ag[i].st = pr[m].forks[f].ag[i].st
NoQuarrel == Liars = {} /\ Ticks = 0 => ~c.dp[Ch].ex /\ \A n \in Clients : pr[n].dis = {}
\* nobody but those who said something that they must not say is slashed
NoBlame == \A i \in DOMAIN c.dp[Ch].sl : c.dp[Ch].sl[i] \in Liars
\* when everything that was sent has arrived, all have agreed to the same and have everybody's signatures
Quiet == \A n \in Clients : Left(n) = {} /\ cur[n] = Len(log)
Caught == Quiet /\ Liars = {} /\ Ticks = 0 =>
    /\ \A n, m \in Clients : pr[n].sm = pr[m].sm /\ NextH(pr[n]) = NextH(pr[m]) /\ Cur(pr[n]) = Cur(pr[m])
    /\ \A n \in Clients : pr[n].bq = {} /\ pr[n].cq = {} /\ \A a \in Blocks(n) : Everyone(pr[n], a.b)
Over == Quiet /\ \A n \in Clients : NextH(pr[n]) >= Limit
Emit == Every \/ Over \/ Len(path) = Depth => PrintT("PATH " \o ToJson(path))
=============================================================================
