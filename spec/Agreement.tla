----------------------------- MODULE Agreement ------------------------------
(* The data a client keeps about its forks (AgreementManager), operation by  *)
(* operation: what each changes and what all the questions about it answer.  *)
(* The same data as in Peer.tla, without the client around it - so that all  *)
(* short sequences of operations can be tried, also those a client comes to  *)
(* only after a long history.                                                *)
EXTENDS Peer, Json
CONSTANTS Focus, Depth
VARIABLES p, h, r
avars == <<p, h, r>>

Three == Focus = "quorum"
G0 == IF Three THEN St(0, <<"A", "B", "C">>, <<1, 2, 3>>, <<>>) ELSE St(0, <<"A", "B">>, <<1, 2>>, <<>>)
G1 == St(5, <<"B", "C">>, <<2, 3>>, <<>>)
B(au, f, hh, ts, psh, op) == LET b == [ch |-> "c1", au |-> au, fork |-> f, h |-> hh, ts |-> ts, op |-> op, psh |-> psh]
                             IN b @@ [sh |-> Exec(psh, [b EXCEPT !.au = Next1(psh)]).st]
b0  == B("A", 0, 0, 20, G0, "add1")
b0t == B("A", 0, 0, 21, G0, "add1")            \* the same author's, at another time
b0o == B("B", 0, 0, 20, G0, "add1")            \* another author's
b1  == B("B", 0, 1, 22, b0.sh, "add1")
b1t == B("B", 0, 1, 22, b0.sh, "noisy")           \* another transaction with the same outcome
b1z == B("B", 0, 1, 22, G0, "add1")            \* builds on something else
b2  == B(Next1(b1.sh), 0, 2, 19, b1.sh, "add1")
c0  == B(Next1(G1), 1, 0, 30, G1, "add1")
c0z == B(Next1(G1), 1, 0, 30, G0, "add1")
U == CASE Focus = "quorum" -> <<b0, b1, b2>>
       [] Focus = "sigs"   -> <<b0, b0t, b0o, b1>>
       [] Focus = "queue"  -> <<b0, b0t, b0o, b1, b1t, c0>>
       [] Focus = "posts"  -> <<b0, b0t, b1, b1z, b2, c0>>
       [] OTHER            -> <<b0, b0t, b0o, b1, b1t, b1z, b2, c0, c0z>>
People == <<"A", "B", "C", "D">>
\* signatures tried on a block
Sigs(b) == CASE Focus = "quorum" -> {"A", "B", "C"} [] Focus = "sigs" -> {"A", "A2", "B", "B2", "D"} [] OTHER -> {b.au, "C"}

Forks == {[k |-> "fork", g |-> G0, f |-> 0, ts |-> 10], [k |-> "fork", g |-> G1, f |-> 1, ts |-> 25]}
Adds == {[k |-> "add", b |-> U[i], s |-> s] : i \in DOMAIN U, s \in {"own", "second"}}
Confs == {[k |-> "conf", b |-> b, cs |-> s] : b \in {U[i] : i \in DOMAIN U}, s \in UNION {Sigs(U[i]) : i \in DOMAIN U}}
QBs == {[k |-> "qb", b |-> U[i], s |-> s] : i \in DOMAIN U, s \in {"own", "second"}}
QCs == {[k |-> "qc", b |-> b, cs |-> s] : b \in {U[i] : i \in DOMAIN U}, s \in {"A", "B", "B2"}}
DQs == {[k |-> k, f |-> f, h |-> hh] : k \in {"dqb", "dqc"}, f \in {0, 1}, hh \in {0, 1}}
Posts == {[k |-> "post", b |-> U[i], s |-> s, ts |-> t] : i \in DOMAIN U, s \in {"own", "wrong"}, t \in {23, 27}}
Ops == Forks \cup
       CASE Focus = "chain"  -> Adds \cup {o \in Confs : o.cs = "C"}
         [] Focus = "sigs"   -> {o \in Adds : o.s = "own"} \cup Confs
         [] Focus = "quorum" -> {o \in Adds : o.s = "own"} \cup Confs
         [] Focus = "queue"  -> {o \in Adds : o.s = "own" /\ o.b = b0} \cup QBs \cup QCs \cup DQs
         [] Focus = "posts"  -> {o \in Adds : o.s = "own"} \cup Posts \cup {o \in DQs : o.k = "dqb"}
SigOf(b, s) == CASE s = "own" -> b.au [] s = "second" -> b.au \o "2" [] s = "wrong" -> (IF b.au = "A" THEN "B" ELSE "A") [] OTHER -> s

Flag(q, b, s) == IF Who(s) # b.au THEN "INVALID_SIGNATURE" ELSE CheckP(q, b)
Entries(S) == {[b |-> x.b, s |-> x.s] : x \in S}
EntriesC(S) == {[b |-> x.b, s |-> x.s, cs |-> x.cs] : x \in S}

\* [p, r] after operation o
Ap(q, o) ==
    CASE o.k = "fork" -> [r |-> "ok", p |-> IF o.f # NF(q) THEN q
                          ELSE [q EXCEPT !.forks = Append(@, [g |-> o.g, ps |-> o.g.ps, ts |-> o.ts, ag |-> <<>>, cb |-> {}])]]
      [] o.k = "add" ->
           IF o.b.fork >= NF(q) \/ Known(q, o.b.fork, o.b.h) THEN [r |-> "threw", p |-> q]
           ELSE [r |-> "ok", p |-> [q EXCEPT !.forks[o.b.fork + 1].ag = Append(@, [b |-> o.b, sg |-> <<SigOf(o.b, o.s)>>, st |-> o.b.sh])]]
      [] o.k = "conf" ->
           IF ~InChain(q, o.b) THEN [r |-> "threw", p |-> q]
           ELSE IF In(o.cs, Ag(q, o.b.fork, o.b.h).sg) THEN [r |-> "threw", p |-> q]
           ELSE [r |-> "ok", p |-> [q EXCEPT !.forks[o.b.fork + 1].ag[o.b.h + 1].sg = Append(@, o.cs)]]
      [] o.k = "qb" -> [r |-> "ok", p |-> QueueBlock([p |-> q], o.b, SigOf(o.b, o.s)).p]
      [] o.k = "qc" -> [r |-> "ok", p |-> QueueConf([p |-> q], o.b, o.b.au, o.cs).p]
      [] o.k = "dqb" -> LET S == {x \in q.bq : x.b.fork = o.f /\ x.b.h = o.h} IN [r |-> Entries(S), p |-> [q EXCEPT !.bq = @ \ S]]
      [] o.k = "dqc" -> LET S == {x \in q.cq : x.b.fork = o.f /\ x.b.h = o.h} IN [r |-> EntriesC(S), p |-> [q EXCEPT !.cq = @ \ S]]
      [] o.k = "post" ->
           LET s == SigOf(o.b, o.s)
               fl == Flag(q, o.b, s)
               q1 == IF fl \in {"READY", "NOT_READY"} THEN QueueBlock([p |-> q], o.b, s).p ELSE q
           IN [r |-> fl,
               p |-> IF fl \in {"INVALID_SIGNATURE", "DOUBLE_SIGN", "INCORRECT_DATA"} THEN q
                     ELSE IF o.b.fork < NF(q1) /\ ~DidPost(q1, o.b.fork, o.b.h, o.b.au)
                          THEN [q1 EXCEPT !.forks[o.b.fork + 1].cb = @ \cup {[h |-> o.b.h, who |-> o.b.au, ts |-> o.ts]}]
                          ELSE q1]
\* blocks are added at the next height or where there is one already
Able(q, o) == IF o.k # "add" THEN TRUE ELSE IF o.b.fork >= NF(q) THEN TRUE ELSE o.b.h <= Len(F(q, o.b.fork).ag)

Maybe(c, x) == IF c THEN <<x>> ELSE <<>>
PeopleMap(G(_)) == [i \in DOMAIN People |-> G(People[i])]
ObsFork(q, f) ==
    LET k == F(q, f) IN
    [g |-> k.g, lt |-> LatestTs(q, f),
     cl |-> [i \in 1..4 |-> CbLatest(q, f, i - 1)], rel |-> [i \in 1..4 |-> LatestRel(q, f, i - 1)],
     by |-> {<<x.who, x.h>> : x \in k.cb},
     latest |-> PeopleMap(LAMBDA a : LET S == SignedHeights(q, f, a) IN Maybe(S # {}, [b |-> Ag(q, f, MaxOf(S)).b, s |-> FirstSig(Ag(q, f, MaxOf(S)), a)])),
     pkg |-> PeopleMap(LAMBDA a : Package([q EXCEPT !.me = a], f)),
     prev |-> [i \in 1..(Len(k.ag) + 1) |-> AgreedPrev(q, f, i - 1)],
     ag |-> [i \in DOMAIN k.ag |->
               LET a == k.ag[i] IN [b |-> a.b, st |-> a.st, sg |-> a.sg, all |-> Everyone(q, a.b),
                                    miss |-> SelectSeq(k.ps, LAMBDA w : w \notin Signers(a)),
                                    orig |-> Maybe(a.b.au \in Signers(a), FirstSig(a, a.b.au))]]]
ObsBlock(q, b) ==
    LET ag == IF Known(q, b.fork, b.h) THEN Ag(q, b.fork, b.h) ELSE [b |-> b, sg |-> <<>>]
    IN [b |-> b, chain |-> InChain(q, b), dup |-> InChain(q, b) \/ Queued(q, b), all |-> Everyone(q, b),
        own |-> Flag(q, b, b.au), second |-> Flag(q, b, b.au \o "2"), wrong |-> Flag(q, b, SigOf(b, "wrong")),
        dbl |-> Maybe(ag.b # b /\ ag.b.au = b.au /\ b.au \in Signers(ag), [b |-> ag.b, s |-> IF ag.sg = <<>> THEN "" ELSE FirstSig(ag, b.au)]),
        signed |-> PeopleMap(LAMBDA a : Maybe(InChain(q, b) /\ a \in Signers(ag), FirstSig(ag, a)))]
Obs(q) == [fork |-> Cur(q), next |-> NextH(q), members |-> PeopleMap(LAMBDA a : InLatest(q, a)),
           forks |-> [i \in 1..NF(q) |-> ObsFork(q, i - 1)],
           blocks |-> [i \in DOMAIN U |-> ObsBlock(q, U[i])]]

Init == p = NewPeer("A", 0) /\ h = <<>> /\ r = <<>>
Next == /\ Len(h) < Depth
        /\ \E o \in Ops : /\ Able(p, o)
                          /\ h' = Append(h, o)
                          /\ p' = Ap(p, o).p
                          /\ r' = Append(r, Ap(p, o).r)
Spec == Init /\ [][Next]_avars
\* every operation is tried in every state
View == IF h = <<>> THEN <<p>> ELSE <<p, h[Len(h)], r[Len(r)]>>
\* nothing that was agreed changes, signatures and publications are only added
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
Grows == [][/\ Len(p.forks) <= Len(p'.forks)
            /\ \A f \in DOMAIN p.forks :
                 LET a == p.forks[f] b == p'.forks[f] IN
                 /\ a.g = b.g /\ a.ps = b.ps /\ a.ts = b.ts /\ a.cb \subseteq b.cb /\ Len(a.ag) <= Len(b.ag)
                 /\ \A i \in DOMAIN a.ag : a.ag[i].b = b.ag[i].b /\ a.ag[i].st = b.ag[i].st /\ Prefix(a.ag[i].sg, b.ag[i].sg)]_avars
Linked == \A f \in DOMAIN p.forks : \A i \in DOMAIN p.forks[f].ag :
            p.forks[f].ag[i].b.h = i - 1 /\ p.forks[f].ag[i].b.fork = f - 1
OneEach == /\ \A x, y \in p.bq : x.b.fork = y.b.fork /\ x.b.h = y.b.h /\ x.b.au = y.b.au => x = y
           /\ \A x, y \in p.cq : x.b.fork = y.b.fork /\ x.b.h = y.b.h /\ Who(x.cs) = Who(y.cs) => x = y
Emit == h # <<>> => PrintT("CASE " \o ToJson([h |-> h, r |-> r, o |-> Obs(p)]))
=============================================================================
