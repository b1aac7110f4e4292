-------------------------------- MODULE Peer --------------------------------
(***************************************************************************)
(* The off-chain half of peer3to/state-channels-plus: one client           *)
(* (StateManager, ValidationService, AgreementManager, DisputeHandler,     *)
(* ProofManager, the event listener and the RPC service) next to the chain *)
(* of Manager.tla.                                                         *)
(*                                                                         *)
(* A client gets one input - a message of a peer, an event of the chain, a *)
(* transaction of its user, or time passing - and comes to rest:           *)
(*     Outcomes(p, c, i) = the possible [p, c, outs, hk, ev, ok]           *)
(* p  - the client's state, c - the chain's, outs - the messages it sends, *)
(* hk - the hooks it calls, ev - the state machine's events it passes on.  *)
(* What the client does in the background (draining its queues, sending    *)
(* transactions) are tasks that run one at a time in any order.            *)
(*                                                                         *)
(* A signature is a token: "A" and "A2" are two valid signatures of A.     *)
(***************************************************************************)
EXTENDS Manager

CONSTANT Ch                    \* the channel the clients are in

W == P2P + AGR + FB            \* how long the next participant has
PAST == 5                      \* tolerances of the subjective clock check
FUTURE == 10

Second == [A2 |-> "A", B2 |-> "B", C2 |-> "C", D2 |-> "D", E2 |-> "E", X2 |-> "X"]
Who(tok) == IF tok \in DOMAIN Second THEN Second[tok] ELSE tok
Whos(sg) == [i \in DOMAIN sg |-> Who(sg[i])]

NewPeer(me, skew) ==
    [me |-> me, skew |-> skew, forks |-> <<>>, sm |-> St(0, <<>>, <<>>, <<>>),
     bq |-> {}, cq |-> {}, dis |-> {}, disp |-> <<>>, lp |-> <<>>, tm |-> {}]

(***************************************************************************)
(* Agreed forks                                                            *)
(***************************************************************************)
NF(p)      == Len(p.forks)
Cur(p)     == IF NF(p) = 0 THEN 0 ELSE NF(p) - 1
IsOpenP(p) == NF(p) > 0
F(p, f)    == p.forks[f + 1]
NextH(p)   == IF NF(p) = 0 THEN 0 ELSE Len(p.forks[NF(p)].ag)
Known(p, f, h) == f < NF(p) /\ h < Len(F(p, f).ag)
Ag(p, f, h)    == F(p, f).ag[h + 1]
InChain(p, b)  == Known(p, b.fork, b.h) /\ Ag(p, b.fork, b.h).b = b
Queued(p, b)   == \E q \in p.bq : q.b = b
InLatest(p, a) == NF(p) > 0 /\ In(a, p.forks[NF(p)].ps)
\* the agreed state a block at height h has to build on
AgreedPrev(p, f, h) == IF h = 0 THEN F(p, f).g ELSE Ag(p, f, h - 1).st
BuildsOn(p, b) == /\ b.fork < NF(p)
                  /\ b.h = 0 \/ Known(p, b.fork, b.h - 1)
                  /\ b.psh = AgreedPrev(p, b.fork, b.h)
LatestTs(p, f) == LET k == F(p, f) IN Max2(k.ts, IF Len(k.ag) = 0 THEN 0 ELSE Last(k.ag).b.ts)
CbLatest(p, f, h) == LET T == {x.ts : x \in {y \in F(p, f).cb : y.h <= h}} \cup {0}
                     IN CHOOSE t \in T : \A u \in T : u <= t
LatestRel(p, f, h) == Max2(LatestTs(p, f), CbLatest(p, f, h))
DidPost(p, f, h, a) == f < NF(p) /\ \E x \in F(p, f).cb : x.h = h /\ x.who = a
Clock(p, c)    == c.now + p.skew
Signers(ag)    == {Who(ag.sg[i]) : i \in DOMAIN ag.sg}
Everyone(p, b) == InChain(p, b) /\ LET k == F(p, b.fork) IN \A i \in DOMAIN k.ps : k.ps[i] \in Signers(Ag(p, b.fork, b.h))
FirstSig(ag, a) == LET I == {i \in DOMAIN ag.sg : Who(ag.sg[i]) = a} IN ag.sg[CHOOSE i \in I : \A j \in I : i <= j]
\* heights of the blocks of fork f that a signed
SignedHeights(p, f, a) == IF f >= NF(p) THEN {} ELSE {i - 1 : i \in {j \in DOMAIN F(p, f).ag : a \in Signers(F(p, f).ag[j])}}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* what the client posts as its latest state: the blocks from the last state that
\* everyone has signed (themselves or a block after it) to the last one it signed
Package(p, f) ==
    LET k  == F(p, f)
        mine == SignedHeights(p, f, p.me)
    IN IF mine = {} THEN [fin |-> k.g, lat |-> k.g, votes |-> <<>>]
       ELSE LET top == MaxOf(mine) + 1
                PS  == {k.ps[i] : i \in DOMAIN k.ps}
                Covered(j) == PS \subseteq UNION {Signers(k.ag[i]) : i \in j..top}
                J   == {j \in 1..top : Covered(j)}
                from == IF J = {} THEN 1 ELSE MaxOf(J)
            IN [fin |-> IF J = {} THEN k.g ELSE k.ag[from].st,
                lat |-> k.ag[top].st,
                votes |-> [i \in 1..(top - from + 1) |-> [b |-> k.ag[from + i - 1].b, sg |-> k.ag[from + i - 1].sg]]]
OnChain(votes) == [i \in DOMAIN votes |-> [b |-> votes[i].b, sg |-> Whos(votes[i].sg)]]
ProofOnChain(q) ==
    CASE q.t = "rech" -> [q EXCEPT !.sg = Whos(@)]
      [] q.t = "new"  -> [q EXCEPT !.s = Who(@)]
      [] q.t = "fut"  -> [q EXCEPT !.s = Who(@)]
      [] q.t = "inc"  -> [q EXCEPT !.s1 = Who(@), !.s2 = Who(@)]
      [] q.t = "dbl"  -> [q EXCEPT !.ds = [i \in DOMAIN q.ds |-> [q.ds[i] EXCEPT !.s1 = Who(@), !.s2 = Who(@)]]]
ProofsOnChain(prs) == [i \in DOMAIN prs |-> ProofOnChain(prs[i])]

(***************************************************************************)
(* A client in the middle of something                                     *)
(***************************************************************************)
X0(p, c) == [p |-> p, c |-> c, outs |-> <<>>, hk |-> {}, ev |-> <<>>, tk |-> {}, lk |-> FALSE, ok |-> TRUE]
AddBag(bag, m) == IF m \in DOMAIN bag THEN [bag EXCEPT ![m] = @ + 1] ELSE (m :> 1) @@ bag
Send(x, m)  == [x EXCEPT !.outs = AddBag(@, m)]
Hook(x, h)  == [x EXCEPT !.hk = @ \cup {h}]
Task(x, t)  == [x EXCEPT !.tk = @ \cup {t}]
Timer(x, dt, t) == [x EXCEPT !.p.tm = @ \cup {[at |-> x.c.now + dt, t |-> t]}]
\* the events of an executed block
Events(x, b, st) ==
    LET Add(y) == [y EXCEPT !.ev = AddBag(@, [e |-> "Addition", who |-> b.au, n |-> st.n])]
    IN IF b.op \in {"add0", "add1", "add2"} THEN Add(x)
       ELSE IF b.op = "stamp" THEN Add([x EXCEPT !.ev = AddBag(@, [e |-> "Note"])])
       ELSE IF b.op = "noisy" THEN Add(Add([x EXCEPT !.ev = AddBag(@, [e |-> "Round", n |-> st.n - 1, ps |-> st.ps])]))
       ELSE x

MsgBlk(b, s)      == [k |-> "blk", b |-> b, s |-> s]
MsgConf(b, s, cs) == [k |-> "conf", b |-> b, s |-> s, cs |-> cs]

\* whatever moved the channel forward: drain the queues, give the next participant its time
OnSuccess(x) ==
    LET nx == Next1(x.p.sm)
        y  == Hook(Task(x, [k |-> "drain"]), "turn " \o nx)
    IN Timer(y, W, [k |-> "to", f |-> Cur(x.p), h |-> NextH(x.p), who |-> nx])

(***************************************************************************)
(* Disputes                                                                *)
(***************************************************************************)
Proofs0(p, f) == IF f \in DOMAIN p.lp THEN p.lp[f] ELSE <<>>
AddProof(p, f, q) == IF In(q, Proofs0(p, f)) THEN p ELSE [p EXCEPT !.lp = (f :> Append(Proofs0(p, f), q)) @@ @]
\* of a block whose author signed the agreed block of that height as well
DblProof(p, b, s) ==
    IF Known(p, b.fork, b.h) /\ Ag(p, b.fork, b.h).b # b /\ Ag(p, b.fork, b.h).b.au = b.au
    THEN [t |-> "dbl", ds |-> <<[b1 |-> b, s1 |-> s, b2 |-> Ag(p, b.fork, b.h).b, s2 |-> FirstSig(Ag(p, b.fork, b.h), b.au)]>>]
    ELSE [t |-> "dbl", ds |-> <<>>]
\* of a block that doesn't follow from the state it builds on
IncProof(p, b, s) ==
    IF b.h = 0 THEN [t |-> "inc", b1 |-> b, s1 |-> s, b2 |-> b, s2 |-> s, st |-> F(p, b.fork).g]
    ELSE LET a == Ag(p, b.fork, b.h - 1)
         IN [t |-> "inc", b1 |-> a.b, s1 |-> FirstSig(a, a.b.au), b2 |-> b, s2 |-> s, st |-> a.st]

CreateDisputeP(x, f, to, fh, prs) ==
    LET p1 == FoldLeft(LAMBDA q, pr : AddProof(q, f, pr), [x.p EXCEPT !.dis = @ \cup {f}], prs)
        y  == [x EXCEPT !.p = p1]
        k  == Package(p1, f)
    IN IF f \in DOMAIN p1.disp THEN Task(y, [k |-> "get", f |-> f, had |-> TRUE, err |-> FALSE])
       ELSE Task(Hook(y, "onInitiatingDispute"),
                 [k |-> "create", f |-> f, left |-> 1,
                  o |-> [op |-> "create", who |-> p1.me, ch |-> Ch, fork |-> f, fin |-> k.fin, lat |-> k.lat,
                         votes |-> OnChain(k.votes), to |-> to, fh |-> fh, proofs |-> ProofsOnChain(prs)]])

LastVoted(d) == IF Len(d.votes) = 0 THEN 0 - 1 ELSE d.votes[Len(d.votes)].b.h
ValidProof(x, d, q) ==
    CASE q.t = "rech" -> q.b.h = d.fh /\ q.b.au = d.to
      [] q.t = "dbl"  -> \E i \in DOMAIN q.ds : ~In(q.ds[i].b1.au, d.sl)
      [] q.t = "inc"  -> ~In(q.b2.au, d.sl)
      [] q.t = "new"  -> Who(q.s) = d.psd /\ ~In(d.psd, d.sl) /\ q.b.h > LastVoted(d)
      [] q.t = "fut"  -> q.b.ts > Clock(x.p, x.c) /\ ~In(q.b.au, d.sl)
\* challenges the dispute d with everything that counts against it
Rechallenge(x, d, hasNew) ==
    LET f == d.fork
        newer == IF f \in DOMAIN x.p.disp THEN d.cc > x.p.disp[f] ELSE TRUE
        p1 == IF newer THEN [x.p EXCEPT !.disp = (f :> d.cc) @@ @] ELSE x.p
        p2 == IF d.to # NoOne /\ Known(p1, f, d.fh) /\ Everyone(p1, Ag(p1, f, d.fh).b)
              THEN AddProof(p1, f, [t |-> "rech", b |-> Ag(p1, f, d.fh).b, sg |-> Ag(p1, f, d.fh).sg]) ELSE p1
        S  == SignedHeights(p2, f, d.psd)
        p3 == IF S # {} /\ MaxOf(S) > LastVoted(d)
              THEN AddProof(p2, f, [t |-> "new", b |-> Ag(p2, f, MaxOf(S)).b, s |-> FirstSig(Ag(p2, f, MaxOf(S)), d.psd)])
              ELSE p2
        V  == SelectSeq(Proofs0(p3, f), LAMBDA q : ValidProof(x, d, q))
        R  == SelectSeq(V, LAMBDA q : q.t = "rech")
        prs == (IF R = <<>> THEN <<>> ELSE <<R[Len(R)]>>) \o SelectSeq(V, LAMBDA q : q.t # "rech")
        y  == [x EXCEPT !.p = p3]
        k  == Package(p3, f)
    IN IF ~newer /\ ~hasNew THEN x
       ELSE IF prs = <<>> THEN y
       ELSE Task(Hook(y, "onInitiatingDispute"),
                 [k |-> "chal", o |-> [op |-> "chal", who |-> p3.me, ch |-> Ch, fork |-> f, cc |-> d.cc,
                                       proofs |-> ProofsOnChain(prs), votes |-> OnChain(k.votes), fin |-> k.fin, lat |-> k.lat]])

(***************************************************************************)
(* A block: the checks in their order, then its execution.                 *)
(* [x, fl]: fl is the decision.                                            *)
(***************************************************************************)
R(x, fl) == [x |-> x, fl |-> fl]
\* a queue keeps one entry per key, the last one
QueueBlock(x, b, s) ==
    [x EXCEPT !.p.bq = {q \in @ : ~(q.b.fork = b.fork /\ q.b.h = b.h /\ q.b.au = b.au)} \cup {[b |-> b, s |-> s]}]
QueueConf(x, b, s, cs) ==
    [x EXCEPT !.p.cq = {q \in @ : ~(q.b.fork = b.fork /\ q.b.h = b.h /\ Who(q.cs) = Who(cs))} \cup {[b |-> b, s |-> s, cs |-> cs]}]

Authentic(b, s) == b.ch = Ch /\ Who(s) = b.au
DisputeInc(x, b, s) == R(CreateDisputeP(x, b.fork, NoOne, 0, <<IncProof(x.p, b, s)>>), "DISPUTE")
DisputeDbl(x, b, s) == R(CreateDisputeP(x, b.fork, NoOne, 0, <<DblProof(x.p, b, s)>>), "DISPUTE")

GoodTimeP(x, b) ==
    /\ b.ts >= LatestTs(x.p, b.fork)
    /\ b.ts <= Max2(LatestRel(x.p, b.fork, b.h), ChainLatest(x.c, Ch, b.fork, b.h)) + P2P

\* adds the own signature and tells the others
Confirm(x, b, s) ==
    IF b.fork \in x.p.dis THEN x
    ELSE Send([x EXCEPT !.p.forks[b.fork + 1].ag[b.h + 1].sg = Append(@, x.p.me)], MsgConf(b, s, x.p.me))
\* While a block is looked at (pipe), executed and confirmed (confirm), no other block is and no
\* transaction is made, but the fork may become disputed: dis - the disputed forks at its start;
\* then - what follows
Accept(x, b, s, st) ==
    [Events(x, b, st) EXCEPT !.p.forks[b.fork + 1].ag = Append(@, [b |-> b, sg |-> <<s>>, st |-> st]), !.p.sm = st]
Confirmed(x, b, s) == OnSuccess(Confirm([x EXCEPT !.lk = FALSE], b, s))
Start(x, b, s, then) == Task([x EXCEPT !.lk = TRUE], [k |-> "pipe", b |-> b, s |-> s, dis |-> x.p.dis, then |-> then])

\* if another block is being accepted it waits for its turn
Turn(x, b, s, then) == IF x.lk THEN Task(x, [k |-> "wait", b |-> b, s |-> s, then |-> then]) ELSE Start(x, b, s, then)

OnBlock(x, b, s, dis) ==
    LET p == x.p IN
    IF ~Authentic(b, s) THEN R(x, "DISCONNECT")
    ELSE IF ~IsOpenP(p) THEN R(QueueBlock(x, b, s), "NOT_READY")
    ELSE IF b.fork < Cur(p) \/ b.fork \in dis THEN R(x, "PAST")
    ELSE IF InChain(p, b) \/ Queued(p, b) THEN R(x, "DUPLICATE")
    ELSE IF b.fork > Cur(p) \/ b.h > NextH(p) THEN R(QueueBlock(x, b, s), "NOT_READY")
    ELSE IF ~InLatest(p, b.au) THEN R(x, "DISCONNECT")
    ELSE IF b.h < NextH(p)
         THEN IF Ag(p, b.fork, b.h).b.au = b.au THEN DisputeDbl(x, b, s)
              ELSE IF BuildsOn(p, b) THEN DisputeInc(x, b, s) ELSE R(x, "DISCONNECT")
    ELSE IF ~BuildsOn(p, b) THEN R(x, "DISCONNECT")
    ELSE IF ~GoodTimeP(x, b) THEN DisputeInc(x, b, s)
    ELSE IF Next1(p.sm) = p.me /\ Clock(p, x.c) - b.ts > PAST THEN R(x, "NOT_ENOUGH_TIME")
    ELSE IF Next1(p.sm) = p.me /\ b.ts - Clock(p, x.c) > FUTURE
         THEN R(CreateDisputeP(x, b.fork, NoOne, 0, <<[t |-> "fut", b |-> b, s |-> s]>>), "DISPUTE")
    ELSE LET e == Exec(p.sm, b)
         IN IF b.au # Next1(p.sm) \/ ~e.ok \/ e.st # b.sh THEN DisputeInc(x, b, s)
            ELSE R(Accept(x, b, s, e.st), "SUCCESS")

\* the confirmation cs of block b, signed s: what became of it once the block is known
JoinConf(x, b, s, cs) ==
    LET g == Ag(x.p, b.fork, b.h) IN
    IF ~InChain(x.p, b) THEN R(QueueConf(x, b, s, cs), "NOT_READY")
    ELSE IF ~InLatest(x.p, Who(cs)) THEN R(x, "DISCONNECT")
    ELSE IF In(cs, g.sg) THEN R(x, "DUPLICATE")
    ELSE R(Task([x EXCEPT !.p.forks[b.fork + 1].ag[b.h + 1].sg = Append(@, cs)], [k |-> "cdrain"]), "SUCCESS")
\* then it is told the others (rpc), and the rest q of the queue's entries is looked at
AfterConf(r, b, s, cs, rpc, q) ==
    LET y == IF rpc /\ r.fl = "SUCCESS" THEN Send(r.x, MsgConf(b, s, cs)) ELSE r.x
    IN IF r.fl # "DISPUTE" /\ q # {} THEN Task(y, [k |-> "confs", q |-> q]) ELSE y
OnConf(x, b, s, cs, rpc, q) ==
    LET Over(r) == AfterConf(r, b, s, cs, rpc, q) IN
    IF ~Authentic(b, s) \/ cs = "mal" THEN Over(R(x, "DISCONNECT"))
    ELSE IF ~IsOpenP(x.p) THEN Over(R(QueueConf(x, b, s, cs), "NOT_READY"))
    ELSE IF b.fork < Cur(x.p) THEN Over(R(x, "PAST"))
    ELSE IF InChain(x.p, b) THEN Over(JoinConf(x, b, s, cs))
    ELSE Turn(x, b, s, [k |-> "join", b |-> b, s |-> s, cs |-> cs, rpc |-> rpc, q |-> q])
\* what follows a block that came out as fl
Then(x, fl, b, s, t) ==
    CASE t.k = "tell" -> IF fl = "SUCCESS" THEN Send(x, MsgBlk(b, s)) ELSE x
      [] t.k = "blks" -> IF fl # "DISPUTE" /\ t.q # {} THEN Task(x, t) ELSE x
      [] t.k = "join" -> IF fl \in {"SUCCESS", "DUPLICATE"} THEN Task(x, t)
                         ELSE IF fl = "NOT_READY" THEN AfterConf(R(QueueConf(x, b, s, t.cs), fl), b, s, t.cs, t.rpc, t.q)
                         ELSE AfterConf(R(x, fl), b, s, t.cs, t.rpc, t.q)

(***************************************************************************)
(* Inputs                                                                  *)
(***************************************************************************)
\* the manager announced fork f
OnSetState(x, st, f, ts) ==
    IF f # NF(x.p) THEN x
    ELSE OnSuccess(Hook([x EXCEPT !.p.sm = st,
                                  !.p.forks = Append(@, [g |-> st, ps |-> st.ps, ts |-> ts, cb |-> {}, ag |-> <<>>])],
                        "onSetState"))

\* how a posted block relates to what is agreed
CheckP(p, b) ==
    IF InChain(p, b) \/ Queued(p, b) THEN "DUPLICATE"
    ELSE IF b.fork >= NF(p) THEN "NOT_READY"
    ELSE IF Known(p, b.fork, b.h) THEN IF Ag(p, b.fork, b.h).b.au = b.au THEN "DOUBLE_SIGN" ELSE "INCORRECT_DATA"
    ELSE IF b.h = 0 THEN IF b.psh = F(p, b.fork).g THEN "READY" ELSE "INCORRECT_DATA"
    ELSE IF ~Known(p, b.fork, b.h - 1) THEN "NOT_READY"
    ELSE IF b.psh = Ag(p, b.fork, b.h - 1).b.sh THEN "READY" ELSE "INCORRECT_DATA"

\* block b was posted on-chain at ts
OnPosted(x, b, s, ts) ==
    LET fl == CheckP(x.p, b)
        y0 == Hook(x, "onPostedCalldata")
        y1 == IF fl \in {"READY", "NOT_READY"} THEN QueueBlock(y0, b, s) ELSE y0
        y2 == IF fl \notin {"DOUBLE_SIGN", "INCORRECT_DATA"} /\ b.fork < NF(x.p) /\ ~DidPost(x.p, b.fork, b.h, b.au)
              THEN [y1 EXCEPT !.p.forks[b.fork + 1].cb = @ \cup {[h |-> b.h, who |-> b.au, ts |-> ts]}] ELSE y1
        can == b.fork = Cur(x.p) /\ InLatest(x.p, b.au)
        y3 == IF can /\ fl = "DOUBLE_SIGN" THEN DisputeDbl(y2, b, s).x
              ELSE IF can /\ fl = "INCORRECT_DATA" /\ BuildsOn(x.p, b) THEN DisputeInc(y2, b, s).x
              ELSE y2
    IN OnSuccess(y3)

\* the manager announced the dispute d
OnDisputeP(x, d) ==
    Rechallenge(Hook([x EXCEPT !.p.dis = @ \cup {d.fork}], "dispute " \o ToString(d.cc)), d, FALSE)

\* the user's transaction op, made for height h of fork f
OnPlay(x, op, f, h) ==
    LET p  == x.p
        nx == Next1(p.sm)
        t0 == Clock(p, x.c)
        t1 == IF t0 < LatestTs(p, f) THEN LatestTs(p, f) + 1 ELSE t0
        mx == LatestRel(p, f, h) + P2P
        ts == IF t1 > mx THEN mx ELSE t1
        b0 == [ch |-> Ch, fork |-> f, h |-> h, au |-> p.me, ts |-> ts, op |-> op]
        e  == Exec(p.sm, b0)
        b  == [ch |-> Ch, fork |-> f, h |-> h, au |-> p.me, ts |-> ts, op |-> op, psh |-> p.sm, sh |-> e.st]
        y  == [x EXCEPT !.p.forks[f + 1].ag = Append(@, [b |-> b, sg |-> <<p.me>>, st |-> e.st]), !.p.sm = e.st]
    IN IF ~IsOpenP(p) THEN [x EXCEPT !.ok = FALSE]
       ELSE IF f # Cur(p) \/ h # NextH(p) \/ f \in p.dis \/ nx # p.me THEN [x EXCEPT !.ok = FALSE]
       ELSE IF ~e.ok THEN [x EXCEPT !.ok = FALSE]
       ELSE Timer(Send(OnSuccess(Events(y, b, e.st)), MsgBlk(b, p.me)), AGR, [k |-> "post", b |-> b])

\* only the next transaction of the latest fork can time out
CanStill(p, f, h) == f = Cur(p) /\ h = NextH(p) /\ f \notin p.dis

\* a timer that can't do anything any more
Dead(p, t) == \/ t.k = "post" /\ Everyone(p, t.b)
              \/ t.k \in {"to", "dl"} /\ (t.who = p.me \/ t.f < Cur(p) \/ t.h < NextH(p) \/ DidPost(p, t.f, t.h, t.who))
OnTimer(x, t) ==
    CASE t.k = "post" ->
           IF Everyone(x.p, t.b) THEN x
           ELSE LET y == Hook(x, "onPostingCalldata")
                    r == Do(x.c, [op |-> "post", who |-> x.p.me, b |-> t.b, s |-> x.p.me])
                IN [y EXCEPT !.c = r.c]
      [] t.k = "to" ->
           IF \/ t.who = x.p.me \/ ~CanStill(x.p, t.f, t.h) \/ DidPost(x.p, t.f, t.h, t.who)
              \/ NF(x.p) = 0
           THEN x
           ELSE IF \/ Clock(x.p, x.c) < CbLatest(x.p, t.f, t.h) + W
                   \/ Posted(x.c, Ch, t.f, t.h, t.who) # {}
           THEN x
           ELSE LET delay == W - (Clock(x.p, x.c) - LatestTs(x.p, t.f))
                    d == [k |-> "dl", f |-> t.f, h |-> t.h, who |-> t.who]
                IN IF delay < 0 THEN CreateDisputeP(x, t.f, t.who, t.h, <<>>)
                   ELSE IF delay = 0 THEN Task(x, [k |-> "timer", t |-> d])
                   ELSE Timer(x, delay, d)
      [] t.k = "dl" ->
           IF ~CanStill(x.p, t.f, t.h) \/ DidPost(x.p, t.f, t.h, t.who) THEN x
           ELSE CreateDisputeP(x, t.f, t.who, t.h, <<>>)

(***************************************************************************)
(* Tasks: the possible results of running t                                *)
(***************************************************************************)
ReadyB(p) == {q \in p.bq : q.b.fork = Cur(p) /\ q.b.h <= NextH(p)}
ReadyC(p) == {q \in p.cq : q.b.fork = Cur(p) /\ q.b.h <= NextH(p)}
Lowest(S) == {q \in S : \A r \in S : q.b.h <= r.b.h}
TaskIf(x, cond, t) == IF cond THEN Task(x, t) ELSE x

\* what was taken out of the queues and isn't looked at yet
Rest(t) == CASE t.k \in {"blks", "confs", "join"} -> t.q
             [] t.k \in {"pipe", "confirm", "wait"} -> IF t.then.k \in {"blks", "join"} THEN t.then.q ELSE {}
             [] OTHER -> {}
Taken(x, t) == t.q \cup UNION {Rest(u) : u \in x.tk}
\* what has to wait while a block is being accepted
Free(x, i) == ~x.lk \/ i.k \in {"evpost", "evdisp", "junk", "fire", "conf"}

Run(x, t) ==
    CASE t.k = "drain" ->
           LET B == ReadyB(x.p)
               C == ReadyC(x.p)
               y == [x EXCEPT !.p.bq = @ \ B, !.p.cq = @ \ C]
           IN {TaskIf(TaskIf(y, B # {}, [k |-> "blks", q |-> B]), C # {}, [k |-> "confs", q |-> C])}
      [] t.k = "cdrain" ->
           LET C == ReadyC(x.p)
           IN {TaskIf([x EXCEPT !.p.cq = @ \ C], C # {}, [k |-> "confs", q |-> C])}
      [] t.k = "blks" ->
           {Start(x, q.b, q.s, [t EXCEPT !.q = @ \ {q}]) : q \in IF x.lk THEN {} ELSE t.q \cap Lowest(Taken(x, t))}
      [] t.k = "confs" ->
           {OnConf(x, q.b, q.s, q.cs, FALSE, t.q \ {q}) : q \in t.q \cap Lowest(Taken(x, t))}
      [] t.k = "wait" -> IF x.lk THEN {} ELSE {Start(x, t.b, t.s, t.then)}
      [] t.k = "pipe" ->
           LET r == OnBlock(x, t.b, t.s, t.dis)
           IN {IF r.fl = "SUCCESS" THEN Task(r.x, [k |-> "confirm", b |-> t.b, s |-> t.s, then |-> t.then])
               ELSE Then([r.x EXCEPT !.lk = FALSE], r.fl, t.b, t.s, t.then)}
      [] t.k = "confirm" -> {Then(Confirmed(x, t.b, t.s), "SUCCESS", t.b, t.s, t.then)}
      [] t.k = "join" -> {AfterConf(JoinConf(x, t.b, t.s, t.cs), t.b, t.s, t.cs, t.rpc, t.q)}
      [] t.k = "timers" -> \* the ones that are due, in the order of their times, each to the end
           IF x.tk # {} THEN {}
           ELSE {LET y == OnTimer(x, q.t)
                     L == {u \in t.q \ {q} : ~Dead(y.p, u.t)}
                 IN TaskIf(y, L # {}, [t EXCEPT !.q = L])
                 : q \in {r \in t.q : \A u \in t.q : r.at <= u.at}}
      [] t.k = "timer" -> {OnTimer(x, t.t)}
      [] t.k = "create" ->
           LET r == Do(x.c, t.o)
               y == [x EXCEPT !.c = r.c]
           IN {IF r.ok THEN Task(y, [k |-> "get", f |-> t.f, had |-> FALSE, err |-> FALSE])
               ELSE IF t.left > 0 THEN Task(x, [t EXCEPT !.left = @ - 1])
               ELSE Task(x, [k |-> "get", f |-> t.f, had |-> FALSE, err |-> TRUE])}
      [] t.k = "get" ->
           LET d == x.c.dp[Ch] IN
           {IF t.err /\ (~d.ex \/ d.fork # t.f) THEN [x EXCEPT !.p.dis = @ \ {t.f}]
            ELSE IF ~d.ex THEN x
            ELSE Rechallenge(x, d, t.had)}
      [] t.k = "chal" ->
           {Task([x EXCEPT !.c = Do(x.c, t.o).c], [k |-> "got", cc |-> t.o.cc])}
      [] t.k = "got" ->
           LET d == x.c.dp[Ch] IN {IF d.cc = t.cc THEN x ELSE Rechallenge(x, d, FALSE)}

\* an input that doesn't have to wait for anything
Give(x, i) ==
    CASE i.k = "blk"   -> Start(x, i.b, i.s, [k |-> "tell"])
      [] i.k = "conf"  -> OnConf(x, i.b, i.s, i.cs, TRUE, {})
      [] i.k = "play"  -> OnPlay(x, i.o, i.f, i.h)
      [] i.k = "evset" -> OnSetState(x, i.st, i.fork, i.ts)
      [] i.k = "evpost" -> OnPosted(x, i.b, i.s, i.ts)
      [] i.k = "evdisp" -> OnDisputeP(x, i.d)
      [] i.k = "junk"  -> x
      [] i.k = "fire"  -> LET D == {t \in x.p.tm : t.at <= x.c.now}
                              L == {t \in D : ~Dead(x.p, t.t)}
                          IN TaskIf([x EXCEPT !.p.tm = @ \ D], L # {}, [k |-> "timers", q |-> L])

\* a drain with nothing to take is over: whatever makes an entry ready starts another one
Idle(x) == [x EXCEPT !.tk = {t \in @ : CASE t.k = "drain" -> ReadyB(x.p) # {} \/ ReadyC(x.p) # {}
                                          [] t.k = "cdrain" -> ReadyC(x.p) # {}
                                          [] OTHER -> TRUE}]
\* everything x can come to: S is a set of [x, in], in - the inputs not given yet, in any order
Disputing == {"create", "get", "chal", "got", "timers", "timer"}
\* A trace says what came of it: whatever only ever grows has to be on the way there.
\* w - what was seen, or Anything
Anything == [any |-> TRUE]
Within(a, b) == \A m \in DOMAIN a : m \in DOMAIN b /\ a[m] <= b[m]
OnTheWay(x, w) ==
    IF w.any THEN TRUE ELSE
    /\ Within(x.outs, w.outs) /\ Within(x.ev, w.ev) /\ x.hk \subseteq w.hk
    /\ NF(x.p) <= Len(w.forks)
    /\ \A f \in DOMAIN x.p.forks :
          LET a == x.p.forks[f].ag
              o == w.forks[f].ag
          IN Len(a) <= Len(o) /\ \A j \in DOMAIN a : Len(a[j].sg) <= Len(o[j].sg) /\ (\A i \in DOMAIN a[j].sg : a[j].sg[i] = o[j].sg[i]) /\ a[j].b = o[j].b
After(s, t) == {[x |-> Idle(q), in |-> s.in] : q \in Run([s.x EXCEPT !.tk = @ \ {t}], t)}
Step1(s, w) ==
    LET kinds == {t.k : t \in s.x.tk}
        K == {t \in s.x.tk : t.k \in {"pipe", "confirm"}}
        \* nothing can come in between
        now == K # {} /\ (\A g \in s.in : g[2].k \notin {"evpost", "evdisp", "conf"}) /\ kinds \cap (Disputing \cup {"confs", "join"}) = {}
        \* when nothing is disputed and nothing else comes in, taking entries out of the queues and
        \* adding signatures commute with everything else: what is seen fixes their order
        calm == s.in = {} /\ kinds \cap Disputing = {} /\ (IF w.any THEN FALSE ELSE "onInitiatingDispute" \notin w.hk)
        D == IF calm THEN {t \in s.x.tk : t.k \in {"drain", "cdrain"}} ELSE {}
        J == IF calm /\ D = {}
             THEN UNION {{q \in After(s, t) : t.k # "confs" \/ (q.x.lk = s.x.lk /\ ~(\E u \in q.x.tk : u.k = "wait" /\ u \notin s.x.tk))}
                         : t \in {u \in s.x.tk : u.k \in {"confirm", "join", "confs"}}}
             ELSE {}
        JW == {q \in J : OnTheWay(q.x, w)}
        T == IF now THEN K ELSE s.x.tk
        G == IF now THEN {} ELSE {g \in s.in : Free(s.x, g[2])}
    IN IF s.in = {} /\ s.x.tk = {} THEN {s}
       ELSE IF D # {} THEN After(s, CHOOSE t \in D : TRUE)
       ELSE IF JW # {} THEN {CHOOSE q \in JW : TRUE}
       ELSE {[x |-> Idle(Give(s.x, g[2])), in |-> s.in \ {g}] : g \in G}
            \cup UNION {After(s, t) : t \in T}
Rested(s) == s.in = {} /\ s.x.tk = {}
RECURSIVE Settle(_, _, _)
Settle(S, done, w) ==
    IF S = {} THEN done
    ELSE LET N == {s \in UNION {Step1(s, w) : s \in S} : OnTheWay(s.x, w)}
         IN Settle({s \in N : ~Rested(s)}, done \cup {s.x : s \in {q \in N : Rested(q)}}, w)
RECURSIVE One(_)
One(s) == IF Rested(s) THEN s.x ELSE One(CHOOSE q \in Step1(s, Anything) : TRUE)
\* a transaction is made for the height at which the user asked for it
Prep(p, i) == IF i.k = "play" THEN [k |-> "play", o |-> i.o, f |-> Cur(p), h |-> NextH(p)] ELSE i
Begin(p, c, i) ==
    IF i.k = "batch"
    THEN [x |-> X0(p, c), in |-> {<<n, Prep(p, i.is[n])>> : n \in DOMAIN i.is}]
    ELSE [x |-> X0(p, c), in |-> {<<0, Prep(p, i)>>}]
OutcomesW(p, c, i, w) == Settle({Begin(p, c, i)}, {}, w)
Outcomes(p, c, i) == OutcomesW(p, c, i, Anything)

(***************************************************************************)
(* What a client shows                                                     *)
(***************************************************************************)
Heights == 0..3
Show(p) ==
    [fork |-> Cur(p), next |-> NextH(p), disputed |-> p.dis \cap (0..(NF(p) - 1)),
     sm |-> p.sm, nx |-> Next1(p.sm), ps |-> p.sm.ps,
     forks |-> [i \in DOMAIN p.forks |->
        LET k == p.forks[i] IN
        [g |-> k.g, lt |-> LatestTs(p, i - 1), cl |-> [h \in 1..4 |-> CbLatest(p, i - 1, h - 1)],
         by |-> {<<x.who, x.h>> : x \in {y \in k.cb : y.h \in Heights}},
         ag |-> [j \in DOMAIN k.ag |-> [b |-> k.ag[j].b, st |-> k.ag[j].st, sg |-> k.ag[j].sg,
                     all |-> Everyone(p, k.ag[j].b), miss |-> SelectSeq(k.ps, LAMBDA a : a \notin Signers(k.ag[j]))]],
         pkg |-> Package(p, i - 1)]]]
=============================================================================
