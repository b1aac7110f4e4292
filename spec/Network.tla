------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* The connections of one client (P2PManager, the transports, the profile  *)
(* manager, the handshake, the set-up of WebRTC connections and the        *)
(* collection of signatures on requests to join).                          *)
(*                                                                         *)
(* A connection is named by a string; the challenge that the client sends  *)
(* on it has the connection's name. An address that nobody has (what is    *)
(* recovered from a signature over something else) is named by what it was *)
(* recovered from.                                                         *)
(*    Settle({[x |-> X0(p), in |-> <<inputs>>]}) = what p may come to       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

AGR == 2                         \* the agreement time
HP == 0                          \* kinds of connections
RTC == 1
None == "-"

In(a, s) == \E i \in DOMAIN s : s[i] = a
NewClient(me, skew, members, pref) ==
    [me |-> me, skew |-> skew, members |-> members, pref |-> pref, now |-> 0,
     kind |-> <<>>, conns |-> <<>>, chal |-> <<>>, closed |-> {}, deaf |-> {},  \* deaf: nothing can be sent on it
     topics |-> <<>>,                            \* where others are looked for
     by |-> <<>>, prof |-> <<>>,                 \* connection -> address, address -> connection
     broken |-> FALSE,                          \* the browser makes no offers
     nrtc |-> 0, via |-> <<>>, rtc |-> <<>>,     \* WebRTC connections: set up over, address -> number
     jr |-> <<>>, jt |-> {}, jq |-> <<>>]        \* requests to join, when they end, and those everyone signed
Clock(p) == p.now + p.skew
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]

X0(p) == [p |-> p, outs |-> <<>>, hk |-> <<>>, rc |-> <<>>, tk |-> {}]
AddBag(bag, m) == IF m \in DOMAIN bag THEN [bag EXCEPT ![m] = @ + 1] ELSE (m :> 1) @@ bag
Send(x, t, m) == IF t \in x.p.deaf THEN x ELSE [x EXCEPT !.outs = AddBag(@, [to |-> t, m |-> m])]
RECURSIVE SendAll(_, _, _)
SendAll(x, ts, m) == IF ts = <<>> THEN x ELSE SendAll(Send(x, Head(ts), m), Tail(ts), m)
Broadcast(x, m) == SendAll(x, x.p.conns, m)
Rtc(x, c, what) == [x EXCEPT !.rc = AddBag(@, [c |-> c, did |-> what])]
Task(x, t) == [x EXCEPT !.tk = @ \cup {[n |-> Cardinality(@) + 1000 * x.p.nrtc, t |-> t]}]

(***************************************************************************)
(* Connections                                                             *)
(***************************************************************************)
Without(s, t) == SelectSeq(s, LAMBDA u : u # t)
\* the connection t ends: it's taken off the list and, if it's known whose it was, closed.
\* A closed Holepunch or WebRTC connection is taken off the list as well.
Shut(p, t) == [p EXCEPT !.closed = @ \cup {t}, !.deaf = IF p.kind[t] = RTC THEN @ \cup {t} ELSE @]
Forget(p, t) == Shut([p EXCEPT !.by = Del(@, t), !.conns = Without(@, t)], t)
Drop(p, t) == LET q == [p EXCEPT !.conns = Without(@, t)] IN IF Has(q.by, t) THEN Forget(q, t) ELSE q
RECURSIVE DropAll(_, _)
DropAll(p, ts) == IF ts = <<>> THEN p ELSE DropAll(Drop(p, Head(ts)), Tail(ts))
\* the connection's other end went away
Ended(p, t) == IF t \in p.closed THEN p ELSE Drop(Shut(p, t), t)

Add(x, t) == Send([x EXCEPT !.p.conns = Append(@, t), !.p.chal = Put(@, t, Clock(x.p))], t, [k |-> "req", x |-> t, at |-> Clock(x.p)])

Abs(n) == IF n < 0 THEN 0 - n ELSE n
\* a challenge: signed if the clocks agree
OnRequest(x, t, ch, at) ==
    IF Abs(at - Clock(x.p)) > AGR \/ ch = "bad" THEN x
    ELSE Task(x, [k |-> "respond", t |-> t, m |-> [k |-> "resp", over |-> ch, s |-> x.p.me, at |-> Clock(x.p), pref |-> x.p.pref]])
\* an answer: it tells whose the connection is
Recovered(s, over, t) == IF over = t THEN s ELSE s \o "~" \o over \o "~" \o t
OnResponse(x, t, s, over, at, pref, low) ==
    LET p == x.p IN
    IF ~Has(p.chal, t) THEN [x EXCEPT !.p = Drop(p, t)]
    ELSE IF Clock(p) - p.chal[t] > AGR \/ Abs(at - p.chal[t]) > AGR THEN [x EXCEPT !.p = Drop(p, t)]
    ELSE IF s = "bad" THEN x
    ELSE LET a == Recovered(s, over, t)
             old == IF Has(p.prof, a) THEN p.prof[a] ELSE None
             p1 == IF old # None /\ old # t /\ Has(p.by, old) THEN Forget(p, old) ELSE p
             p2 == [p1 EXCEPT !.prof = Put(@, a, t), !.by = IF old = t THEN @ ELSE Put(@, t, a)]
             y  == [x EXCEPT !.p = p2, !.hk = AddBag(@, a)]
         IN IF (pref = RTC \/ p.pref = RTC) /\ p.kind[t] # RTC /\ low
            THEN Task([y EXCEPT !.p.nrtc = @ + 1, !.p.via = Append(@, t)], [k |-> "offer", t |-> t, c |-> p2.nrtc])
            ELSE y

(***************************************************************************)
(* WebRTC: offer, answer, candidates                                       *)
(***************************************************************************)
\* the browser takes no "refused" description or candidate, and cannot answer a "stuck" offer
OnOffer(x, t, o) ==
    LET y == [x EXCEPT !.p.nrtc = @ + 1, !.p.via = Append(@, t)]
        c == x.p.nrtc
        z == [y EXCEPT !.p.rtc = Put(@, x.p.by[t], c)]
    IN IF ~Has(x.p.by, t) \/ o = "bad" THEN x
       ELSE IF o = "refused" THEN z
       ELSE IF o = "stuck" THEN Rtc(z, c, "remote stuck")
       ELSE Task(Rtc(z, c, "remote " \o o), [k |-> "answer", t |-> t, c |-> c])
OnAnswer(x, t, o) ==
    IF ~Has(x.p.by, t) \/ o \in {"bad", "refused"} THEN x
    ELSE IF ~Has(x.p.rtc, x.p.by[t]) THEN x
    ELSE Rtc(x, x.p.rtc[x.p.by[t]], "remote " \o o)
OnIce(x, t, o) ==
    IF ~Has(x.p.by, t) \/ o \in {"bad", "refused"} THEN x
    ELSE IF ~Has(x.p.rtc, x.p.by[t]) THEN x
    ELSE Rtc(x, x.p.rtc[x.p.by[t]], "candidate " \o o)

(***************************************************************************)
(* Requests to join                                                        *)
(***************************************************************************)
Insert(sg, who, s) == IF \E i \in DOMAIN sg : sg[i].who = who THEN sg ELSE Append(sg, [who |-> who, s |-> s])
SigsOf(p, jc) == IF Has(p.jr, jc) THEN p.jr[jc] ELSE <<>>
\* jc, signed s, with the confirmation cs (None - without)
OnJoin(x, jc, s, cs) ==
    LET then == IF cs = None THEN x ELSE Task(x, [k |-> "joined", jc |-> jc, s |-> s, cs |-> cs]) IN
    IF s # jc.p THEN x
    ELSE IF Has(x.p.jr, jc) THEN then
    ELSE IF jc.dl <= Clock(x.p) THEN x
    ELSE Task(x, [k |-> "sign", jc |-> jc, s |-> s, cs |-> cs])
Whose(s) == IF s \in {"A2", "B2", "C2", "J2", "K2"} THEN SubSeq(s, 1, 1) ELSE s
Everyone(p, jc) == \A m \in p.members : \E i \in DOMAIN SigsOf(p, jc) : SigsOf(p, jc)[i].who = m
Collect(x, jc, s, cs) ==
    IF cs = "bad" \/ Whose(cs) \notin x.p.members THEN x
    ELSE LET y == [x EXCEPT !.p.jr = Put(@, jc, Insert(SigsOf(x.p, jc), Whose(cs), cs))]
         IN IF Everyone(y.p, jc) THEN [y EXCEPT !.p.jq = Append(@, [jc |-> jc, s |-> s, of |-> y.p.members, cs |-> [i \in DOMAIN y.p.jr[jc] |-> y.p.jr[jc][i].s]])] ELSE y

Run(x, t) ==
    CASE t.k = "offer" ->  \* made meanwhile
           IF x.p.broken THEN x
           ELSE IF ~Has(x.p.by, t.t) THEN Rtc(x, t.c, "local")
           ELSE Send(Rtc([x EXCEPT !.p.rtc = Put(@, x.p.by[t.t], t.c)], t.c, "local"), t.t, [k |-> "offer", c |-> t.c])
      [] t.k = "answer" -> Send(Rtc(x, t.c, "local"), t.t, [k |-> "answer", c |-> t.c])
      [] t.k = "respond" -> Send(x, t.t, t.m)
      [] t.k = "sign" ->
           LET p1 == [x.p EXCEPT !.jr = Put(@, t.jc, Insert(SigsOf(x.p, t.jc), x.p.me, x.p.me)),
                                 !.jt = @ \cup {[jc |-> t.jc, at |-> t.jc.dl]}]
               y  == Broadcast([x EXCEPT !.p = p1], [k |-> "join", jc |-> t.jc, s |-> t.s, cs |-> x.p.me])
           IN IF t.cs = None THEN y ELSE Task(y, [k |-> "joined", jc |-> t.jc, s |-> t.s, cs |-> t.cs])
      [] t.k = "joined" -> Collect(x, t.jc, t.s, t.cs)

RECURSIVE LeaveAll(_, _)
LeaveAll(x, ts) == IF ts = <<>> THEN x ELSE LeaveAll(Send(x, "swarm", [k |-> "leave", topic |-> Head(ts)]), Tail(ts))
OnMessage == {"req", "resp", "offer", "answer", "ice", "join"}
Give(x, i) ==
    IF i.k \in OnMessage /\ x.p.kind[i.t] = RTC /\ i.t \in x.p.closed THEN x ELSE
    CASE i.k = "new"   -> Add([x EXCEPT !.p.kind = Put(@, i.t, HP)], i.t)
      [] i.k = "open"  -> \* the channel of a WebRTC connection
           Add([x EXCEPT !.p.kind = Put(@, i.t, RTC)], i.t)
      [] i.k = "end"   -> [x EXCEPT !.p = Ended(@, i.t)]
      [] i.k = "dying" -> \* nothing can be sent any more, and the client hasn't heard it yet
           [x EXCEPT !.p.deaf = @ \cup {i.t}]
      [] i.k = "visit" -> Send([x EXCEPT !.p.topics = Append(@, i.topic)], "swarm", [k |-> "join", topic |-> i.topic])
      [] i.k = "leave" -> [x EXCEPT !.p = DropAll(@, x.p.conns)]
      [] i.k = "dispose" -> LET y == LeaveAll(x, x.p.topics) IN [y EXCEPT !.p = DropAll([@ EXCEPT !.topics = <<>>], x.p.conns)]
      [] i.k = "req"   -> OnRequest(x, i.t, i.x, i.at)
      [] i.k = "resp"  -> OnResponse(x, i.t, i.s, i.over, i.at, i.pref, i.low)
      [] i.k = "offer" -> OnOffer(x, i.t, i.o)
      [] i.k = "answer" -> OnAnswer(x, i.t, i.o)
      [] i.k = "ice"   -> OnIce(x, i.t, i.o)
      [] i.k = "mine"  -> \* a WebRTC connection c, set up over t, found a candidate
           Send(x, x.p.via[i.c + 1], [k |-> "ice", o |-> i.o])
      [] i.k = "join"  -> OnJoin(x, i.jc, i.s, i.cs)
      [] i.k = "say"   -> \* the client's other parts say something: to everybody, to one, or to some
           SendAll(x, IF i.to = <<"*">> THEN x.p.conns ELSE i.to, [k |-> "said", m |-> i.m])
      [] i.k = "broken" -> [x EXCEPT !.p.broken = i.on]
      [] i.k = "members" -> \* somebody else takes part in the channel now
           [x EXCEPT !.p.members = {i.to[n] : n \in DOMAIN i.to}]
      [] i.k = "junk"  -> x
      [] i.k = "tick"  -> LET p1 == [x.p EXCEPT !.now = @ + i.dt]
                              due == {q.jc : q \in {q \in p1.jt : q.at <= Clock(p1)}}
                          IN [x EXCEPT !.p = [p1 EXCEPT !.jr = [q \in DOMAIN @ \ due |-> @[q]], !.jt = {q \in @ : q.jc \notin due}]]

\* inputs are begun in the order in which they come, what goes on in the background has any order
RECURSIVE Settle(_)
Step1(s) ==
    IF s.in = <<>> /\ s.x.tk = {} THEN {s}
    ELSE (IF s.in = <<>> THEN {} ELSE {[x |-> Give(s.x, Head(s.in)), in |-> Tail(s.in)]})
         \cup {[x |-> Run([s.x EXCEPT !.tk = @ \ {t}], t.t), in |-> s.in] : t \in s.x.tk}
Settle(S) ==
    IF \A s \in S : s.in = <<>> /\ s.x.tk = {} THEN {s.x : s \in S}
    ELSE Settle(UNION {Step1(s) : s \in S})
Outcomes(p, i) == Settle({[x |-> X0(p), in |-> IF i.k = "batch" THEN i.is ELSE <<i>>]})

(***************************************************************************)
(* What the client shows                                                   *)
(***************************************************************************)
Show(p) ==
    [conns |-> SelectSeq(p.conns, LAMBDA t : t \notin p.deaf),
     by |-> {<<t, p.by[t]>> : t \in DOMAIN p.by},
     prof |-> {<<a, p.prof[a]>> : a \in DOMAIN p.prof},
     closed |-> p.closed,
     jr |-> {[jc |-> j, sg |-> {p.jr[j][i].s : i \in DOMAIN p.jr[j]}] : j \in DOMAIN p.jr},
     jq |-> [i \in DOMAIN p.jq |-> [jc |-> p.jq[i].jc, s |-> p.jq[i].s, cs |-> {p.jq[i].cs[j] : j \in DOMAIN p.jq[i].cs}]]]
=============================================================================
