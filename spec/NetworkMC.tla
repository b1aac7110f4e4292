----------------------------- MODULE NetworkMC ------------------------------
(* Small exhaustive models of Network. Every state prints the inputs that    *)
(* lead to it and those that can come next; the harness gives them all to a  *)
(* real client and NetworkTrace decides about what it did.                   *)
EXTENDS Network, Json
(* q.of: who took part when everyone had signed *)
CONSTANTS Focus, Depth, LowB, LowC, LowJ   \* whether this client's address is below theirs
VARIABLES p, h, proved                     \* proved: <<t, a>>: a signed, in time, the challenge of t
vars == <<p, h, proved>>
Pref == IF Focus = "rtc" THEN 1 ELSE 0
Init == p = NewClient("A", 0, {"A", "B"}, Pref) /\ h = <<>> /\ proved = {}
Low(s) == CASE s = "B" -> LowB [] s = "C" -> LowC [] OTHER -> LowJ
Ts == DOMAIN p.kind
Open == {t \in Ts : t \notin p.closed}
New(m) == {[k |-> "new", t |-> t] : t \in {t \in m : t \notin Ts}}
Resp(t, s, o, at, pf) == [k |-> "resp", t |-> t, s |-> s, over |-> o, at |-> at, pref |-> pf, low |-> Low(s) /\ o = t, as |-> "buffer"]
Tick(d) == [k |-> "tick", dt |-> d]
Say == [k |-> "say", to |-> <<"*">>, m |-> "m"]
End(S) == {[k |-> "end", t |-> t] : t \in S}
Batch(a, b) == [k |-> "batch", is |-> <<a, b>>]
\* who is who: two connections, the right and the wrong signatures, at any time
Ids ==
    LET R == {Resp(t, s, o, Clock(p), 0) : t \in Ts, s \in {"B", "C"}, o \in Ts}
    IN New({"t1", "t2"}) \cup R \cup End(Open)
       \cup {Resp(t, "B", t, Clock(p) + d, 0) : t \in Ts, d \in {-3, -2, 2, 3}}
       \cup {Resp(t, "bad", t, Clock(p), 0) : t \in Ts}
       \cup {[k |-> "req", t |-> t, x |-> x, at |-> Clock(p) + d, as |-> "bytes"] : t \in Ts, x \in {"q1"} \cup Ts, d \in {-3, -2, 0, 2, 3}}
       \cup (IF p.now < 4 THEN {Tick(1), Tick(2)} ELSE {}) \cup {Say, [k |-> "leave"], [k |-> "dispose"], [k |-> "visit", topic |-> "c1"]}
       \cup {Batch(a, b) : a \in {r \in R : r.s = "B"}, b \in {r \in R : r.s = "B"}}
\* WebRTC
Ask == {[k |-> kk, t |-> t, o |-> o, as |-> "text"] : kk \in {"answer", "ice"}, t \in Open, o \in {"x1", "bad", "refused"}} \cup {[k |-> "offer", t |-> t, o |-> o, as |-> "text"] : t \in Open, o \in {"o9", "stuck"}}
Rtcs == {n \in 0..(p.nrtc - 1) : \E a \in DOMAIN p.rtc : p.rtc[a] = n}
RName(n) == "r" \o ToString(n)
RtcIn ==
    New({"t1", "t2"}) \cup {Resp(t, s, t, Clock(p), pf) : t \in Open, s \in {"B", "C"}, pf \in {0}} \cup {[k |-> "broken", on |-> TRUE] : z \in IF p.broken THEN {} ELSE {1}} \cup (IF p.nrtc < 3 THEN Ask ELSE {a \in Ask : a.k # "offer"})
    \cup {[k |-> "open", t |-> RName(n), c |-> n] : n \in {m \in Rtcs : RName(m) \notin Ts}}
    \cup {[k |-> "mine", c |-> n, o |-> "m1"] : n \in {n \in Rtcs : In(p.via[n + 1], p.conns)}}
    \cup {[k |-> "dying", t |-> t] : t \in {t \in Open : p.kind[t] = RTC /\ t \notin p.deaf}} \cup End(Open) \cup {Say}
\* requests to join
Jcs == {[p |-> "J", n |-> 1, dl |-> 2], [p |-> "K", n |-> 1, dl |-> 3000000]}
JoinIn ==
    LET J == {[k |-> "join", t |-> "t1", jc |-> jc, s |-> s, cs |-> cs, as |-> "buffer"] : jc \in Jcs, s \in {"J", "K"}, cs \in {None, "A", "B", "B2", "C", "bad"}}
    IN IF Ts = {} THEN New({"t1"}) ELSE J \cup {[k |-> "members", to |-> m] : m \in {m \in {<<"A", "B">>, <<"A", "C">>, <<"C">>} : {m[n] : n \in DOMAIN m} # p.members}}
         \cup {Tick(1)} \cup {Batch(a, b) : a \in {j \in J : j.s = "J" /\ j.cs \in {None, "B"}}, b \in {j \in J : j.s = "J" /\ j.cs \in {None, "B", "A"}}}
\* participants that come and go while a request is signed
TeamIn ==
    LET J == {[k |-> "join", t |-> "t1", jc |-> jc, s |-> "J", cs |-> cs, as |-> "buffer"] : jc \in {[p |-> "J", n |-> 1, dl |-> 2]}, cs \in {"A", "B", "C", "K"}}
    IN IF Ts = {} THEN New({"t1"}) ELSE J \cup {[k |-> "members", to |-> m] : m \in {m \in {<<"A", "B">>, <<"A", "C", "K">>, <<"A", "K">>, <<"C">>} : {m[n] : n \in DOMAIN m} # p.members}}
Inputs == CASE Focus = "ids" -> Ids [] Focus = "rtc" -> RtcIn [] Focus = "join" -> JoinIn [] Focus = "teams" -> TeamIn
\* what the answers in i show
RECURSIVE Shown(_)
Shown(is) == IF is = <<>> THEN {} ELSE LET i == Head(is) IN (IF i.k = "resp" /\ i.s # "bad" /\ i.over = i.t /\ Clock(p) - p.chal[i.t] <= AGR /\ Abs(i.at - p.chal[i.t]) <= AGR THEN {<<i.t, i.s>>} ELSE {}) \cup Shown(Tail(is))
Next ==
    /\ Len(h) < Depth
    /\ \E i \in Inputs : \E x \in Outcomes(p, i) :
         /\ p' = x.p /\ h' = Append(h, i)
         /\ proved' = proved \cup Shown(IF i.k = "batch" THEN i.is ELSE <<i>>)
Spec == Init /\ [][Next]_vars
View == <<p, proved>>
(***************************************************************************)
Emit == PrintT("STATE " \o ToJson([h |-> h, is |-> IF Len(h) < Depth THEN Inputs ELSE {}]))
Known == {"A", "B", "C", "J", "K"}
\* an address belongs to a connection only if its owner proved it there, on that very connection
Identity == \A t \in DOMAIN p.by : p.by[t] \in Known => <<t, p.by[t]>> \in proved
\* of an address' connections only one is in use
OneEach == \A t, u \in DOMAIN p.by : p.by[t] = p.by[u] => t = u
\* what was closed isn't spoken to
Alive == \A i \in DOMAIN p.conns : p.conns[i] \notin p.closed
NoTwice == \A i, j \in DOMAIN p.conns : p.conns[i] = p.conns[j] => i = j
\* nothing is kept beyond its deadline, and what's passed on is signed by everyone
InTime == \A j \in DOMAIN p.jr : j.dl > Clock(p) \/ j.dl = 3000000
Whole == \A i \in DOMAIN p.jq : LET q == p.jq[i] IN q.s = q.jc.p /\ \A m \in q.of : \E k \in DOMAIN q.cs : Whose(q.cs[k]) = m
OwnFirst == \A j \in DOMAIN p.jr : \E i \in DOMAIN p.jr[j] : p.jr[j][i].who = p.me
=============================================================================
