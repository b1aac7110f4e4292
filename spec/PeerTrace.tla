----------------------------- MODULE PeerTrace ------------------------------
(* Accepts what real clients did next to the real contracts iff Peer's      *)
(* Outcomes contains it. The state is the set of everything the clients and *)
(* the chain may be in, given what was seen so far; a line that none of     *)
(* them explains is a mismatch.                                             *)
(* A line is {p, i, ok, outs, hooks, ev, chg, ch, obs, nx}.                      *)
EXTENDS Peer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet2(s) == {s[i] : i \in DOMAIN s}
VARIABLES S, l
vars == <<S, l>>
Init == S = {} /\ l = 1
Bag(b) == {[m |-> m, n |-> b[m]] : m \in DOMAIN b}
SameChain(c, obs) ==
    LET q == Proj(c, 1, 3) IN
    /\ q.now = obs.now /\ q.forks = obs.forks /\ q.dp = obs.dp /\ q.open = obs.open /\ q.inp = obs.inp
    /\ q.nx = obs.nx /\ q.cl = obs.cl /\ q.posted = ToSet2(obs.posted)
SameFork(k, o) ==
    /\ k.g = o.g /\ k.lt = o.lt /\ k.cl = o.cl /\ k.by = ToSet2(o.by) /\ k.ag = o.ag /\ k.pkg = o.pkg
SamePeer(p, o) ==
    LET q == Show(p) IN
    /\ q.fork = o.fork /\ q.next = o.next /\ q.disputed = ToSet2(o.disputed) /\ q.sm = o.sm /\ q.nx = o.nx /\ q.ps = o.ps
    /\ "unhandled" \notin DOMAIN o
    /\ Len(q.forks) = Len(o.forks) /\ \A i \in DOMAIN q.forks : SameFork(q.forks[i], o.forks[i])
\* what is different, for the report
Why(x, e) ==
    [ok |-> x.ok, outs |-> Bag(x.outs), hooks |-> x.hk, ev |-> Bag(x.ev), obs |-> Show(x.p),
     ch |-> IF e.chg THEN <<Proj(x.c, 1, 3)>> ELSE <<>>]
Matches(x, c, e) ==
    /\ x.ok = e.ok /\ Bag(x.outs) = ToSet2(e.outs) /\ x.hk = ToSet2(e.hooks) /\ Bag(x.ev) = ToSet2(e.ev)
    /\ IF e.chg THEN SameChain(x.c, e.ch) ELSE x.c = c
    /\ SamePeer(x.p, e.obs)
\* what was seen, for OnTheWay
Seen(e) ==
    LET Fun(b) == [m \in {b[i].m : i \in DOMAIN b} |-> LET i == CHOOSE i \in DOMAIN b : b[i].m = m IN b[i].n]
    IN [any |-> FALSE, outs |-> Fun(e.outs), ev |-> Fun(e.ev), hk |-> ToSet2(e.hooks), forks |-> e.obs.forks]
Next ==
    /\ l <= Len(Trace)
    /\ PrintT("AT " \o ToString(l))
    /\ LET e == Trace[l] IN
       IF e.i.k = "start"
       THEN S' = {[pr |-> [n \in DOMAIN e.i.peers |-> NewPeer(n, e.i.peers[n])], c |-> NewChain(e.i.now)]} /\ l' = l + 1
       ELSE IF e.i.k = "chain"
       THEN LET D(s) == Do(s.c, e.i.o)
                T == {s \in S : D(s).ok = e.ok /\ (e.ok => SameChain(D(s).c, e.ch))}
            IN IF T # {} THEN S' = {[s EXCEPT !.c = D(s).c] : s \in T} /\ l' = l + 1
               ELSE /\ PrintT("MISMATCH " \o ToJson([l |-> l, why |-> "chain", exp |-> LET d == D(CHOOSE s \in S : TRUE) IN [ok |-> d.ok, ch |-> Proj(d.c, 1, 3)]]))
                    /\ S' = {} /\ l' = e.nx
       ELSE LET w == Seen(e)
                O(s) == OutcomesW(s.pr[e.p], s.c, e.i, w)
                T == UNION {{[pr |-> [s.pr EXCEPT ![e.p] = x.p], c |-> x.c] : x \in {y \in O(s) : Matches(y, s.c, e)}} : s \in S}
            IN IF T # {} THEN S' = T /\ l' = l + 1
               ELSE /\ PrintT("NOPE " \o ToString(l))
                    /\ PrintT("MISMATCH " \o ToJson([l |-> l, why |-> "peer", exp |-> LET Y == UNION {O(s) : s \in S}
                                                                                      s1 == CHOOSE s \in S : TRUE
                                                                                  IN {Why(x, e) : x \in IF Y # {} THEN Y ELSE {One(Begin(s1.pr[e.p], s1.c, e.i))}}]))
                    /\ S' = {} /\ l' = e.nx
Spec == Init /\ [][Next]_vars
\* several clients: what one has signed it has agreed to, so nobody has another block with its signature
Agrees(pr) == \A m \in DOMAIN pr : \A f \in DOMAIN pr[m].forks : \A i \in DOMAIN pr[m].forks[f].ag :
    LET a == pr[m].forks[f].ag[i] IN \A n \in DOMAIN pr : In(n, a.sg) => InChain(pr[n], a.b)
Together == S # {} /\ (\A s \in S : ~Agrees(s.pr)) => PrintT("APART " \o ToJson([l |-> l - 1]))
AtEnd == l = Len(Trace) + 1 => PrintT("END " \o ToString(l - 1))
=============================================================================
