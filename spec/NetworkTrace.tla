---------------------------- MODULE NetworkTrace ----------------------------
(* Accepts what the connections of a real client did iff Network's Outcomes *)
(* contains it. A line is {i, outs, hk, rc, obs, nx}.                        *)
EXTENDS Network, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet2(s) == {s[i] : i \in DOMAIN s}
VARIABLES S, l
vars == <<S, l>>
Init == S = {} /\ l = 1
Bag(b) == {[m |-> m, n |-> b[m]] : m \in DOMAIN b}
Same(p, o) ==
    LET q == Show(p) IN
    /\ ToSet2(q.conns) = ToSet2(o.conns) /\ Len(q.conns) = Len(o.conns)
    /\ q.by = ToSet2(o.by) /\ q.prof = ToSet2(o.prof) /\ q.closed = ToSet2(o.closed)
    /\ q.jr = {[jc |-> o.jr[i].jc, sg |-> ToSet2(o.jr[i].sg)] : i \in DOMAIN o.jr}
    /\ q.jq = [i \in DOMAIN o.jq |-> [jc |-> o.jq[i].jc, s |-> o.jq[i].s, cs |-> ToSet2(o.jq[i].cs)]]
Matches(x, e) ==
    /\ Bag(x.outs) = ToSet2(e.outs) /\ Bag(x.hk) = ToSet2(e.hk) /\ Bag(x.rc) = ToSet2(e.rc)
    /\ Same(x.p, e.obs)
Why(x) == [outs |-> Bag(x.outs), hk |-> Bag(x.hk), rc |-> Bag(x.rc), obs |-> Show(x.p)]
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       IF e.i.k = "start"
       THEN S' = {NewClient(e.i.me, e.i.skew, ToSet2(e.i.members), e.i.pref)} /\ l' = l + 1
       ELSE LET O == UNION {Outcomes(p, e.i) : p \in S}
                T == {x.p : x \in {y \in O : Matches(y, e)}}
            IN IF T # {} THEN S' = T /\ l' = l + 1
               ELSE /\ PrintT("MISMATCH " \o ToJson([l |-> l, why |-> "network", exp |-> {Why(x) : x \in O}]))
                    /\ S' = {} /\ l' = e.nx
Spec == Init /\ [][Next]_vars
AtEnd == l = Len(Trace) + 1 => PrintT("END " \o ToString(l - 1))
=============================================================================
