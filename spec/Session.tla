------------------------------ MODULE Session -------------------------------
(* What a client does for its user: it follows the channel that the user      *)
(* connected it to, and no other, tells the user's hooks - those that were    *)
(* set last - each event once, and ends when the user disposes of it: then    *)
(* no event reaches it or its user any more, its connections are closed and   *)
(* its listeners are gone.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES s, h, r
vars == <<s, h, r>>

Chans == {"c1", "c2"}
Forms == {"text", "upper", "bytes"}
\* n: the forks that it knows of the channel. What the chain says of c1 and c2: two forks, a published block, and a dispute.
\* evs: what it heard of the channel; over: it found somebody to blame
Start == [ch |-> "-", hk |-> 0, n |-> 0, gone |-> FALSE, evs |-> {}, over |-> FALSE]
Ops(x) == IF x.over THEN {} ELSE
    \* a client serves one channel: it may be sent to another one until it knows the first
    \* - however its identifier is written
    {[k |-> "connect", ch |-> c, form |-> f] : c \in {c \in Chans : ~x.gone /\ (x.n = 0 \/ c = x.ch)}, f \in Forms}
    \cup {[k |-> "hooks", hk |-> i] : i \in 1..2}
    \cup {[k |-> "set", ch |-> c, f |-> f] : c \in Chans, f \in 0..1}
    \cup {[k |-> e, ch |-> c] : e \in {"posted", "dispute"}, c \in {c \in Chans : x.n > 0 \/ x.ch # c}}
    \cup (IF x.gone THEN {} ELSE {[k |-> "dispose"]})
    \* a participant signs two blocks for one height
    \cup {[k |-> "double", ch |-> x.ch] : q \in {q \in {0} : ~x.gone /\ x.n = 1 /\ x.evs = {}}}

Hears(x, o) == ~x.gone /\ x.ch = o.ch
\* the second set has only some of the hooks
Has(x, name) == x.hk # 2 \/ name \in {"onSetState", "onPostedCalldata"}
Hook(x, names) == LET l == SelectSeq(names, LAMBDA m : Has(x, m)) IN [i \in DOMAIN l |-> <<x.hk, l[i]>>]
Noted(x, o) == IF Hears(x, o) THEN [x EXCEPT !.evs = @ \cup {o.k}] ELSE x
Do1(x, o) ==
    CASE o.k = "connect" -> [s |-> [x EXCEPT !.ch = o.ch], told |-> <<>>]
      [] o.k = "hooks" -> [s |-> [x EXCEPT !.hk = o.hk], told |-> <<>>]
      [] o.k = "set" -> IF Hears(x, o) /\ o.f = x.n THEN [s |-> [x EXCEPT !.n = @ + 1], told |-> Hook(x, <<"onSetState", "onTurn">>)] ELSE [s |-> x, told |-> <<>>]
      [] o.k = "posted" -> [s |-> Noted(x, o), told |-> IF Hears(x, o) THEN Hook(x, <<"onPostedCalldata", "onTurn">>) ELSE <<>>]
      [] o.k = "dispute" -> [s |-> Noted(x, o), told |-> IF Hears(x, o) THEN Hook(x, <<"onDisputeUpdate">>) ELSE <<>>]
      [] o.k = "double" -> [s |-> [x EXCEPT !.over = TRUE], told |-> Hook(x, <<"onTurn", "onInitiatingDispute">>)]
      [] o.k = "dispose" -> [s |-> [x EXCEPT !.gone = TRUE], told |-> <<>>]

Init == s = Start /\ h = <<>> /\ r = <<>>
Next == /\ Len(h) < Depth
        /\ \E o \in Ops(s) : /\ h' = Append(h, o)
                             /\ s' = Do1(s, o).s
                             /\ r' = Append(r, [met |-> IF o.k = "connect" THEN <<o.ch>> ELSE <<>>,    \* where it looks for others
                                             told |-> Do1(s, o).told, n |-> Do1(s, o).s.n, gone |-> Do1(s, o).s.gone])
Spec == Init /\ [][Next]_vars

\* nothing is told after the end, nothing of another channel, and only to the hooks set last
Over == \A i \in DOMAIN h : (\E j \in 1..(i - 1) : h[j].k = "dispose") => r[i].told = <<>>
Own == \A i \in DOMAIN h : r[i].told # <<>> => \E j \in 1..(i - 1) : h[j].k = "connect" /\ h[j].ch = h[i].ch /\ \A q \in (j + 1)..(i - 1) : h[q].k # "connect" \/ h[q].ch = h[i].ch
Latest == \A i \in DOMAIN h : \A q \in DOMAIN r[i].told : \A j \in 1..(i - 1) : (h[j].k = "hooks" /\ \A l \in (j + 1)..(i - 1) : h[l].k # "hooks") => r[i].told[q][1] = h[j].hk
Emit == (Len(h) = Depth \/ s.over) => PrintT("CASE " \o ToJson([h |-> h, r |-> r]))
=============================================================================
