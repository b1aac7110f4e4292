-------------------------------- MODULE Relay -------------------------------
(* How a client in a browser keeps in touch: it reaches the swarm through a   *)
(* relay out of a list, joins its topics there and takes the connections of   *)
(* that swarm; a relay that ends or fails is struck off the list and another  *)
(* one takes its place, with all the topics, as long as there is one.         *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Relays,    \* how many relays there are
          Bad,       \* which attempts fail at once
          Topics, Depth
VARIABLES left,      \* relays on the list
          tried,     \* attempts so far, each with another relay
          gone,      \* attempts whose relay is off the list
          sw,        \* the swarms: of which attempt, what was done with them
          topics, h
vars == <<left, tried, gone, sw, topics, h>>
Log(ts) == [i \in DOMAIN ts |-> [k |-> "join", t |-> ts[i]]]
\* picks relays until one works
RECURSIVE Connect(_, _)
Connect(s, ts) ==
    IF s.left = 0 THEN s
    ELSE LET n == s.tried + 1 IN
         IF n \in Bad THEN Connect([s EXCEPT !.tried = n, !.left = @ - 1, !.gone = @ \cup {n}], ts)
         ELSE [s EXCEPT !.tried = n, !.sw = Append(@, [r |-> n, log |-> Log(ts), conns |-> 0])]
St == [left |-> left, tried |-> tried, gone |-> gone, sw |-> sw]
Put(s) == left' = s.left /\ tried' = s.tried /\ gone' = s.gone /\ sw' = s.sw
Did(o) == h' = Append(h, o)
Cur == Len(sw)
Join(t) == /\ Did([k |-> "join", t |-> t]) /\ topics' = Append(topics, t)
           /\ sw' = [sw EXCEPT ![Cur].log = Append(@, [k |-> "join", t |-> t])]
           /\ UNCHANGED <<left, tried, gone>>
Leave == /\ Did([k |-> "leave"]) /\ topics' = <<>>
         /\ sw' = [sw EXCEPT ![Cur].log = @ \o [i \in DOMAIN topics |-> [k |-> "leave", t |-> topics[i]]]]
         /\ UNCHANGED <<left, tried, gone>>
Ends(i, how) == /\ Did([k |-> how, i |-> i]) /\ UNCHANGED topics
                /\ IF sw[i].r \in gone THEN UNCHANGED <<left, tried, gone, sw>>
                   ELSE Put(Connect([St EXCEPT !.left = @ - 1, !.gone = @ \cup {sw[i].r}], topics))
Opens(i) == Did([k |-> "open", i |-> i]) /\ UNCHANGED <<left, tried, gone, sw, topics>>
Peer(i) == /\ Did([k |-> "peer", i |-> i]) /\ sw' = [sw EXCEPT ![i].conns = @ + 1] /\ UNCHANGED <<left, tried, gone, topics>>
Init == LET s == Connect([left |-> Relays, tried |-> 0, gone |-> {}, sw |-> <<>>], <<>>)
        IN left = s.left /\ tried = s.tried /\ gone = s.gone /\ sw = s.sw /\ topics = <<>> /\ h = <<>>
Next == Len(h) < Depth /\ (\/ \E t \in Topics : Join(t)
                           \/ Leave
                           \/ \E i \in DOMAIN sw : Ends(i, "close") \/ Ends(i, "error") \/ Opens(i) \/ Peer(i))
Spec == Init /\ [][Next]_vars
\* while there is a relay left the newest swarm is one whose relay has not ended, and it has all the topics
Joined(log) == LET F[n \in 0..Len(log)] == IF n = 0 THEN <<>> ELSE IF log[n].k = "join" THEN Append(F[n - 1], log[n].t) ELSE SelectSeq(F[n - 1], LAMBDA t : t # log[n].t) IN F[Len(log)]
Served == /\ left > 0 => sw[Cur].r \notin gone
          /\ Joined(sw[Cur].log) = topics
Once == left + (IF gone = {} THEN 0 ELSE Len(SelectSeq([n \in 1..Relays |-> n], LAMBDA n : n \in gone))) = Relays
Emit == Len(h) = Depth => PrintT("CASE " \o ToJson([bad |-> Bad, h |-> h, sw |-> sw, tried |-> tried, topics |-> topics]))
=============================================================================
