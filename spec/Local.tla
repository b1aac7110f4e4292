------------------------------- MODULE Local --------------------------------
(* How clients on one machine find each other: the first one starts a server *)
(* at a known port, each tells it its own port and channel, it tells each of *)
(* all the others, and of two clients in one channel the one with the lower  *)
(* port connects to the other. Clients are numbered by their ports.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Chans
VARIABLES ch,    \* the channel of each client
          ph,    \* off, dialing (the server), known (to the server), up
          told,  \* whose info the server has, in order; talks: whose info is on the way
          talks, box, \* box: what the server said to each
          heard, asked, at, \* who each heard of; connections asked for; which ends have which
          h
vars == <<ch, ph, told, talks, box, heard, asked, at, h>>
C == 1..N
Init == /\ ch \in [C -> Chans] /\ ph = [i \in C |-> "off"] /\ told = <<>> /\ talks = {} /\ box = [i \in C |-> <<>>]
        /\ heard = [i \in C |-> {}] /\ asked = {} /\ at = [i \in C |-> <<>>] /\ h = <<>>
Log(e) == h' = Append(h, e)
\* first: a port that is taken, which it tries first (a client's, or the server's: 0), or its own
Start(i, first) == /\ ph[i] = "off" /\ (first \notin {i, 0} => ph[first] # "off")
                   /\ ph' = [ph EXCEPT ![i] = "dialing"] /\ Log([k |-> "start", c |-> i, d |-> first])
                   /\ UNCHANGED <<ch, told, talks, box, heard, asked, at>>
Conn(i) == /\ ph[i] = "dialing" /\ ph' = [ph EXCEPT ![i] = "known"] /\ Log([k |-> "conn", c |-> i, d |-> 0]) /\ UNCHANGED <<ch, told, talks, box, heard, asked, at>>
Open(i) == /\ ph[i] = "known" /\ ph' = [ph EXCEPT ![i] = "up"] /\ talks' = talks \cup {i} /\ Log([k |-> "open", c |-> i, d |-> 0]) /\ UNCHANGED <<ch, told, box, heard, asked, at>>
Tell(i) == /\ i \in talks /\ talks' = talks \ {i} /\ told' = Append(told, i)
           /\ box' = [j \in C |-> IF j = i THEN box[i] \o told' ELSE IF ph[j] \in {"known", "up"} THEN Append(box[j], i) ELSE box[j]]
           /\ Log([k |-> "tell", c |-> i, d |-> 0]) /\ UNCHANGED <<ch, ph, heard, asked, at>>
Hear(i) == /\ ph[i] = "up" /\ box[i] # <<>>
           /\ LET j == Head(box[i]) new == j \notin heard[i] IN
              /\ box' = [box EXCEPT ![i] = Tail(@)] /\ heard' = [heard EXCEPT ![i] = @ \cup {j}]
              /\ asked' = IF new /\ j > i /\ ch[i] = ch[j] THEN asked \cup {<<i, j>>} ELSE asked
           /\ Log([k |-> "hear", c |-> i, d |-> 0]) /\ UNCHANGED <<ch, ph, told, talks, at>>
Has(i, j) == \E q \in DOMAIN at[i] : at[i][q] = j
Link(i, j) == /\ <<i, j>> \in asked /\ ~Has(j, i) /\ at' = [at EXCEPT ![j] = Append(@, i)] /\ Log([k |-> "link", c |-> i, d |-> j]) /\ UNCHANGED <<ch, ph, told, talks, box, heard, asked>>
Linked(i, j) == /\ <<i, j>> \in asked /\ Has(j, i) /\ ~Has(i, j) /\ at' = [at EXCEPT ![i] = Append(@, j)] /\ Log([k |-> "linked", c |-> i, d |-> j]) /\ UNCHANGED <<ch, ph, told, talks, box, heard, asked>>
Next == \E i \in C : \/ \E f \in C \cup {0} : Start(i, f)
                     \/ Conn(i) \/ Open(i) \/ Tell(i) \/ Hear(i)
                     \/ \E j \in C : Link(i, j) \/ Linked(i, j)
\* without the log, and with the own port at once, for the exhaustive check
Bare == \E i \in C : \/ Start(i, i) \/ Conn(i) \/ Open(i) \/ Tell(i) \/ Hear(i) \/ \E j \in C : Link(i, j) \/ Linked(i, j)
View == <<ch, ph, told, talks, box, heard, asked, at>>
Spec == Init /\ [][Next]_vars
BareSpec == Init /\ [][Bare]_vars
Idle == (\A i \in C : ph[i] = "up" /\ box[i] = <<>>) /\ talks = {} /\ \A a \in asked : Has(a[1], a[2]) /\ Has(a[2], a[1])
\* no connection to oneself, twice, or into another channel; in the end everyone in a channel is connected with everyone
Proper == \A i \in C : \A q \in DOMAIN at[i] : at[i][q] # i /\ ch[at[i][q]] = ch[i] /\ \A p \in DOMAIN at[i] : at[i][p] = at[i][q] => p = q
Found == Idle => \A i \in C : {at[i][q] : q \in DOMAIN at[i]} = {j \in C \ {i} : ch[j] = ch[i]}
\* it ends: nothing is left to do exactly when they found each other
Emit == Idle => PrintT("CASE " \o ToJson([ch |-> ch, h |-> h, at |-> at]))
=============================================================================
