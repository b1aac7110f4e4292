------------------------------ MODULE Machine -------------------------------
(* The state machine that a client hosts. It executes transactions as the    *)
(* one on the chain does (Exec of Manager.tla), takes over states, and       *)
(* answers questions. Calls take effect one at a time, in the order in which *)
(* they are made, however many are under way: a call that fails or only asks *)
(* leaves nothing behind.                                                    *)
EXTENDS Manager, Json
CONSTANTS Depth
VARIABLES m, h, r
mvars == <<m, h, r>>

S1 == St(0, <<"A", "B">>, <<3, 4>>, <<>>)
S2 == St(3, <<"B", "A", "C">>, <<1, 2, 3>>, <<>>)
S3 == St(7, <<>>, <<>>, <<>>)
Tx(au, op, hh) == [ch |-> "c1", au |-> au, fork |-> 1, h |-> hh, ts |-> 10 + hh, op |-> op]
Txs == {Tx("A", op, 0) : op \in {"add1", "stamp", "noisy", "quit", "boom", "silent", "custom", "reenter", "unknown", "xset", "xslash", "xtx"}}
       \cup {Tx("B", op, 1) : op \in {"add0", "add2", "stamp", "noisy", "quit", "boom"}}
Ops == {[k |-> "tx", b |-> b] : b \in Txs}
       \cup {[k |-> "set", st |-> s] : s \in {S1, S2, S3, Junk}}
       \cup {[k |-> q] : q \in {"state", "parts", "next", "number", "nosuch"}}
       \cup {[k |-> "dry", b |-> b] : b \in {Tx("A", "add1", 0), Tx("B", "quit", 1), Tx("A", "boom", 0)}}   \* executed only to look
       \cup {[k |-> "dryset", st |-> s] : s \in {S2, Junk}}

\* what a transaction tells the user, once it is agreed
Told(st, b) ==
    LET x == Exec(st, b) IN
    CASE ~x.ok -> <<>>
      [] b.op \in {"add0", "add1", "add2"} -> <<[e |-> "Addition", who |-> b.au, n |-> x.st.n]>>
      [] b.op = "stamp" -> <<[e |-> "Note", m |-> x.st.m], [e |-> "Addition", who |-> b.au, n |-> x.st.n]>>
      [] b.op = "noisy" -> LET a == [e |-> "Addition", who |-> b.au, n |-> x.st.n] IN    \* the logs in between mean nothing to anybody
                           <<[e |-> "Round", n |-> st.n, ps |-> st.ps], a, a>>
      [] OTHER -> <<>>
\* the reason that whoever asks is given
Why(st, b) == IF Exec(st, b).ok THEN ""
              ELSE IF st.ps = <<>> \/ b.au # Next1(st) THEN "not your turn" ELSE b.op
Call(st, o) ==
    CASE o.k = "tx"  -> [st |-> Exec(st, o.b).st, r |-> [ok |-> Exec(st, o.b).ok, told |-> Told(st, o.b)]]
      [] o.k = "set" -> IF Decodes(o.st) THEN [st |-> o.st, r |-> [ok |-> TRUE]] ELSE [st |-> st, r |-> [ok |-> FALSE]]
      [] o.k = "state"  -> [st |-> st, r |-> [st |-> st]]
      [] o.k = "parts"  -> [st |-> st, r |-> [ps |-> st.ps]]
      [] o.k = "next"   -> [st |-> st, r |-> [who |-> Next1(st)]]
      [] o.k = "number" -> [st |-> st, r |-> [n |-> st.n]]
      [] o.k = "nosuch" -> [st |-> st, r |-> [ok |-> FALSE]]
      [] o.k = "dry"    -> [st |-> st, r |-> [ok |-> Exec(st, o.b).ok, why |-> Why(st, o.b)]]
      [] o.k = "dryset" -> [st |-> st, r |-> [ok |-> Decodes(o.st)]]

Init == m = S1 /\ h = <<>> /\ r = <<>>
Next == /\ Len(h) < Depth
        /\ \E o \in Ops : /\ h' = Append(h, o)
                          /\ m' = Call(m, o).st
                          /\ r' = Append(r, Call(m, o).r)
Spec == Init /\ [][Next]_mvars
\* only successful transactions and states taken over change it
Still == [][\E o \in Ops : h' = Append(h, o) /\ (m' # m => o.k \in {"tx", "set"} /\ r'[Len(r')].ok)]_mvars
Whole == /\ Decodes(m) /\ Len(m.ps) = Len(m.am) /\ \A i, j \in DOMAIN m.ps : m.ps[i] = m.ps[j] => i = j
Emit == Len(h) = Depth => PrintT("CASE " \o ToJson([h |-> h, r |-> r, m |-> m]))
=============================================================================
