----------------------------- MODULE LinkedList -----------------------------
(* DoubleLinkedList: a sequence of distinct ids, changed at the front and   *)
(* by removing any of them. Every state is printed with every operation and *)
(* what must come of it.                                                    *)
EXTENDS Naturals, Sequences, TLC, Json, SequencesExt
CONSTANTS Ids, Depth
VARIABLES l, dep
Has(i) == \E k \in DOMAIN l : l[k] = i
Pos(i) == CHOOSE k \in DOMAIN l : l[k] = i
Ops == {[op |-> "add", id |-> i] : i \in Ids \cup {"none"}} \cup {[op |-> "rem", id |-> i] : i \in Ids \cup {"none"}} \cup {[op |-> "pop", id |-> "none"]}
Do(o) == CASE o.op = "add" -> IF o.id = "none" \/ Has(o.id) THEN [ok |-> FALSE, l |-> l] ELSE [ok |-> TRUE, l |-> <<o.id>> \o l]
           [] o.op = "rem" -> IF Has(o.id) THEN [ok |-> TRUE, l |-> RemoveAt(l, Pos(o.id))] ELSE [ok |-> FALSE, l |-> l]
           [] o.op = "pop" -> IF l = <<>> THEN [ok |-> FALSE, l |-> l] ELSE [ok |-> TRUE, l |-> Tail(l)]
Init == l = <<>> /\ dep = 0
Next == dep < Depth /\ \E o \in Ops : LET r == Do(o) IN r.ok /\ l' = r.l /\ dep' = dep + 1
Spec == Init /\ [][Next]_<<l, dep>>
View == l
Distinct == \A i, j \in DOMAIN l : l[i] = l[j] => i = j
Emit == PrintT("STATE " \o ToJson([s |-> l, steps |-> {[o |-> o, r |-> Do(o)] : o \in Ops}]))
=============================================================================
