------------------------------- MODULE Helpers ------------------------------
(* The pieces everything waits on: the lock, the retry of calls that fail,   *)
(* tasks that are run later.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS What, Depth
VARIABLES s, h
vars == <<s, h>>
None == "-"

(* The lock: given to one at a time, in the order in which it was asked for. *)
Procs == {"p1", "p2", "p3", "p4"}
LInit == [held |-> None, q |-> <<>>, got |-> <<>>]
Busy(x) == {x.held} \cup {x.q[i] : i \in DOMAIN x.q}
Lock(x, p) == IF x.held = None THEN [x EXCEPT !.held = p, !.got = Append(@, p)] ELSE [x EXCEPT !.q = Append(@, p)]
Unlock(x) == IF x.q = <<>> THEN [x EXCEPT !.held = None]
             ELSE [x EXCEPT !.held = Head(x.q), !.q = Tail(@), !.got = Append(@, Head(x.q))]
LSteps(x) == {[o |-> [k |-> "lock", p |-> p], s |-> Lock(x, p)] : p \in Procs \ Busy(x)}
             \cup (IF x.held = None THEN {} ELSE {[o |-> [k |-> "unlock", p |-> x.held], s |-> Unlock(x)]})

(* Retrying: t are the times of the calls, n of them, until one succeeds or  *)
(* the retries are used up.                                                  *)
RCases == [max : 0..3, delay : {0, 100}, exp : BOOLEAN, factor : {2, 3}, ok : 1..5, sync : BOOLEAN]
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Calls(c) == IF c.ok <= c.max + 1 THEN c.ok ELSE c.max + 1
Wait(c, i) == IF c.exp THEN c.delay * Pow(c.factor, i - 1) ELSE c.delay   \* after the i-th call failed
RECURSIVE At(_, _)
At(c, i) == IF i = 1 THEN 0 ELSE At(c, i - 1) + Wait(c, i - 1)
RResult(c) == [at |-> [i \in 1..Calls(c) |-> At(c, i)], ok |-> c.ok <= c.max + 1, with |-> Calls(c), told |-> [i \in 1..(Calls(c) - 1) |-> i]]

(* Tasks: each runs once, when its time has come, whatever becomes of others *)
TInit == [now |-> 0, tasks |-> <<>>, ran |-> <<>>]
Due(x) == {i \in DOMAIN x.tasks : x.tasks[i].at <= x.now /\ ~\E j \in DOMAIN x.ran : x.ran[j] = i}
First(x, D) == CHOOSE i \in D : \A j \in D : x.tasks[i].at < x.tasks[j].at \/ (x.tasks[i].at = x.tasks[j].at /\ i <= j)
RECURSIVE RunDue(_)
RunDue(x) == LET D == Due(x) IN IF D = {} THEN x ELSE RunDue([x EXCEPT !.ran = Append(@, First(x, D))])
TSteps(x) == (IF Len(x.tasks) < 3 THEN {[o |-> [k |-> "task", d |-> d, how |-> w], s |-> RunDue([x EXCEPT !.tasks = Append(@, [at |-> x.now + d])])] : d \in {0, 1, 3}, w \in {"ok", "throws", "rejects"}} ELSE {})
             \cup {[o |-> [k |-> "tick", d |-> d], s |-> RunDue([x EXCEPT !.now = @ + d])] : d \in {1, 2}}

Init == h = <<>> /\ CASE What = "lock" -> s = LInit [] What = "retry" -> s \in RCases [] What = "tasks" -> s = TInit
Steps == CASE What = "lock" -> LSteps(s) [] What = "tasks" -> TSteps(s) [] What = "retry" -> {}
Next == Len(h) < Depth /\ \E t \in Steps : s' = t.s /\ h' = Append(h, t.o)
Spec == Init /\ [][Next]_vars
Emit == IF What = "retry" THEN PrintT("CASE " \o ToJson([c |-> s, r |-> RResult(s)]))
        ELSE (Len(h) = Depth \/ Steps = {}) => PrintT("CASE " \o ToJson([h |-> h, r |-> IF What = "lock" THEN s.got ELSE s.ran]))
\* nobody waits for a lock that nobody holds, nobody is given it twice for one request
NoneLost == What = "lock" => (s.held = None => s.q = <<>>)
Fair == What = "lock" => Len(s.got) + Len(s.q) = Cardinality({i \in DOMAIN h : h[i].k = "lock"})
AllRun == What = "tasks" => Due(s) = {} /\ \A i, j \in DOMAIN s.ran : s.ran[i] = s.ran[j] => i = j
=============================================================================
