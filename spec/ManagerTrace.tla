---------------------------- MODULE ManagerTrace ----------------------------
(* Accepts what the real contracts did iff Manager's Do does the same.      *)
(* A line is {o, ok, ev, obs, nx}: the operation, its outcome and events,   *)
(* the views afterwards (only when it succeeded) and the number of the line *)
(* where the next history starts.                                           *)
EXTENDS Manager, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
MaxF == 2
MaxH == 3
ToSet2(s) == {s[i] : i \in DOMAIN s}
VARIABLES c, l
vars == <<c, l>>
Init == c = NewChain(0) /\ l = 1
Same(p, obs) ==
    /\ p.now = obs.now /\ p.forks = obs.forks /\ p.dp = obs.dp /\ p.open = obs.open /\ p.inp = obs.inp
    /\ p.nx = obs.nx /\ p.cl = obs.cl /\ p.posted = ToSet2(obs.posted)
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       IF e.o.op = "reset" THEN c' = NewChain(e.o.now) /\ l' = l + 1
       ELSE IF e.o.op = "exec"
       THEN LET x == IF Decodes(e.o.st) THEN Exec(e.o.st, e.o.b) ELSE [ok |-> FALSE, st |-> e.o.st] IN
            /\ c' = c
            /\ IF e.obs = [rev |-> ~Decodes(e.o.st), ok |-> x.ok, st |-> x.st]
               THEN l' = l + 1
               ELSE PrintT("MISMATCH " \o ToJson([l |-> l, why |-> "exec", exp |-> x])) /\ l' = e.nx
       ELSE LET r == Do(c, e.o)
                same == /\ r.ok = e.ok /\ r.ev = e.ev
                        /\ r.ok => Same(Proj(r.c, MaxF, MaxH), e.obs)
            IN /\ Assert(StepOk(c, e.o, r.c, r.ev), <<"StepOk", l>>)
               /\ c' = r.c
               /\ IF same THEN l' = l + 1
                  ELSE /\ PrintT("MISMATCH " \o ToJson([l |-> l, why |-> "step", exp |-> [ok |-> r.ok, ev |-> r.ev, proj |-> Proj(r.c, MaxF, MaxH)]]))
                       /\ l' = e.nx
Spec == Init /\ [][Next]_vars
AtEnd == l = Len(Trace) + 1 => PrintT("END " \o ToString(l - 1))
=============================================================================
