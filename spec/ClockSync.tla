------------------------------ MODULE ClockSync -----------------------------
(* The synchronisation of a client's clock with the chain. The local clock,  *)
(* the newest block and the one a hundred blocks before it may be anything,  *)
(* and both go on while the client asks for them. A round asks for the       *)
(* newest block; the clock is set to it if it is more than two block times   *)
(* off, or if the block time isn't known, and then looked at again.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Offsets,       \* newest block minus local clock, at first (plus Zero)
          Zero,
          Numbers,       \* its number
          Spans,         \* how many seconds the last hundred blocks took
          Jumps,         \* how far the chain's time moves between the first rounds
          Steps          \* how far the local clock does
VARIABLES env, k, adj, done
vars == <<env, k, adj, done>>
Base == 1000000
Env == [off : {o - Zero : o \in Offsets}, num : Numbers, span : Spans, jump : Jumps, step : Steps, moves : 0..2]
Moved(n) == IF n < env.moves THEN n ELSE env.moves     \* after some rounds everything stands still
Chain(n) == Base + env.off + env.jump * Moved(n)
Local(n) == Base + env.step * Moved(n)
Init == env \in Env /\ k = 0 /\ adj = 0 /\ done = FALSE
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Unknown == env.num < 100 \/ env.span = 0
Off == Chain(k) - (Local(k) + adj)
Far == Abs(Off) * 100 > 2 * env.span
Next ==
    /\ ~done /\ UNCHANGED env
    /\ IF Unknown THEN adj' = adj + Off /\ done' = TRUE /\ UNCHANGED k
       ELSE IF Far THEN adj' = adj + Off /\ k' = k + 1 /\ UNCHANGED done
       ELSE done' = TRUE /\ UNCHANGED <<k, adj>>
Spec == Init /\ [][Next]_vars
\* when the client begins its time is the chain's, as well as it can know
Right == done => IF Unknown THEN Off = 0 ELSE ~Far
Ends == k <= env.moves + 1
Emit == done => PrintT("CASE " \o ToJson([env |-> env, k |-> k, adj |-> adj]))
=============================================================================
