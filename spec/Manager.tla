------------------------------ MODULE Manager ------------------------------
(***************************************************************************)
(* The on-chain half of peer3to/state-channels-plus: the channel manager   *)
(* (AStateChannelManagerProxy + DisputeManagerFacet + StateChannelCommon + *)
(* StateChannelUtilLibrary) over a state machine (AStateMachine).          *)
(*                                                                         *)
(* One public operation of the contracts is one atomic step:               *)
(*     Do(c, o) = [ok, c, ev]                                              *)
(* c  - the chain's state, o - an operation (a record with its arguments), *)
(* ok - FALSE iff the operation reverts (then c is unchanged),             *)
(* ev - the events it emits.                                               *)
(*                                                                         *)
(* Abstractions: the hash of a state is the state; a signature is the name *)
(* of the account it recovers to ("mal": recovery fails); times are small  *)
(* integers. Do is a function, so the contracts must agree with it exactly *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS P2P, AGR, FB, CHAL,   \* p2pTime, agreementTime, chainFallbackTime, challengeTime
          Chans                 \* channel names

NoOne == "0"                    \* address(0)

(***************************************************************************)
(* The state machine                                                       *)
(***************************************************************************)
St(n, ps, am, m) == [k |-> "ok", n |-> n, ps |-> ps, am |-> am, m |-> m]
Special(k)       == [k |-> k, n |-> 0, ps |-> <<>>, am |-> <<>>, m |-> <<>>]
NoState          == Special("none")     \* empty bytes
Junk             == Special("junk")     \* bytes that don't decode
ZeroHash         == Special("zero")     \* the hash of nothing known

In(x, s)   == \E i \in DOMAIN s : s[i] = x
Pos(x, s)  == CHOOSE i \in DOMAIN s : s[i] = x
Next1(st)  == IF Len(st.ps) = 0 THEN NoOne ELSE st.ps[(st.n % Len(st.ps)) + 1]
Decodes(st) == st.k = "ok"

Drop(st, p) == LET i == Pos(p, st.ps)
               IN St(st.n, RemoveAt(st.ps, i), RemoveAt(st.am, i), st.m)
CanJoin(st, jc) == jc.am # 666 /\ ~In(jc.p, st.ps)
AddP(st, jc)    == St(st.n, Append(st.ps, jc.p), Append(st.am, jc.am), st.m)

\* [ok, st]: executing the transaction of block b on st (the state is the old one when it fails)
Exec(st, b) ==
    IF b.au # Next1(st) THEN [ok |-> FALSE, st |-> st]
    ELSE CASE b.op = "add0"  -> [ok |-> TRUE, st |-> st]
           [] b.op = "add1"  -> [ok |-> TRUE, st |-> St(st.n + 1, st.ps, st.am, st.m)]
           [] b.op = "noisy" -> [ok |-> TRUE, st |-> St(st.n + 1, st.ps, st.am, st.m)]   \* with unknown logs
           [] b.op = "add2"  -> [ok |-> TRUE, st |-> St(st.n + 2, st.ps, st.am, st.m)]
           [] b.op = "quit"  -> [ok |-> TRUE, st |-> LET s == St(st.n + 1, st.ps, st.am, st.m)
                                                      IN IF In(b.au, st.ps) THEN Drop(s, b.au) ELSE s]
           [] b.op = "stamp" -> [ok |-> TRUE, st |-> St(st.n + 1, st.ps, st.am,
                                   <<[ch |-> b.ch, au |-> b.au, fork |-> b.fork, h |-> b.h, ts |-> b.ts]>>)]
           [] OTHER          -> [ok |-> FALSE, st |-> st]   \* boom, silent, custom, reenter, unknown

(***************************************************************************)
(* Signatures                                                              *)
(***************************************************************************)
Count(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
\* verifyThresholdSigned: every required signer has signed (as often as it is required)
VT(req, sg) == /\ Len(req) <= Len(sg)
               /\ ~In("mal", sg)
               /\ \A i \in DOMAIN req : Count(req[i], req) <= Count(req[i], sg)
\* the signers among req that appear in a sequence of signatures
SignedBy(req, sg) == {req[i] : i \in DOMAIN req} \cap {sg[i] : i \in DOMAIN sg}

(***************************************************************************)
(* The chain                                                               *)
(***************************************************************************)
NoDisp == [ex |-> FALSE, fork |-> 0, cc |-> 0, fin |-> NoState, lat |-> NoState, votes |-> <<>>,
           to |-> NoOne, fh |-> 0, tod |-> NoOne, psd |-> NoOne, joins |-> <<>>, sl |-> <<>>,
           ps |-> <<>>, exits |-> <<>>, ct |-> 0, dl |-> 0]

NewChain(now) == [now |-> now,
                  forks  |-> [ch \in Chans |-> <<[st |-> NoState, ts |-> 0]>>],  \* index = fork + 1
                  dp     |-> [ch \in Chans |-> NoDisp],
                  posted |-> {}]

ForkCnt(c, ch)  == Len(c.forks[ch]) - 1
ForkAt(c, ch, f) == IF f < Len(c.forks[ch]) THEN c.forks[ch][f + 1] ELSE [st |-> NoState, ts |-> 0]
IsOpen(c, ch)   == c.forks[ch][1].st # NoState
IsGenesis(c, ch, f, st) == ForkAt(c, ch, f).st = st
InProgress(c, ch) == c.dp[ch].ex /\ ~(c.dp[ch].dl < c.now)

Posted(c, ch, f, h, who) == {p \in c.posted : p.ch = ch /\ p.fork = f /\ p.h = h /\ p.who = who}
ChainLatest(c, ch, f, max) ==
    LET T == {p.ts : p \in {q \in c.posted : q.ch = ch /\ q.fork = f /\ q.h <= max}} \cup {0}
    IN CHOOSE t \in T : \A u \in T : u <= t

Max2(a, b) == IF a > b THEN a ELSE b

SetState(c, ch, st) == [c EXCEPT !.forks[ch] = Append(@, [st |-> st, ts |-> c.now])]
EvSet(c, ch, st)  == [e |-> "SetState", ch |-> ch, st |-> st, fork |-> ForkCnt(c, ch) + 1, ts |-> c.now]
EvExit(ch, x)     == [e |-> "Exit", ch |-> ch, p |-> x.p, am |-> x.am, sh |-> x.sh]
EvDep(jc)         == [e |-> "Deposit", ch |-> jc.ch, p |-> jc.p, am |-> jc.am]
EvDisp(ch)        == [e |-> "DisputeUpdated", ch |-> ch]      \* its payload is getDispute, compared there
EvPost(b, now)    == [e |-> "BlockCalldataPosted", ch |-> b.ch, b |-> b, ts |-> now]

Rev(c)        == [ok |-> FALSE, c |-> c, ev |-> <<>>]
Done(c, ev)   == [ok |-> TRUE, c |-> c, ev |-> ev]

(***************************************************************************)
(* isFinalizedAndLatest: fin is finalized and lat is the state after the   *)
(* voted blocks. A vote is [b |-> block, sg |-> signatures].               *)
(***************************************************************************)
FL(c, ch, f, fin, lat, votes, req) ==
    LET n   == Len(votes)
        \* a later state may be equal to the genesis; only block 0 builds on it
        isG == IsGenesis(c, ch, f, fin) /\ (n > 0 => votes[1].b.h = 0)
        all == UNION {SignedBy(req, votes[i].sg) : i \in 1..n}
    IN /\ \A i \in 1..n :
            LET b == votes[i].b IN
            /\ b.ch = ch /\ b.fork = f
            /\ b.h = votes[1].b.h + i - 1
            /\ In(b.au, req)
            /\ ~In("mal", votes[i].sg)
            /\ In(b.au, votes[i].sg)
            /\ IF i = 1
               THEN IF isG THEN b.psh = fin ELSE b.sh = fin
               ELSE b.psh = votes[i - 1].b.sh
       /\ n > 0 => votes[n].b.sh = lat
       /\ n = 0 => lat = fin
       /\ isG \/ Cardinality(all) = Len(req)

(***************************************************************************)
(* Proofs. The accumulator is [ok, d, suc, ev]: d the dispute so far,      *)
(* suc whether any proof succeeded, ok FALSE once one of them reverted.    *)
(***************************************************************************)
Slash(d, p) == IF In(p, d.sl) THEN d ELSE [d EXCEPT !.sl = Append(@, p)]
CancelFold(d, h) == IF h < d.fh THEN [d EXCEPT !.to = NoOne, !.tod = NoOne] ELSE d
Bad(a) == [a EXCEPT !.ok = FALSE]

\* FoldRechallenge: the folded transaction did happen and everyone signed it
PRech(c, ch, a, p) ==
    LET d == a.d IN
    IF /\ d.to # NoOne
       /\ p.b.ch = ch /\ p.b.fork = d.fork /\ p.b.h = d.fh
       /\ VT(d.ps, p.sg)
    THEN [a EXCEPT !.d = Slash([d EXCEPT !.to = NoOne], d.tod), !.suc = TRUE]
    ELSE Bad(a)

\* DoubleSign: one account signed two different blocks at one height
PDbl(c, ch, a, p) ==
    LET Step(x, ds) ==
          LET d == x.d IN
          IF /\ ds.b1.ch = ch /\ ds.b2.ch = ch
             /\ ds.b1.fork = d.fork /\ ds.b2.fork = d.fork
             /\ ds.b1.h = ds.b2.h /\ ds.b1 # ds.b2
             /\ ds.s1 # "mal" /\ ds.s1 = ds.s2
             /\ In(ds.s1, d.ps)
          THEN LET s == x.suc \/ ~In(ds.s1, d.sl)
                   e == Slash(d, ds.s1)
               IN [x EXCEPT !.d = IF s THEN CancelFold(e, ds.b1.h) ELSE e, !.suc = s]
          ELSE Bad(x)
        r == FoldLeft(LAMBDA x, ds : IF x.ok THEN Step(x, ds) ELSE x,
                      [ok |-> a.ok, d |-> a.d, suc |-> FALSE, ev |-> a.ev], p.ds)
    IN [r EXCEPT !.suc = @ \/ a.suc]

GoodTime(c, prev, b) ==
    LET ref == Max2(ChainLatest(c, b.ch, b.fork, b.h), prev)
    IN b.ts >= prev /\ b.ts <= ref + P2P

\* IncorrectData: b2 doesn't follow from the state it builds on
PInc(c, ch, a, p) ==
    LET d == a.d
        isG == p.b2.h = 0 /\ IsGenesis(c, ch, d.fork, p.st)
        prev == IF isG THEN ForkAt(c, ch, d.fork).ts ELSE p.b1.ts
        x == Exec(p.st, p.b2)
    IN IF /\ p.s1 = p.b1.au /\ p.s2 = p.b2.au
          /\ In(p.s2, d.ps)
          /\ p.b1.ch = ch /\ p.b2.ch = ch
          /\ p.b1.fork = d.fork /\ p.b2.fork = d.fork
          /\ IF isG THEN p.b2.psh = p.st
                    ELSE /\ In(p.s1, d.ps) /\ p.b1.h + 1 = p.b2.h
                         /\ p.b2.psh = p.b1.sh /\ p.b1.sh = p.st
          /\ Decodes(p.st) \/ ~GoodTime(c, prev, p.b2)
       THEN LET wrong == \/ ~GoodTime(c, prev, p.b2)
                         \/ ~x.ok
                         \/ p.b2.sh # x.st
                s == wrong /\ ~In(p.b2.au, d.sl)
            IN IF s THEN [a EXCEPT !.d = CancelFold(Slash(d, p.b2.au), p.b1.h), !.suc = TRUE] ELSE a
       ELSE Bad(a)

\* NewerState: who posted the state had confirmed a newer block
PNew(c, ch, a, p) ==
    LET d == a.d IN
    IF /\ p.b.ch = ch /\ p.b.fork = d.fork
       /\ p.s = d.psd
       /\ Len(d.votes) > 0 => p.b.h > d.votes[Len(d.votes)].b.h
    THEN [a EXCEPT !.d = Slash(d, d.psd), !.suc = @ \/ ~In(d.psd, d.sl)]
    ELSE Bad(a)

\* FoldPriorBlock: the author of a voted block before the fold didn't post it
PPrior(c, ch, a, p, who) ==
    LET d == a.d
        I == {i \in DOMAIN d.votes : d.votes[i].b.h = p.h}
    IN IF d.to # NoOne /\ I # {} /\ p.h < d.fh
       THEN LET i  == CHOOSE i \in I : \A j \in I : i <= j
                au == d.votes[i].b.au
            IN IF \A q \in Posted(c, ch, d.fork, p.h, au) : q.ts > d.ct
               THEN [a EXCEPT !.d = [d EXCEPT !.to = au, !.tod = who], !.suc = TRUE]
               ELSE Bad(a)
       ELSE Bad(a)

\* BlockTooFarInFuture
PFut(c, ch, a, p) ==
    LET d == a.d IN
    IF /\ p.b.ch = ch /\ p.b.fork = d.fork
       /\ p.s = p.b.au /\ In(p.s, d.ps)
       /\ p.b.ts > c.now
    THEN [a EXCEPT !.d = Slash(d, p.b.au), !.suc = @ \/ ~In(p.b.au, d.sl)]
    ELSE Bad(a)

\* JoinChannel: everyone agreed to let somebody in
PJoin(c, ch, a, p, who) ==
    LET d == a.d
        jc == p.sjc.jc
    IN IF /\ VT(d.ps, p.sg)
          /\ p.sjc.s = jc.p
          /\ jc.ch = ch
          /\ Decodes(d.lat) /\ who = Next1(d.lat)
          /\ ~In(jc.p, d.ps)
          /\ c.now <= jc.dl
          /\ \A i \in DOMAIN d.joins : d.joins[i].p # jc.p
          /\ jc.am # 777
       THEN [a EXCEPT !.d = [d EXCEPT !.joins = Append(@, jc)], !.suc = TRUE, !.ev = Append(@, EvDep(jc))]
       ELSE Bad(a)

Proofs(c, ch, d0, proofs, who) ==
    LET r == FoldLeft(
          LAMBDA a, p :
            IF ~a.ok THEN a
            ELSE CASE p.t = "rech"  -> PRech(c, ch, a, p)
                   [] p.t = "dbl"   -> PDbl(c, ch, a, p)
                   [] p.t = "inc"   -> PInc(c, ch, a, p)
                   [] p.t = "new"   -> PNew(c, ch, a, p)
                   [] p.t = "prior" -> PPrior(c, ch, a, p, who)
                   [] p.t = "fut"   -> PFut(c, ch, a, p)
                   [] p.t = "join"  -> PJoin(c, ch, a, p, who)
                   [] OTHER         -> a,                 \* LeaveChannelForce proves nothing
          [ok |-> TRUE, d |-> d0, suc |-> FALSE, ev |-> <<>>], proofs)
    IN IF r.ok /\ In(who, r.d.sl) THEN Bad(r) ELSE r

(***************************************************************************)
(* The outcome: joins, then slashes (lose everything), then the timeout    *)
(***************************************************************************)
Outcome(d) ==
    LET J == FoldLeft(LAMBDA a, jc : IF a.ok /\ CanJoin(a.st, jc) THEN [a EXCEPT !.st = AddP(a.st, jc)]
                                     ELSE [a EXCEPT !.ok = FALSE],
                      [ok |-> TRUE, st |-> d.lat], d.joins)
        Rm(a, p, sh) == IF In(p, a.st.ps)
                        THEN [st |-> Drop(a.st, p),
                              ex |-> Append(a.ex, [p |-> p, am |-> a.st.am[Pos(p, a.st.ps)] * sh, sh |-> sh])]
                        ELSE a
        S == FoldLeft(LAMBDA a, p : Rm(a, p, 0), [st |-> J.st, ex |-> <<>>], d.sl)
        T == IF d.to = NoOne THEN S ELSE Rm(S, d.to, 1)
    IN [ok |-> Decodes(d.lat) /\ J.ok, d |-> [d EXCEPT !.lat = T.st, !.exits = T.ex]]

ExitEvs(ch, exits) == [i \in DOMAIN exits |-> EvExit(ch, exits[i])]

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Open(c, o) ==
    Done([c EXCEPT !.forks[o.ch] = <<[st |-> o.st, ts |-> c.now]>>],
         <<[e |-> "SetState", ch |-> o.ch, st |-> o.st, fork |-> 0, ts |-> c.now]>>)

CreateDispute(c, o) ==
    LET ch == o.ch
        G  == ForkAt(c, ch, o.fork)
        ps == G.st.ps
        n  == Len(o.votes)
        tied == o.fh # 0 \/ n # 0
        base == IF tied THEN o.votes[n].b.ts ELSE G.ts
        TimeoutOk ==
            /\ tied => n # 0 /\ o.votes[n].b.h + 1 = o.fh
            /\ Decodes(o.lat) /\ o.to = Next1(o.lat)
            /\ Posted(c, ch, o.fork, o.fh, o.to) = {}
            /\ c.now >= Max2(base, ChainLatest(c, ch, o.fork, o.fh)) + P2P + AGR + FB
            /\ o.to # o.who
        d0 == [ex |-> TRUE, fork |-> o.fork, cc |-> 0, fin |-> o.fin, lat |-> o.lat, votes |-> o.votes,
               to |-> o.to, fh |-> o.fh, tod |-> IF o.to = NoOne THEN NoOne ELSE o.who, psd |-> o.who,
               joins |-> <<>>, sl |-> <<>>, ps |-> ps, exits |-> <<>>, ct |-> c.now, dl |-> c.now + CHAL]
        r == Proofs(c, ch, d0, o.proofs, o.who)
        u == Outcome(r.d)
    IN IF /\ ~InProgress(c, ch)
          /\ ForkCnt(c, ch) = o.fork
          /\ Decodes(G.st) /\ In(o.who, ps)
          /\ FL(c, ch, o.fork, o.fin, o.lat, o.votes, ps)
          /\ o.to # NoOne => TimeoutOk
       THEN IF r.ok /\ (r.suc \/ r.d.to # NoOne) /\ u.ok
            THEN Done(SetState([c EXCEPT !.dp[ch] = u.d], ch, u.d.lat),
                      ExitEvs(ch, c.dp[ch].exits) \o r.ev \o <<EvSet(c, ch, u.d.lat), EvDisp(ch)>>)
            ELSE Rev(c)
       ELSE Rev(c)

ChallengeDispute(c, o) ==
    LET ch == o.ch
        d  == c.dp[ch]
        r  == Proofs(c, ch, d, o.proofs, o.who)
        d1 == [r.d EXCEPT !.votes = o.votes, !.fin = o.fin, !.lat = o.lat, !.psd = o.who,
                          !.dl = c.now + CHAL, !.cc = @ + 1]
        u  == Outcome(d1)
    IN IF /\ d.ex /\ d.fork = o.fork /\ d.cc = o.cc /\ d.dl > c.now
          /\ In(o.who, d.ps) /\ ~In(o.who, d.sl)
          /\ r.ok /\ r.suc
          /\ FL(c, ch, d.fork, o.fin, o.lat, o.votes, d.ps)
          /\ Len(d.votes) # 0 => Len(o.votes) # 0 /\ o.votes[1].b.h >= d.votes[1].b.h
       THEN IF u.ok
            THEN Done(SetState([c EXCEPT !.dp[ch] = u.d], ch, u.d.lat),
                      r.ev \o <<EvSet(c, ch, u.d.lat), EvDisp(ch)>>)
            ELSE Rev(c)
       ELSE Rev(c)

PostCalldata(c, o) ==
    LET b == o.b IN
    IF /\ o.s = o.who /\ o.who = b.au
       /\ b.ts >= c.now - P2P - AGR - FB
       /\ b.ts <= c.now
    THEN Done([c EXCEPT !.posted = (@ \ Posted(c, b.ch, b.fork, b.h, o.who))
                   \cup {[ch |-> b.ch, fork |-> b.fork, h |-> b.h, who |-> o.who, b |-> b, ts |-> c.now]}],
              <<EvPost(b, c.now)>>)
    ELSE Rev(c)

\* the exits of a dispute that is over are processed by whatever comes next
OldExits(c, ch) == [c |-> [c EXCEPT !.dp[ch].exits = <<>>], ev |-> ExitEvs(ch, c.dp[ch].exits)]

JoinAgreement(c, o) ==
    LET a  == o.a
        jc == a.sjc.jc
        ch == jc.ch
        G  == ForkAt(c, ch, a.fork)
        ps == G.st.ps
        x  == OldExits(c, ch)
    IN IF /\ ~InProgress(c, ch)
          /\ ForkCnt(c, ch) = a.fork
          /\ o.st = a.psh
          /\ Decodes(G.st) /\ ~In(jc.p, ps)
          /\ c.now <= jc.dl
          /\ In(a.sub, ps) /\ o.who = a.sub
          /\ VT(ps, o.sg) /\ a.sjc.s = jc.p
          /\ jc.am # 777
          /\ Decodes(o.st) /\ CanJoin(o.st, jc)
       THEN Done(SetState(x.c, ch, AddP(o.st, jc)),
                 x.ev \o <<EvDep(jc), EvSet(c, ch, AddP(o.st, jc))>>)
       ELSE Rev(c)

LeaveAgreement(c, o) ==
    LET l  == o.l
        ch == l.ch
        G  == ForkAt(c, ch, l.fork)
        ps == G.st.ps
        x  == OldExits(c, ch)
    IN IF /\ ~InProgress(c, ch)
          /\ ForkCnt(c, ch) = l.fork
          /\ o.st = l.psh
          /\ Decodes(G.st) /\ In(l.p, ps)
          /\ c.now <= l.dl
          /\ VT(ps, o.sg)
          /\ Decodes(o.st) /\ In(l.p, o.st.ps)
       THEN LET e == [p |-> l.p, am |-> o.st.am[Pos(l.p, o.st.ps)], sh |-> 1]
            IN Done(SetState(x.c, ch, Drop(o.st, l.p)),
                    x.ev \o <<EvExit(ch, e), EvSet(c, ch, Drop(o.st, l.p))>>)
       ELSE Rev(c)

Do(c, o) ==
    CASE o.op = "open"   -> Open(c, o)
      [] o.op = "tick"   -> Done([c EXCEPT !.now = @ + o.dt], <<>>)
      [] o.op = "create" -> CreateDispute(c, o)
      [] o.op = "chal"   -> ChallengeDispute(c, o)
      [] o.op = "post"   -> PostCalldata(c, o)
      [] o.op = "join"   -> JoinAgreement(c, o)
      [] o.op = "leave"  -> LeaveAgreement(c, o)
      [] o.op = "noise"  -> Done(c, <<>>)     \* anybody leaves any state behind in the state machine
      [] o.op = "priv"   -> Rev(c)            \* the functions that only the manager itself may call

(***************************************************************************)
(* What the public views show. MaxF, MaxH: how far the chain's latest      *)
(* timestamps are asked for.                                               *)
(***************************************************************************)
Proj(c, MaxF, MaxH) ==
    [now |-> c.now, forks |-> c.forks, dp |-> c.dp, posted |-> c.posted,
     open |-> [ch \in Chans |-> IsOpen(c, ch)],
     inp  |-> [ch \in Chans |-> InProgress(c, ch)],
     nx   |-> [ch \in Chans |-> LET s == Last(c.forks[ch]).st IN IF Decodes(s) THEN Next1(s) ELSE "-"],
     cl   |-> [ch \in Chans |-> [f \in 1..(MaxF + 1) |-> [h \in 1..(MaxH + 1) |-> ChainLatest(c, ch, f - 1, h - 1)]]]]

(***************************************************************************)
(* Properties of one step c -o-> d with events ev, checked on every step   *)
(* of every model and of every recorded trace                              *)
(***************************************************************************)
ChanOf(o) == CASE o.op = "join" -> o.a.sjc.jc.ch [] o.op = "leave" -> o.l.ch
               [] o.op = "post" -> o.b.ch [] OTHER -> o.ch
Pure(o) == o.op \in {"tick", "noise", "priv"}
\* forks are only ever appended, at most one per step; a step changes at most its own channel
ForksAppendOnly(c, o, d) == o.op = "open" \/
    \A ch \in Chans : IsPrefix(c.forks[ch], d.forks[ch]) /\ Len(d.forks[ch]) <= Len(c.forks[ch]) + 1
Isolated(c, o, d) ==
    \A ch \in Chans : (Pure(o) \/ ch # ChanOf(o)) =>
        /\ d.forks[ch] = c.forks[ch] /\ d.dp[ch] = c.dp[ch]
        /\ {p \in d.posted : p.ch = ch} = {p \in c.posted : p.ch = ch}
\* while a dispute can be challenged nothing else changes the channel
DisputeBlocks(c, o, d) ==
    \A ch \in Chans : InProgress(c, ch) /\ ~Pure(o) /\ d.forks[ch] # c.forks[ch] => o.op \in {"chal", "open"}
\* promised exits are processed exactly once: they stay, are replaced by a challenge, or are processed now
ExitsOnce(c, o, d, ev) ==
    \A ch \in Chans :
        LET old == c.dp[ch].exits
            done == SelectSeq(ev, LAMBDA e : e.e = "Exit" /\ e.ch = ch)
        IN /\ o.op = "chal" => done = <<>>
           /\ o.op \notin {"chal", "leave"} => done = <<>> \/ done = ExitEvs(ch, old)
           /\ old # <<>> /\ o.op \notin {"tick", "noise", "priv"} /\ d # c /\ ch = ChanOf(o) /\ o.op \in {"create", "join", "leave"}
                => IsPrefix(ExitEvs(ch, old), done) /\ ~InProgress(c, ch)
\* nobody appears in the new state who wasn't a participant or let in; nobody slashed stays
Sound(c, o, d) ==
    \A ch \in Chans :
        /\ d.dp[ch].ex => /\ \A p \in DOMAIN d.dp[ch].sl : In(d.dp[ch].sl[p], d.dp[ch].ps)
                          /\ \A x \in DOMAIN d.dp[ch].sl : ~In(d.dp[ch].sl[x], d.dp[ch].lat.ps)
                          /\ d.dp[ch].to # NoOne => ~In(d.dp[ch].to, d.dp[ch].lat.ps)
                          /\ ~In(d.dp[ch].psd, d.dp[ch].sl)
StepOk(c, o, d, ev) ==
    /\ ForksAppendOnly(c, o, d) /\ Isolated(c, o, d) /\ DisputeBlocks(c, o, d)
    /\ ExitsOnce(c, o, d, ev) /\ Sound(c, o, d)
=============================================================================
