----------------------------- MODULE ManagerMC -----------------------------
(* Small exhaustive models of Manager. Focus chooses which operations with  *)
(* which arguments are tried in every reachable state (Ops), Depth how far. *)
(* For every distinct state one line is printed: the operations that must   *)
(* be refused there and the ones that must succeed, with their outcome. The *)
(* harness performs every one of them on the real contracts.                *)
EXTENDS Manager, Json
CONSTANTS Focus, Depth, Thorough, FK     \* FK: the fork in which it happens (0, or 1 after an agreed join)
MaxF == 2
MaxH == 3
VARIABLES c, dep
vars == <<c, dep>>

(***************************************************************************)
(* The cast                                                                *)
(***************************************************************************)
P2 == <<"A", "B">>
P3 == <<"A", "B", "C">>
Now0 == 20
Ps == IF Focus \in {"timeout", "calldata"} THEN P2 ELSE P3
G  == St(0, Ps, [i \in DOMAIN Ps |-> 10 * i], <<>>)
Nm(n) == St(n, Ps, [i \in DOMAIN Ps |-> 10 * i], <<>>)
Blk(ch, f, h, au, ts, op, psh, sh) ==
    [ch |-> ch, fork |-> f, h |-> h, au |-> au, ts |-> ts, op |-> op, psh |-> psh, sh |-> sh]
\* the honest history of fork 0 of c1: b(0), b(1), b(2) at times 20, 21, 22
Au(h) == Ps[(h % Len(Ps)) + 1]
B(h) == Blk("c1", FK, h, Au(h), Now0 + h, "add1", Nm(h), Nm(h + 1))
\* equivocations and lies
B2(h) == Blk("c1", FK, h, Au(h), Now0 + h, "add2", Nm(h), Nm(h + 2))
Lie(h) == [B(h) EXCEPT !.sh = Nm(h + 2)]
V(b, sg) == [b |-> b, sg |-> sg]
All == Ps
VA(b) == V(b, Ps)

OpenOp(ch) == [op |-> "open", ch |-> ch, st |-> G]
Tick(d) == [op |-> "tick", dt |-> d]
Create(who, ch, f, fin, lat, votes, to, fh, proofs) ==
    [op |-> "create", who |-> who, ch |-> ch, fork |-> f, fin |-> fin, lat |-> lat, votes |-> votes,
     to |-> to, fh |-> fh, proofs |-> proofs]
Chal(who, ch, f, cc, fin, lat, votes, proofs) ==
    [op |-> "chal", who |-> who, ch |-> ch, fork |-> f, cc |-> cc, fin |-> fin, lat |-> lat, votes |-> votes,
     proofs |-> proofs]
Post(who, b, s) == [op |-> "post", who |-> who, b |-> b, s |-> s]
Dbl1(b1, b2, s1, s2) == [t |-> "dbl", ds |-> <<[b1 |-> b1, b2 |-> b2, s1 |-> s1, s2 |-> s2]>>]
DblOf(h) == Dbl1(B(h), B2(h), Au(h), Au(h))
Inc(b1, b2, st) == [t |-> "inc", b1 |-> b1, b2 |-> b2, s1 |-> b1.au, s2 |-> b2.au, st |-> st]
NewP(b, s) == [t |-> "new", b |-> b, s |-> s]
Rech(b, sg) == [t |-> "rech", b |-> b, sg |-> sg]
Prior(h) == [t |-> "prior", h |-> h]
Fut(b, s) == [t |-> "fut", b |-> b, s |-> s]
Jc(ch, p, am, dl) == [ch |-> ch, p |-> p, am |-> am, dl |-> dl]
JoinP(jc, s, sg) == [t |-> "join", sjc |-> [jc |-> jc, s |-> s], sg |-> sg]
JoinOp(who, jc, s, sub, f, psh, sg, st) ==
    [op |-> "join", who |-> who, a |-> [sjc |-> [jc |-> jc, s |-> s], sub |-> sub, fork |-> f, tc |-> 0, psh |-> psh],
     sg |-> sg, st |-> st]
LeaveOp(who, ch, p, f, psh, dl, sg, st) ==
    [op |-> "leave", who |-> who, l |-> [ch |-> ch, p |-> p, fork |-> f, tc |-> 0, psh |-> psh, dl |-> dl],
     sg |-> sg, st |-> st]

\* every op that differs from o in one field
With(o, f, S) == {[o EXCEPT ![f] = v] : v \in S}

GenesisNow(ch) == Last(c.forks[ch]).st
F(ch) == ForkCnt(c, ch)
Opened(ch) == IsOpen(c, ch)
\* fork FK of c1 starts at G: for FK = 1 the last participant joins first
Ready == Opened("c1") /\ F("c1") >= FK
G0 == St(0, Front(G.ps), Front(G.am), <<>>)
Setup == IF FK = 0 THEN {OpenOp("c1")}
         ELSE IF ~Opened("c1") THEN {[OpenOp("c1") EXCEPT !.st = G0]}
         ELSE LET p == Last(G.ps)
              IN {JoinOp("A", Jc("c1", p, Last(G.am), c.now), p, "A", 0, G0, G0.ps, G0)}
OtherForks == {FK + 1} \cup (IF FK > 0 THEN {FK - 1} ELSE {})

(***************************************************************************)
(* The operations, per focus                                               *)
(***************************************************************************)
\* ---- forks: every way in which a channel's state changes, on two channels
OpsForks ==
    LET per(ch) ==
          IF ~Opened(ch) THEN {OpenOp(ch)}
          ELSE LET g == GenesisNow(ch)  ps == g.ps  f == F(ch)
                   jc == Jc(ch, "D", 7, c.now)
                   joins == {JoinOp(ps[1], jc, "D", ps[1], k, g, ps, g) : k \in {f, f + 1}}
                   leaves == {LeaveOp(ps[1], ch, ps[1], k, s, c.now, ps, s) : k \in {f} \cup (IF f > 0 THEN {f - 1} ELSE {}), s \in {g}}
                   d1 == Blk(ch, f, 0, ps[1], c.now, "add1", g, Nm(1))
                   d2 == [d1 EXCEPT !.op = "add2"]
                   creates == {Create(w, ch, k, g, g, <<>>, NoOne, 0, <<Dbl1([d1 EXCEPT !.fork = k], [d2 EXCEPT !.fork = k], ps[1], ps[1])>>) :
                                 w \in {ps[Len(ps)], "X"}, k \in {f} \cup (IF f > 0 THEN {f - 1} ELSE {})}
                   d == c.dp[ch]
                   chals == IF d.ex /\ Len(d.ps) > 2
                            THEN {Chal(d.ps[3], ch, d.fork, k, d.fin, d.fin, <<>>,
                                       <<Fut(Blk(ch, d.fork, 0, d.ps[2], c.now + 1, "add1", d.fin, d.fin), d.ps[2])>>) : k \in {d.cc, d.cc + 1}}
                            ELSE {}
               IN joins \cup leaves \cup creates \cup chals
                  \cup {Post(ps[1], d1, ps[1])}
    IN per("c1") \cup (IF Opened("c1") /\ c.now <= Now0 + 1 THEN per("c2") ELSE {})
       \cup (IF c.now < Now0 + 5 THEN {Tick(1), Tick(4)} ELSE {})
       \cup {[op |-> "noise", fn |-> "setState", st |-> Nm(1)]}

\* ---- priv: what nobody may do, and what anybody may do without any effect on a channel
OpsPriv ==
    OpsForks
    \cup {[op |-> "priv", who |-> w, ch |-> ch, fn |-> fn, st |-> G] : w \in {"A", "X", "F"}, ch \in {"c1"},
             fn \in {"addParticipantComposable", "removeParticipantComposable", "applyJoinChannelToStateMachine",
                     "applySlashesToStateMachine", "removeParticipantsFromStateMachine"}}
    \cup {[op |-> "noise", fn |-> fn, st |-> Nm(2)] : fn \in {"setState", "joinChannel", "slash", "remove", "tx", "facetCreate", "facetChallenge", "facetNested"}}

\* ---- life: who can open, challenge and close a dispute, and when
OpsLife ==
    IF ~Opened("c1") THEN {OpenOp("c1")} ELSE
    LET ch == "c1"  g == ForkAt(c, ch, 0).st  f == F(ch)  d == c.dp[ch]
        now == c.now
        g1 == GenesisNow(ch)
        pr(fk, gs, p) == <<Fut(Blk(ch, fk, 0, p, now + 1, "add1", gs, gs), p)>>
        creates == {Create(w, ch, k, g1, g1, <<>>, NoOne, 0, pr(k, g1, "C")) : w \in {"A", "B", "C", "X"}, k \in {0, 1, 2, f}}
                   \cup {Create("A", x, f, g1, g1, <<>>, NoOne, 0, pr(f, g1, "C")) : x \in {"c2"}}
                   \cup {Create("A", ch, f, g1, g1, <<>>, NoOne, 0, p) :
                            p \in {<<>>, <<[t |-> "leave"]>>, pr(f, g1, "C") \o pr(f, g1, "B"), pr(f, g1, "A"), pr(f, g1, "C") \o pr(f, g1, "A"), pr(f, g1, "X"), pr(f, g1, "C") \o pr(f, g1, "C")}}
        chals == {Chal(w, ch, k, n, d.fin, d.fin, <<>>, p) :
                    w \in {"A", "B", "C", "X"}, k \in {0, d.fork, d.fork + 1}, n \in {0, 1, 2},
                    p \in {<<>>, pr(d.fork, d.fin, "B"), pr(d.fork, d.fin, "C"), pr(d.fork, d.fin, "C") \o pr(d.fork, d.fin, "B")}}
                  \cup {Chal("B", x, d.fork, d.cc, d.fin, d.fin, <<>>, pr(d.fork, d.fin, "A")) : x \in {"c2", "c1"}}
        agree == {LeaveOp("A", ch, g1.ps[1], f, g1, now, g1.ps, g1), JoinOp(g1.ps[1], Jc(ch, "D", 7, now), "D", g1.ps[1], f, g1, g1.ps, g1)}
    IN creates \cup chals \cup (IF Len(g1.ps) > 0 THEN agree ELSE {})
       \cup (IF now < Now0 + 7 THEN {Tick(1), Tick(CHAL)} ELSE {})

\* ---- timeout: who can be folded, after what, and when
OpsTimeout ==
    IF ~Ready THEN Setup ELSE
    LET ch == "c1"
        vs == {<<>>, <<VA(B(0))>>, <<V(B(0), <<"A">>), V(B(1), <<"B">>)>>, <<VA(B(1))>>, <<VA([B(0) EXCEPT !.ts = Now0 + 3])>>}
        fin(v) == IF v = <<>> \/ v[1].b.h = 0 THEN G ELSE v[1].b.sh
        lat(v) == IF v = <<>> THEN G ELSE v[Len(v)].b.sh
        creates == {Create(w, ch, FK, fin(v), lat(v), v, to, fh, p) :
                      w \in {"A", "B"}, v \in vs, to \in {"A", "B"}, fh \in 0..2, p \in {<<>>}}
                   \cup {Create(w, ch, FK, lat(v), lat(v), v, to, fh, <<>>) : w \in {"A"}, v \in {<<VA(B(0))>>}, to \in {"A", "B", "C"}, fh \in 0..3}
                   \cup {Create("A", ch, FK, G, Junk, <<>>, "B", 0, <<>>), Create("B", ch, FK, G, G, <<>>, "A", 0, <<DblOf(0)>>),
                         Create("B", ch, FK, G, G, <<>>, "A", 0, <<DblOf(1)>>)}
        posts == {Post(b.au, b, b.au) : b \in {B(0), B(1), [B(0) EXCEPT !.h = 2], [B(1) EXCEPT !.h = 0]} \cup {[B(0) EXCEPT !.fork = k] : k \in OtherForks}}
                 \cup (IF Thorough THEN {Post("X", [B(0) EXCEPT !.au = "X"], "X"), Post("A", [B(0) EXCEPT !.ch = "c2"], "A")} ELSE {})
    IN creates \cup (IF Cardinality(c.posted) < 2 /\ ~c.dp[ch].ex THEN posts ELSE {})
       \cup (IF c.now < Now0 + 8 THEN {Tick(1)} \cup (IF c.posted = {} \/ c.now < Now0 + 4 THEN {Tick(3)} ELSE {}) ELSE {})

\* ---- slash: single proofs of every type in every variation, against a fresh and an open dispute
BlkVar == {B(0), B2(0), B(1), B2(1), [B(0) EXCEPT !.ch = "c2"], [B2(0) EXCEPT !.h = 1], [B2(0) EXCEPT !.ts = Now0 + 1], [B(0) EXCEPT !.au = "B"]}
          \cup {[b EXCEPT !.fork = k] : b \in {B(0), B2(0)}, k \in OtherForks}
DblVar == {Dbl1(b1, b2, s, s) : b1 \in BlkVar, b2 \in BlkVar, s \in {"A", "B", "X"}}
          \cup {Dbl1(b1, b2, s1, s2) : b1 \in {B(0)}, b2 \in {B2(0), B(0)}, s1 \in {"A", "B", "bad", "mal"}, s2 \in {"A", "B", "bad", "mal"}}
          \cup {[t |-> "dbl", ds |-> <<>>],
                [t |-> "dbl", ds |-> DblOf(0).ds \o DblOf(1).ds], [t |-> "dbl", ds |-> DblOf(1).ds \o Dbl1(B(0), B(0), "A", "A").ds]}
Inc2 == {B(0), B(1), Lie(0), Lie(1), [B(1) EXCEPT !.op = "boom"], [B(1) EXCEPT !.op = "silent"], [B(1) EXCEPT !.op = "reenter"],
         [B(1) EXCEPT !.op = "unknown", !.sh = Nm(1)], [B(1) EXCEPT !.au = "C"], [B(1) EXCEPT !.sh = Nm(1)],
         [B(1) EXCEPT !.ts = Now0 + P2P], [B(1) EXCEPT !.ts = Now0 + P2P + 1], [B(1) EXCEPT !.ts = Now0 - 1], [B(1) EXCEPT !.ts = Now0],
         [B(0) EXCEPT !.ts = Now0 - 1], [B(0) EXCEPT !.ts = Now0 + P2P], [B(0) EXCEPT !.ts = Now0 + P2P + 1],
         [B(1) EXCEPT !.op = "stamp", !.sh = Exec(Nm(1), [B(1) EXCEPT !.op = "stamp"]).st], [B(1) EXCEPT !.op = "stamp"]}
IncVar == {Inc(b1, b2, s) : b1 \in {B(0), [B(0) EXCEPT !.ts = Now0 + 1]}, b2 \in Inc2, s \in {G, Nm(1)}}
          \cup {Inc(B(0), [b EXCEPT !.ch = "c2"], Nm(1)) : b \in {Lie(1)}}
          \cup {Inc([B(0) EXCEPT !.fork = j], [b EXCEPT !.fork = k], Nm(1)) : b \in {Lie(1)}, j \in OtherForks \cup {FK}, k \in OtherForks \cup {FK}}
          \cup {Inc([Lie(0) EXCEPT !.fork = j], [Lie(0) EXCEPT !.fork = k], G) : j \in OtherForks \cup {FK}, k \in OtherForks \cup {FK}}
          \cup {Inc([B(0) EXCEPT !.ch = "c2"], Lie(1), Nm(1)),
                Inc([B(0) EXCEPT !.sh = Nm(2)], Lie(1), Nm(1)), Inc(B(0), [Lie(1) EXCEPT !.psh = Nm(2)], Nm(1)),
                Inc([B(0) EXCEPT !.sh = Junk], [Lie(1) EXCEPT !.psh = Junk], Junk),
                Inc([B(0) EXCEPT !.sh = Junk], [Lie(1) EXCEPT !.psh = Junk, !.ts = Now0 - 1], Junk),
                Inc(B(0), [Lie(1) EXCEPT !.au = "X"], Nm(1)), Inc([B(0) EXCEPT !.au = "X"], Lie(1), Nm(1))}
          \cup {Inc([B(0) EXCEPT !.op = "add0", !.sh = G, !.ts = Now0 + 2], [B(0) EXCEPT !.h = k, !.ts = Now0 + 2 + j, !.sh = x], G) :
                    k \in 0..2, j \in {-1, 0, P2P, P2P + 1}, x \in {Nm(1), Nm(2)}}
          \cup {[Inc(B(0), Lie(1), Nm(1)) EXCEPT !.s1 = s] : s \in {"B", "bad", "mal"}}
          \cup {[Inc(B(0), Lie(1), Nm(1)) EXCEPT !.s2 = s] : s \in {"A", "bad", "mal"}}
NewVar(psd) == {NewP(b, s) : b \in {B(0), B(1), B(2), [B(2) EXCEPT !.ch = "c2"], [B(2) EXCEPT !.au = "X"]} \cup {[B(2) EXCEPT !.fork = k] : k \in OtherForks},
                            s \in {"A", "B", "C", "bad", "mal"}}
FutVar == {Fut([B(h) EXCEPT !.ts = c.now + d], s) : h \in {0, 1}, d \in {0, 1, 5}, s \in {"A", "B"}}
          \cup {Fut([B(1) EXCEPT !.ts = c.now + 1, !.fork = k], "B") : k \in OtherForks}
          \cup {Fut([B(1) EXCEPT !.ts = c.now + 1, !.ch = "c2"], "B"),
                Fut([B(1) EXCEPT !.ts = c.now + 1, !.au = "X"], "X"), Fut([B(1) EXCEPT !.ts = c.now + 1], "bad"), Fut([B(1) EXCEPT !.ts = c.now + 1], "mal")}
OpsSlash ==
    IF ~Ready THEN Setup ELSE
    LET ch == "c1"  d == c.dp[ch]
        proofs == DblVar \cup IncVar \cup FutVar
        seqs == {<<p>> : p \in proofs} \cup {<<DblOf(1), p>> : p \in {DblOf(1), DblOf(0), Dbl1(B(0), B(0), "A", "A"), [t |-> "leave"]}}
    IN IF ~d.ex
       THEN {Create(w, ch, FK, G, G, <<>>, NoOne, 0, s) : w \in {"C"}, s \in seqs}
            \cup {Create(w, ch, FK, G, G, <<>>, NoOne, 0, s) : w \in {"A", "B"}, s \in {<<p>> : p \in {DblOf(0), DblOf(1), Inc(B(0), Lie(1), Nm(1))}}}
            \cup {Create("C", ch, FK, G, Nm(1), <<V(B(0), <<"A", "B">>)>>, NoOne, 0, <<DblOf(1)>>)}
            \cup (IF c.posted = {} /\ c.now = Now0 THEN {Post("A", B(0), "A"), Tick(3)} ELSE {})
       ELSE IF d.cc > 0 \/ d.sl # <<"B">> THEN {}
       ELSE {Chal(w, ch, FK, 0, G, G, <<>>, s) : w \in {"A", "C"}, s \in {<<p>> : p \in NewVar(d.psd)} \cup {<<p>> : p \in {DblOf(0), DblOf(1)}}}
            \cup {Chal("A", ch, FK, 0, G, Nm(2), <<V(B(0), <<"A">>), V(B(1), <<"B">>)>>, <<p>>) : p \in NewVar(d.psd)}
            \cup (IF c.now < Now0 + 4 THEN {Tick(1)} ELSE {})

\* ---- final: which states can be claimed as finalized and latest
OpsFinal ==
    IF ~Ready THEN Setup ELSE
    LET ch == "c1"  d == c.dp[ch]
        pr == <<Fut([B(2) EXCEPT !.ts = c.now + 1], "C")>>
        bs == {B(0), B(1), B(2), B2(0), [B(1) EXCEPT !.ch = "c2"], [B(0) EXCEPT !.h = 5]} \cup {[B(1) EXCEPT !.fork = k] : k \in OtherForks} \cup {[B(0) EXCEPT !.fork = k] : k \in OtherForks}
        \* a block that changes nothing, after which a state equals the fork's genesis again
        Z0 == [B(0) EXCEPT !.op = "add0", !.sh = G]
        Z1 == [B(0) EXCEPT !.h = 1]
        out == [B(0) EXCEPT !.au = "X"]
        sgs(b) == {<<b.au>>, P3, <<"C", "B", "A">>, <<"A", "B">>, <<"B", "C">>, <<"X", b.au>>, <<b.au, b.au, "B">>}
        v1 == {<<V(b, s)>> : b \in {B(0), B(1), B2(0)}, s \in UNION {sgs(x) : x \in {B(0), B(1)}} \cup {<<>>, <<"A", "bad">>, <<"A", "mal">>, <<"A", "B", "C", "A">>}}
              \cup {<<V(b, P3)>> : b \in bs}
        v2 == {<<V(x, sx), V(y, sy)>> : x \in {B(0), B2(0)}, y \in {B(1), [B(1) EXCEPT !.ch = "c2"], B2(0), B(2)} \cup {[B(1) EXCEPT !.fork = k] : k \in OtherForks},
                 sx \in {<<"A">>, P3, <<"A", "C">>}, sy \in {<<"B">>, <<"B", "C">>, <<"A">>}}
        v3 == {<<V(B(0), s0), V(B(1), s1), V(B(2), s2)>> : s0 \in {<<"A">>, <<"A", "B">>}, s1 \in {<<"B">>, <<"C">>, <<"A", "B">>}, s2 \in {<<"C">>, <<>>}}
              \cup {<<V(B(1), P3), V(B(2), <<"C">>)>>, <<V(B(1), <<"B">>), V(B(2), <<"A", "C">>)>>, <<V(B(0), P3), V(B(2), P3)>>, <<V(B(1), P3), V(B(0), P3)>>}
              \cup {<<V(out, <<"X">>)>>, <<V(out, <<"X", "A", "B", "C">>)>>, <<VA(B(0)), V([B(1) EXCEPT !.au = "X"], <<"X">>)>>,
                    <<VA(B(0)), VA([B(1) EXCEPT !.h = 2])>>, <<VA(B(0)), VA([B(1) EXCEPT !.h = 0])>>, <<VA([B(0) EXCEPT !.h = 5]), VA([B(1) EXCEPT !.h = 6])>>,
                    <<V(Z0, <<"A">>)>>, <<VA(Z0)>>, <<VA(Z0), V(Z1, <<"A">>)>>, <<V(Z0, <<"A">>), V(Z1, <<"A">>)>>, <<VA(Z1)>>, <<V(Z1, <<"A", "B">>)>>,
                    <<VA([Z0 EXCEPT !.h = 1]), V([Z1 EXCEPT !.h = 2], <<"A">>)>>, <<V([Z0 EXCEPT !.h = 1], <<"A">>), V([Z1 EXCEPT !.h = 2], <<"A">>)>>}
        vs == {<<>>} \cup v1 \cup v2 \cup v3
        \* whose signatures add up to everyone's: every way of up to two signatures per block
        Sq == {<<x>> : x \in {"A", "B", "C"}} \cup {<<x, y>> : x, y \in {"A", "B", "C", "X"}}
        With1(a) == {q \in Sq : In(a, q)}
        BA == [B(2) EXCEPT !.au = "A"]
        sums == {<<V(B(1), x), V(B(2), y)>> : x \in With1("B"), y \in With1("C")}
                \cup {<<V(B(0), x), V(B(1), y), V(BA, z)>> : x \in {<<"A">>, <<"A", "B">>, <<"A", "A">>}, y \in {<<"B">>, <<"B", "A">>, <<"B", "C">>}, z \in With1("A")}
        fins(v) == {G, Nm(1), Nm(2)}
        lats(v) == {G, Nm(1), Nm(2), Nm(3)}
    IN IF ~d.ex
       THEN UNION {{Create("A", ch, FK, fi, la, v, NoOne, 0, pr) : fi \in fins(v), la \in lats(v)} : v \in vs}
            \cup {Create("A", ch, FK, v[1].b.sh, v[Len(v)].b.sh, v, NoOne, 0, pr) : v \in sums}
            \cup {Create("A", ch, FK, fi, la, <<>>, NoOne, 0, pr) : fi \in {NoState, Junk, G}, la \in {NoState, Junk, G}}
       ELSE IF d.cc = 0 /\ d.fin \in {G, Nm(1)} /\ Len(d.votes) \in {0, 1} /\ (Len(d.votes) = 1 => d.votes[1].sg = P3)
       THEN {Chal("B", ch, FK, 0, fi, la, v, <<Fut([B(0) EXCEPT !.ts = c.now + 1], "A")>>) : fi \in {G, Nm(1)}, la \in {G, Nm(1), Nm(2)},
                v \in {<<>>, <<VA(B(0))>>, <<VA(B(1))>>, <<V(B(0), <<"A">>)>>, <<V(B(1), <<"A", "B">>)>>, <<V(B(0), <<"A">>), V(B(1), <<"B">>)>>, <<VA(B2(0))>>}}
       ELSE {}

\* ---- outcome: joins, slashes and timeouts applied together, exits processed afterwards
OpsOutcome ==
    IF ~Ready THEN Setup ELSE
    LET ch == "c1"  d == c.dp[ch]  f == F(ch)  now == c.now
        g1 == GenesisNow(ch)
        futs(ps, fk) == [i \in DOMAIN ps |-> Fut(Blk(ch, fk, 0, ps[i], now + 1, "add1", G, G), ps[i])]
        J(p, am) == JoinP(Jc(ch, p, am, now), p, P3)
        c0 == {Create("A", ch, FK, G, G, <<>>, NoOne, 0, futs(s, FK) \o j) : s \in {<<>>, <<"B">>, <<"C", "B">>, <<"B", "C">>},
                  j \in {<<>>, <<J("D", 7)>>, <<J("D", 7), J("E", 8)>>, <<J("E", 8), J("D", 666)>>, <<J("D", 777)>>}}
              \cup {Create("B", ch, FK, G, G, <<>>, "A", 0, futs(s, FK)) : s \in {<<>>, <<"C">>, <<"A">>, <<"A", "C">>}}
              \cup {Create("A", ch, FK, G, Nm(1), <<V(B(0), <<"A">>)>>, "B", 1, futs(s, FK) \o j) : s \in {<<>>, <<"C">>, <<"B">>}, j \in {<<>>}}
        \* a participant who left in the middle of the fork is in the fork's start, but not in the latest state
        Q(h, au, s) == Blk(ch, FK, h, au, Now0, "quit", s, Exec(s, [au |-> au, op |-> "quit"]).st)
        q0 == Q(0, "A", G)
        q1 == Q(1, q0.sh.ps[2], q0.sh)
        cq == {Create(w, ch, FK, G, q0.sh, <<V(q0, <<"A">>)>>, NoOne, 0, futs(s, FK)) : w \in {"A", "B", "C"}, s \in {<<"A">>, <<"A", "C">>, <<"C", "A">>, <<"A", "B">>, <<"C", "B">>, <<"B", "A">>}}
              \cup {Create(w, ch, FK, G, q1.sh, <<V(q0, <<"A">>), V(q1, <<q1.au>>)>>, NoOne, 0, futs(s, FK)) : w \in {"A", "B", "C"}, s \in {<<"A">>, <<"A", "C", "B">>, <<"C", "A">>, <<"A", "B">>, <<"C", "B">>}}
              \cup {Create("B", ch, FK, G, q0.sh, <<V(q0, <<"A">>)>>, "C", 1, futs(s, FK)) : s \in {<<>>, <<"A">>, <<"C">>, <<"A", "C">>}}
              \cup {Create("C", ch, FK, G, q0.sh, <<V(q0, <<"A">>)>>, NoOne, 0, futs(s, FK) \o <<J("D", 7)>>) : s \in {<<"A">>, <<"A", "B">>}}
        c1 == {Chal(w, ch, d.fork, d.cc, G, l[1], l[2], futs(s, d.fork)) : w \in {"A", "B", "C"}, s \in {<<"B">>, <<"C">>, <<"A">>},
                  l \in {<<G, <<>>>>, <<Nm(1), <<V(B(0), <<"A">>)>>>>}}
              \cup {Chal(Next1(d.lat), ch, d.fork, d.cc, G, l[1], l[2], <<J("E", 9)>>) : l \in {<<G, <<>>>>, <<Nm(1), <<V(B(0), <<"A">>)>>>>}}
        later == {Create(w, ch, f, g1, g1, <<>>, NoOne, 0, futs(<<g1.ps[1]>>, f)) : w \in {g1.ps[Len(g1.ps)]}}
                 \cup {LeaveOp("A", ch, g1.ps[1], f, g1, now, g1.ps, g1), JoinOp(g1.ps[1], Jc(ch, "E", 3, now), "E", g1.ps[1], f, g1, g1.ps, g1),
                       LeaveOp("A", ch, g1.ps[1], f, g1, now - 1, g1.ps, g1), JoinOp(g1.ps[1], Jc(ch, "E", 666, now), "E", g1.ps[1], f, g1, g1.ps, g1)}
    IN (IF ~d.ex THEN c0 \cup cq ELSE IF d.dl > now THEN (IF d.cc < 1 THEN c1 ELSE {}) ELSE IF Len(g1.ps) > 0 THEN later ELSE {})
       \cup (IF ~d.ex /\ now = Now0 THEN {Tick(P2P + AGR + FB)} ELSE {}) \cup (IF d.ex /\ InProgress(c, ch) THEN {Tick(CHAL + 1)} ELSE {})

\* ---- rebut: undoing and redirecting folds
OpsRebut ==
    IF ~Ready THEN Setup ELSE
    LET ch == "c1"  d == c.dp[ch]  now == c.now
        T0 == {Create("A", ch, FK, G, Nm(1), <<V(B(0), <<"A">>)>>, "B", 1, p) : p \in {<<>>, <<DblOf(0)>>, <<DblOf(2)>>, <<Prior(0)>>, <<Rech(B(1), P3)>>}}
              \cup {Create("A", ch, FK, G, Nm(2), <<V(B(0), <<"A">>), V(B(1), <<"B">>)>>, "C", 2, p) : p \in {<<>>, <<Prior(1)>>, <<Prior(0)>>}}
              \cup {Create("B", ch, FK, G, Nm(2), <<V(B(0), <<"A">>), V(B(1), <<"B">>)>>, NoOne, k, <<p>>) : k \in {0, 1, 2}, p \in {Prior(0), Prior(1), Prior(2), DblOf(2)}}
        sg == {P3, <<"C", "A", "B">>, <<"A", "B">>, <<"A", "B", "B">>, <<"A", "B", "bad">>, <<"A", "B", "mal">>, <<"A", "B", "C", "X">>, <<"A", "B", "X", "C">>}
        rs == {Rech(b, s) : b \in {B(1), B(2), B2(1), [B(1) EXCEPT !.ch = "c2"], B(0)} \cup {[B(1) EXCEPT !.fork = k] : k \in OtherForks}, s \in {P3}}
              \cup {Rech(B(d.fh), s) : s \in sg}
        others == {Prior(0), Prior(1), Prior(2), DblOf(0), DblOf(1), DblOf(2), Inc(B(0), Lie(1), Nm(1)), Inc(Lie(0), Lie(0), G), Inc(B(1), Lie(2), Nm(2)),
                   NewP(B(1), "A"), NewP(B(2), "A"), NewP(B(2), "B")}
        seqs == {<<p>> : p \in rs \cup others} \cup {<<Rech(B(1), P3), Rech(B(1), P3)>>, <<Prior(0), Rech(B(1), P3)>>, <<Prior(0), DblOf(0)>>, <<DblOf(0), Rech(B(1), P3)>>}
        votes == {<<>>, <<V(B(0), <<"A">>)>>, <<V(B(0), <<"A">>), V(B(1), <<"B">>)>>}
        lat(v) == Nm(Len(v))
    IN IF ~d.ex THEN T0 \cup (IF now < Now0 + 7 THEN {Tick(P2P + AGR + FB), Tick(1)} ELSE {})
                     \cup (IF c.posted = {} THEN {Post("A", B(0), "A"), Post("B", [B(1) EXCEPT !.ts = Now0], "B")} ELSE {})
       ELSE IF d.cc > 0 THEN (IF d.to = NoOne \/ d.cc > 1 THEN {} ELSE {Chal("A", ch, FK, d.cc, G, Nm(1), <<V(B(0), <<"A">>)>>, <<p>>) : p \in {Rech(B(1), P3), Prior(0)}})
       ELSE {Chal(w, ch, FK, 0, G, lat(v), v, s) : w \in {"B", "C"}, v \in IF Thorough THEN votes ELSE {<<V(B(0), <<"A">>)>>}, s \in seqs}
            \cup {Chal("B", ch, FK, 0, G, lat(v), v, <<p>>) : v \in votes, p \in {Rech(B(d.fh), P3), Prior(0)}}
            \cup (IF now < Now0 + 6 THEN {Tick(2)} \cup {Post("A", [B(0) EXCEPT !.ts = now], "A")} ELSE {})

\* ---- calldata: what can be posted and what the views then say
OpsCalldata ==
    IF ~Opened("c1") THEN {OpenOp("c1")} ELSE
    LET blks == {[B(0) EXCEPT !.ts = t] : t \in {c.now - P2P - AGR - FB - 1, c.now - P2P - AGR - FB, c.now, c.now + 1}}
                \cup {B(1), [B(0) EXCEPT !.h = 2, !.ts = c.now], [B(0) EXCEPT !.fork = 1, !.ts = c.now],
                      [B(0) EXCEPT !.ch = "c2", !.ts = c.now], [B(0) EXCEPT !.au = "X", !.ts = c.now], [B(0) EXCEPT !.au = "B", !.ts = c.now]}
    IN {Post(w, b, s) : w \in {"A", "B", "X"}, b \in blks, s \in {"A", "B", "X"}}
       \cup {Post(b.au, b, s) : b \in {[B(0) EXCEPT !.ts = c.now]}, s \in {"bad", "mal"}}
       \cup (IF c.now < Now0 + 6 THEN {Tick(1), Tick(2)} ELSE {})

\* ---- agree: joining and leaving by agreement
OpsAgree ==
    IF ~Opened("c1") THEN {OpenOp("c1")} ELSE
    LET ch == "c1"  f == F(ch)  g == GenesisNow(ch)  ps == g.ps  now == c.now
        s1 == IF g.k = "ok" /\ Len(ps) > 0 THEN St(g.n + 1, g.ps, g.am, g.m) ELSE g
        jc == Jc(ch, "D", 7, now)
        j0 == JoinOp("A", jc, "D", "A", f, g, ps, g)
        sgs == {ps, Reverse(ps), Tail(ps), ps \o <<"X">>, [ps EXCEPT ![1] = ps[Len(ps)]], [ps EXCEPT ![1] = "bad"], [ps EXCEPT ![1] = "mal"], [ps EXCEPT ![1] = "D"], <<>>}
        jcs == {jc, [jc EXCEPT !.ch = "c2"], [jc EXCEPT !.p = "A"], [jc EXCEPT !.p = "E"], [jc EXCEPT !.am = 666], [jc EXCEPT !.am = 777],
                [jc EXCEPT !.dl = now - 1], [jc EXCEPT !.dl = now + 1]}
        joins == {[j0 EXCEPT !.sg = s] : s \in sgs}
                 \cup {[j0 EXCEPT !.who = w] : w \in {"B", "X", "D"}} \cup {[j0 EXCEPT !.a.sub = w] : w \in {"B", "X", "D"}}
                 \cup {[j0 EXCEPT !.a.sub = w, !.who = w] : w \in {"B", "X", "D"}}
                 \cup {[j0 EXCEPT !.a.sjc.jc = x, !.a.sjc.s = x.p] : x \in jcs} \cup {[j0 EXCEPT !.a.sjc.s = s] : s \in {"A", "X", "bad", "mal"}}
                 \cup {[j0 EXCEPT !.a.fork = k] : k \in {f + 1} \cup (IF f > 0 THEN {f - 1} ELSE {})}
                 \cup {[j0 EXCEPT !.a.psh = s, !.st = t] : s \in {g, s1, ZeroHash}, t \in {g, s1, Junk}}
        l0 == LeaveOp("A", ch, "A", f, g, now, ps, g)
        leaves == {[l0 EXCEPT !.sg = s] : s \in sgs} \cup {[l0 EXCEPT !.who = w] : w \in {"B", "X"}}
                  \cup {[l0 EXCEPT !.l.p = p] : p \in {"B", "D", "X"}} \cup {[l0 EXCEPT !.l.ch = "c2"]}
                  \cup {[l0 EXCEPT !.l.fork = k] : k \in {f + 1} \cup (IF f > 0 THEN {f - 1} ELSE {})}
                  \cup {[l0 EXCEPT !.l.psh = s, !.st = t] : s \in {g, s1, ZeroHash}, t \in {g, s1, Junk}}
                  \cup {[l0 EXCEPT !.l.dl = t] : t \in {now - 1, now + 1}}
                  \cup {LeaveOp("X", ch, p, f, Drop(g, p), now, ps, Drop(g, p)) : p \in {q \in {"A", "B"} : In(q, ps)}}
        fut == <<Fut(Blk(ch, f, 0, "C", now + 1, "add1", g, g), "C")>>
    IN (IF Len(ps) > 0 THEN joins \cup leaves ELSE {})
       \cup (IF ~c.dp[ch].ex /\ f <= 1 THEN {Create("A", ch, f, g, g, <<>>, NoOne, 0, fut)} ELSE {})
       \cup (IF InProgress(c, ch) THEN {Tick(CHAL), Tick(CHAL + 1)} ELSE {})

\* ---- fjoin: joining through a dispute
OpsFJoin ==
    IF ~Ready THEN Setup ELSE
    LET ch == "c1"  d == c.dp[ch]  now == c.now
        jc == Jc(ch, "D", 7, now)
        j0 == JoinP(jc, "D", P3)
        sgs == {P3, <<"C", "B", "A">>, <<"A", "B">>, <<"A", "B", "B">>, <<"A", "B", "bad">>, <<"A", "B", "mal">>, <<"A", "B", "C", "D">>, <<"A", "B", "D">>}
        jcs == {jc, [jc EXCEPT !.ch = "c2"], [jc EXCEPT !.p = "A"], [jc EXCEPT !.p = "E"], [jc EXCEPT !.am = 666], [jc EXCEPT !.am = 777],
                [jc EXCEPT !.dl = now - 1], [jc EXCEPT !.dl = now + 1]}
        ps == {[j0 EXCEPT !.sg = s] : s \in sgs} \cup {[j0 EXCEPT !.sjc = [jc |-> x, s |-> x.p]] : x \in jcs}
              \cup {[j0 EXCEPT !.sjc.s = s] : s \in {"A", "X", "bad", "mal"}}
        seqs == {<<p>> : p \in ps} \cup {<<j0, j0>>, <<j0, [j0 EXCEPT !.sjc = [jc |-> [jc EXCEPT !.p = "E"], s |-> "E"]]>>, <<j0, DblOf(1)>>, <<DblOf(0), j0>>}
        evs == {<<G, <<>>>>, <<Nm(1), <<V(B(0), <<"A">>)>>>>}
    IN IF ~d.ex
       THEN {Create(w, ch, FK, G, e[1], e[2], NoOne, 0, s) : w \in {"A", "B", "C"}, e \in evs, s \in seqs}
            \cup {Create("B", ch, FK, G, Nm(1), <<V(B(0), <<"A">>)>>, "C", 1, <<j0>>), Create("X", ch, FK, G, G, <<>>, NoOne, 0, <<j0>>)}
            \cup (IF now = Now0 THEN {Tick(1)} ELSE {})
       ELSE IF d.cc > 0 \/ Len(d.sl) > 1 THEN {}
       ELSE {Chal(w, ch, FK, 0, G, e[1], e[2], s) : w \in {"A", "B"}, e \in evs, s \in seqs} \cup (IF now < Now0 + 5 THEN {Tick(1), Tick(3)} ELSE {})

Ops == CASE Focus = "forks" -> OpsForks [] Focus = "life" -> OpsLife [] Focus = "timeout" -> OpsTimeout
         [] Focus = "slash" -> OpsSlash [] Focus = "final" -> OpsFinal [] Focus = "outcome" -> OpsOutcome
         [] Focus = "rebut" -> OpsRebut [] Focus = "calldata" -> OpsCalldata [] Focus = "agree" -> OpsAgree
         [] Focus = "fjoin" -> OpsFJoin [] Focus = "priv" -> OpsPriv

(***************************************************************************)
(* The model                                                               *)
(***************************************************************************)
Init == c = NewChain(Now0) /\ dep = 0
Next == /\ dep < Depth
        /\ \E o \in Ops : LET r == Do(c, o) IN r.ok /\ r.c # c /\ c' = r.c /\ dep' = dep + 1
Spec == Init /\ [][Next]_vars
View == c
Steps == {[o |-> o, r |-> Do(c, o)] : o \in Ops}
Emit ==
    LET S == IF dep < Depth THEN Steps ELSE {}
    IN /\ \A x \in S : Assert(StepOk(c, x.o, x.r.c, x.r.ev), <<"StepOk", x.o, c>>)
       /\ PrintT("STATE " \o ToJson([s |-> Proj(c, MaxF, MaxH), dep |-> dep,
              rej |-> {x.o : x \in {y \in S : ~y.r.ok}},
              acc |-> {[o |-> x.o, t |-> Proj(x.r.c, MaxF, MaxH), ev |-> x.r.ev] : x \in {y \in S : y.r.ok}}]))
=============================================================================
