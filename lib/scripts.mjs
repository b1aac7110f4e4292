// Short stories for the generator (pgen.mjs): sequences of inputs that lead clients into situations which
// independent random inputs reach rarely. They only choose inputs; spec/Peer.tla decides the outcomes.
// A story yields [peer or '-', input], or undefined for "let something else happen now".
import { CH } from './peer.mjs';
import { nextOf, exec } from './pgen.mjs';

const P2P = 2, AGR = 2, W = 4;
const tick = (dt) => ['-', { k: 'chain', o: { op: 'tick', dt } }];
const chain = (o) => ['-', { k: 'chain', o }];
const blk = (b, s = b.au) => ({ k: 'blk', b, s });
const conf = (b, cs, s = b.au) => ({ k: 'conf', b, s, cs });
const post = (b, s = b.au) => chain({ op: 'post', who: b.au, b, s });
// all events that the peer has not seen yet, in order
function* events(g, p, max = 9) {
    for (let n = 0; n < max; n++) {
        const e = g.pending(p);
        if (!e) return;
        yield [p, e];
    }
}
// a valid next block of a participant played by the harness, if it is one's turn; else the client plays
function* turn(g, p) {
    for (let n = 0; n < 3; n++) {
        const o = g.obs[p];
        if (!o || o.sm.k !== 'ok') return;
        const b = g.good(o);
        if (b) return b;
        const nx = nextOf(o.sm);
        if (!g.isReal(nx)) return;
        if (nx === p) yield [p, { k: 'play', o: 'add1' }];
        else { yield [nx, { k: 'play', o: 'add1' }]; yield* deliverAll(g, p); }
        if (g.obs[p].next === o.next) return;
    }
}
function* deliverAll(g, p) {
    while (g.box[p].length) yield [p, g.box[p].shift()];
}
const others = (g, ...not) => ['A', 'B', 'C'].filter((x) => !g.isReal(x) && !not.includes(x));

// the harness' participants of the latest fork
const mates = (g) => { const c = g.chain.forks[CH], G = c[c.length - 1], D = g.chain.dp[CH]; return G.st.k === 'ok' ? G.st.ps.filter((x) => !g.isReal(x) && !(D.ex && D.sl.includes(x))) : []; };
export const STORIES = {
    // confirmations of several participants before the block they are for
    *early(g, p, r) {
        const o = g.obs[p], bs = g.ahead(o);
        if (!bs.length) return;
        const ms = [];
        const cs = () => r.shuffle([...others(g), ...others(g).map((x) => x + '2'), 'X']).slice(0, 1 + r.int(3));
        for (const b of bs) for (const c of cs()) ms.push(conf(b, c));
        for (const m of r.shuffle(ms)) yield [p, m];
        for (const b of r.p(0.5) ? bs.slice().reverse() : r.shuffle(bs)) { g.said.push(blk(b)); yield [p, blk(b)]; if (r.p(0.15)) yield undefined; }
    },
    // the next block is published on chain late, and arrives before (or after) the announcement
    *latepost(g, p, r) {
        const b0 = yield* turn(g, p);
        if (!b0) return;
        const o = g.obs[p], F = g.fork(o);
        const late = F.lt + P2P - g.net.world.now + r.pick([-1, 0, 1, 1, 2, 3]);
        if (late > 0) yield tick(late);
        const now = g.net.world.now;
        const b = { ...b0, ts: r.pick([now, now, now, F.lt + P2P, F.lt + P2P + 1, now + P2P, now + P2P + 1]) };
        b.sh = exec(b.psh, b) ?? b.psh;
        // somebody publishes something for this height, or the ones before or after
        const h = r.weighted({ 0: 6, '-1': 2, 1: 1 });
        const who = others(g);
        if (r.p(0.6)) yield post({ ...b, ts: now });
        else { const w = r.p(0.7) && who.length ? r.pick(who) : 'X'; const q = { ...b, au: w, h: Math.max(0, b.h + +h), ts: now }; q.sh = exec(q.psh, q) ?? q.psh; yield post(q); }
        if (r.p(0.3)) yield tick(1 + r.int(2));
        if (r.p(0.3)) yield* events(g, p);
        yield [p, r.p(0.8) ? blk(b) : conf(b, r.pick([...who, 'X']))];
        yield* events(g, p);
        if (r.p(0.3)) yield [p, blk(b)];
    },
    // several of those who signed blocks publish others for the same heights; the news of it comes at once, maybe with that of a dispute
    *liars(g, p, r) {
        yield* events(g, p);
        for (let n = 2 + r.int(2); n > 0; n--) { const b = yield* turn(g, p); if (b) yield [p, blk(b)]; }
        const o = g.obs[p];
        if (o.disputed.includes(o.fork) || o.fork !== g.chain.forks[CH].length - 1) return;
        const bs = r.shuffle(o.forks[o.fork].ag.map((a) => a.b).filter((b) => !g.isReal(b.au))).slice(0, 2);
        if (r.p(0.7)) yield tick(r.int(4));
        for (const b of bs) {
            const x = { ...b, ...r.pick([{ ts: b.ts + 1 }, { op: b.op === 'add2' ? 'add1' : 'add2' }, { ts: b.ts + 1, op: 'noisy' }]) };
            x.sh = exec(x.psh, x) ?? x.psh;
            yield post(x);
        }
        if (r.p(0.8)) { const x = g.chainOp(r.weighted({ slash: 4, stale: 2, timeout: 1 }), p); if (x) yield chain(x); }
        for (let n = 0; n < 2 && g.pending(p, true); n++) yield [p, { k: 'batch', is: [g.pending(p), g.pending(p)].filter(Boolean) }];
        yield* events(g, p);
    },
    // a block is accepted while its fork gets disputed: agreed, but not confirmed
    *unsigned(g, p, r) {
        yield* events(g, p);
        for (let n = r.int(4); n > 0; n--) { const b = yield* turn(g, p); if (b) { yield [p, blk(b)]; if (r.p(0.6)) for (const c of mates(g)) if (r.p(0.7)) yield [p, conf(b, c)]; } }
        let o = g.obs[p];
        const who = mates(g);
        if (!who.length || o.disputed.includes(o.fork) || o.fork !== g.chain.forks[CH].length - 1) return;
        const b = yield* turn(g, p);
        if (!b) return;
        o = g.obs[p];
        // what disputes the fork meanwhile: a contradiction that somebody published, or a dispute
        const q = r.p(0.5) ? g.past(o, true) : undefined;
        const y0 = q && q.b.au !== '0' ? undefined : g.stale(r.pick(who), o);
        if (!(q && q.b.au !== '0') && !y0) return;
        yield y0 ? chain(y0) : post(q.b);
        const e = g.pending(p, true);
        if (!e) return;
        yield [p, { k: 'batch', is: r.p(0.6) ? [blk(b), g.pending(p)] : [g.pending(p), blk(b)] }];
        for (const c of r.shuffle([...who, ...who, 'X']).slice(0, r.int(3))) yield [p, conf(b, r.p(0.8) ? c : c + (c === 'X' ? '' : '2'))];
        if (r.p(0.5)) { const y = g.chainOp('chal', p); if (y) yield chain(y); }
        yield* events(g, p);
    },
    // confirmations in all kinds, repeated
    *confirm(g, p, r) {
        const b = yield* turn(g, p);
        const o = g.obs[p], F = g.fork(o);
        const c = F ? F.ag.slice(-3).map((a) => ({ b: a.b, s: a.sg[0] })) : [];
        if (b) { if (r.p(0.7)) yield [p, blk(b)]; c.push({ b, s: b.au }); }
        if (!c.length) return;
        for (let n = 2 + r.int(5); n > 0; n--) {
            const x = r.pick(c);
            const cs = r.pick([...others(g), ...others(g).map((y) => y + '2'), 'X', ...(r.p(0.2) ? ['mal'] : [])]);
            const m = { k: 'conf', b: x.b, s: x.s, cs };
            yield [p, m];
            if (r.p(0.2)) yield [p, m];
        }
    },
    // nobody moves until the next one is late (or just before)
    *late(g, p, r) {
        yield* events(g, p);
        const o = g.obs[p], F = g.fork(o);
        const at = F.lt + r.pick([W, W, 2 * W, W + 1, W - 1, 2 * W + 1, 2 * W - 1]);
        const n = nextOf(o.sm);
        if (r.p(0.3) && !g.isReal(n) && n !== '0') { const b = g.good(o); if (b) yield post(b); if (r.p(0.6)) yield* events(g, p); }
        for (let t = 0; t < 6 && g.net.world.now < at; t++) { yield tick(r.p(0.5) ? 1 : Math.min(3, at - g.net.world.now)); yield [p, { k: 'fire' }]; }
        yield [p, { k: 'fire' }];
        yield tick(W); yield [p, { k: 'fire' }];
        yield* events(g, p);
    },
    // somebody whose turn it is not publishes something while the next one is waited for
    *stranger(g, p, r) {
        yield* events(g, p);
        let o = g.obs[p];
        if (nextOf(o.sm) === p) yield [p, { k: 'play', o: 'add1' }];
        o = g.obs[p];
        const F = g.fork(o), n = nextOf(o.sm);
        const who = r.p(0.7) ? ['X', 'D'] : others(g, n);
        if (r.p(0.8)) yield tick(1 + r.int(3));
        const b = g.block(o.fork, Math.max(0, o.next + r.pick([0, 0, 0, 1, -1])), r.pick(who.length ? who : ['X']), g.net.world.now, 'add1', o.sm);
        yield post(b);
        if (r.p(0.75)) yield* events(g, p);
        const at = r.pick([F.lt + W, F.lt + W + 1, b.ts + W, b.ts + W - 1, b.ts + W + 1]) - g.net.world.now;
        if (at > 0) yield tick(at);
        yield [p, { k: 'fire' }];
        yield* events(g, p);
        yield tick(r.pick([1, W])); yield [p, { k: 'fire' }];
        yield* events(g, p);
    },
    // somebody is said to have timed out although everyone signed that block (or nearly everyone)
    *refold(g, p, r) {
        yield* events(g, p);
        for (let n = 1 + r.int(4); n > 0; n--) {
            const b = yield* turn(g, p);
            if (b) yield [p, blk(b)];
            yield* deliverAll(g, p);
            const F = g.fork(g.obs[p]), a = F?.ag[F.ag.length - 1];
            if (!a) return;
            for (const c of mates(g)) if (!a.sg.includes(c) && r.p(0.9)) yield [p, conf(a.b, c, a.sg[0])];
        }
        const o = g.obs[p], F = g.fork(o), who = mates(g);
        if (!F || !who.length || o.fork !== g.chain.forks[CH].length - 1) return;
        const h = r.int(F.ag.length + 1);
        let x;
        do {
            x = g.chainOp('timeout', p, r.pick(who), h);
            if (!x) return;
            if (x.op === 'tick' && r.p(0.3)) yield* events(g, p);
            yield chain(x);
        } while (x.op === 'tick');
        // a block arrives while the client challenges
        const b0 = g.good(o);
        if (b0 && r.p(0.6) && g.pending(p, true)) yield [p, { k: 'batch', is: [g.pending(p), blk(b0)] }];
        yield* events(g, p);
        if (r.p(0.3)) { const b = g.good(g.obs[p]); if (b) yield [p, blk(b)]; }
        yield* events(g, p);
    },
    // dispute after dispute on what is known
    *war(g, p, r) {
        yield* events(g, p);
        for (let n = r.int(4); n > 0; n--) { const b = yield* turn(g, p); if (b) { yield [p, blk(b)]; for (const c of others(g, b.au)) if (r.p(0.6)) yield [p, conf(b, c)]; } }
        const o = g.obs[p], who = mates(g);
        if (!who.length) return;
        for (let n = r.int(3); n > 0; n--) { const q = r.p(0.6) ? g.past(o) : g.near(o); if (q) yield [p, blk(q.b, q.s)]; }
        for (let n = 1 + r.int(3); n > 0; n--) {
            const D = g.chain.dp[CH];
            const x = g.chainOp(D.ex && g.net.world.now < D.dl && r.p(0.85) ? 'chal' : r.weighted({ timeout: 3, stale: 4, slash: 2 }), p);
            if (x) yield chain(x);
            if (r.p(0.8)) yield* events(g, p);
            if (r.p(0.4)) { const q = r.p(0.6) ? g.past(g.obs[p]) : g.near(g.obs[p]); if (q) yield [p, blk(q.b, q.s)]; }
        }
        yield* events(g, p);
        if (r.p(0.4)) { yield tick(r.pick([3, 4, 5, 6])); const x = g.chainOp(r.pick(['leave', 'join', 'stale', 'timeout']), p); if (x) yield chain(x); yield* events(g, p); }
    },
    // the fork ends by dispute or agreement, with messages for the next one early, in between and after
    *fork(g, p, r) {
        yield* events(g, p);
        for (let n = r.int(3); n > 0; n--) { const b = yield* turn(g, p); if (b) yield [p, blk(b)]; }
        let x = r.p(0.55) ? g.chainOp(r.pick(['leave', 'join']), p) : undefined;
        if (!x) {
            const d = g.chainOp(r.weighted({ timeout: 3, slash: 3, stale: 1 }), p);
            if (!d) return;
            yield chain(d);
            if (r.p(0.6)) yield* events(g, p);
            if (r.p(0.4)) { const q = g.good(g.obs[p]); if (q) yield [p, blk(q)]; }
            yield tick(5 + r.int(2));
            x = r.p(0.6) ? g.chainOp('stale', p) : g.chainOp(r.pick(['leave', 'join']), p);
            if (!x) return;
        }
        const old = g.good(g.obs[p]);
        yield chain(x);
        const c = g.chain.forks[CH], G = c[c.length - 1], f = c.length - 1;
        // blocks of the new fork before it is announced
        if (G.st.k === 'ok' && G.st.ps.length && r.p(0.6)) {
            let s = G.st;
            const bs = [];
            for (let h = 0; h < 1 + r.int(3); h++) {
                const au = nextOf(s);
                if (g.isReal(au) || au === '0') break;
                const b = g.block(f, h, au, g.net.world.now, 'add1', s);
                bs.push(b); s = b.sh;
            }
            for (const b of r.shuffle(bs)) { g.said.push(blk(b)); yield [p, blk(b)]; if (r.p(0.4)) yield [p, conf(b, r.pick([...others(g), 'X']))]; }
        }
        if (old && r.p(0.5)) yield [p, blk(old)];
        if (r.p(0.3)) yield [p, { k: 'batch', is: [g.pending(p), old ? blk(old) : { k: 'play', o: 'add1' }].filter(Boolean) }];
        yield* events(g, p);
        if (old && r.p(0.5)) yield [p, blk(old)];
        const b = yield* turn(g, p);
        if (b) yield [p, blk(b)];
    },
    // one near miss of a valid block after the other, then the valid one
    *misses(g, p, r) {
        for (let n = 2 + r.int(4); n > 0; n--) {
            const o = g.obs[p];
            if (!g.fork(o) || o.disputed.includes(o.fork)) break;
            const q = r.p(0.75) ? g.near(o, r.pick(['ts', 'author', 'psh', 'h', 'fork', 'ch', 'sig', 'outsider'])) : g.past(o);
            if (q) yield [p, blk(q.b, q.s)];
        }
        const b = yield* turn(g, p);
        if (b) yield [p, blk(b)];
    },
    // whose clock is wrong, at the edges of what is tolerated
    *edges(g, p, r) {
        const o = g.obs[p], F = g.fork(o);
        if (!F) return;
        const b0 = yield* turn(g, p);
        if (!b0) { yield tick(r.int(4)); yield [p, { k: 'play', o: 'add1' }]; return; }
        const now = g.net.world.now, hi = Math.max(F.lt, ...F.cl) + P2P, my = now + (g.skews[p] ?? 0);
        const b = { ...b0, ts: Math.max(0, r.pick([F.lt - 1, F.lt, hi, hi + 1, my - 5, my - 6, my + 10, my + 11, my - 4, my + 9])) };
        b.sh = exec(b.psh, b) ?? b.psh;
        yield [p, blk(b)];
    },
    // everybody plays in turn and the messages are delivered in any order
    *game(g, p, r) {
        for (let n = 4 + r.int(5); n > 0; n--) {
            const o = g.obs[p];
            if (!g.fork(o) || o.sm.k !== 'ok') return;
            const nx = nextOf(o.sm);
            if (g.isReal(nx)) yield [nx, { k: 'play', o: g.op() }];
            else { const b = g.good(o); if (!b) return; g.said.push(blk(b)); for (const q of g.real) { if (r.p(0.85)) yield [q, blk(b)]; else g.box[q].push(blk(b)); } for (const c of others(g, b.au)) if (r.p(0.7)) for (const q of g.real) yield [q, conf(b, c)]; }
            for (const q of g.real) while (g.box[q].length && r.p(0.9)) yield [q, g.box[q].splice(r.p(0.7) ? 0 : r.int(g.box[q].length), 1)[0]];
            if (r.p(0.3)) yield tick(1);
            if (r.p(0.15)) yield [r.pick(g.real), { k: 'fire' }];
        }
    }
};
