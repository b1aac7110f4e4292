import { Net } from './kit/peer.mjs';
import { compile } from './kit/sol.mjs';
import { exec, nextOf } from './kit/pgen.mjs';
const CH = 'c1';
const arts = await compile(['facet', 'lib', 'vsm', 'vproxy']);
const net = await Net.create({ arts });
const seen = {}, cur = {};
const say = (ok, msg) => { if (!ok) { console.log('WRONG: ' + msg); process.exit(1); } };
const ok = (x, msg) => { if (!x) { console.log('the demonstration itself failed: ' + msg); process.exit(3); } };
const S = (n, ps, m = []) => ({ k: 'ok', n, ps, am: ps.map((_, i) => 10 * (i + 1)), m });
// a channel of ps; peers: the real clients and how far off their clocks are
async function up(peers, ps = ['A', 'B', 'C'], now = 20) {
    await net.start(now, peers);
    for (const p in peers) cur[p] = 0;
    await chain({ op: 'open', ch: CH, st: S(0, ps) });
    for (const p in peers) await events(p);
}
async function chain(o) { const r = await net.step('-', { k: 'chain', o }); return r; }
const tick = (dt) => chain({ op: 'tick', dt });
async function give(p, i) { const r = await net.step(p, i); seen[p] = r.obs; return r; }
const fire = (p) => give(p, { k: 'fire' });
const blk = (p, b, s = b.au) => give(p, { k: 'blk', b, s });
const conf = (p, b, cs, s = b.au) => give(p, { k: 'conf', b, s, cs });
const play = (p, o = 'add1') => give(p, { k: 'play', o });
async function events(p, skip = []) { let r; while (cur[p] < net.logs.length) { const l = net.logs[cur[p]++]; if (!skip.includes(l.name)) r = await give(p, net.evInput(l)); } return r; }
// a block on state s
function on(s, x) { const b = { ch: CH, fork: 0, h: 0, au: nextOf(s), ts: 20, op: 'add1', psh: s, ...x }; if (!b.sh) b.sh = exec(s, b) ?? s; return b; }
// the next block as client p sees the channel
const next = (p, x = {}) => on(seen[p].sm, { fork: seen[p].fork, h: seen[p].next, ts: Math.max(net.world.now, seen[p].forks.at(-1).lt), ...x });
const ag = (p) => seen[p].forks[seen[p].fork].ag;
const sent = (r, k) => r.outs.filter((o) => o.m.k === k);
