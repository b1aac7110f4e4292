import { World } from './kit/man.mjs';
const P = ['A', 'B', 'C'];
const st = (n, ps = P, am = ps.map((_, i) => 10 * (i + 1)), m = []) => ({ k: 'ok', n, ps, am, m });
const blk = (h, x = {}) => ({ ch: 'c1', fork: 0, h, au: P[h % 3], ts: 20 + h, op: 'add1', psh: st(h), sh: st(h + 1), ...x });
const dbl = (b1, b2, s = b1.au, s2 = s) => ({ t: 'dbl', ds: [{ b1, b2, s1: s, s2 }] });
const fut = (p, now, x = {}) => ({ t: 'fut', b: blk(0, { au: p, ts: now + 1, ...x }), s: p });
const vote = (b, sg) => ({ b, sg });
const create = (x) => ({ op: 'create', ch: 'c1', who: 'A', fork: 0, fin: st(0), lat: st(0), votes: [], to: '0', fh: 0, proofs: [], ...x });
const chal = (x) => ({ op: 'chal', ch: 'c1', who: 'A', fork: 0, cc: 0, fin: st(0), lat: st(0), votes: [], proofs: [], ...x });
const post = (b) => ({ op: 'post', who: b.au, b, s: b.au });
const tick = (dt) => ({ op: 'tick', dt });
const w = await World.create({ times: [2, 1, 1, 3] });
w.start(20);
await w.apply({ op: 'open', ch: 'c1', st: st(0) });
const say = (ok, msg) => { if (!ok) { console.log('WRONG: ' + msg); process.exit(1); } };
async function yes(o, msg) { const r = await w.apply(o); say(r.ok, msg + ' was refused: ' + r.reason); return r; }
async function no(o, msg) { const r = await w.apply(o); say(!r.ok, msg + ' was accepted'); return r; }
