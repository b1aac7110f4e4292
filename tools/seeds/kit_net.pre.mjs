import { Client } from './kit/network.mjs';
import { instance, ethers } from './kit/ts.mjs';
const say = (ok, msg) => { if (!ok) { console.log('WRONG: ' + msg); process.exit(1); } };
const ok = (x, msg) => { if (!x) { console.log('the demonstration itself failed: ' + msg); process.exit(3); } };
await Client.learnTopics(['c1', 'c2', 'c3']);
let c, o;
// one client; t: its connections, i: what they bring
async function client(me = 'A', members = ['A', 'B'], pref = 0) { c = await Client.create({ me, skew: 0, members, pref }); }
async function give(i) { const r = await c.step(i); o = r.obs; return r; }
const conn = (t) => give({ k: 'new', t });
const resp = (t, s, pref = 0, at = c.now) => give({ k: 'resp', t, s, over: t, at, pref, as: 'buffer' });
const join = (t, jc, s, cs) => give({ k: 'join', t, jc, s, cs, as: 'buffer' });
const tick = (dt) => give({ k: 'tick', dt });
const outs = (r, k) => r.outs.map((x) => x.m).filter((x) => x.m.k === k);
const by = (t) => o.by.find((x) => x[0] === t)?.[1];
const idle = () => new Promise((r) => setImmediate(r));
// a plain instance of the code with virtual time
async function bare(env = {}) {
    const T = { now: 0, q: [], seq: 0 };
    const st = (f, ms = 0, ...a) => { const id = { at: T.now + Math.max(1, ms), seq: T.seq++, f: () => f(...a) }; T.q.push(id); return id; };
    T.I = await instance({ setTimeout: st, clearTimeout: (id) => (T.q = T.q.filter((x) => x !== id)), ...env });
    T.settle = async () => { for (let i = 0; i < 8; i++) await idle(); };
    T.run = async (ms) => { for (const end = T.now + ms; ;) { await T.settle(); const n = T.q.filter((x) => x.at <= end).sort((a, b) => a.at - b.at || a.seq - b.seq)[0]; if (!n) { T.now = end; return; } T.q = T.q.filter((x) => x !== n); T.now = n.at; n.f(); } };
    return T;
}
// in a browser: relays by number, which of them fail at once
async function browser(fail = []) {
    const R = { socks: [], swarms: [], tries: 0 };
    class Sock { constructor() { if (fail.includes(++R.tries)) throw new Error('unreachable'); R.socks.push(this); } addEventListener(k, f) { this['on' + k] ??= f; } send() { } close() { } }
    R.T = await bare({
        window: {}, WebSocket: Sock,
        newSwarm: (opt) => { const s = { h: [], log: [], removeAllListeners() { s.h = []; }, on(e, f) { if (e === 'connection') s.h.push(f); return s; }, join(t) { s.log.push('+' + t.toString()); return {}; }, leave(t) { s.log.push('-' + t.toString()); } }; R.swarms.push(s); return s; }
    });
    R.init = (n) => { R.T.I.HolepunchRelay.init(Array.from({ length: n }, (_, i) => 'r' + i), () => (R.updated = R.T.I.HolepunchRelay.getInstance().getSwarm())); };
    R.man = { connections: [], addConnection(t) { R.man.connections.push(t); }, removeConnection() { } };
    R.holepunch = () => (R.hp = new R.T.I.Holepunch(R.man));
    return R;
}
