// Real clients on one machine, with stand-ins for the WebSockets between them: runs the behaviours of
// spec/Local.tla, in which the messages arrive in its order.
import { Client } from './network.mjs';
import { ethers, instance } from './ts.mjs';
import { key } from './man.mjs';
import { Rng } from './rng.mjs';
const { k, n, seed, job, deadline } = await new Promise((r) => process.once('message', r));
const idle = () => new Promise((r) => setImmediate(r));
const NAMES = ['A', 'B', 'C', 'J', 'K'], DISC = 2001, port = (i) => 2100 + 10 * i;

class Hub {
    constructor() { this.servers = new Map(); this.socks = []; this.cur = -1; this.bad = []; this.seq = 0; }
    ws() {
        const hub = this;
        class Ev {
            constructor() { this.h = {}; this.owner = hub.cur; }
            on(e, f) { (this.h[e] ??= []).push(f); return this; }
            once(e, f) { return this.on(e, (...a) => { this.h[e] = this.h[e].filter((x) => x !== f); f(...a); }); }
            addEventListener(e, f) { return this.on(e, (x) => f(e === 'message' ? { data: x } : x)); }
            off(e, f) { this.h[e] = (this.h[e] ?? []).filter((x) => x !== f); return this; }
            removeListener(e, f) { return this.off(e, f); }
            removeAllListeners(e) { if (e) delete this.h[e]; else this.h = {}; return this; }
            emit(e, ...a) {
                const was = hub.cur; hub.cur = this.owner;
                try {
                    if (e === 'error' && !this.h.error?.length) hub.bad.push(`client ${this.owner} ends: an error event that nobody handles: ${a[0]}`);
                    for (const f of [...this.h[e] ?? []]) try { const r = f(...a); r?.catch?.((x) => hub.bad.push('unhandled: ' + x)); } catch (x) { hub.bad.push(`client ${this.owner} ends: uncaught ${x}`); }
                } finally { hub.cur = was; }
            }
        }
        class WebSocket extends Ev {
            constructor(url) { super(); this.state = 0; this.inq = []; this.url = String(url); this.port = Number(this.url.split(':').pop().replace(/\D.*$/, '')); if (url !== undefined) hub.socks.push(this); }
            get readyState() { return this.state; }
            send(d, cb) { if (this.state === 0) throw new Error('WebSocket is not open: readyState 0 (CONNECTING)'); if (this.state === 1 && this.peer.state < 2) this.peer.inq.push(Buffer.from(d)); if (typeof cb === 'function') setImmediate(cb); }
            close() { if (this.state > 1) return; this.state = 3; setImmediate(() => this.emit('close')); const p = this.peer; if (p) setImmediate(() => p.close()); }
            terminate() { this.close(); }
            dial() {
                const s = hub.servers.get(this.port);
                if (!s) { this.state = 3; this.emit('error', new Error('connect ECONNREFUSED ' + this.port)); this.emit('close'); return; }
                const was = hub.cur; hub.cur = s.owner;
                const o = new WebSocket(undefined); hub.cur = was;
                Object.assign(o, { state: 1, peer: this, server: s }); this.peer = o; hub.socks.push(o);
                s.emit('connection', o, {});
            }
            opened() { this.state = 1; this.emit('open'); }
            next() { this.emit('message', this.inq.shift(), false); }
        }
        class WebSocketServer extends Ev {
            constructor(o) {
                super();
                this.port = o.port || 20000 + hub.seq++;
                if (hub.servers.has(this.port)) { this.taken = true; setImmediate(() => this.emit('error', Object.assign(new Error('listen EADDRINUSE ' + this.port), { code: 'EADDRINUSE' }))); } else { hub.servers.set(this.port, this); setImmediate(() => this.emit('listening')); }
            }
            address() { return { port: this.port }; }
            close(cb) { if (!this.taken) hub.servers.delete(this.port); cb?.(); }
        }
        return Object.assign(WebSocket, { WebSocketServer, Server: WebSocketServer, WebSocket, default: WebSocket });
    }
}

async function run(t, r) {
    const hub = new Hub(), WS = hub.ws(), N = t.ch.length, cs = [null];
    for (let i = 1; i <= N; i++) cs.push(await Client.create({ me: NAMES[i - 1], skew: 0, members: NAMES.slice(0, N), pref: 0, env: { processEnv: { DEBUG_LOCAL_TRANSPORT: 'true' }, modules: { ws: WS } } }));
    const rest = async () => { for (let j = 0; j < 12; j++) await idle(); };
    const mine = (i, p) => hub.socks.filter((s) => !s.server && s.owner === i && s.port === p);
    const home = (i) => hub.servers.get(DISC) && hub.socks.find((s) => !s.server && s.owner === i && s.port === DISC);
    // messages between the clients, whenever
    const link = (s) => s.port !== DISC && s.server?.port !== DISC;
    const chat = () => hub.socks.filter((s) => link(s) && s.inq.length && s.state === 1);
    const drain = async (all) => { for (let q = chat(), z = 0; q.length && z < 400 && (all || r.p(0.5)); q = chat(), z++) { r.pick(q).next(); await rest(); } };
    const random = Math.random;
    const say = (at, what) => ({ what: `channels ${key(t.ch)}, after ${key(t.h.slice(0, at))}: ${what}`, t: { ...t, h: t.h.slice(0, at) } });
    let at = 0;
    const step = async (o) => {
        const { c: i, d: j } = o;
        switch (o.k) {
            case 'start': {
                const picks = j === i ? [] : [j === 0 ? DISC : port(j)];
                Math.random = () => ((picks.shift() ?? port(i)) - 2000 + 0.5) / 1000;
                hub.cur = i;
                const was = hub.servers.size;
                // every socket of the client is made on its behalf, also later
                try { const d = cs[i].man.tryOpenConnectionToChannel(ethers.id('c' + t.ch[i - 1])); await rest(); await d; } finally { hub.cur = -1; Math.random = random; }
                return;
            }
            case 'conn': return home(i)?.dial();
            case 'open': return home(i)?.state === 0 && home(i).peer && home(i).opened();
            case 'tell': { const s = home(i)?.peer; if (s?.inq.length) s.next(); return; }
            case 'hear': { const s = home(i); if (s?.state === 1 && s.inq.length) s.next(); return; }
            case 'link': { const s = mine(i, port(j)).find((x) => !x.peer && x.state === 0); s?.dial(); return; }
            case 'linked': { const s = mine(i, port(j)).find((x) => x.peer && x.state === 0); s?.opened(); return; }
        }
    };
    const want = (i) => t.at[i - 1].map((x) => NAMES[x - 1]).sort();
    const links = (i) => hub.socks.filter((s) => link(s) && s.state < 3 && s.owner === i && (s.server || s.state === 1));
    for (; at < t.h.length; at++) {
        await step(t.h[at]);
        await rest();
        if (at < t.h.length - 1) await drain(false);
        if (hub.bad.length) return say(at + 1, hub.bad[0]);
        for (let i = 1; i <= N; i++) if (links(i).length > want(i).length) return say(at + 1, `client ${NAMES[i - 1]} is connected ${links(i).length} times, and ${want(i).length} others are in its channel`);
    }
    // whatever else is on its way
    for (let z = 0; z < 300; z++) {
        const q = [...hub.socks.filter((s) => !s.server && s.state === 0 && !s.peer).map((s) => () => s.dial()), ...hub.socks.filter((s) => !s.server && s.state === 0 && s.peer).map((s) => () => s.opened()), ...hub.socks.filter((s) => s.inq.length && s.state === 1).map((s) => () => s.next())];
        if (!q.length) break;
        r.pick(q)(); await rest();
    }
    if (hub.bad.length) return say(at, hub.bad[0]);
    for (let i = 1; i <= N; i++) {
        const got = cs[i].hk.slice().sort();
        if (key(got) !== key(want(i))) return say(at, `client ${NAMES[i - 1]} was told of connections with ${key(got)}, and in its channel are ${key(want(i))}`);
    }
    // each message reaches everyone in the channel once, in order
    const heard = cs.map(() => []);
    for (let i = 1; i <= N; i++) { const man = cs[i].man, was = man.onRpc.bind(man); man.onRpc = (x) => (String(x).startsWith('probe') ? heard[i].push(String(x)) : was(x)); }
    const text = (x, z) => `probe ${x} ${z}`.padEnd(z * z * 999) + z;
    for (const z of [1, 2]) for (let i = 1; i <= N; i++) cs[i].man.broadcastRpc(text(NAMES[i - 1], z));
    await drain(true);
    for (let i = 1; i <= N; i++) {
        const exp = want(i).flatMap((x) => [text(x, 1), text(x, 2)]), got = heard[i].slice().sort();
        if (key(got) !== key(exp) || heard[i].some((x, a) => x.endsWith('2') && !heard[i].slice(0, a).includes(text(x.split(' ')[1], 1)))) return say(at, `client ${NAMES[i - 1]} received ${key(heard[i].map((x) => x.slice(0, 9)))} instead of ${key(exp.map((x) => x.slice(0, 9)))}`);
    }
    return null;
}

const bad = [];
let runs = 0;
for (let c = k; c < job.cases.length; c += n) {
    if (Date.now() > deadline || bad.length > 2) break;
    let b;
    try { b = await run(job.cases[c], new Rng(seed * 7919 + c)); } catch (e) { b = { what: `the clients failed: ${String(e?.stack ?? e).slice(0, 400)}`, t: job.cases[c] }; }
    runs++;
    if (b) bad.push(b);
}
process.send({ bad, runs }, () => process.exit(0));
