// node checks/parts.mjs C38|C39 - every case that TLC finds, on the real code
import fs from 'node:fs';
import path from 'node:path';
import { Check, THOROUGH, broken, inChild } from '../lib/check.mjs';
import { cfgText } from '../lib/onchain.mjs';
import { tlc, scratch } from '../lib/tlc.mjs';
import { instance } from '../lib/ts.mjs';
import { key } from '../lib/man.mjs';

async function cases(check, module, inv, consts) {
    const dir = scratch('mc'), cfg = path.join(dir, 'mc.cfg'), out = [];
    fs.writeFileSync(cfg, cfgText({ inv, consts }));
    const r = await tlc(module, { cfg, onPrint: (tag, body) => { if (tag === 'CASE') out.push(JSON.parse(body)); } });
    fs.rmSync(dir, { recursive: true, force: true });
    if (!r.ok || !out.length) broken(`TLC rejects ${module}:\n` + r.text.slice(-3000));
    check.add('states', r.states);
    check.add('transitions', r.generated);
    check.add('traces_validated_against_impl', out.length);
    check.sample(out[0]);
    return out;
}
const idle = () => new Promise((r) => setImmediate(r));
// virtual time for one instance
function time() {
    const t = { now: 0, q: [], seq: 0 };
    t.setTimeout = (fn, ms, ...a) => { const id = { unref() { return id; }, ref() { return id; } }; t.q.push({ id, at: t.now + (ms > 0 ? Number(ms) : 0), seq: t.seq++, fn: () => fn(...a) }); return id; };
    t.clearTimeout = (id) => { t.q = t.q.filter((x) => x.id !== id); };
    t.run = async (until) => {
        for (; ;) {
            for (let i = 0; i < 3; i++) await idle();
            const d = t.q.filter((x) => x.at <= until).sort((a, b) => a.at - b.at || a.seq - b.seq)[0];
            if (!d) break;
            t.q = t.q.filter((x) => x !== d);
            t.now = Math.max(t.now, d.at);
            d.fn();
        }
        t.now = until;
    };
    return t;
}
const same = (check, what, c, exp, got) => { if (key(exp) !== key(got)) check.violation(`${what}: ${key(c)}: expected ${key(exp)}, got ${key(got)}`, { kind: 'case', case: c, expected: exp, got }); };


// C44: relays (spec/Relay.tla), with a stand-in for the browser's sockets and the swarm
// how many relays the client knows
async function relays(check) {
    let n = 0;
    class Socket { constructor() { n++; throw new Error('no such relay'); } }
    const I = await instance({ window: {}, WebSocket: Socket, newSwarm: () => ({}) });
    try { new I.Holepunch({ addConnection() { } }); } catch { }
    if (!n) check.violation('a browser client starts and never tries a relay', { kind: 'case' });
    return n;
}
async function relay(check, relays, bad, topics, depth, list = false) {
    const all = await cases(check, 'Relay.tla', ['Served', 'Once', 'Emit'], { Relays: relays, Bad: `{${bad}}`, Topics: `{${topics.map((t) => `"${t}"`)}}`, Depth: depth });
    let made, socks, conns;
    class Socket { constructor(url) { made.tries.push(url); if (bad.includes(made.tries.length)) throw new Error('no such relay'); this.url = url; socks.push(this); } addEventListener(k, f) { (this['on' + k] ??= f); } send() { } close() { } }
    const newSwarm = (o) => {
        const s = { ws: o?.dht?.stream?.ws, log: [], h: [], removeAllListeners(k) { if (!k || [].concat(k).includes('connection')) s.h = []; return s; }, on(k, f) { if (k === 'connection') s.h.push(f); return s; }, join(t) { s.log.push({ k: 'join', t: t.toString() }); return { flushed: async () => { } }; }, leave(t) { s.log.push({ k: 'leave', t: t.toString() }); return Promise.resolve(); } };
        made.swarms.push(s);
        return s;
    };
    const I = await instance({ window: {}, WebSocket: Socket, newSwarm });
    for (const c of all) {
        made = { tries: [], swarms: [] }; socks = []; conns = [];
        const got = { sw: [], tried: 0 };
        let trouble = null;
        try {
            let urls = null, punch = null, calls = 0, topicsNow = [], now = null;
            const man = { addConnection(t) { conns.push(t); } };
            if (list) punch = new I.Holepunch(man);
            else I.HolepunchRelay.init((urls = Array.from({ length: relays }, (_, i) => 'wss://relay' + i)), () => {
                // what Holepunch does with it
                calls++;
                const s = I.HolepunchRelay.getInstance().getSwarm();
                s.on('connection', () => conns.push(0));
                for (const t of topicsNow) s.join(t);
                now = s;
            });
            for (const o of c.h) {
                const sock = socks[o.i - 1], s = made.swarms[o.i - 1];
                if (o.k === 'join') { if (punch) await punch.join(Buffer.from(o.t)); else { topicsNow.push(o.t); now.join(o.t); } }
                else if (o.k === 'leave') { if (punch) await punch.dispose(); else { for (const t of topicsNow) now.leave(t); topicsNow = []; } }
                else if (o.k === 'peer') { const n = conns.length; for (const f of s.h.slice()) f({ on() { }, write() { }, end() { }, destroy() { } }, { ban() { } }); s.n = (s.n ?? 0) + conns.length - n; }
                else if (o.k === 'open') sock.onopen?.({});
                else if (o.k === 'close') sock.onclose?.({});
                else sock.onerror?.(new Error('relay'));
                await null;
            }
            if (urls && calls !== made.swarms.length) trouble = `${made.swarms.length} swarms, announced ${calls} times`;
        } catch (e) { trouble = String(e?.stack ?? e).slice(0, 300); }
        got.tried = made.tries.length;
        // each swarm belongs to the relay of its socket
        got.sw = made.swarms.map((s) => ({ r: made.tries.indexOf(s.ws?.url) + 1, log: s.log, conns: s.n ?? 0 }));
        if (new Set(made.tries).size !== made.tries.length) trouble ??= 'a relay that ended is tried again';
        if (trouble) check.violation(`relays: after ${key(c.h)}: ${trouble}`, { kind: 'case', case: c });
        else same(check, 'relays', { relays, bad, h: c.h }, { sw: c.sw, tried: c.tried }, got);
        if (check.violations.length > 3) return;
    }
}
async function lock(check) {
    const { Utils } = await instance();
    for (const c of await cases(check, 'Helpers.tla', ['Emit', 'NoneLost', 'Fair', 'AllRun'], { What: '"lock"', Depth: THOROUGH ? 9 : 7 })) {
        for (const hurry of [false, true]) {
            const m = new Utils.Mutex(), got = [];
            for (const [i, o] of c.h.entries()) {
                if (o.k === 'lock') m.lock().then(() => got.push(o.p));
                else m.unlock();
                if (!hurry || c.h[i + 1]?.k === 'unlock') for (let j = 0; j < 2; j++) await null, await null;
            }
            await idle();
            same(check, 'lock', c.h, c.r, got);
        }
    }
    // the same as tasks that hold it for a while
    for (let n = 0; n < 200; n++) {
        const m = new Utils.Mutex(), order = [];
        let inside = 0, most = 0;
        const hold = async (i) => { const a = m.lock(); order.push(i); await a; most = Math.max(most, ++inside); for (let j = (n * (i + 3)) % 4; j > 0; j--) await (j & 1 ? null : idle()); inside--; order.push('-' + i); m.unlock(); };
        await Promise.all([0, 1, 2, 3, 4].map(async (i) => { for (let j = (n >> i) & 3; j > 0; j--) await idle(); await hold(i); await hold(i + 5); }));
        if (most !== 1 || order.length !== 20) check.violation(`lock: ${most} at once`, { kind: 'case', case: n, order });
    }
}
async function retry(check) {
    const t = time(), { Utils } = await instance(t);
    for (const { c, r } of await cases(check, 'Helpers.tla', ['Emit'], { What: '"retry"', Depth: 0 })) {
        const at = [], told = [], t0 = t.now;
        let n = 0;
        const fn = () => { at.push(t.now - t0); if (++n === c.ok) return Promise.resolve(n); if (c.sync) throw n; return Promise.reject(n); };
        let res = null;
        const conf = { maxRetries: c.max, onRetry: (a, e) => told.push(a === e ? a : '?') };
        if (c.delay || c.sync) conf.delayMs = c.delay;
        if (c.exp) { conf.useExponentialBackoff = true; if (c.factor !== 2 || c.sync) conf.backoffFactor = c.factor; }
        Utils.retry(fn, conf).then((v) => (res = { ok: true, with: v }), (e) => (res = { ok: false, with: e }));
        await t.run(t.now + 10000);
        same(check, 'retry', c, r, { at, told, ...res });
    }
}
async function tasks(check) {
    for (const { h, r } of await cases(check, 'Helpers.tla', ['Emit', 'AllRun'], { What: '"tasks"', Depth: THOROUGH ? 6 : 5 })) {
        const t = time(), { Utils } = await instance(t), ran = [];
        let n = 0;
        for (const o of h) {
            if (o.k === 'task') { const i = ++n; Utils.scheduleTask(() => { ran.push(i); if (o.how === 'throws') throw new Error('x'); return o.how === 'rejects' ? Promise.reject(new Error('x')) : Promise.resolve(); }, o.d * 1000, 'task'); await t.run(t.now); }
            else await t.run(t.now + o.d * 1000);
        }
        same(check, 'tasks', h, r, ran);
    }
}
async function clock(check) {
    let ms = 0;
    class VDate extends Date { constructor(...a) { if (a.length) super(...a); else super(ms); } static now() { return ms; } }
    const { Clock } = await instance({ Date: VDate });
    const set = (...x) => '{' + x.join(', ') + '}';
    const all = await cases(check, 'ClockSync.tla', ['Right', 'Ends', 'Emit'], {
        Zero: 200000, Offsets: set(...[-100000, -4000, -601, -600, -25, -24, -3, -2, -1, 0, 1, 2, 3, 24, 25, 600, 601, 4000, 100000].map((x) => x + 200000)), Numbers: set(0, 1, 99, 100, 101, 5000), Spans: set(0, 50, 100, 1200, 30000),
        Jumps: THOROUGH ? set(0, 1, 2, 12, 24, 25, 700, 3000) : set(0, 2, 25, 3000), Steps: THOROUGH ? set(0, 1, 2, 13, 30) : set(0, 1, 13)
    });
    const B = 1000000;
    for (const { env, adj } of all) {
        let k = -1;
        const moved = () => Math.min(Math.max(k, 0), env.moves);
        const go = () => { ms = (B + env.step * moved()) * 1000 + 700; };
        go();
        const provider = {
            getBlock: async (x) => {
                if (x === 'latest') { k++; await null; const b = { number: env.num, timestamp: B + env.off + env.jump * moved() }; go(); return b; }
                return { number: x, timestamp: B + env.off + env.jump * moved() - (x === env.num ? 0 : env.span) };
            }
        };
        // the local clock moves between the rounds, not within one
        const latest = provider.getBlock;
        provider.getBlock = async (x) => { const b = await latest(x); if (x !== 'latest') { k++; go(); k--; } return b; };
        let threw = false;
        await Clock.init(provider).catch(() => (threw = true));
        ms = B * 1000 + 999;
        const got = threw ? 'threw' : Clock.getTimeInSeconds() - B;
        ms += 5001;
        if (!threw && Clock.getTimeInSeconds() - B !== got + 6) check.violation('the clock does not go on', { kind: 'case', case: env });
        same(check, 'clock', env, adj, got);
    }
    // no block, no clock
    for (const bad of [(x) => null, (x) => (x === 'latest' ? { number: 200, timestamp: 5 } : null)]) {
        let threw = false;
        await Clock.init({ getBlock: async (x) => bad(x) }).catch(() => (threw = true));
        if (!threw) check.violation('the clock started without the chain', { kind: 'case', case: String(bad) });
    }
}
const id = process.argv[2];
await inChild(id);
const check = new Check(id);
try {
    if (id === 'C38') { await lock(check); await retry(check); await tasks(check); }
    else if (id === 'C39') await clock(check);
    else if (id === 'C44') {
        const T = ['t1', 't2'];
        const n = await relays(check);
        if (n) for (const bad of [[], [1], [2]].filter((b) => b.every((x) => x < n || n > 1))) await relay(check, n, bad, T, THOROUGH ? 6 : 5, true);
        for (const bad of [[], [2], [1, 2], [2, 3]]) await relay(check, 4, bad, ['t1'], THOROUGH ? 6 : 4);
    }
    else broken('no such check: ' + id);
    check.finish();
} catch (e) {
    // the tools end the check themselves
    check.violation('the code under test fails: ' + (e?.stack ?? e), { kind: 'process' });
    check.finish();
}
