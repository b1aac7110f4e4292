// Runs sequences of calls on the state machine that a client hosts, one after the other or overlapping.
import { instance, ethers } from './ts.mjs';
import { Net } from './peer.mjs';
import { link } from './sol.mjs';
import { key } from './man.mjs';
import { Rng } from './rng.mjs';
const { k, n, seed, arts, job, deadline } = await new Promise((r) => process.once('message', r));
const net = await Net.create({ arts, seed });
const w = net.world, I = await instance({}), iface = new ethers.Interface(arts.vsm.abi);
const sm = await I.EvmStateMachine.createStandalone({ data: link(arts.vsm, { StateChannelUtilLibrary: w.lib.address }) }, iface);
// what the user has: a contract that is connected to the client
const signer = new I.P2pSigner({ provider: { on: async () => {}, off: async () => {} } }, w.addr.A, { stateManager: { stateMachine: sm } });
const user = new ethers.Contract(w.sm.address, arts.vsm.abi, signer);
let told = [];
await user.on('Addition', (who, num) => told.push({ e: 'Addition', who: w.name[who] ?? who, n: Number(num) }));
await user.on('Note', (m) => told.push({ e: 'Note', m: w.memoRec.get(m) ?? m }));
await user.on('Round', (num, ps) => told.push({ e: 'Round', n: Number(num), ps: [...ps].map((a) => w.name[a] ?? a) }));
sm.setP2pContractInstance(user);

const idle = () => new Promise((r) => setImmediate(r));
const tx = (b) => { const [h, y] = w.transaction(b); return { header: { channelId: h[0], participant: h[1], forkCnt: h[2], transactionCnt: h[3], timestamp: h[4] }, body: { transactionType: y[0], encodedData: y[1], data: y[2] } }; };
const st = (bytes) => { const { k, n, ps, am, m } = w.decState(bytes); return { am, k, m, n, ps }; };
const ok = async (p) => { try { await p; return { ok: true }; } catch { return { ok: false }; } };
const WHY = ['not your turn', 'boom'];
const why = async (p) => { try { await p; return { ok: true, why: '' }; } catch (e) { return { ok: false, why: WHY.find((x) => String(e?.message ?? e).includes(x)) ?? '' }; } };
const data = (f, a = []) => ({ data: iface.encodeFunctionData(f, a) });
const CALL = {
    tx: async (o) => { const r = await sm.stateTransition(tx(o.b)); return { ok: r.success, cb: r.successCallback }; },
    set: (o) => ok(sm.setState(w.encState(o.st))),
    state: async () => ({ st: st(await sm.getState()) }),
    parts: async () => ({ ps: (await sm.getParticipants()).map((a) => w.name[a] ?? a) }),
    next: async () => ({ who: w.name[await sm.getNextToWrite()] ?? '?' }),
    number: async (o, v) => ({ n: Number(v ? await user.number() : ethers.toBigInt(await sm.runView(data('number')))) }),
    nosuch: () => ok(sm.runView({ data: '0x11223344' })),
    dry: (o, v) => why(v ? user.stateTransition.staticCall(tx(o.b)) : sm.runView(data('stateTransition', [tx(o.b)]))),
    dryset: (o) => ok(sm.runView(data('setState', [w.encState(o.st)])))
};
const GAPS = [0, 0, 1, 2, 5, 30, 200, 800, 2000, 4000, 7000];
const bad = [];
let runs = 0, calls = 0;
async function run(c, how, rng) {
    const before = async () => { await sm.setState(w.encState(job.start)); told = []; };
    await before();
    for (const o of c.h) if (o.k === 'tx') w.memo([o.b]);
    const got = [], agreed = rng.int(3) > 0, v = how === 'one' && rng.int(2) === 1;
    const one = async (o) => { try { return await CALL[o.k](o, v); } catch (e) { return { threw: String(e?.message ?? e).slice(0, 200) }; } };
    if (how === 'one') for (const o of c.h) got.push(await one(o));
    else {
        const ps = [];
        for (const o of c.h) { ps.push(one(o)); for (let g = GAPS[rng.int(GAPS.length)]; g > 0; g--) await null; }
        got.push(...await Promise.all(ps));
    }
    const res = [];
    for (const [i, x] of got.entries()) {
        if (c.h[i].k !== 'tx') { res.push(x); continue; }
        await idle();
        if (told.length) bad.push({ what: `events before anything was agreed: ${key(told)}`, c, how });
        told = [];
        if (agreed && x.cb) { x.cb(); for (let j = 0; j < 3; j++) await idle(); }
        res.push(x.threw ? x : { ok: x.ok, told });
        told = [];
    }
    const exp = c.r.map((x, i) => (c.h[i].k === 'tx' && !agreed ? { ...x, told: [] } : x));
    const end = st(await sm.getState());
    runs++; calls += c.h.length;
    const i = exp.findIndex((x, i) => key(x) !== key(res[i]));
    if (i >= 0) bad.push({ what: `${how}: ${key(c.h[i])} after ${key(c.h.slice(0, i))}: expected ${key(exp[i])}, got ${key(res[i])}`, c, how });
    else if (key(end) !== key(c.m)) bad.push({ what: `${how}: after ${key(c.h)} the state is ${key(end)} instead of ${key(c.m)}`, c, how });
}
for (let i = k; i < job.cases.length; i += n) {
    if (Date.now() > deadline || bad.length > 2) break;
    const rng = new Rng(seed * 7919 + i);
    try {
        await run(job.cases[i], 'one', rng);
        for (let j = 0; j < job.times; j++) await run(job.cases[i], 'overlapping', rng);
    } catch (e) { bad.push({ what: `after ${key(job.cases[i].h)} or what was before: ${String(e?.message ?? e).slice(0, 300)}`, c: job.cases[i] }); break; }
}
process.send({ runs, calls, bad: bad.slice(0, 3) }, () => process.exit(0));
