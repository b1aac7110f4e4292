// Runs sequences of what a user does with a client, and of what the chain says, on a real client.
import { Net, Peer } from './peer.mjs';
import { key } from './man.mjs';
import { exec } from './pgen.mjs';
const { k, n, seed, arts, job, deadline } = await new Promise((r) => process.once('message', r));
const net = await Net.create({ arts, seed });
net.connect = false;
const w = net.world;
const NAMES = ['onConnection', 'onTurn', 'onSetState', 'onPostingCalldata', 'onPostedCalldata', 'onInitiatingDispute', 'onDisputeUpdate'];
// what the chain says of both channels
await net.start(20, {});
const said = {};
for (const ch of ['c1', 'c2']) {
    const from = net.logs.length, G = { k: 'ok', n: ch === 'c1' ? 0 : 1, ps: ch === 'c1' ? ['B', 'A', 'C'] : ['A', 'B', 'C'], am: [10, 20, 30], m: [] };
    const b = (h, ts) => ({ ch, fork: 0, h, au: 'B', ts, op: 'add1', sh: G, psh: G });
    for (const o of [{ op: 'open', ch, st: G }, { op: 'post', who: 'B', b: b(1, 20), s: 'B' }, { op: 'create', who: 'C', ch, fork: 0, fin: G, lat: G, votes: [], to: '0', fh: 0, proofs: [{ t: 'fut', b: b(2, 99), s: 'B' }] }]) {
        const r = await net.chainOp(o);
        if (!r.ok) throw new Error(`the chain refuses ${key(o)}: ${r.reason}`);
    }
    const l = net.logs.slice(from);
    said[ch] = { set: l.filter((x) => x.name === 'SetState'), posted: l.find((x) => x.name === 'BlockCalldataPosted'), dispute: l.find((x) => x.name === 'DisputeUpdated'), double: ['add1', 'add2'].map((op) => { const x = { ...b(0, 20), op }; return { ...x, sh: exec(G, x) }; }) };
}
// nothing that a client wants of it happens
net.transact = async () => ({ ok: false, reason: 'refused', events: [] });
const form = (id, f) => (f === 'bytes' ? Uint8Array.from(Buffer.from(id.slice(2), 'hex')) : f === 'upper' ? '0x' + id.slice(2).toUpperCase() : id);
// where others are that were told of a channel by its plain identifier
const place = {};
for (const ch of ['c1', 'c2']) { const p = await Peer.create(net, 'B', 0); await p.p2p.p2pSigner.connectToChannel(w.chid[ch]); await p.rest(); place[p.topics.at(-1)] = ch; }
const bad = [];
let runs = 0;
for (let c = k; c < job.cases.length; c += n) {
    if (Date.now() > deadline || bad.length > 2) break;
    const { h, r } = job.cases[c];
    for (const hurry of [false, true]) {
        let got = null, at = 0, from = 0;
        try {
            const p = await Peer.create(net, 'A', 0);
            let told = [];
            const hooks = (i) => Object.fromEntries(NAMES.filter((x) => i !== 2 || x === 'onSetState' || x === 'onPostedCalldata').map((x) => [x, (...a) => told.push([i, x, a])]));
            p.p2p.setHooks(hooks(0));
            await p.rest();
            for (; at < h.length; at++) {
                const o = h[at], event = ['set', 'posted', 'dispute', 'double'].includes(o.k);
                if (hurry && event) await p.rest();
                told = [];
                if (o.k === 'connect') { const d = p.p2p.p2pSigner.connectToChannel(form(w.chid[o.ch], o.form)); if (!hurry) await d; else d.catch((e) => p.unhandled.push(String(e))); }
                else if (o.k === 'hooks') p.p2p.setHooks(hooks(o.hk));
                else if (o.k === 'dispose') { const d = p.p2p.dispose(); if (!hurry) await d; else d.catch((e) => p.unhandled.push(String(e))); }
                else if (o.k === 'double') for (const b of said[o.ch].double) { net.give(p, { k: 'blk', b, s: 'B' }); await p.rest(); }
                else net.deliver(p, o.k === 'set' ? said[o.ch].set[o.f] : said[o.ch][o.k]);
                if (!hurry || event || at === h.length - 1) await p.rest();
                else continue;
                const am = p.sm.agreementManager, out = [];
                told = told.filter((t, i) => t[1] !== 'onInitiatingDispute' || told.findIndex((q) => q[0] === t[0] && q[1] === t[1]) === i);
                const nx = told.some((t) => t[1] === 'onTurn') ? await p.sm.stateMachine.getNextToWrite() : null;
                for (const [i, x, a] of told) out.push([i, x === 'onTurn' && a[0] !== nx ? '?onTurn' : x === 'onDisputeUpdate' && w.decDispute(a[0]).cc !== w.decDispute(said[o.ch].dispute.args.dispute).cc ? '?onDisputeUpdate' : x]);
                let f = 0;
                while (am.getForkGenesisStateEncoded(f) !== undefined) f++;
                p.sent = [[], []];
                p.man.broadcastRpc('probe'); // to nobody, once it is over
                const gone = p.sent.every((x) => !x.length);
                got = { met: p.topics.map((t) => place[t] ?? '?'), told: out, n: f, gone: gone === !!p.deaf ? gone : '?half', ...(p.unhandled.length ? { unhandled: p.unhandled } : {}) };
                p.topics = [];
                // a refused transaction and others' messages aside
                const want = { met: r.slice(from, at + 1).flatMap((x) => x.met), told: r[at].told, n: r[at].n, gone: r[at].gone };
                const so = (x) => ({ ...x, told: x.told.map(key).sort() });
                from = at + 1;
                if (key(so(got)) !== key(so(want))) { bad.push({ what: `after ${key(h.slice(0, at + 1))}${hurry ? ' in a hurry' : ''}: expected ${key(want)}, got ${key(got)}`, h: h.slice(0, at + 1), hurry }); break; }
            }
        } catch (e) { bad.push({ what: `${key(h.slice(0, at + 1))}: the client failed: ${String(e?.stack ?? e).slice(0, 400)}`, h, hurry }); }
        runs++;
    }
}
process.send({ bad, runs }, () => process.exit(0));
