import { Net } from './peer.mjs';
import { key } from './man.mjs';
const { k, n, seed, arts, job, deadline } = await new Promise((r) => process.once('message', r));
const reply = (m) => process.send(m, () => process.exit(0));
let net = await Net.create({ arts, seed });
const stats = {}, segs = [], fatal = [];
const count = (x) => (stats[x] = (stats[x] ?? 0) + 1);
const order = ['A', 'B', 'C'].filter((x) => job.clients.includes(x) || job.liars.includes(x));
const G0 = { k: 'ok', n: 0, ps: order, am: order.map((_, i) => 10 * (i + 1)), m: [] };
for (let h = k; h < job.paths.length; h += n) {
    if (Date.now() > deadline || fatal.length > 2) break;
    const peers = Object.fromEntries(job.clients.map((p) => [p, 0]));
    const seg = [{ p: '*', i: { k: 'start', now: 20, peers } }], did = [seg[0]];
    const cursor = Object.fromEntries(job.clients.map((p) => [p, 0])), said = new Set();
    const event = (p) => (net.logs[cursor[p]] ? net.evInput(net.logs[cursor[p]++]) : null);
    // what the path leaves open: the next event of the chain, or the one after it, is what really happened
    const real = (p, i) => {
        if (i.k === 'event') return event(p);
        if (i.k === 'second') { const l = net.logs[cursor[p] + 1]; return l ? net.evInput(l) : null; }
        if (i.k !== 'batch') return i;
        const is = i.is.map((q) => real(p, q)).filter(Boolean);
        return is.length ? { k: 'batch', is } : null;
    };
    const step = async (p, i) => {
        did.push({ p, i });
        const line = await net.step(p, i);
        for (const o of line.outs) said.add(key(o.m));
        seg.push(line);
        count(i.k === 'chain' ? 'chain ' + i.o.op : i.k);
        return !JSON.stringify(line.obs).includes('"unhandled"');
    };
    try {
        await net.start(20, peers);
        await step('-', { k: 'chain', o: { op: 'open', ch: 'c1', st: { ...G0, n: job.paths[h].n ?? 0 } } });
        for (const p of job.clients) await step(p, event(p));
        for (const { p, i } of job.paths[h].path ?? job.paths[h]) {
            const x = real(p, i);
            if (!x) continue;
            // a client says only what it really said
            const owner = i.k === 'blk' ? i.s : i.k === 'conf' ? i.cs : null;
            if (owner && job.clients.includes(owner) && !said.has(key(i))) { count('never said'); break; }
            if (!(await step(p, x))) break;
        }
    } catch (e) {
        fatal.push({ what: 'a client failed: ' + String(e?.stack ?? e).slice(0, 400), inputs: did });
        net = await Net.create({ arts, seed });
        continue;
    }
    segs.push(seg);
}
reply({ segs, stats, fatal });
