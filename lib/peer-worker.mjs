import { Net } from './peer.mjs';
import { PGen } from './pgen.mjs';
import { Rng } from './rng.mjs';
const { k, n, seed, arts, job, deadline } = await new Promise((r) => process.once('message', r));
const reply = (m) => process.send(m, () => process.exit(0));
let net = await Net.create({ arts, seed });
const stats = {};
const count = (x) => (stats[x] = (stats[x] ?? 0) + 1);
const segs = [], fatal = [];
for (let h = k; h < job.histories; h += n) {
    if (Date.now() > deadline || fatal.length > 2) break;
    const r = new Rng(seed * 100003 + h + (job.salt ?? 0) * 7777777);
    const g = new PGen(r, net, Array.isArray(job.profile) ? job.profile[h % job.profile.length] : job.profile ?? {});
    const b = g.begin();
    g.open = b.open;
    const seg = [{ p: '*', i: { k: 'start', now: b.now, peers: b.peers, moody: g.moody } }];
    const did = [seg[0]];
    try {
        await net.start(b.now, b.peers, g.moody);
        const early = r.p(g.f.early ?? 0.12) ? 1 + r.int(3) : 0; // before the channel is open
        for (let i = 0; i < job.len; i++) {
            const [p, inp] = i === early ? ['-', { k: 'chain', o: b.open }] : g.next();
            if (i < early && p === '-' && inp.k === 'chain' && inp.o.op !== 'tick') continue;
            did.push({ p, i: inp });
            const line = await net.step(p, inp);
            g.saw(line);
            seg.push(line);
            count(line.i.k === 'chain' ? 'chain ' + line.i.o.op + (line.ok ? '' : ' refused') : line.i.k);
            if (line.hooks.includes('onInitiatingDispute')) count('disputes or challenges by clients');
            if (JSON.stringify(line.obs).includes('"unhandled"')) break;
        }
    } catch (e) {
        // the client can't be driven or shown any more
        fatal.push({ what: 'a client failed: ' + String(e?.stack ?? e).slice(0, 400), inputs: did });
        net = await Net.create({ arts, seed });
        continue;
    }
    segs.push(seg);
}
reply({ segs, stats, fatal });
