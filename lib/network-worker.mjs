import { Client } from './network.mjs';
import { NGen } from './ngen.mjs';
import { Rng } from './rng.mjs';
const { k, n, seed, job, deadline } = await new Promise((r) => process.once('message', r));
const reply = (m) => process.send(m, () => process.exit(0));
await Client.learnTopics(['c1', 'c2', 'c3']);
const segs = [], fatal = [], stats = {};
async function run(b, next, len) {
    const seg = [{ i: { k: 'start', ...b } }], did = [seg[0].i];
    try {
        const c = await Client.create(b);
        for (let j = 0; j < len; j++) {
            const i = next(j);
            did.push(i);
            const line = await c.step(i);
            next.saw?.(line);
            seg.push(line);
            stats[i.k] = (stats[i.k] ?? 0) + 1;
        }
        segs.push(seg);
    } catch (e) { fatal.push({ what: String(e?.stack ?? e).slice(0, 400), inputs: did }); }
}
if (job.paths) for (let i = k; i < job.paths.length; i += n) {
    if (Date.now() > deadline || fatal.length > 2) break;
    await run(job.start, (j) => job.paths[i][j], job.paths[i].length);
}
else for (let h = k; h < job.histories; h += n) {
    if (Date.now() > deadline || fatal.length > 2) break;
    const g = new NGen(new Rng(seed * 100003 + h + (job.salt ?? 0) * 7777777), job.profile ?? {});
    const next = () => g.next();
    next.saw = (l) => g.saw(l);
    await run(g.begin(), next, job.len);
}
reply({ segs, fatal, stats });
