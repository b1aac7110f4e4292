// Client A taken to court in every way within bounds: the behaviours of spec/Court.tla are replayed with a
// real client (lib/channel-worker.mjs), and what it did is checked against spec/PeerTrace.tla.
import fs from 'node:fs';
import path from 'node:path';
import { cfgText, pool, TIMES } from './onchain.mjs';
import { SEED, broken } from './check.mjs';
import { tlc, scratch } from './tlc.mjs';
import { judge } from './offchain.mjs';
import { Rng } from './rng.mjs';

export async function courtModels(check, { len1, len2, max }, arts, until) {
    arts = await arts;
    const dir = scratch('mc'), cfg = path.join(dir, 'mc.cfg'), all = [];
    fs.writeFileSync(cfg, cfgText({ inv: ['NeverBlamed', 'NoFalseTimeout', 'Newest', 'Emit'], consts: { ...TIMES, Ch: '"c1"', Len1: len1, Len2: len2 } }));
    const r = await tlc('Court.tla', { cfg, workers: 4, onPrint: (tag, body) => { if (tag === 'PATH') all.push(body); } });
    fs.rmSync(dir, { recursive: true, force: true });
    if (!r.ok || !all.length) broken('TLC rejects Court.tla:\n' + r.text.slice(-3000));
    check.add('states', r.states);
    check.add('transitions', r.generated);
    const uniq = [...new Set(all)].sort();
    const rnd = new Rng(SEED);
    const paths = rnd.shuffle(uniq).slice(0, max).map((s) => JSON.parse(s));
    const res = await pool({ clients: ['A'], liars: ['B', 'C'], paths }, arts, until, 'lib/channel-worker.mjs');
    await judge(check, res);
    check.cov.taken_to_court = { blocks: len1, cases: uniq.length, replayed: res.reduce((s, x) => s + x.segs.length, 0) };
}
