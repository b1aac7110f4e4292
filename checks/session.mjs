// node checks/session.mjs C45 - what a client does for its user
import fs from 'node:fs';
import path from 'node:path';
import { Check, THOROUGH, SEED, broken } from '../lib/check.mjs';
import { cfgText, pool, artifacts } from '../lib/onchain.mjs';
import { tlc, scratch } from '../lib/tlc.mjs';
import { Rng } from '../lib/rng.mjs';

async function cases(check, depth, sim) {
    const dir = scratch('mc'), cfg = path.join(dir, 'mc.cfg');
    let out = [];
    fs.writeFileSync(cfg, cfgText({ inv: ['Over', 'Own', 'Latest', 'Emit'], consts: { Depth: depth } }));
    const r = await tlc('Session.tla', { cfg, args: sim ? ['-simulate', 'num=' + sim, '-seed', String(SEED), '-depth', String(depth + 1)] : [], onPrint: (tag, body) => { if (tag === 'CASE') out.push(JSON.parse(body)); } });
    fs.rmSync(dir, { recursive: true, force: true });
    if (!r.ok || !out.length) broken('TLC rejects Session.tla:\n' + r.text.slice(-3000));
    // a simulation prints all last steps of a walk
    if (sim) { const last = new Map(); for (const c of out) { const p = JSON.stringify(c.h.slice(0, -1)); last.set(p, [...last.get(p) ?? [], c]); } out = [...last.values()].map((g, i) => g[(i * 7919 + SEED) % g.length]); }
    check.add('states', r.states || out.length * depth);
    check.add('transitions', r.generated || out.length * depth);
    check.sample(out[out.length >> 1]);
    return out;
}
try {
    const check = new Check('C45');
    const arts = await artifacts();
    for (const [depth, sim, max] of THOROUGH ? [[4, 0, 30000], [5, 0, 60000], [10, 4000, 4000]] : [[4, 0, 6000], [9, 800, 800]]) {
        const all = new Rng(SEED).shuffle(await cases(check, depth, sim)).slice(0, max);
        const rs = await pool({ cases: all }, arts, check.t0 + check.budget, 'lib/session-worker.mjs');
        for (const r of rs) {
            check.add('traces_validated_against_impl', r.runs);
            for (const b of r.bad) check.violation(b.what, { kind: 'session', ops: b.h, hurry: b.hurry });
        }
    }
    check.finish();
} catch (e) { broken(e); }
