// node checks/machine.mjs C42 - the state machine that a client hosts
import fs from 'node:fs';
import path from 'node:path';
import { Check, THOROUGH, SEED, broken } from '../lib/check.mjs';
import { cfgText, pool, artifacts, TIMES } from '../lib/onchain.mjs';
import { tlc, scratch } from '../lib/tlc.mjs';

async function cases(check, depth, sim) {
    const dir = scratch('mc'), cfg = path.join(dir, 'mc.cfg'), out = [];
    fs.writeFileSync(cfg, cfgText({ inv: ['Whole', 'Emit'], consts: { ...TIMES, Depth: depth } }) + 'PROPERTY Still\n');
    const r = await tlc('Machine.tla', { cfg, args: sim ? ['-simulate', 'num=' + sim, '-seed', String(SEED), '-depth', String(depth + 1)] : [], onPrint: (tag, body) => { if (tag === 'CASE') out.push(JSON.parse(body)); } });
    fs.rmSync(dir, { recursive: true, force: true });
    if (!r.ok || !out.length) broken('TLC rejects Machine.tla:\n' + r.text.slice(-3000));
    // a simulation prints all last steps of a walk
    if (sim) { const last = new Map(); for (const c of out) { const p = JSON.stringify(c.h.slice(0, -1)); last.set(p, [...last.get(p) ?? [], c]); } out.splice(0, out.length, ...[...last.values()].map((g, i) => g[(i * 7919 + SEED) % g.length])); }
    check.add('states', r.states || out.length * depth);
    check.add('transitions', r.generated || out.length * depth);
    check.sample(out[out.length >> 1]);
    return out;
}
try {
    const check = new Check('C42');
    const arts = await artifacts();
    const start = { k: 'ok', n: 0, ps: ['A', 'B'], am: [3, 4], m: [] };
    for (const [depth, sim, times] of THOROUGH ? [[2, 0, 8], [3, 0, 2], [12, 4000, 3]] : [[2, 0, 3], [12, 240, 3]]) {
        const all = await cases(check, depth, sim);
        const rs = await pool({ cases: all, times, start }, arts, check.t0 + check.budget, 'lib/machine-worker.mjs');
        for (const r of rs) {
            check.add('traces_validated_against_impl', r.runs);
            check.add('calls', r.calls);
            for (const b of r.bad) check.violation(b.what, { kind: 'calls', case: b.c, how: b.how });
        }
    }
    check.finish();
} catch (e) { broken(e); }
