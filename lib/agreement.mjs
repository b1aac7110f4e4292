// The data a client keeps, operation by operation: spec/Agreement.tla against the real AgreementManager.
import fs from 'node:fs';
import path from 'node:path';
import { cfgText, pool, TIMES } from './onchain.mjs';
import { SEED, broken } from './check.mjs';
import { tlc, scratch } from './tlc.mjs';

async function cases(check, { focus, depth, max, walks = 0 }) {
    const dir = scratch('mc'), cfg = path.join(dir, 'mc.cfg');
    let out = [];
    fs.writeFileSync(cfg, cfgText({ inv: ['Linked', 'OneEach', 'Emit'], view: walks ? undefined : 'View', consts: { ...TIMES, Ch: '"c1"', Focus: `"${focus}"`, Depth: depth } }) + 'PROPERTY Grows\n');
    const r = await tlc('Agreement.tla', { cfg, workers: walks ? 1 : 4, args: walks ? ['-simulate', 'num=' + walks, '-seed', String(SEED), '-depth', String(depth + 1)] : [], onPrint: (tag, body) => { if (tag === 'CASE') out.push(body); } });
    fs.rmSync(dir, { recursive: true, force: true });
    if (!r.ok || !out.length) broken('TLC rejects Agreement.tla:\n' + r.text.slice(-3000));
    check.add('states', r.states || out.length);
    check.add('transitions', r.generated || out.length);
    const all = out.length;
    if (all > max) { let x = SEED >>> 0; const keep = []; const p = max / all; for (const c of out) { x = (Math.imul(x, 1664525) + 1013904223) >>> 0; if (x / 2 ** 32 < p) keep.push(c); } out = keep; }
    return { out, all };
}
export async function agreementModels(check, models, arts, until) {
    for (const m of models) {
        const { out, all } = await cases(check, m);
        const rs = await pool({ cases: out }, await arts, until, 'lib/agreement-worker.mjs');
        const runs = rs.reduce((s, r) => s + r.runs, 0);
        check.add('traces_validated_against_impl', runs);
        (check.cov.agreement_models ??= []).push({ focus: m.focus, depth: m.depth, walks: m.walks ?? 0, cases: all, performed: runs });
        for (const r of rs) for (const b of r.bad) check.violation(`agreement (${m.focus}): ${b.what}`, { kind: 'agreement', ops: b.h });
    }
}
