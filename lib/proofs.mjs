// Which evidence a client submits against which dispute: spec/Proofs.tla against the real ProofManager.
import fs from 'node:fs';
import path from 'node:path';
import { cfgText, pool, TIMES } from './onchain.mjs';
import { THOROUGH, broken } from './check.mjs';
import { tlc, scratch } from './tlc.mjs';

export async function proofModels(check, arts, until) {
    const dir = scratch('mc'), cfg = path.join(dir, 'mc.cfg');
    const cases = [];
    let all = null;
    fs.writeFileSync(cfg, cfgText({ inv: ['Useful', 'Emit'], consts: { ...TIMES, Ch: '"c1"', HS: THOROUGH ? '{0, 1, 2, 3}' : '{0, 1, 2}' } }));
    const r = await tlc('Proofs.tla', { cfg, onPrint: (tag, body) => { if (tag === 'CASE') cases.push(JSON.parse(body)); else if (tag === 'ALL') all = JSON.parse(body); } });
    fs.rmSync(dir, { recursive: true, force: true });
    if (!r.ok || !cases.length || !all) broken('TLC rejects Proofs.tla:\n' + r.text.slice(-3000));
    check.add('states', r.states);
    check.add('transitions', r.generated);
    const rs = await pool({ cases, all }, await arts, until, 'lib/proofs-worker.mjs');
    check.cov.evidence_against_disputes = { disputes: cases.length, evidence: all.length, asked: rs.reduce((s, x) => s + x.runs, 0) };
    check.add('traces_validated_against_impl', rs.reduce((s, x) => s + x.runs, 0));
    for (const x of rs) for (const b of x.bad) check.violation(b, { kind: 'evidence', what: b });
}
