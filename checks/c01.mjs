// node checks/c01.mjs: threshold signatures
import fs from 'node:fs';
import path from 'node:path';
import { Check, THOROUGH, broken } from '../lib/check.mjs';
import { agreementModels } from '../lib/agreement.mjs';
import { artifacts, explore, histories, pool } from '../lib/onchain.mjs';
import { tlc, scratch } from '../lib/tlc.mjs';
import { key } from '../lib/man.mjs';
try {
    const check = new Check('C01');
    const arts = await artifacts();
    const { dir, file, r } = await explore(check, { module: 'Threshold.tla', inv: ['Emit', 'Enough'], consts: { Signers: '{"A", "B", "C"}', Others: '{"X", "bad", "mal"}', MaxReq: 3, MaxSig: THOROUGH ? 4 : 3 } });
    const res = await pool({ kind: 'threshold', file, random: THOROUGH ? 1500 : 120 }, arts, check.t0 + check.budget * 0.6, 'lib/util-worker.mjs');
    fs.rmSync(dir, { recursive: true, force: true });
    for (const v of res.flatMap((x) => x.viol).slice(0, 3)) check.violation(v.what, { kind: 'threshold', ...v });
    check.add('transitions', r.generated);
    check.add('traces_validated_against_impl', res.reduce((s, x) => s + x.evals, 0));
    const trace = res.flatMap((x) => x.trace), d2 = scratch('thr'), f2 = path.join(d2, 't.ndjson');
    const run = async (t) => {
        fs.writeFileSync(f2, t.map((x) => JSON.stringify(x)).join('\n') + '\n');
        const mism = []; let end = 0;
        const q = await tlc('ThresholdTrace.tla', { env: { TRACE: f2 }, onPrint: (tag, b) => { if (tag === 'MISMATCH') mism.push(JSON.parse(b)); else if (tag === 'END') end = Number(b); } });
        if (!q.ok || end !== t.length) broken('TLC could not check the recorded calls: ' + q.text.slice(-2000));
        return mism;
    };
    const mism = await run(trace);
    for (const m of mism.slice(0, 3)) check.violation(`${key(trace[m.l - 1])}: expected ${key(m.exp)}`, { kind: 'threshold-call', ...trace[m.l - 1] });
    if (!mism.length) { const bad = trace.slice(0, 30).map((x) => ({ ...x, rev: false, ok: x.rev ? true : !x.ok })); if ((await run(bad)).length !== bad.length) broken('changed results were not rejected'); }
    check.sample(trace.slice(0, 3));
    fs.rmSync(d2, { recursive: true, force: true });
    await histories(check, { count: THOROUGH ? 400 : 40, len: 40, salt: 1, profile: { join: 12, leave: 8, create: 12, chal: 12, timeout: 0.7, rech: 4, pjoin: 4, mut: 0.6, sigs: 1 } }, arts);
    // what a client counts as everybody's agreement
    await agreementModels(check, [['sigs', 4, 6], ['quorum', 5, 7]].flatMap(([focus, q, t]) => [{ focus, depth: THOROUGH ? t : q, max: THOROUGH ? 8000 : 800 }, { focus, depth: 14, walks: THOROUGH ? 120 : 15, max: THOROUGH ? 4000 : 400 }]), arts, check.t0 + check.budget);
    check.finish();
} catch (e) { broken(e); }
