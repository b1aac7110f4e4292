// node checks/local.mjs C46 - how clients on one machine find each other
import fs from 'node:fs';
import path from 'node:path';
import { Check, THOROUGH, SEED, broken } from '../lib/check.mjs';
import { cfgText, pool } from '../lib/onchain.mjs';
import { tlc, scratch } from '../lib/tlc.mjs';
import { Rng } from '../lib/rng.mjs';

async function go(cfgo, args) {
    const dir = scratch('mc'), cfg = path.join(dir, 'mc.cfg'), out = [];
    fs.writeFileSync(cfg, cfgText(cfgo));
    const r = await tlc('Local.tla', { cfg, args, onPrint: (tag, body) => { if (tag === 'CASE') out.push(JSON.parse(body)); } });
    fs.rmSync(dir, { recursive: true, force: true });
    if (!r.ok) broken('TLC rejects Local.tla:\n' + r.text.slice(-3000));
    return { r, out };
}
try {
    const check = new Check('C46');
    // every order of everything
    const { r } = await go({ spec: 'BareSpec', inv: ['Proper', 'Found'], consts: { N: THOROUGH ? 4 : 3, Chans: THOROUGH ? '{1}' : '{1, 2}' }, view: 'View' }, []);
    check.add('states', r.states);
    check.add('transitions', r.generated);
    const all = [];
    for (const [n, num] of THOROUGH ? [[2, 1500], [3, 4000], [4, 3000]] : [[2, 150], [3, 300], [4, 150]]) {
        const { out } = await go({ spec: 'Spec', inv: ['Proper', 'Found', 'Emit'], consts: { N: n, Chans: '{1, 2}' } }, ['-simulate', 'num=' + num, '-seed', String(SEED + n), '-depth', '120']);
        const by = new Map(out.map((c) => [JSON.stringify(c), c]));
        all.push(...by.values());
    }
    if (!all.length) broken('no behaviours');
    check.sample(all[all.length >> 1]);
    const cases = new Rng(SEED).shuffle(all);
    for (const x of await pool({ cases }, null, check.t0 + check.budget, 'lib/local-worker.mjs')) {
        check.add('traces_validated_against_impl', x.runs);
        for (const b of x.bad) check.violation(b.what, { kind: 'local', ...b.t });
    }
    check.finish();
} catch (e) { broken(e); }
