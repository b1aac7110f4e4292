// node checks/c15.mjs: the linked list
import fs from 'node:fs';
import { Check, THOROUGH, broken } from '../lib/check.mjs';
import { explore, pool } from '../lib/onchain.mjs';
import { compile } from '../lib/sol.mjs';
try {
    const check = new Check('C15');
    const arts = await compile(['facet', 'lib', 'vsm', 'vproxy', 'list']);
    const ids = ['a', 'b', 'c', 'd', ...(THOROUGH ? ['e'] : [])];
    const { dir, file, r } = await explore(check, { module: 'LinkedList.tla', inv: ['Emit', 'Distinct'], consts: { Ids: `{${ids.map((x) => `"${x}"`)}}`, Depth: 12 } });
    const res = await pool({ kind: 'list', file, ids }, arts, check.t0 + check.budget * 0.9, 'lib/util-worker.mjs');
    fs.rmSync(dir, { recursive: true, force: true });
    for (const v of res.flatMap((x) => x.viol).sort((a, b) => a.path.length - b.path.length).slice(0, 3)) check.violation(v.what, { kind: 'list', ...v });
    check.add('transitions', r.generated);
    check.add('traces_validated_against_impl', res.reduce((s, x) => s + x.edges, 0));
    check.sample({ ids, states: r.states });
    check.finish({ exhaustive: true });
} catch (e) { broken(e); }
