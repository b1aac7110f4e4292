// Checks of one client's connections: every path of small models, and random histories, are given to
// real code and validated by TLC against spec/NetworkTrace.tla.
import fs from 'node:fs';
import { pool, validate, explore } from './onchain.mjs';
import { broken, THOROUGH, SEED } from './check.mjs';
import { Client } from './network.mjs';
import { Rng } from './rng.mjs';
import { diff, key } from './man.mjs';

const norm = (q) => {
    q = structuredClone(q);
    const so = (a) => (a ?? []).map(key).sort();
    for (const k of ['outs', 'hk', 'rc']) q[k] = so(q[k]);
    for (const k of ['conns', 'by', 'prof', 'closed']) q.obs[k] = so(q.obs[k]);
    for (const k of ['jr', 'jq']) for (const j of q.obs[k]) { j.sg?.sort(); j.cs?.sort(); }
    q.obs.jr = so(q.obs.jr);
    return q;
};
function explain(e, m) {
    const got = norm({ outs: e.outs, hk: e.hk, rc: e.rc, obs: e.obs });
    return [].concat(m.exp).slice(0, 100).map((x) => diff(norm(x), got, '')).sort((a, b) => a.length - b.length)[0] ?? ['?'];
}
const inputs = (seg, i) => seg.slice(0, i + 1).map((x) => x.i);
async function judge(check, res, name) {
    const stats = (check.cov[name] ??= {});
    for (const x of res) for (const k in x.stats) stats[k] = (stats[k] ?? 0) + x.stats[k];
    for (const v of res.flatMap((x) => x.fatal).slice(0, 3)) check.violation(`the client failed after ${v.inputs.length - 1} inputs, ${key(v.inputs.at(-1)).slice(0, 300)}: ${v.what}`, { kind: 'network', inputs: v.inputs });
    const segs = res.flatMap((x) => x.segs), use = [];
    for (const s of segs) {
        const i = s.findIndex((x) => /"\?/.test(JSON.stringify([x.outs ?? 0, x.hk ?? 0, x.rc ?? 0, x.obs ?? 0])));
        if (i < 0) use.push(s);
        else check.violation(`${name} step ${i}: ${key(s[i].i).slice(0, 300)}: something shows that no input put there: ${JSON.stringify([s[i].outs, s[i].hk, s[i].rc, s[i].obs]).match(/.{0,80}"\?.{0,80}/)[0]}`, { kind: 'network', inputs: inputs(s, i) });
    }
    const { mism, lines } = await validate(use, 'NetworkTrace.tla', 'NetworkTrace.cfg');
    check.add('traces_validated_against_impl', segs.length);
    check.add('states', lines);
    check.add('transitions', segs.reduce((s, x) => s + x.length - 1, 0));
    check.sample(segs[0] && inputs(segs[0], 5));
    for (const m of mism.sort((a, b) => a.i - b.i).slice(0, 3)) {
        const e = m.seg[m.i], d = explain(e, m);
        check.violation(`${name} step ${m.i}: ${key(e.i).slice(0, 300)}: ${d.slice(0, 10).join('; ')}`, { kind: 'network', diff: d, inputs: inputs(m.seg, m.i) });
    }
    return { use, mism };
}
const INV = ['Identity', 'OneEach', 'Alive', 'NoTwice', 'InTime', 'Whole', 'OwnFirst', 'Emit'];
export async function netModels(check, models, share = 0.6) {
    const c = await Client.create({ me: 'A', skew: 0, members: ['A', 'B'], pref: 0 });
    const low = c.lower();
    const done = await Promise.all(models.map((m) => explore(check, { module: 'NetworkMC.tla', inv: INV, view: 'View', consts: { Focus: `"${m.focus}"`, Depth: m.depth, LowB: low.B, LowC: low.C, LowJ: low.J } })));
    for (let q = 0; q < models.length; q++) {
        const m = models[q], { dir, file, r } = done[q];
        const states = fs.readFileSync(file, 'utf8').split('\n').filter(Boolean).map((l) => JSON.parse(l));
        fs.rmSync(dir, { recursive: true, force: true });
        // every state's every input; what another path begins with needn't be run for itself
        const begun = new Set(states.map((s) => key(s.h)));
        let paths = states.flatMap((s) => s.is.map((i) => [...s.h, i])).filter((p) => !begun.has(key(p)) || p.length === m.depth);
        const all = paths.length;
        paths = new Rng(SEED + q).shuffle(paths).slice(0, m.max);
        const start = { me: 'A', skew: 0, members: ['A', 'B'], pref: m.focus === 'rtc' ? 1 : 0 };
        const res = await pool({ paths, start }, null, check.t0 + check.budget * share, 'lib/network-worker.mjs');
        const ran = res.reduce((s, x) => s + x.segs.length + x.fatal.length, 0);
        await judge(check, res, 'paths of ' + m.focus);
        (check.cov.models ??= []).push({ focus: m.focus, depth: m.depth, states: r.states, paths: all, replayed: ran });
        if (ran < 50) broken('too few paths were replayed');
    }
}
export async function netHistories(check, { count, len = 40, profile = {}, salt = 0 }, share = 0.85) {
    const res = await pool({ histories: count, len, profile, salt }, null, check.t0 + check.budget * share, 'lib/network-worker.mjs');
    const { use, mism } = await judge(check, res, 'histories');
    const bad = mism.length || check.violations.length ? [] : use.slice(0, 6).map((s, j) => corrupt(structuredClone(s), j)).filter(Boolean);
    if (bad.length) {
        const r = await validate(bad, 'NetworkTrace.tla', 'NetworkTrace.cfg');
        if (r.mism.length !== bad.length) broken(`only ${r.mism.length} of ${bad.length} corrupted histories were rejected`);
        check.add('corrupted_histories_rejected', bad.length);
    }
}
function corrupt(seg, j) {
    const at = (f) => seg.findLastIndex((x) => x.obs && f(x));
    if (j % 3 === 0) { const i = at((x) => x.outs.length); if (i < 0) return null; seg[i].outs.pop(); }
    else if (j % 3 === 1) { const i = at((x) => x.obs.by.length); if (i < 0) return null; seg[i].obs.by[0][1] = 'Z'; }
    else { const i = at((x) => x.obs.conns.length); if (i < 0) return null; seg[i].obs.conns.pop(); }
    return seg;
}
