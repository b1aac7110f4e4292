// Checks of the off-chain half: random histories of real clients next to the real contracts are
// validated by TLC against spec/PeerTrace.tla.
import { pool, validate } from './onchain.mjs';
import { broken } from './check.mjs';
import { diff, key } from './man.mjs';

const norm = (q) => {
    q = structuredClone(q);
    for (const k of ['outs', 'ev']) q[k] = (q[k] ?? []).map(key).sort();
    q.hooks = [...(q.hooks ?? [])].sort();
    if (q.obs?.forks) { q.obs.disputed = [...q.obs.disputed].sort(); for (const f of q.obs.forks) f.by = f.by.map(key).sort(); }
    if (q.ch?.posted) q.ch.posted = q.ch.posted.map(key).sort();
    return q;
};
const inputs = (seg, i) => seg.slice(0, i + 1).map((x) => ({ p: x.p, i: x.i }));
// the expected outcome closest to what happened
export function explain(e, m) {
    if (m.why === 'apart') return ['a client has agreed to a block that another one signed without agreeing to it'];
    if (m.why === 'chain') return diff(norm({ ok: m.exp.ok, ch: m.exp.ch }), norm({ ok: e.ok, ch: e.ch || 0 }), '');
    const got = norm({ ok: e.ok, outs: e.outs, hooks: e.hooks, ev: e.ev, obs: e.obs, ch: e.ch || 0 });
    const all = [].concat(m.exp).slice(0, 200).map((x) => diff(norm({ ok: x.ok, outs: x.outs, hooks: x.hooks, ev: x.ev, obs: x.obs, ch: [].concat(x.ch)[0] ?? 0 }), got, ''));
    return all.sort((a, b) => a.length - b.length)[0] ?? ['?'];
}
const short = (x) => key(x).slice(0, 400);

export async function peerHistories(check, { count, len = 40, profile = {}, salt = 0, cfg }, arts, share = 0.85) {
    arts = await arts;
    const deadline = check.t0 + check.budget * share;
    return judge(check, await pool({ histories: count, len, profile, salt }, arts, deadline, 'lib/peer-worker.mjs'), cfg);
}
// what the workers recorded, against the specification
export async function judge(check, res, cfg = 'PeerTrace.cfg') {
    const stats = (check.cov.history_inputs ??= {});
    for (const x of res) for (const k in x.stats) stats[k] = (stats[k] ?? 0) + x.stats[k];
    for (const x of res) for (const v of x.fatal ?? []) check.violation(`${v.what}: after ${v.inputs.length} inputs, ${short(v.inputs.at(-1))}`, { kind: 'peer-history', inputs: v.inputs });
    const segs = res.flatMap((x) => x.segs);
    for (const s of segs) {
        const i = s.findIndex((x) => /"\?/.test(JSON.stringify([x.outs ?? 0, x.hooks ?? 0, x.ev ?? 0, x.ch ?? 0, x.obs ?? 0, x.i ?? 0])));
        if (i < 0) continue;
        const t = JSON.stringify([s[i].outs, s[i].hooks, s[i].ev, s[i].ch, s[i].obs, s[i].i]).match(/.{0,80}"\?.{0,80}/)[0];
        check.violation(`history step ${i}, client ${s[i].p}: ${short(s[i].i)}: something shows that no input put there: ${t}`, { kind: 'peer-history', inputs: inputs(s, i) });
        s.drop = true;
    }
    const use = segs.filter((s) => !s.drop && s.length > 1);
    const { mism, lines, undecided } = await validate(use, 'PeerTrace.tla', cfg);
    check.add('histories', segs.length);
    check.add('traces_validated_against_impl', segs.length);
    check.add('states', lines);
    if (undecided) check.add('histories_undecided', undecided);
    check.add('transitions', segs.reduce((s, x) => s + x.length - 1, 0));
    check.sample(segs[0]?.slice(0, 6).map((x) => ({ p: x.p, i: x.i })));
    for (const m of mism.slice(0, 3)) {
        const e = m.seg[m.i], d = explain(e, m);
        check.violation(`history step ${m.i}, client ${e.p}: ${short(e.i)}: ${d.slice(0, 12).join('; ')}`, { kind: 'peer-history', diff: d, inputs: inputs(m.seg, m.i) });
    }
    // the binding: the same histories with one recorded field changed must be rejected
    const bad = mism.length ? [] : use.slice(0, 6).map((s, j) => corrupt(structuredClone(s), j)).filter(Boolean);
    if (bad.length) {
        const r = await validate(bad, 'PeerTrace.tla', cfg);
        if (r.mism.length + r.undecided !== bad.length) broken(`only ${r.mism.length} of ${bad.length} corrupted histories were rejected`);
        check.add('corrupted_histories_rejected', bad.length);
    }
    return { segs, mism };
}
function corrupt(seg, j) {
    const at = (f) => seg.findLastIndex((x) => x.p !== '*' && x.p !== '-' && f(x));
    if (j % 3 === 0) { const i = at((x) => x.obs?.forks?.length && x.outs.length); if (i < 0) return null; seg[i].outs.pop(); }
    else if (j % 3 === 1) { const i = at((x) => x.obs?.forks?.some((f) => f.ag.length)); if (i < 0) return null; seg[i].obs.forks.find((f) => f.ag.length).ag[0].sg.push('X'); }
    else { const i = at((x) => x.obs?.next !== undefined); if (i < 0) return null; seg[i].obs.next += 1; }
    return seg;
}
