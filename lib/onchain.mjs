// Checks of the on-chain half: spec/ManagerMC.tla's models are explored by TLC and every transition
// is performed on the real contracts; random histories of the real contracts are validated by TLC
// against spec/ManagerTrace.tla.
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { fork } from 'node:child_process';
import { compile } from './sol.mjs';
import { tlc, scratch } from './tlc.mjs';
import { SEED, THOROUGH, broken } from './check.mjs';
import { diff, key } from './man.mjs';
import { VERIF } from './paths.mjs';

const N = Math.max(2, Math.min(8, os.cpus().length));
const busy = new Set();
process.on('exit', () => { for (const p of busy) p.kill('SIGKILL'); });
// processes, not threads: the native signature library isn't made for threads
export function pool(job, arts, deadline, script = 'lib/onchain-worker.mjs') {
    return Promise.all(Array.from({ length: N }, (_, k) => new Promise((res, rej) => {
        const p = fork(path.join(VERIF, script), { serialization: 'advanced', execArgv: ['--max-old-space-size=3000'] });
        let got = false;
        busy.add(p);
        const late = setTimeout(() => p.kill('SIGKILL'), Math.max(deadline - Date.now(), 0) + 120000);
        p.on('message', (m) => { got = true; clearTimeout(late); res(m); });
        p.on('exit', (c, s) => { busy.delete(p); clearTimeout(late); if (!got) rej(Object.assign(new Error(`the code under test ends its process or never comes back (${c ?? s}), worker ${k} of ${script}`), { ended: true })); });
        p.send({ k, n: N, seed: SEED, arts, job, deadline });
    })));
}
export function cfgText({ spec = 'Spec', inv = [], view, consts }) {
    return `SPECIFICATION ${spec}\n${inv.map((i) => 'INVARIANT ' + i + '\n').join('')}${view ? 'VIEW ' + view + '\n' : ''}CHECK_DEADLOCK FALSE\nCONSTANTS\n${Object.entries(consts).map(([k, v]) => `${k} = ${v}`).join('\n')}\n`;
}
export const TIMES = { P2P: 2, AGR: 1, FB: 1, CHAL: 3, Chans: '{"c1", "c2"}' };

function merge(check, name, stats) {
    const o = (check.cov[name] ??= { accepted: {}, refused: {}, reasons: {} });
    for (const [a, b] of [['acc', 'accepted'], ['rej', 'refused'], ['reasons', 'reasons']]) for (const k in stats[a]) o[b][k] = (o[b][k] ?? 0) + stats[a][k];
}

// Explores one model with TLC and writes its states to a file.
export async function explore(check, { module = "ManagerMC.tla", focus, depth, fk = 0, thorough = THOROUGH, consts, inv = ["Emit"], view = focus ? "View" : undefined }) {
    const dir = scratch('mc');
    const cfg = path.join(dir, 'mc.cfg'), file = path.join(dir, 'states.ndjson');
    fs.writeFileSync(cfg, cfgText({ inv, view, consts: consts ?? { ...TIMES, Focus: `"${focus}"`, Depth: depth, FK: fk, Thorough: thorough ? 'TRUE' : 'FALSE' } }));
    const out = fs.openSync(file, 'w');
    const r = await tlc(module, { cfg, onPrint: (tag, body) => { if (tag === 'STATE') fs.writeSync(out, body + '\n'); } });
    fs.closeSync(out);
    if (!r.ok) broken(`TLC rejects ${module} ${focus ?? ''}:\n` + r.text.slice(-3000));
    check.add('states', r.states);
    return { dir, file, r };
}

export async function graphs(check, models, arts, share = 0.6) {
    const exp = Promise.all(models.map((m) => explore(check, m)));
    const done = await exp;
    arts = await arts;
    for (let i = 0; i < models.length; i++) {
        const m = models[i], { dir, file, r } = done[i];
        const deadline = check.t0 + check.budget * share;
        const res = await pool({ kind: 'graph', file, now0: 20, frac: m.frac ?? 1, keepAcc: true, noise: m.noise }, arts, deadline);
        fs.rmSync(dir, { recursive: true, force: true });
        const edges = res.reduce((s, x) => s + x.edges, 0), skipped = res.reduce((s, x) => s + x.skipped, 0);
        const lost = res.reduce((s, x) => s + x.lost, 0);
        check.add('transitions', edges);
        check.add('transitions_not_replayed', skipped);
        check.add('traces_validated_against_impl', edges);
        (check.cov.models ??= []).push({ focus: m.focus, depth: m.depth, fork: m.fk ?? 0, states: r.states, replayed: edges, left_out: skipped });
        for (const x of res) merge(check, 'model_operations', x.stats);
        const viol = res.flatMap((x) => x.viol).sort((a, b) => a.path.length - b.path.length);
        if (!viol.length && lost) broken('states unreachable on the real contracts without a reported difference');
        if (edges < 50) broken(`only ${edges} transitions of ${m.focus} were replayed`);
        for (const v of viol.slice(0, 3)) check.violation(`${m.focus}: after ${v.path.length} operations, ${key(v.op)}: ${v.diff.join('; ')}`, { kind: 'manager', focus: m.focus, ...v });
    }
}

export async function histories(check, { count, len, profile = {}, salt = 0 }, arts, share = 0.9) {
    arts = await arts;
    const deadline = check.t0 + check.budget * share;
    const res = await pool({ kind: 'random', histories: count, len, profile, salt }, arts, deadline);
    for (const x of res) merge(check, 'history_operations', x.stats);
    const segs = res.flatMap((x) => x.segs);
    for (const s of segs) {
        const b = s.find((x) => x.bad);
        if (b) check.violation('DisputeUpdated differs from getDispute: ' + b.bad.join('; '), { kind: 'manager-history', ops: s.map((x) => x.o) });
        const q = s.find((x) => /"\?/.test(JSON.stringify(x.obs ?? 0) + JSON.stringify(x.ev ?? 0)));
        if (q) { check.violation('the contracts show something no operation put there: ' + (JSON.stringify(q.obs) + JSON.stringify(q.ev)).match(/.{0,60}"\?.{0,60}/)[0], { kind: 'manager-history', ops: s.slice(0, s.indexOf(q) + 1).map((x) => x.o) }); s.drop = true; }
    }
    const use = segs.filter((s) => !s.drop);
    const { mism, lines } = await validate(use, 'ManagerTrace.tla', 'ManagerTrace.cfg');
    check.add('histories', segs.length);
    check.add('traces_validated_against_impl', segs.length);
    check.add('states', lines);
    check.add('transitions', segs.reduce((s, x) => s + x.length - 1, 0));
    check.sample(segs[0]?.slice(0, 6).map((x) => ({ o: x.o, ok: x.ok })));
    for (const m of mism.slice(0, 3)) {
        const e = m.seg[m.i];
        const d = m.why === 'exec' ? [key(m.exp) + ' vs ' + key(e.obs)] : e.ok !== m.exp.ok ? [`the operation must ${m.exp.ok ? 'succeed' : 'be refused'}`] : [...diff(m.exp.ev, e.ev, 'events'), ...diff(sorted(m.exp.proj), e.obs)];
        check.violation(`history step ${m.i}: ${key(e.o)}: ${d.join('; ')}`, { kind: 'manager-history', ops: m.seg.slice(0, m.i + 1).map((x) => x.o), diff: d });
    }
    // the binding: the same histories with one recorded field changed must be rejected
    const bad = use.slice(0, 6).map((s, j) => corrupt(structuredClone(s), j)).filter(Boolean);
    if (bad.length && !mism.length) {
        const r = await validate(bad, 'ManagerTrace.tla', 'ManagerTrace.cfg');
        if (r.mism.length !== bad.length) broken(`only ${r.mism.length} of ${bad.length} corrupted histories were rejected`);
        check.add('corrupted_histories_rejected', bad.length);
    }
}
function sorted(p) { const q = structuredClone(p); q.posted.sort((a, b) => (key(a) < key(b) ? -1 : 1)); return q; }
function corrupt(seg, j) {
    const i = seg.findLastIndex((x) => x.ok && x.obs?.forks && x.ev.length);
    if (i < 0) return null;
    const e = seg[i];
    if (j % 3 === 0) { e.obs = structuredClone(e.obs); e.obs.forks.c1[0].ts += 1; }
    else if (j % 3 === 1) { e.ok = false; e.ev = []; e.obs = 0; }
    else { e.ev = e.ev.slice(0, -1); }
    return seg;
}

// Validates recorded histories with TLC; several processes share the work.
export async function validate(segs, module, cfg, env = {}) {
    const procs = Math.max(1, Math.min(4, Math.ceil(segs.length / 8)));
    const mism = [];
    let total = 0, undecided = 0;
    const until = Date.now() + (THOROUGH ? 700000 : 400000);
    await Promise.all(Array.from({ length: procs }, async (_, q) => {
        let mine = segs.filter((_, i) => i % procs === q);
        while (mine.length) {
            const dir = scratch('trace'), file = path.join(dir, 'trace.ndjson');
            const at = [];
            const out = [];
            for (const s of mine) { const nx = out.length + s.length + 1; s.forEach((e, i) => { at.push([s, i]); const { bad, ...rest } = e; out.push(JSON.stringify({ ...rest, nx })); }); }
            fs.writeFileSync(file, out.join('\n') + '\n');
            let end = null, here = 0, nope = 0;
            const no = (m) => { const [seg, i] = at[m.l - 1]; mism.push({ seg, i, ...m }); };
            const r = await tlc(module, {
                cfg, env: { ...env, TRACE: file }, stuck: { tag: 'AT', ms: THOROUGH ? 150000 : 75000 }, timeout: Math.max(5, (until - Date.now()) / 1000),
                onPrint: (tag, body) => {
                    if (tag === 'AT') here = Number(body);
                    else if (tag === 'NOPE') nope = Number(body);
                    else if (tag === 'MISMATCH') { nope = 0; no(JSON.parse(body)); }
                    else if (tag === 'APART') no({ why: 'apart', ...JSON.parse(body) });
                    else if (tag === 'END') end = Number(body);
                }
            });
            total += r.states;
            fs.rmSync(dir, { recursive: true, force: true });
            if (r.ok && end === out.length) break;
            if (!here || !String(r.code).startsWith('signal')) broken(`TLC could not check the recorded histories (${r.code}, ${end} of ${out.length}):\n` + r.text.slice(-3000));
            // more orders in which this step may have happened than can be tried: it stays undecided,
            // unless only saying what was expected took too long
            if (nope === here) no({ l: here, why: 'peer', exp: [] }); else undecided++;
            mine = mine.slice(mine.indexOf(at[here - 1][0]) + 1);
            if (Date.now() > until - 10000) { undecided += mine.length; break; }
        }
    }));
    if (undecided) console.log(`${undecided} histories stay undecided`);
    return { mism, lines: total, undecided };
}

export const artifacts = () => compile(['facet', 'lib', 'vsm', 'vproxy']);
