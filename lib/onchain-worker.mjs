import fs from 'node:fs';
import { World, canon, diff, key } from './man.mjs';
import { Gen } from './gen.mjs';
import { Rng } from './rng.mjs';

const { k, n, seed, arts, job, deadline } = await new Promise((r) => process.once('message', r));
const reply = (m) => process.send(m, () => process.exit(0));
const w = await World.create({ seed, arts });
const stats = { acc: {}, rej: {}, reasons: {} };
const count = (o, ok, reason) => {
    const c = ok ? stats.acc : stats.rej;
    c[o.op] = (c[o.op] ?? 0) + 1;
    for (const p of o.proofs ?? []) c[o.op + '/' + p.t] = (c[o.op + '/' + p.t] ?? 0) + 1;
    if (!ok) stats.reasons[reason ?? '?'] = (stats.reasons[reason ?? '?'] ?? 0) + 1;
};
function compare(o, ok, ev, proj, res, obs) {
    if (ok !== res.ok) return [`the operation must ${ok ? 'succeed' : 'be refused'} but ${res.ok ? 'succeeded' : 'was refused (' + res.reason + ')'}`];
    if (!ok) return [];
    const d = diff(ev, res.ev, 'events');
    if (proj) { const p = structuredClone(proj); p.posted.sort((a, b) => (key(a) < key(b) ? -1 : 1)); d.push(...diff(p, obs)); }
    return d;
}
// the payload of DisputeUpdated has to be the dispute that getDispute shows
function eventPayload(w, obs, o) {
    const l = w.lastDisputeEvents ?? [];
    w.lastDisputeEvents = [];
    const ch = o.ch ?? null;
    return l.flatMap((d) => (ch && obs.dp[ch] ? diff(obs.dp[ch], d, 'DisputeUpdated') : []));
}

if (job.kind === 'graph') {
    // every line of the file is a state with all its outgoing operations
    const lines = fs.readFileSync(job.file, 'utf8').split('\n').filter(Boolean);
    const parent = new Map(); // canonical state -> {from, o}
    const states = lines.map((l) => JSON.parse(l));
    const id = new Map();
    states.forEach((s, i) => { s.key = canon(s.s); id.set(s.key, i); });
    states.forEach((s, i) => { for (const a of s.acc) { a.tk = canon(a.t); const j = id.get(a.tk); if (j !== undefined && j !== i && !parent.has(j) && j !== 0) parent.set(j, { i, o: a.o }); } });
    const snaps = new Map();
    const pathTo = (i) => (i === 0 ? [] : [...pathTo(parent.get(i).i), parent.get(i).o]);
    async function goto(i) {
        const s = snaps.get(i);
        if (s) return w.restore(s);
        if (i === 0) { w.start(job.now0); }
        else { await goto(parent.get(i).i); const r = await w.apply(parent.get(i).o); if (!r.ok) throw { lost: true }; }
        snaps.set(i, w.snapshot());
        if (snaps.size > 600) { const f = [...snaps.keys()].find((x) => x !== 0 && x !== i); snaps.delete(f); }
    }
    let edges = 0, skipped = 0, lost = 0;
    const viol = [];
    outer: for (let i = k; i < states.length; i += n) {
        if (i !== 0 && !parent.has(i)) continue;
        try { await goto(i); } catch (e) { if (e.lost) { lost++; continue; } throw e; } // its own edge is reported elsewhere
        const snap = w.snapshot();
        const s = states[i];
        const todo = [...s.acc.map((a) => [a.o, true, a.ev, a.t]), ...s.rej.map((o) => [o, false])];
        for (const [o, ok, ev, t] of todo) {
            if (job.frac < 1 && !(ok && job.keepAcc) && ((edges + skipped) * 2654435761 + seed * 7919) % 1000 >= job.frac * 1000) { skipped++; continue; }
            if (Date.now() > deadline) { skipped++; continue; }
            w.restore(snap);
            w.lastDisputeEvents = [];
            if (job.noise) await w.noise({ fn: ['setState', 'slash', 'remove', 'joinChannel'][edges % 4], st: { k: 'ok', n: edges % 5, ps: ['X', 'B'].slice(edges % 2), am: [5, 6].slice(edges % 2), m: [] } });
            const res = await w.apply(o);
            const obs = res.ok ? await w.observe() : null;
            const d = compare(o, ok, ev, t, res, obs);
            if (res.ok && ok) d.push(...eventPayload(w, obs, o));
            edges++;
            count(o, res.ok, res.reason);
            if (d.length) { viol.push({ path: pathTo(i), op: o, expected: { ok, ev }, got: { ok: res.ok, ev: res.ev, reason: res.reason }, diff: d }); if (viol.length > 3) break outer; }
        }
    }
    reply({ edges, skipped, lost, states: states.length, viol, stats });
} else if (job.kind === 'random') {
    const lines = [];
    let done = 0;
    for (let h = k; h < job.histories; h += n) {
        if (Date.now() > deadline) break;
        const r = new Rng(seed * 100003 + h + job.salt * 7777777);
        const g = new Gen(r, w, job.profile);
        const now = 20 + r.int(5);
        w.start(now);
        const seg = [{ o: { op: 'reset', now } }];
        let obs = await w.observe();
        for (let i = 0; i < job.len; i++) {
            const o = g.next(obs);
            if (o.op === 'exec') {
                const e = await w.exec(o.st, o.b);
                count(o, !!e.ok, e.rev ? 'reverts' : 'fails');
                seg.push({ o, ok: true, ev: [], obs: e.rev ? { rev: true, ok: false, st: o.st } : e });
                continue;
            }
            w.lastDisputeEvents = [];
            const res = await w.apply(o);
            count(o, res.ok, res.reason);
            let bad = [];
            if (res.ok && o.op !== 'noise') { obs = await w.observe(); bad = eventPayload(w, obs, o); }
            seg.push({ o, ok: res.ok, ev: res.ev, obs: res.ok ? obs : 0, ...(bad.length ? { bad } : {}) });
            if (bad.length) break;
        }
        done++;
        lines.push(seg);
    }
    reply({ segs: lines, done, stats });
}
