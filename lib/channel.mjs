// Several clients of one channel: behaviours of spec/Channel.tla are replayed with real clients
// (lib/channel-worker.mjs), and what the clients did is checked against spec/PeerTrace.tla.
import fs from 'node:fs';
import path from 'node:path';
import { cfgText, pool, TIMES } from './onchain.mjs';
import { SEED, broken } from './check.mjs';
import { tlc, scratch } from './tlc.mjs';
import { judge } from './offchain.mjs';

const INV = ['OwnWord', 'OneFinal', 'FinalIsAgreed', 'NoFork', 'NoQuarrel', 'NoBlame', 'Caught', 'Emit'];
const set = (xs) => `{${xs.map((x) => `"${x}"`).join(', ')}}`;
async function paths(check, { clients, liars = [], limit, lies = 0, ticks = 0, moves = ['add1'], depth = 30, wait = 5, walks = 0, max }) {
    const dir = scratch('mc'), cfg = path.join(dir, 'mc.cfg'), out = new Map(), inner = new Set();
    const consts = { ...TIMES, Ch: '"c1"', Clients: set(clients), Liars: set(liars), Limit: limit, Lies: lies, Ticks: ticks, Moves: set(moves), Depth: depth, Wait: wait, Every: walks ? 'FALSE' : 'TRUE' };
    fs.writeFileSync(cfg, cfgText({ inv: INV, view: walks ? undefined : 'View', consts }));
    // of the printed paths the longest ones; a walk ends with every possible last step, one is enough
    const onPrint = (tag, body) => {
        if (tag !== 'PATH') return;
        const p = JSON.parse(body), head = JSON.stringify(p.slice(0, -1));
        if (p.length) { inner.add(head); out.set(walks ? head : body, { p, key: JSON.stringify(p) }); }
    };
    const r = await tlc('Channel.tla', { cfg, workers: walks ? 1 : 4, args: walks ? ['-simulate', 'num=' + walks, '-seed', String(SEED), '-depth', String(depth + lies + 1)] : [], onPrint });
    fs.rmSync(dir, { recursive: true, force: true });
    if (!r.ok || !out.size) broken('TLC rejects Channel.tla:\n' + r.text.slice(-3000));
    check.add('states', r.states || r.generated);
    check.add('transitions', r.generated);
    let all = [...out.values()].filter((x) => !inner.has(x.key)).map((x) => x.p);
    const found = all.length;
    if (all.length > max) { let x = SEED >>> 0; const rnd = () => (x = (Math.imul(x, 1664525) + 1013904223) >>> 0) / 2 ** 32; all = all.map((p) => [rnd(), p]).sort((a, b) => a[0] - b[0]).slice(0, max).map((q) => q[1]); }
    return { all, found, r };
}
export async function channelModels(check, models, arts, until) {
    arts = await arts;
    const made = await Promise.all(models.map((m) => paths(check, m)));
    for (let i = 0; i < models.length; i++) {
        const m = models[i], { all, found, r } = made[i];
        const res = await pool({ clients: m.clients, liars: m.liars ?? [], paths: all }, arts, until, 'lib/channel-worker.mjs');
        await judge(check, res, 'PeersTrace.cfg');
        (check.cov.channel_models ??= []).push({ clients: m.clients, liars: m.liars ?? [], blocks: m.limit, lies: m.lies ?? 0, ticks: m.ticks ?? 0, walks: m.walks ?? 0, states: r.states || r.generated, paths: found, replayed: res.reduce((s, x) => s + x.segs.length, 0) });
    }
}
