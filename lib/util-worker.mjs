// The signature library and the linked list, on the EVM.
import fs from 'node:fs';
import { World, NAMES, key } from './man.mjs';
import { link } from './sol.mjs';
import { Handle, ethers } from './chain.mjs';
import { Rng } from './rng.mjs';

const { k, n, seed, arts, job, deadline } = await new Promise((r) => process.once('message', r));
const reply = (m) => process.send(m, () => process.exit(0));
const w = await World.create({ seed, arts });
const zero = '0x' + '00'.repeat(32);

if (job.kind === 'threshold') {
    const r = new Rng(seed * 977 + k);
    const viol = [], trace = [];
    let evals = 0;
    const datas = ['0x', '0x00', '0x' + 'ab'.repeat(31), '0x' + 'cd'.repeat(32), '0x' + 'ef'.repeat(33), '0x' + '12'.repeat(500)];
    const thr = async (req, sg, data) => {
        evals++;
        const x = await w.lib.tryCall('verifyThresholdSigned', [req.map((p) => w.addr[p]), data, w.sigs(sg, data)]);
        return x.ok ? { rev: false, ok: x.value[0] } : { rev: true, ok: false };
    };
    const lines = fs.readFileSync(job.file, 'utf8').split('\n').filter(Boolean);
    for (let i = k; i < lines.length && viol.length < 4; i += n) {
        const s = JSON.parse(lines[i]);
        const got = await thr(s.req, s.sg, datas[i % datas.length]);
        if (got.rev !== s.rev || got.ok !== s.ok) viol.push({ what: `required ${key(s.req)} signed by ${key(s.sg)}: expected ${s.rev ? 'a revert' : s.ok}, got ${got.rev ? 'a revert' : got.ok}`, req: s.req, sg: s.sg });
    }
    const five = NAMES.slice(0, 5);
    for (let i = 0; i < job.random && Date.now() < deadline; i++) {
        const data = ethers.hexlify(Uint8Array.from({ length: r.pick([0, 1, 20, 32, 64, 65, 200]) }, () => r.int(256)));
        const req = r.p(0.85) ? r.shuffle(five).slice(0, r.int(6)) : Array.from({ length: r.int(5) }, () => r.pick(five));
        let sg = r.shuffle(req);
        for (let m = r.int(4); m > 0; m--) {
            const at = r.int(sg.length + 1);
            switch (r.int(4)) {
                case 0: sg.splice(at, 1); break;
                case 1: sg.splice(at, 0, r.pick(['X', 'bad', 'bad', ...five])); break;
                case 2: if (at < sg.length) sg[at] = r.pick(['X', 'bad', 'mal', ...five]); break;
                default: if (sg.length) sg.splice(at, 0, r.pick(sg));
            }
        }
        trace.push({ f: 'threshold', req, sg, ...(await thr(req, sg, data)) });
        const s = r.pick(['bad', 'mal', ...NAMES]), claimed = r.p(0.6) && w.addr[s] ? s : r.pick(NAMES);
        const x = await w.lib.tryCall('retriveSignerAddress', [data, w.sig(s, data, claimed)]);
        trace.push({ f: 'recover', s, who: claimed, rev: !x.ok, ok: x.ok && x.value === w.addr[claimed] });
        const who = r.pick(NAMES);
        const y = await w.lib.tryCall('isAddressInArray', [req.map((p) => w.addr[p]), w.addr[who]]);
        trace.push({ f: 'member', req, who, rev: !y.ok, ok: y.ok && y.value });
        evals += 2;
    }
    reply({ viol, trace, evals });
} else if (job.kind === 'list') {
    // every state of LinkedList.tla with every operation; the states are rebuilt from a predecessor
    const lines = fs.readFileSync(job.file, 'utf8').split('\n').filter(Boolean).map((x) => JSON.parse(x));
    const ids = { none: ethers.ZeroHash, a: ethers.id('a'), b: '0x' + '00'.repeat(31) + '01', c: '0x' + 'ff'.repeat(32), d: '0x' + '00'.repeat(30) + '0100', e: ethers.id('e') };
    const nm = Object.fromEntries(Object.entries(ids).map(([q, v]) => [v, q]));
    const addr = await w.chain.deploy(link(arts.list, {}));
    const L = new Handle(w.chain, addr, arts.list.abi);
    const base = w.chain.snapshot();
    const apply = (o) => (o.op === 'add' ? L.tx(w.addr.A, 'addFront', [[ids[o.id]]]) : o.op === 'rem' ? L.tx(w.addr.A, 'removeNode', [ids[o.id]]) : L.tx(w.addr.A, 'removeFront', []));
    // what the list shows: its length, by index, and by following the links from both ends
    const observe = async () => {
        const len = Number(await L.call('length'));
        const at = [];
        for (let i = 0; i < Math.min(len, 12); i++) { const x = await L.tryCall('getAtIndex', [i]); at.push(x.ok ? nm[x.value.data.tableId] ?? '?' : '!'); }
        const past = (await L.tryCall('getAtIndex', [len])).ok;
        const fwd = [], bwd = [], held = [];
        const node = async (id) => { const x = await L.call('getNode', [id]); return { id: nm[x.uniquePtr], data: nm[x.data.tableId], next: nm[x.next], prev: nm[x.prev] }; };
        for (let c = at[0], i = 0; c && c !== 'none' && i < 12; i++) { const x = await node(ids[c]); fwd.push(x.data); c = x.next; }
        for (let c = at[at.length - 1], i = 0; c && c !== 'none' && i < 12; i++) { const x = await node(ids[c]); bwd.unshift(x.data); c = x.prev; }
        for (const q of Object.keys(ids)) if (q !== 'none' && (await node(ids[q])).id !== 'none') held.push(q);
        return { len, at, past, fwd, bwd, held: held.sort() };
    };
    const want = (l) => ({ len: l.length, at: l, past: false, fwd: l, bwd: l, held: [...l].sort() });
    const byKey = new Map(lines.map((x) => [key(x.s), x]));
    const par = new Map([['[]', null]]);
    for (const q = ['[]']; q.length;) {
        const s = q.shift();
        for (const t of byKey.get(s).steps) { const x = key(t.r.l); if (t.r.ok && byKey.has(x) && !par.has(x)) { par.set(x, [s, t.o]); q.push(x); } }
    }
    // another way to the same list, through a removal, shows what removals leave behind
    const paths = (s) => {
        const p = []; for (let c = s; par.get(c); c = par.get(c)[0]) p.unshift(par.get(c)[1]);
        const l = JSON.parse(s), alt = [];
        const spare = job.ids.find((i) => !l.includes(i));
        if (spare) for (let pos = 0; pos <= l.length; pos++) { const o = []; [...l.slice(0, pos), spare, ...l.slice(pos)].reverse().forEach((i) => o.push({ op: 'add', id: i })); o.push({ op: 'rem', id: spare }); alt.push(o); }
        return [p, ...alt];
    };
    const viol = [];
    let edges = 0;
    outer: for (let i = k; i < lines.length; i += n) {
        for (const p of paths(key(lines[i].s))) {
            w.chain.restore(base);
            for (const o of p) await apply(o);
            const snap = w.chain.snapshot();
            for (const t of lines[i].steps) {
                if (Date.now() > deadline) break outer;
                w.chain.restore(snap);
                const res = await apply(t.o);
                edges++;
                const got = key(await observe()), exp = key(want(t.r.ok ? t.r.l : lines[i].s));
                if (res.ok !== t.r.ok || got !== exp) { viol.push({ path: p, op: t.o, what: `list ${key(lines[i].s)}, ${key(t.o)}: expected ${t.r.ok ? 'success' : 'refusal'} and ${exp}, got ${res.ok ? 'success' : 'refusal'} and ${got}` }); if (viol.length > 3) break outer; }
            }
        }
    }
    reply({ viol, edges });
}
