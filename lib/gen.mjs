// Random histories for the on-chain half: mostly sensible operations (built from a shadow of the
// channel's off-chain blocks) and near misses of them. The generator decides nothing: what each
// operation must do is decided by spec/Manager.tla when the recorded history is checked.
import { key } from './man.mjs';

const st = (n, ps, am, m = []) => ({ k: 'ok', n, ps, am, m });
const NONE = { k: 'none', n: 0, ps: [], am: [], m: [] }, JUNK = { k: 'junk', n: 0, ps: [], am: [], m: [] }, ZERO = { k: 'zero', n: 0, ps: [], am: [], m: [] };
const nextOf = (s) => (s.ps.length ? s.ps[s.n % s.ps.length] : '0');
function exec(s, b) {
    if (b.au !== nextOf(s)) return s;
    if (b.op === 'add1' || b.op === 'noisy') return { ...s, n: s.n + 1 };
    if (b.op === 'add2') return { ...s, n: s.n + 2 };
    if (b.op === 'quit') { const i = s.ps.indexOf(b.au); return { ...s, n: s.n + 1, ps: s.ps.filter((_, j) => j !== i), am: s.am.filter((_, j) => j !== i) }; }
    if (b.op === 'stamp') return { ...s, n: s.n + 1, m: [{ ch: b.ch, au: b.au, fork: b.fork, h: b.h, ts: b.ts }] };
    return s;
}
// address(0) signs nothing
function signable(x, k) {
    if (['s', 's1', 's2', 'sg'].includes(k)) return Array.isArray(x) ? x.map((y) => (y === '0' ? 'X' : y)) : x === '0' ? 'X' : x;
    if (Array.isArray(x)) return x.map((y) => signable(y));
    if (x && typeof x === 'object') return Object.fromEntries(Object.entries(x).map(([q, v]) => [q, signable(v, q)]));
    if (typeof x === 'number' && x < 0) return 0;
    return x;
}
export const BASE = { tick: 10, create: 10, chal: 10, post: 5, join: 3, leave: 2, noise: 1, priv: 0.3, exec: 0, mut: 0.3,
    quit: 0.7, timeout: 0.55, rech: 1, dbl: 1.2, inc: 1.2, new: 1.2, prior: 1, fut: 1, pjoin: 0.7, pleave: 0.15, twoChans: 0.3 };

export class Gen {
    constructor(rng, world, profile = {}) { this.r = rng; this.w = world; this.f = { ...BASE, ...profile }; this.chains = new Map(); this.hist = []; }
    opening(ch) {
        const r = this.r;
        const ps = r.shuffle(['A', 'B', 'C']).slice(0, r.weighted({ 1: 0.6, 2: 3, 3: 4 }));
        return { op: 'open', ch, st: st(r.int(3), ps, ps.map((_, i) => 10 * (i + 1) + r.int(5))) };
    }
    // the shadow of the blocks played on a fork
    chainOf(ch, fork, gst, gts, now) {
        const k = ch + fork;
        let c = this.chains.get(k);
        if (!c) this.chains.set(k, (c = { g: gst, gts, blocks: [] }));
        const r = this.r;
        while (gst.k === 'ok' && gst.ps.length && c.blocks.length < 4 && r.p(c.blocks.length < 2 ? 0.6 : 0.25)) {
            const prev = c.blocks.length ? c.blocks[c.blocks.length - 1] : null;
            const s = prev ? prev.b.sh : c.g;
            const b = { ch, fork, h: c.blocks.length, au: nextOf(s), ts: Math.max(prev ? prev.b.ts : c.gts, Math.min(now, (prev ? prev.b.ts : c.gts) + r.int(3))), op: r.weighted({ add1: 5, add2: 2, stamp: 2, add0: 1.2, quit: this.f.quit }), psh: s };
            b.sh = exec(s, b);
            const others = gst.ps.filter((p) => p !== b.au);
            const sg = r.p(0.6) ? r.shuffle([...others, b.au]) : [b.au, ...others.filter(() => r.p(0.4))];
            c.blocks.push({ b, sg });
        }
        return c;
    }
    signers(all, must) {
        const r = this.r;
        let s = r.p(0.7) ? r.shuffle(all) : all.filter(() => r.p(0.6));
        if (must && !s.includes(must)) s = [must, ...s];
        if (r.p(0.08)) s = [...s, r.pick(['X', 'bad', ...all])];
        return s;
    }
    otherBlock(c, b) { // a different block by the same author at the same place
        const r = this.r;
        const x = structuredClone(b);
        switch (r.int(4)) {
            case 0: x.ts += r.pick([-1, 1, 2]); if (x.ts < 0) x.ts = 1; if (x.op === 'stamp') x.sh = exec(x.psh, x); break;
            case 1: x.op = x.op === 'add1' ? r.pick(['add2', 'noisy']) : 'add1'; x.sh = exec(x.psh, x); break;
            case 2: x.sh = ZERO; break;
            default: x.psh = ZERO;
        }
        return x;
    }
    wrongBlock(b, now) { // a block that doesn't follow
        const r = this.r, x = structuredClone(b);
        switch (r.int(6)) {
            case 0: x.sh = { ...x.sh, n: x.sh.n + 1 }; break;
            case 1: x.op = r.pick(['boom', 'silent', 'custom', 'reenter', 'unknown', 'xset', 'xjoin', 'xslash', 'xremove', 'xtx']); break;
            case 2: x.ts += r.pick([2, 3, 4, 5]); if (x.op === 'stamp') x.sh = exec(x.psh, x); break;
            case 3: x.ts = Math.max(1, x.ts - r.pick([1, 2, 4])); if (x.op === 'stamp') x.sh = exec(x.psh, x); break;
            case 4: x.au = r.pick(['A', 'B', 'C', 'D']); x.sh = exec(x.psh, x); break;
            default: break; // nothing wrong with it
        }
        return x;
    }
    jc(ch, now, ps) {
        const r = this.r;
        return { ch, p: r.pick(r.p(0.85) ? ['D', 'E'] : [...ps, 'D']), am: r.weighted({ 7: 8, 8: 2, 666: 0.6, 777: 0.6 }) | 0, dl: now + r.pick([-1, 0, 0, 1, 5]) };
    }
    sjc(ch, now, ps) { const jc = this.jc(ch, now, ps); return { jc, s: this.r.p(0.93) ? jc.p : this.r.pick(['A', 'X', 'bad', 'mal']) }; }
    // fin, lat and votes out of the shadow
    evidence(c, ps, minFrom = 0) {
        const r = this.r, n = c.blocks.length;
        if (n === 0 || r.p(0.12)) return { fin: c.g, lat: c.g, votes: [] };
        const fromGenesis = r.p(0.5);
        const i = Math.min(n - 1, Math.max(minFrom, fromGenesis ? 0 : r.int(n)));
        const j = r.range(i, n - 1);
        const votes = c.blocks.slice(i, j + 1).map((x) => ({ b: x.b, sg: r.p(0.75) ? x.sg : this.signers(ps, x.b.au) }));
        if (r.p(0.06)) { // a gap, or other heights altogether
            const from = r.int(votes.length), by = r.pick([-1, 1, 1, 3]);
            for (let q = from; q < votes.length; q++) votes[q] = { ...votes[q], b: { ...votes[q].b, h: Math.max(0, votes[q].b.h + by) } };
        } else if (r.p(0.06)) { // somebody else's block
            const q = r.int(votes.length), x = r.pick(['X', 'D', ...ps]), b = { ...votes[q].b, au: x };
            votes[q] = { b, sg: [x, ...votes[q].sg] };
        }
        if (r.p(0.15)) { // everyone but one, some of them again and again
            const out = r.pick(ps), rest = ps.filter((p) => p !== out);
            for (const v of votes) v.sg = v.b.au === out ? v.sg : [v.b.au, ...rest.filter(() => r.p(0.6)), ...rest.filter(() => r.p(0.3))].filter((p) => p !== '0');
            return { fin: r.p(0.7) ? votes[0].b.sh : c.g, lat: votes[votes.length - 1].b.sh, votes };
        }
        const gen = i === 0 && r.p(fromGenesis ? 0.95 : 0.3);
        if (!gen && r.p(0.7)) { // make the finalized block's threshold likely
            for (const p of ps) if (!votes.some((v) => v.sg.includes(p))) r.pick(votes).sg = [...r.pick(votes).sg, p];
            const v = votes[0]; v.sg = [...new Set([...v.sg, ...ps])];
        }
        return { fin: gen ? c.g : votes[0].b.sh, lat: votes[votes.length - 1].b.sh, votes };
    }
    proof(ch, fork, c, ps, d, ev, now, who) {
        const r = this.r, f = this.f;
        const cur = d ?? { fh: ev.fh ?? 0, votes: ev.votes, psd: who, to: ev.to ?? '0', lat: ev.lat };
        const self0 = d ? 1 : 0.06; // these would slash whoever creates the dispute
        const t = r.weighted({ rech: (d && d.to !== '0' ? 2 : 0.1) * f.rech * self0, dbl: f.dbl, inc: f.inc, new: f.new * self0, prior: f.prior * (cur.votes.length ? 1 : 0.1), fut: f.fut, join: f.pjoin, leave: f.pleave });
        const near = (b) => (r.p(0.12) ? { ...b, fork: Math.max(0, b.fork + r.pick([-1, -1, 1])) } : b);
        const anyBlock = () => near(c.blocks.length && r.p(0.85) ? r.pick(c.blocks).b : { ch, fork, h: r.int(3), au: r.pick(ps), ts: now, op: 'add1', sh: ZERO, psh: c.g });
        const victim = () => (ps.length > 1 ? r.pick(ps.filter((p) => p !== who || r.p(0.15))) : ps[0]) ?? who;
        switch (t) {
            case 'rech': {
                const b0 = c.blocks[cur.fh]?.b ?? { ch, fork, h: cur.fh, au: nextOf(c.g), ts: now, op: 'add1', sh: ZERO, psh: ZERO };
                return { t, b: r.p(0.5) ? { ...b0, ts: b0.ts } : b0, sg: r.p(0.85) ? r.shuffle(ps) : this.signers(ps) };
            }
            case 'dbl': {
                const ds = [];
                for (let i = r.weighted({ 0: 0.1, 1: 3, 2: 1 }); i > 0; i--) {
                    const b1 = anyBlock(), b2 = r.p(0.9) ? this.otherBlock(c, b1) : b1;
                    const s = r.p(0.7) ? b1.au : victim();
                    ds.push({ b1, b2, s1: s, s2: r.p(0.93) ? s : victim() });
                }
                return { t, ds };
            }
            case 'inc': {
                const i = c.blocks.length ? r.int(c.blocks.length) : -1;
                const b = i >= 0 ? c.blocks[i].b : { ch, fork, h: 0, au: nextOf(c.g), ts: c.gts, op: 'add1', psh: c.g, sh: exec(c.g, { au: nextOf(c.g), op: 'add1' }) };
                const b2 = this.wrongBlock(b, now);
                const b1 = i > 0 ? c.blocks[i - 1].b : b2;
                return { t, b1, b2, s1: b1.au, s2: b2.au, st: i > 0 ? c.blocks[i - 1].b.sh : c.g };
            }
            case 'new': {
                const b = anyBlock();
                return { t, b: r.p(0.5) ? { ...b, h: (cur.votes.length ? cur.votes[cur.votes.length - 1].b.h : -1) + r.pick([0, 1, 1, 2]) } : b, s: r.p(0.9) && (cur.psd !== who || r.p(0.1)) ? cur.psd : r.pick(['A', 'B', 'bad', 'mal']) };
            }
            case 'prior': return { t, h: cur.votes.length ? r.pick(cur.votes).b.h : r.int(3) };
            case 'fut': { const b = anyBlock(); return { t, b: { ...b, au: r.p(0.8) ? victim() : b.au, ts: now + r.pick([-1, 0, 1, 1, 3]) }, s: null }; }
            case 'join': { const sjc = this.sjc(ch, now, ps); return { t, sjc, sg: r.p(0.85) ? r.shuffle(ps) : this.signers(ps) }; }
            default: return { t: 'leave' };
        }
    }
    fix(p) { if (p.t === 'fut' && p.s === null) p.s = this.r.p(0.93) ? p.b.au : this.r.pick(['A', 'B', 'X', 'bad', 'mal']); return p; }
    next(o) {
        const r = this.r, f = this.f, chs = Object.keys(o.forks);
        if (this.pending) { const x = this.pending; this.pending = null; return x; }
        const closed = chs.filter((ch) => o.forks[ch][0].st.k === 'none');
        if (closed.length === chs.length || (closed.length && r.p(f.twoChans * 0.15))) return this.opening(closed.length === chs.length ? chs[0] : closed[0]);
        const ch = r.pick(r.p(0.95) ? chs.filter((x) => !closed.includes(x)) : chs);
        const now = o.now, n = o.forks[ch].length - 1, d = o.dp[ch];
        let op = r.weighted({ tick: f.tick, create: o.inp[ch] ? f.create * 0.1 : f.create, chal: o.inp[ch] ? f.chal * 2.5 : f.chal * 0.04, post: f.post, join: o.inp[ch] ? f.join * 0.2 : f.join, leave: o.inp[ch] ? f.leave * 0.2 : f.leave, noise: f.noise, priv: f.priv, exec: f.exec });
        const fork = n, G = o.forks[ch][n];
        const ps = G.st.ps.length ? G.st.ps : ['A', 'B'];
        const c = this.chainOf(ch, fork, G.st, G.ts, now);
        let x;
        switch (op) {
            case 'tick': return { op, dt: r.weighted({ 1: 4, 2: 2, 3: 2, 4: 2, 5: 1, 8: 1 }) | 0 };
            case 'noise': return { op, fn: r.pick(['setState', 'setState', 'setState', 'joinChannel', 'slash', 'remove', 'tx', 'facetCreate', 'facetNested']), st: r.p(0.5) ? c.g.k === 'ok' ? c.g : st(0, ['A'], [1]) : st(r.int(5), r.shuffle(['A', 'B', 'C', 'X']).slice(0, r.range(1, 4)), [1, 2, 3, 4]) };
            case 'priv': return { op, who: r.pick(['A', 'X', 'F']), ch, st: c.g.k === 'ok' ? c.g : st(0, ['A'], [1]), fn: r.pick(['addParticipantComposable', 'removeParticipantComposable', 'applyJoinChannelToStateMachine', 'applySlashesToStateMachine', 'removeParticipantsFromStateMachine']) };
            case 'exec': {
                const blk = c.blocks.length ? r.pick(c.blocks).b : { ch, fork, h: 0, au: nextOf(c.g), ts: now, op: 'add1', psh: c.g, sh: ZERO };
                return { op, st: r.p(0.9) ? blk.psh : r.pick([JUNK, c.g, NONE]), b: r.p(0.6) ? this.wrongBlock(blk, now) : blk };
            }
            case 'post': {
                const blk = c.blocks.length && r.p(0.7) ? r.pick(c.blocks).b : { ch, fork, h: r.int(4), au: r.pick([...ps, 'X']), ts: now - r.int(5), op: 'add1', psh: c.g, sh: ZERO };
                if (blk.ts < 0) blk.ts = 0;
                x = { op, who: blk.au, b: r.p(now - blk.ts > 4 ? 0.8 : 0.25) ? { ...blk, ts: Math.max(0, now - r.int(6) + 1) } : blk, s: blk.au };
                break;
            }
            case 'create': {
                const ev = this.evidence(c, ps);
                const fh = ev.votes.length ? ev.votes[ev.votes.length - 1].b.h + 1 : 0;
                const withTo = r.p(f.timeout);
                const to = withTo ? nextOf(ev.lat) : '0';
                const who = r.pick(r.p(0.95) ? (withTo && ps.length > 1 ? ps.filter((p) => p !== to) : ps) : [...ps, 'X']) ?? ps[0];
                ev.fh = fh; ev.to = to;
                const np = withTo ? r.weighted({ 0: 3, 1: 1, 2: 0.3 }) | 0 : r.weighted({ 0: 0.3, 1: 3, 2: 1 }) | 0;
                x = { op, who, ch, fork, fin: ev.fin, lat: ev.lat, votes: ev.votes, to, fh: withTo || r.p(0.5) ? fh : 0, proofs: Array.from({ length: np }, () => this.fix(this.proof(ch, fork, c, ps, null, ev, now, who))) };
                break;
            }
            case 'chal': {
                // the dispute's fork has its own shadow
                const G2 = d.ex ? o.forks[ch][d.fork] : G;
                const f2 = d.ex ? d.fork : fork;
                const c2 = this.chainOf(ch, f2, G2.st, G2.ts, now);
                const ps2 = d.ex && d.ps.length ? d.ps : ps;
                const who = r.pick(r.p(0.93) ? ps2.filter((p) => !d.sl.includes(p)) : [...ps2, 'X']) ?? ps2[0];
                const ev = this.evidence(c2, ps2, d.votes.length && r.p(0.8) ? Math.max(0, c2.blocks.findIndex((b) => b.b.h === d.votes[0].b.h)) : 0);
                x = { op, who, ch, fork: f2, cc: d.cc, fin: ev.fin, lat: ev.lat, votes: ev.votes, proofs: Array.from({ length: r.weighted({ 0: 0.2, 1: 4, 2: 1.2, 3: 0.4 }) | 0 }, () => this.fix(this.proof(ch, f2, c2, ps2, d.ex ? d : null, ev, now, who))) };
                break;
            }
            case 'join': {
                const sub = r.pick(ps);
                const s = r.p(0.6) || !c.blocks.length ? G.st : r.pick(c.blocks).b.sh;
                x = { op, who: sub, a: { sjc: this.sjc(ch, now, ps), sub, fork, tc: c.blocks.length, psh: s }, sg: r.p(0.85) ? r.shuffle(ps) : this.signers(ps), st: s };
                break;
            }
            case 'leave': {
                const s = r.p(0.6) || !c.blocks.length ? G.st : r.pick(c.blocks).b.sh;
                x = { op, who: r.pick([...ps, 'X']), l: { ch, p: r.pick(r.p(0.9) ? ps : ['D', ...ps]), fork, tc: c.blocks.length, psh: s, dl: now + r.pick([-1, 0, 0, 1, 5]) }, sg: r.p(0.85) ? r.shuffle(ps) : this.signers(ps), st: s };
                break;
            }
        }
        if (op === 'create' && x.to !== '0' && r.p(0.8)) { // wait until the timeout is (just about) due
            const [p2p, agr, fb] = this.w.times;
            const base = x.fh !== 0 || x.votes.length ? x.votes[x.votes.length - 1]?.b.ts ?? 0 : G.ts;
            const due = (r.p(0.8) ? Math.max(base, ...(o.cl[ch][fork] ?? [0]).slice(0, x.fh + 1)) : r.pick([base, G.ts, ...(o.cl[ch][fork] ?? [])])) + p2p + agr + fb + r.weighted({ '-1': 1, 0: 3, 1: 1 }) * 1;
            if (due > now) { this.pending = signable(r.p(f.mut * 0.5) ? this.mutate(x, chs, now, c) : x); return { op: 'tick', dt: due - now }; }
        }
        if (r.p(0.06) && this.past?.length) x = structuredClone(r.pick(this.past)); // replays
        else if (r.p(f.mut)) x = this.mutate(x, chs, now, c);
        (this.past ??= []).push(x);
        return signable(x);
    }
    mutate(x, chs, now, c) {
        x = structuredClone(x);
        const r = this.r, leaves = [];
        const walk = (v, k, set, top) => {
            if (['st', 'fin', 'lat', 'sh', 'psh'].includes(k)) return leaves.push([k, v, set]);
            if (Array.isArray(v)) {
                leaves.push(['[]' + k, v, set]);
                v.forEach((e, i) => walk(e, k === 'sg' ? 's' : k + '.', (y) => (v[i] = y)));
            } else if (v && typeof v === 'object') for (const q of Object.keys(v)) walk(v[q], q, (y) => (v[q] = y));
            else if (!['op', 't', 'fn'].includes(k)) leaves.push([k, v, set]);
        };
        for (const q of Object.keys(x)) walk(x[q], q, (y) => (x[q] = y));
        // by kind of field first, so that the many fields inside blocks don't drown the rest
        const kinds = [...new Set(leaves.map((l) => l[0]))];
        const [k, v, set] = r.pick(leaves.filter((l) => l[0] === r.pick(kinds))) ?? r.pick(leaves);
        const states = [c.g, ...c.blocks.map((b) => b.b.sh), JUNK];
        if (['st', 'fin', 'lat'].includes(k)) set(r.p(0.7) ? r.pick(states) : v.k === 'ok' ? { ...v, n: v.n + 1 } : JUNK);
        else if (['sh', 'psh'].includes(k)) set(r.pick([ZERO, ...states]));
        else if (k === 'ch') set(r.pick(chs));
        else if (k === 's') set(r.pick(['A', 'B', 'C', 'X', 'D', 'bad', 'mal']));
        else if (['who', 'au', 'p', 'sub'].includes(k)) set(r.pick(['A', 'B', 'C', 'D', 'X']));
        else if (k === 'to') set(r.pick(['A', 'B', 'C', 'D', '0']));
        else if (k.startsWith('[]')) {
            const y = v.slice();
            const m = r.int(4);
            if (m === 0 && y.length) y.splice(r.int(y.length), 1);
            else if (m === 1 && y.length) y.splice(r.int(y.length), 0, structuredClone(r.pick(y)));
            else if (m === 2 && y.length > 1) { const i = r.int(y.length), j = r.int(y.length); [y[i], y[j]] = [y[j], y[i]]; }
            else if (k === '[]sg') y.push(r.pick(['A', 'B', 'C', 'X', 'bad', 'mal']));
            set(y);
        } else if (k.endsWith('ts') || k === 'dl') set(Math.max(0, r.p(0.5) ? v + r.pick([-1, 1]) : now + r.range(-6, 4)));
        else if (k === 'am') set(r.pick([7, 666, 777, 9]));
        else if (typeof v === 'number') set(Math.max(0, v + r.pick([-1, 1, 1])));
        return x;
    }
}
