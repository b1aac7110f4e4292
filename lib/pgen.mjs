// Random histories for the clients: what peers, other participants, the chain and time may do to them.
// Real clients only ever sign what they sign themselves; the harness plays the other participants,
// honest or not. The generator decides nothing - what each input must do is decided by spec/Peer.tla.
import { key } from './man.mjs';
import { CH } from './peer.mjs';
import { STORIES } from './scripts.mjs';

const P2P = 2, W = 4;
export const nextOf = (s) => (s.ps.length ? s.ps[s.n % s.ps.length] : '0');
export function exec(s, b) {
    if (b.au !== nextOf(s)) return null;
    const up = (d) => ({ ...s, n: s.n + d });
    switch (b.op) {
        case 'add0': return up(0);
        case 'add1': case 'noisy': return up(1);
        case 'add2': return up(2);
        case 'quit': { const i = s.ps.indexOf(b.au); return { ...up(1), ps: s.ps.filter((_, j) => j !== i), am: s.am.filter((_, j) => j !== i) }; }
        case 'stamp': return { ...up(1), m: [{ ch: b.ch, au: b.au, fork: b.fork, h: b.h, ts: b.ts }] };
        default: return null;
    }
}
export const PROFILE = { peers: 0.5, play: 12, good: 14, near: 8, past: 5, ahead: 6, deliver: 14, conf: 12, again: 5, event: 16, tick: 8, fire: 8, chain: 5, batch: 0.08, junk: 0.4, skew: 0.3, lossy: 0.15,
    timeout: 4, stale: 4, slash: 3, chal: 4, post: 5, leave: 2, join: 1.5, postbad: 2, quit: 0.6, waitEv: 0.25,
    story: 0.05, stories: { early: 1, latepost: 1, liars: 0.5, unsigned: 1, confirm: 1, late: 1, stranger: 0.5, war: 1, refold: 0.4, fork: 1.5, misses: 1, edges: 0.7, game: 1 } };

export class PGen {
    constructor(r, net, profile = {}) {
        this.r = r; this.net = net; this.f = { ...PROFILE, ...profile };
        this.said = []; // messages anybody has said
        this.box = {}; this.cursor = {}; this.obs = {}; this.chain = null;
        this.dead = new Set();
    }
    // -> the peers and the opening
    begin() {
        const r = this.r;
        const ps = r.shuffle(['A', 'B', 'C']).slice(0, this.f.n ?? r.weighted({ 1: 0.3, 2: 3, 3: 6 }));
        this.real = r.p(this.f.peers) ? r.shuffle(ps).slice(0, Math.min(ps.length, 2)) : [r.p(0.93) ? ps[0] : 'C'];
        if (r.p(this.f.all ?? 0)) this.real = ps.slice();
        const now = 20 + r.int(5);
        const peers = this.skews = Object.fromEntries(this.real.map((p) => [p, r.p(this.f.skew) ? r.pick([-3, -1, 1, 2, 6, -7, 12]) : 0]));
        for (const p of this.real) { this.box[p] = []; this.cursor[p] = 0; }
        this.moody = r.p(this.f.moody ?? 0.12) ? 1 + r.int(2) : 0;
        return { now, peers, open: { op: 'open', ch: CH, st: { k: 'ok', n: r.int(3), ps, am: ps.map((_, i) => 10 * (i + 1) + r.int(5)), m: [] } } };
    }
    isReal(n) { return this.real.includes(n); }
    saw(line) {
        if (line.ch) this.chain = line.ch;
        if (line.p === '-') return;
        this.obs[line.p] = line.obs;
        for (const o of line.outs) {
            if (typeof o.m.b !== 'object') continue;
            this.said.push(o.m);
            for (const q of this.real) if (q !== line.p) this.box[q].push(o.m);
        }
    }
    block(fork, h, au, ts, op, psh) {
        const b = { ch: CH, fork, h, au, ts, op, psh };
        b.sh = exec(psh, b) ?? psh;
        return b;
    }
    op() { return this.r.weighted({ add1: 6, noisy: 0.5, add2: 2, stamp: 2, add0: 2, quit: this.f.quit }); }
    fork(o) { return o.forks[o.fork]; }
    ts(F, h) {
        const r = this.r, now = this.net.world.now, hi = Math.max(F.lt, F.cl[Math.min(h, 3)] ?? 0) + P2P;
        return r.p(0.75) ? Math.min(Math.max(now, F.lt), hi) : F.lt + r.int(hi - F.lt + 1);
    }
    // what the next author could say, or undefined when that's a real client
    good(o) {
        const F = this.fork(o);
        if (!F || o.sm.k !== 'ok') return;
        const au = nextOf(o.sm);
        if (this.isReal(au) || au === '0' || au.startsWith?.('?')) return;
        return this.block(o.fork, o.next, au, this.ts(F, o.next), this.op(), o.sm);
    }
    // valid blocks on top of each other, by the harness' participants
    ahead(o) {
        const r = this.r, out = [];
        const F = this.fork(o);
        if (!F) return out;
        let s = o.sm, h = o.next, ts = F.lt;
        const now = this.net.world.now;
        for (let n = 1 + r.int(4); n > 0; n--) {
            const au = nextOf(s);
            if (this.isReal(au) || au === '0') break;
            const ops = ['add1', 'add2', 'add0', 'stamp'].filter((op) => { const b = this.block(o.fork, h, au, ts, op, s); return n === 1 || !this.isReal(nextOf(b.sh)); });
            if (!ops.length) break;
            ts = Math.max(ts, Math.min(now, ts + r.int(3)));
            const b = this.block(o.fork, h, au, ts, r.pick(ops), s);
            out.push(b);
            s = b.sh; h++;
        }
        return out;
    }
    harness(o) { const F = this.fork(o); const c = (F ? F.pkgps ?? o.ps : []).concat(['A', 'B', 'C']).filter((p) => !this.isReal(p)); return c.length ? c : ['X']; }
    // a block close to a good one
    near(o, kind) {
        const r = this.r, F = this.fork(o);
        if (!F) return;
        const liars = [...new Set([...o.ps, 'A', 'B', 'C'])].filter((p) => !this.isReal(p));
        if (!liars.length) liars.push('X');
        let b = this.good(o) ?? this.block(o.fork, o.next, r.pick(liars), this.ts(F, o.next), this.op(), o.sm);
        b = { ...b };
        let s = b.au;
        const now = this.net.world.now;
        switch (kind ?? r.weighted({ author: 2, ts: 5, sh: 3, psh: 2, fork: 1.5, h: 1.5, ch: 0.7, op: 3, sig: 2, outsider: 1 })) {
            case 'author': b.au = s = r.pick(liars); break;
            case 'outsider': b.au = s = r.pick(['X', 'D']); break;
            case 'ts': {
                const hi = Math.max(F.lt, F.cl[Math.min(o.next, 3)] ?? 0) + P2P;
                b.ts = r.pick([F.lt - 1, F.lt, hi, hi + 1, hi + 2, now + 11, now + 10, now - 6, now - 5, now + 1, 0, F.lt + 1, hi - 1]);
                if (b.ts < 0) b.ts = 0;
                b.sh = exec(b.psh, b) ?? b.psh; break;
            }
            case 'sh': b.sh = r.pick([b.psh, { ...b.sh, n: b.sh.n + 1 }, { ...b.sh, am: b.sh.am.map((x) => x + 1) }, { k: 'zero', n: 0, ps: [], am: [], m: [] }]); break;
            case 'psh': { const q = r.pick([{ ...b.psh, n: b.psh.n + 1 }, F.g, ...F.ag.map((a) => a.st)]); b.psh = q; b.sh = r.p(0.5) ? b.sh : exec(q, b) ?? q; break; }
            case 'fork': b.fork = Math.max(0, b.fork + r.pick([-1, 1, 1, 2])); b.sh = exec(b.psh, b) ?? b.psh; break;
            case 'h': b.h = Math.max(0, b.h + r.pick([-1, 1, 1, 2])); b.sh = exec(b.psh, b) ?? b.psh; break;
            case 'ch': b.ch = 'c2'; b.sh = exec(b.psh, b) ?? b.psh; break;
            case 'op': b.op = r.pick(['boom', 'silent', 'custom', 'unknown', 'reenter']); b.sh = r.p(0.6) ? b.psh : b.sh; break;
            case 'sig': s = r.pick(['bad', 'mal', 'X', ...liars, b.au + '2']); break;
        }
        if (this.isReal(b.au) && !this.knows(o, b)) b.au = s = r.pick(liars);
        if (s !== 'bad' && s !== 'mal' && this.isReal(s[0]) ) s = b.au;
        return { b, s };
    }
    knows(o, b) { return o.forks.some((F) => F.ag.some((a) => key(a.b) === key(b))); }
    // a block for a height that is agreed already
    past(o, now) {
        const r = this.r, F = this.fork(o);
        if (!F || !F.ag.length) return;
        const a = r.pick(F.ag);
        const liars = [...new Set([...o.ps, 'A', 'B', 'C'])].filter((p) => !this.isReal(p));
        if (!liars.length) return;
        const au = this.isReal(a.b.au) || r.p(0.35) ? r.pick(liars) : a.b.au;
        const prev = a.b.psh;
        const b = { ...a.b, au };
        switch (r.weighted({ same: 1, op: 3, ts: 3, psh: 1, sh: 2 })) {
            case 'op': b.op = r.p(0.4) ? (b.op === 'add1' ? 'noisy' : 'add1') : this.op(); b.sh = exec(prev, b) ?? prev; break; // the same outcome, or another
            case 'ts': b.ts = a.b.ts + r.pick([1, -1, 2]); b.sh = exec(prev, b) ?? prev; break;
            case 'psh': b.psh = { ...prev, n: prev.n + 1 }; b.sh = exec(b.psh, b) ?? b.psh; break;
            case 'sh': b.sh = { ...a.b.sh, n: a.b.sh.n + 1 }; break;
        }
        if (now && r.p(0.8)) { b.ts = this.net.world.now - r.int(2); b.sh = exec(prev, b) ?? prev; } // could be published
        if (b.ts < 0) b.ts = 0;
        if (this.isReal(b.au)) return;
        return { b, s: b.au };
    }
    cs(o, b) {
        const r = this.r;
        const c = ['A', 'B', 'C'].filter((p) => !this.isReal(p));
        const own = this.real.filter((p) => o.forks.some((F) => F.ag.some((a) => key(a.b) === key(b) && a.sg.includes(p))));
        return r.weighted({ ok: 10, two: 1.5, own: 1, x: 0.7, mal: 0.7 }) === 'ok' ? r.pick(c.length ? c : ['X']) : r.pick([...c.map((p) => p + '2'), ...own, 'X', 'mal']);
    }
    // a message for peer p
    message(p) {
        const r = this.r, o = this.obs[p];
        const kinds = { good: this.f.good, near: this.f.near, past: this.f.past, ahead: this.f.ahead, deliver: this.box[p].length ? this.f.deliver : 0, conf: this.f.conf, again: this.said.length ? this.f.again : 0 };
        const blk = (b, s = b.au) => { const m = { k: 'blk', b, s }; this.said.push(m); return m; };
        switch (r.weighted(kinds)) {
            case 'good': { const b = this.good(o); return b && blk(b, r.p(0.1) ? b.au + '2' : b.au); }
            case 'near': { const x = this.near(o); return x && blk(x.b, x.s); }
            case 'past': { const x = this.past(o); return x && blk(x.b, x.s); }
            case 'ahead': {
                const bs = this.ahead(o);
                if (!bs.length) return;
                const ms = bs.map((b) => blk(b));
                for (const b of bs) if (r.p(0.5)) ms.push({ k: 'conf', b, s: b.au, cs: this.cs(o, b) });
                const sh = r.p(0.8) ? r.shuffle(ms) : ms;
                this.box[p].push(...sh.slice(1));
                return sh[0];
            }
            case 'deliver': {
                const bx = this.box[p];
                const i = r.p(0.6) ? 0 : r.int(bx.length);
                const m = bx[i];
                if (!r.p(0.15)) bx.splice(i, 1);
                if (r.p(this.f.lossy)) return;
                return m;
            }
            case 'conf': {
                const F = this.fork(o);
                const c = [...(F ? F.ag.slice(-3).map((a) => ({ b: a.b, s: a.sg[0] })) : []), ...this.said.slice(-4).filter((m) => m.b)];
                if (!c.length) return;
                const m = r.pick(c);
                const s = r.p(0.93) ? m.s : r.pick(['bad', 'mal', m.b.au + (this.isReal(m.b.au) ? '' : '2')]);
                const out = { k: 'conf', b: m.b, s, cs: this.cs(o, m.b) };
                this.said.push(out);
                return out;
            }
            case 'again': return r.pick(r.p(0.7) ? this.said.slice(-8) : this.said);
        }
    }
    safe(m) { // never a block of a real client that it didn't author, nor own confirmations it didn't give
        return m;
    }
    // an event of the chain for peer p
    event(p) {
        const r = this.r, logs = this.net.logs;
        const mine = (l) => l.args.channelId === this.net.world.chid[CH];
        while (this.cursor[p] < logs.length && !mine(logs[this.cursor[p]])) this.cursor[p]++;
        if (this.cursor[p] < logs.length && r.p(0.9)) {
            const next = logs[this.cursor[p]];
            if (r.p(0.93)) this.cursor[p]++;
            return this.net.evInput(next);
        }
        const c = logs.filter(mine);
        return c.length ? this.net.evInput(r.pick(c)) : undefined;
    }
    // the next event that p has not seen
    pending(p, peek) {
        const logs = this.net.logs, mine = (l) => l.args.channelId === this.net.world.chid[CH];
        while (this.cursor[p] < logs.length && !mine(logs[this.cursor[p]])) this.cursor[p]++;
        if (this.cursor[p] >= logs.length) return;
        const e = logs[this.cursor[p]];
        if (!peek) this.cursor[p]++;
        return this.net.evInput(e);
    }
    stale(who, o) { return this.chainOp('stale', undefined, who); }
    junk() {
        const r = this.r;
        return { k: 'junk', raw: r.pick(['', '{', 'null', '[]', '{}', '{"method":"onSignedBlock"}', '{"method":"onSignedBlock","params":[]}', '{"method":"onSignedBlock","params":[null]}', '{"method":"onSignedBlock","params":[{"encodedBlock":"0x12","signature":"0x"}]}', '{"method":"onSignedBlock","params":[{"encodedBlock":5,"signature":{}}]}', '{"method":"onBlockConfirmation","params":[{"encodedBlock":"0x"},"0x"]}', '{"method":"toString","params":[]}', '{"method":"constructor","params":[]}', '{"method":"nothing","params":[1]}', '{"method":5,"params":{}}', '{"params":[]}', '{"method":"onSignedBlock","params":{"length":3}}', '"onSignedBlock"', '{"method":"onCanJoinLeaderRequest","params":[[]]}', '{"method":"onJoinChannelRequest","params":[{"encodedJoinChannel":"0x","signature":"0x"}]}']) };
    }
    // something on the chain, by the harness' participants
    chainOp(kind, pp, by1, at) {
        const r = this.r, net = this.net, now = net.world.now, c = this.chain;
        kind ??= r.weighted({ timeout: this.f.timeout, stale: this.f.stale, slash: this.f.slash, chal: c.dp[CH].ex ? this.f.chal * 2 : 0, post: this.f.post, postbad: this.f.postbad, leave: this.f.leave, join: this.f.join });
        const p = pp ?? r.pick(this.real), o = this.obs[p];
        const forks = c.forks[CH], D = c.dp[CH];
        // what is refused for being too early or too late mostly isn't tried
        if (D.ex && ['timeout', 'stale', 'slash'].includes(kind) && now <= D.dl && r.p(0.85)) { if (now === D.dl || r.p(0.5)) return; kind = 'chal'; }
        if (kind === 'chal' && (!D.ex || now >= D.dl) && r.p(0.9)) return;
        const f = kind === 'chal' ? D.fork : forks.length - 1, G = forks[f];
        const actors = ['A', 'B', 'C'].filter((x) => !this.isReal(x));
        // mostly somebody who may
        const able = actors.filter((x) => G.st.k === 'ok' && G.st.ps.includes(x) && !(D.ex && D.sl.includes(x)));
        if (!by1 && !able.length && ['timeout', 'stale', 'slash', 'chal'].includes(kind) && r.p(0.9)) return;
        let who = by1 ?? r.pick(able.length && r.p(0.85) ? able : actors.length ? actors : ['X']);
        const F = o?.forks[f];
        const ag = F ? F.ag : [];
        const others = () => actors.filter((x) => x !== who);
        // a package: the blocks from j to i of what a client knows
        const pack = (i, j = 0) => (i <= 0 ? { fin: G.st, lat: G.st, votes: [] } : { fin: j === 0 ? G.st : ag[j].st, lat: ag[i - 1].st, votes: ag.slice(j, i).map((a) => ({ b: a.b, sg: [...new Set(a.sg.map((s) => s[0]))].concat(a.sg.includes(who) || this.isReal(who) ? [] : r.p(0.5) ? [who] : []).filter((x, q, z) => z.indexOf(x) === q) })) });
        const uniq = (x) => x.filter((q, i, z) => z.indexOf(q) === i);
        // the one that the client would post, perhaps with more signatures
        const theirs = () => { if (!F || F.pkg.lat.k !== 'ok') return pack(0); const K = F.pkg; return { fin: K.fin, lat: K.lat, votes: K.votes.map((v) => ({ b: v.b, sg: uniq(v.sg.map((t) => t[0]).concat(r.p(0.4) ? [who] : [])) })) }; };
        const accused = () => { const x = others().filter((y) => able.includes(y)); return x.length && r.p(0.95) ? r.pick(x) : r.p(0.9) ? undefined : others().length ? r.pick(others()) : who; };
        switch (kind) {
            case 'timeout': {
                const k = pack(at !== undefined ? Math.min(at, ag.length) : r.p(0.8) ? ag.length : r.int(ag.length + 1));
                const to = k.lat.k === 'ok' ? nextOf(k.lat) : '0';
                if (who === to && r.p(0.9)) { const x = able.filter((y) => y !== to); if (!x.length) return; who = r.pick(x); }
                const h = k.votes.length, left = Math.max(h ? ag[h - 1].b.ts : F?.lt && !ag.length ? F.lt : G.ts ?? 0, F?.cl[Math.min(h, 3)] ?? 0) + W - now;
                if (left > 0 && r.p(0.85)) return { op: 'tick', dt: left };
                const odd = r.p(at === undefined ? 0.12 : 0.05);
                return { op: 'create', who, ch: CH, fork: f, ...k, to: odd ? r.pick(['A', 'B', 'C', '0', 'X']) : to, fh: odd ? Math.max(0, h + r.pick([-1, 0, 1])) : h, proofs: [] };
            }
            case 'stale': case 'slash': {
                const k = r.p(0.25) ? theirs() : pack(r.p(0.4) ? 0 : r.int(ag.length + 1));
                const by = accused();
                if (!by) return;
                const b = this.block(f, r.p(0.5) ? k.votes.length : r.int(3), by, now + 1 + r.int(3), 'add1', k.lat.k === 'ok' ? k.lat : G.st);
                return { op: 'create', who, ch: CH, fork: f, ...k, to: '0', fh: 0, proofs: [{ t: 'fut', b, s: by }] };
            }
            case 'chal': {
                const k = r.p(0.65) ? theirs() : pack(r.p(0.6) ? ag.length : r.int(ag.length + 1));
                const by = accused();
                const proofs = [];
                const last = k.votes[k.votes.length - 1];
                if (D.to !== '0' && ag[D.fh] && r.p(0.8)) proofs.push({ t: 'rech', b: ag[D.fh].b, sg: [...new Set([...ag[D.fh].sg.map((s) => s[0]), ...actors])] });
                if (by && (r.p(0.6) || !proofs.length)) proofs.push({ t: 'fut', b: this.block(f, r.int(3), by, now + 1 + r.int(4), 'add1', G.st), s: by });
                if (last && !this.isReal(D.psd) && r.p(0.3)) proofs.push({ t: 'new', b: last.b, s: D.psd === '0' ? 'X' : D.psd });
                if (!proofs.length) return;
                return { op: 'chal', who, ch: CH, fork: D.fork, cc: D.cc, proofs, ...k };
            }
            case 'post': case 'postbad': {
                let x;
                if (r.p(0.45)) { const b = o && this.good(o); x = b && { b, s: b.au }; }
                else if (r.p(0.5)) { const q = this.said.filter((m) => m.k === 'blk' && !this.isReal(m.b.au) && m.b.ts <= now && m.b.ts >= now - W && m.b.ch === CH); x = q.length ? { b: r.pick(q.slice(-6)).b } : undefined; }
                else x = o && (r.p(0.5) ? this.near(o) : this.past(o));
                if (!x || this.isReal(x.b.au) || x.b.au === '0') return;
                if (x.b.ch !== CH) return;
                return { op: 'post', who: x.b.au, b: x.b, s: x.b.au };
            }
            case 'leave': {
                if (G.st.k !== 'ok' || G.st.ps.length < 2) return;
                const st = r.p(0.6) && ag.length ? ag[ag.length - 1].st : G.st;
                const p = r.pick(st.ps.length ? st.ps : G.st.ps);
                return { op: 'leave', who, l: { ch: CH, p, fork: f, tc: 0, psh: st, dl: now + 1 }, sg: G.st.ps, st };
            }
            case 'join': {
                if (G.st.k !== 'ok' || !G.st.ps.length) return;
                const st = r.p(0.6) && ag.length ? ag[ag.length - 1].st : G.st;
                const n = ['A', 'B', 'C', 'D'].filter((x) => !G.st.ps.includes(x) && !st.ps.includes(x));
                if (!n.length) return;
                const jc = { ch: CH, p: r.pick(n), am: 7, dl: now + 1 };
                const sub = r.pick(G.st.ps);
                return { op: 'join', who: sub, a: { sjc: { jc, s: jc.p }, sub, fork: f, tc: 0, psh: st }, sg: G.st.ps, st };
            }
        }
    }
    // -> [peer or '-', input]
    next() {
        const r = this.r;
        if (!this.story && this.chain && r.p(this.f.story)) {
            const p = r.pick(this.real);
            if (this.obs[p] && this.fork(this.obs[p])) this.story = STORIES[r.weighted(this.f.stories)](this, p, r);
        }
        if (this.story && r.p(0.93)) {
            const x = this.story.next();
            if (x.done) this.story = null;
            else if (x.value && x.value[1]) return x.value;
        }
        for (let tries = 0; tries < 40; tries++) {
            const p = r.pick(this.real), o = this.obs[p];
            const pendingEv = this.net.logs.length > this.cursor[p];
            switch (r.weighted({ msg: o ? 36 : 8, play: this.f.play, event: pendingEv ? this.f.event * 2 : 1.2, tick: this.f.tick, fire: this.f.fire, chain: this.chain ? this.f.chain : 0, junk: this.f.junk })) {
                case 'msg': {
                    if (!o) { // nothing is known yet
                        const b = this.block(0, r.int(2), r.pick(['A', 'B', 'C'].filter((x) => !this.isReal(x))) ?? 'X', this.net.world.now, 'add1', this.open.st);
                        return [p, r.p(0.6) ? { k: 'blk', b, s: b.au } : { k: 'conf', b, s: b.au, cs: 'B2' }];
                    }
                    if (r.p(this.f.batch)) {
                        const is = [];
                        for (let q = 0; q < 8 && is.length < 2 + (r.p(0.3) ? 1 : 0); q++) { const m = r.p(0.75) ? this.message(p) : r.p(0.5) ? { k: 'play', o: this.op() } : this.event(p); if (m && !(m.k === 'play' && is.some((x) => x.k === 'play'))) is.push(m); }
                        if (is.length > 1) return [p, { k: 'batch', is }];
                        continue;
                    }
                    const m = this.message(p);
                    if (!m) continue;
                    return [p, m];
                }
                case 'play': {
                    if (o && nextOf(o.sm) !== p && !r.p(0.1)) continue;
                    return [p, { k: 'play', o: r.p(0.9) ? this.op() : r.pick(['boom', 'silent', 'custom', 'unknown', 'reenter']) }];
                }
                case 'event': { const e = this.event(p); if (!e) continue; return [p, e]; }
                case 'tick': return ['-', { k: 'chain', o: { op: 'tick', dt: 1 + r.int(r.p(0.15) ? 6 : 2) } }];
                case 'fire': return [p, { k: 'fire' }];
                case 'chain': { const x = this.chainOp(); if (!x) continue; return ['-', { k: 'chain', o: x }]; }
                case 'junk': return [p, this.junk()];
            }
        }
        return ['-', { k: 'chain', o: { op: 'tick', dt: 1 } }];
    }
}
