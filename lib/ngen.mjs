// Random inputs for the connections of one client (spec/Network.tla)
import { AGR, WHO } from './network.mjs';

const BASE = { new: 8, open: 8, end: 3, dying: 1.5, leave: 0.6, dispose: 0.4, visit: 2, req: 10, resp: 24, offer: 5, answer: 6, ice: 5, mine: 5, join: 20, say: 6, junk: 4, tick: 8, members: 1, broken: 0.4, batch: 0.15 };
const JUNK = ['', 'null', '0', '[]', '{}', '"x"', '{"method":"onSignedBlock"}', '{"method":1,"params":[]}', '{"method":"constructor","params":[]}', '{"method":"nothing","params":[1]}', '{"method":"p2pManager","params":[]}',
    '{"method":"onSignedBlock","params":{}}', '{"method":"onSignedBlock","params":7}', '{"method":"onIceCandidate","params":[]}', '{"method":"onAnswerWebRTC","params":[null]}', '{"method":"onInitHandshakeRequest","params":[null,null]}',
    '{"method":"onJoinChannelRequest","params":[null]}', '{"method":"onJoinChannelRequest","params":[{"encodedJoinChannel":"0x12","signature":"0x"}]}', '{"method":"toString","params":[]}', '{"method":"__proto__","params":[]}',
    '{"method":"onBlockConfirmation","params":[{},"0x"]}', '{"method":"onCanJoinLeaderRequest","params":[]}', '{"method":"onCanJoinLeaderResponse","params":["0x",[]]}', '{"method":"rpcProxy","params":[]}', '{"method":"initHandshakeService","params":[]}', '{"method":"onSigned', '{"params":[],"method":"hasOwnProperty"}'];
export class NGen {
    constructor(r, profile) { this.r = r; this.f = { ...BASE, ...profile }; this.w = { ...this.f, batch: 0 }; this.n = 0; this.ts = {}; this.obs = null; this.rtcs = {}; this.jcs = []; this.now = 0; }
    begin() {
        const r = this.r;
        this.me = r.pick(['A', 'B', 'C']);
        this.members = this.team();
        this.skew = r.p(0.3) ? r.range(-3, 3) : 0;
        return { me: this.me, skew: this.skew, members: this.members, pref: r.p(0.45) ? 1 : 0 };
    }
    team() { const r = this.r; if (r.p(0.2)) return r.shuffle(['A', 'B', 'C', 'K']).slice(0, r.range(2, 4)); return r.p(0.2) ? ['A', 'B', 'C'].filter((x) => x !== this.me || r.p(0.5)).slice(0, r.range(1, 3)) : r.p(0.5) ? ['A', 'B', 'C'] : [...new Set([this.me, r.pick(['A', 'B', 'C'])])]; }
    get clock() { return this.now + this.skew; }
    open() { return Object.values(this.ts).filter((t) => !this.obs?.closed.includes(t.t) && !t.gone); }
    live() { return this.open().filter((t) => this.obs?.conns.includes(t.t)); }
    // a connection on which something can arrive
    some() {
        const all = Object.values(this.ts).filter((t) => t.kind === 0 || !this.obs?.closed.includes(t.t)), o = this.open();
        return o.length && this.r.p(0.93) ? this.r.pick(o) : all.length ? this.r.pick(all) : null;
    }
    who(t) { return this.obs?.by.find((x) => x[0] === t)?.[1]; }
    as() { return this.r.pick(['buffer', 'buffer', 'bytes', 'text']); }
    at() { const r = this.r; return this.clock + (r.p(0.7) ? r.range(-1, 1) : r.range(-AGR - 2, AGR + 2)); }
    make(k) {
        const r = this.r;
        switch (k) {
            case 'new': { if (this.open().length > 4) return null; const t = 't' + ++this.n; this.ts[t] = { t, kind: 0, id: r.pick(['A', 'B', 'C', 'J', 'B', 'C'].filter((x) => x !== this.me || r.p(0.1))) }; return { k, t }; }
            case 'open': {
                const c = Object.entries(this.rtcs).filter(([, q]) => q.ready && !q.used);
                if (!c.length) return null;
                const [n, q] = r.pick(c);
                q.used = true;
                const t = 'r' + n;
                this.ts[t] = { t, kind: 1, id: r.p(0.85) ? this.ts[q.t].id : r.pick(WHO) };
                return { k, t, c: Number(n) };
            }
            case 'end': { const o = this.open(); if (!o.length || (o.length < 2 && r.p(0.6))) return null; const t = r.pick(o); return { k, t: t.t }; }
            case 'dying': { const o = this.live().filter((t) => t.kind === 1); if (!o.length) return null; return { k, t: r.pick(o).t }; }
            case 'leave': case 'dispose': return r.p(0.5) || this.now > 6 ? { k } : null;
            case 'visit': return { k, topic: r.pick(['c1', 'c2', 'c3']) };
            case 'req': { const t = this.some(); if (!t) return null; const own = Object.keys(this.ts).filter((x) => x !== undefined); return { k, t: t.t, x: r.p(0.08) ? 'bad' : r.p(0.15) && own.length ? r.pick(own) : 'q' + ++this.n, at: this.at(), as: this.as() }; }
            case 'resp': {
                const fresh = this.open().filter((t) => !this.who(t.t));
                const t = fresh.length && r.p(0.7) ? r.pick(fresh) : this.some();
                if (!t) return null;
                const others = Object.keys(this.ts);
                return { k, t: t.t, s: r.p(0.05) ? 'bad' : r.p(0.85) ? t.id : r.pick(WHO), over: r.p(0.88) ? t.t : r.pick(others), at: this.at(), pref: r.p(0.35) ? 1 : 0, as: this.as() };
            }
            case 'offer': { const t = this.known() ?? this.some(); if (!t) return null; return { k, t: t.t, o: r.p(0.1) ? 'refused' : r.p(0.1) ? 'stuck' : 'o' + r.range(50, 60), as: this.as() }; }
            case 'answer': { const w = Object.values(this.rtcs).filter((q) => q.ours).map((q) => this.ts[q.t]).filter((t) => this.some() && !this.obs.closed.includes(t.t)); const t = w.length && r.p(0.7) ? r.pick(w) : this.known() ?? this.some(); if (!t) return null; return { k, t: t.t, o: r.p(0.1) ? 'bad' : r.p(0.1) ? 'refused' : 'a' + r.range(50, 60), as: this.as() }; }
            case 'ice': { const t = this.known() ?? this.some(); if (!t) return null; return { k, t: t.t, o: r.p(0.1) ? 'bad' : r.p(0.1) ? 'refused' : 'i' + r.range(50, 60), as: this.as() }; }
            case 'mine': { const c = Object.entries(this.rtcs).filter(([, q]) => q.ready && this.who(q.t) && this.obs.conns.includes(q.t)); if (!c.length) return null; const [n, q] = r.pick(c); return { k, c: Number(n), o: 'm' + r.range(1, 9) }; }
            case 'join': return this.join();
            case 'say': { const l = this.live(); if (r.p(0.5) || !l.length) return { k, to: ['*'], m: 'm' + ++this.n }; return { k, to: r.p(0.5) ? [r.pick(l).t] : l.filter(() => r.p(0.6)).map((x) => x.t).concat([r.pick(l).t]).filter((x, i, a) => a.indexOf(x) === i), m: 'm' + ++this.n }; }
            case 'junk': { const t = this.some(); return t ? { k, t: t.t, text: r.pick(JUNK), as: this.as() } : null; }
            case 'broken': return { k, on: (this.brk = !this.brk) };
            case 'members': return { k, to: this.team() };
            case 'tick': return { k, dt: r.p(0.7) ? 1 : r.range(2, 5) };
        }
    }
    known() { const o = this.open().filter((t) => this.who(t.t)); return o.length && this.r.p(0.85) ? this.r.pick(o) : null; }
    join() {
        const r = this.r, t = this.some();
        if (!t) return null;
        let q = this.jcs.length && r.p(0.72) ? r.pick(this.jcs) : null;
        if (!q) {
            const p = r.pick(['J', 'J', 'K', 'B']);
            const dl = r.p(0.08) ? 3000000 + r.int(50) : this.clock + (r.p(0.12) ? r.range(-1, 1) : r.range(2, 14));
            q = { jc: { p, n: 1 + r.int(2), dl }, s: r.p(0.9) ? p : r.pick(['A', 'B', 'C', 'K', 'bad']) };
            this.jcs.push(q);
        }
        const m = ['A', 'B', 'C'];
        const cs = r.p(0.25) ? '-' : r.p(0.06) ? 'bad' : r.p(0.1) ? r.pick(['J', 'K']) : r.pick(this.members.length && r.p(0.5) ? this.members : m) + (r.p(0.15) ? '2' : '');
        return { k: 'join', t: t.t, jc: q.jc, s: r.p(0.06) ? r.pick(['A', 'B', 'J', 'K', 'bad']) : q.s, cs, as: this.as() };
    }
    next() {
        const r = this.r;
        if (!Object.keys(this.ts).length) return this.make('new');
        for (; ;) {
            if (this.obs && r.p(this.f.batch)) {
                const is = [];
                for (let i = 0, n = r.range(2, 3); i < n; i++) { const x = this.make(r.weighted({ req: this.f.req, resp: this.f.resp, answer: this.f.answer, ice: this.f.ice, join: this.f.join, junk: this.f.junk, end: this.f.end, offer: this.f.offer })); if (x) is.push(x); }
                if (is.length > 1) return { k: 'batch', is };
                continue;
            }
            const x = this.make(r.weighted(this.w));
            if (x) return x;
        }
    }
    saw(line) {
        this.obs = line.obs;
        if (line.i.k === 'tick') this.now += line.i.dt;
        if (line.i.k === 'members') this.members = line.i.to;
        for (const { m } of line.outs) if (m.m.k === 'offer') this.rtcs[m.m.c] = { t: m.to, ours: true, ready: true }; else if (m.m.k === 'answer') this.rtcs[m.m.c] = { t: m.to, ready: true };
    }
}
