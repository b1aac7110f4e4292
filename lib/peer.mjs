// Real off-chain clients of /repo/src around the real contracts (lib/man.mjs), in the vocabulary of
// spec/Peer.tla. Everything goes through the ways the outside world has: RPC messages, contract
// events, transactions of the user, timers. Net.step(input) gives one input to one peer, lets it
// come to rest, and returns what it sent, called, changed and shows.
import { instance, ethers } from './ts.mjs';
import { World, key, T0, NAMES } from './man.mjs';
import { link } from './sol.mjs';

const idle = () => new Promise((r) => setImmediate(r));
const pick = (o, ...names) => { for (const n of names) if (typeof o?.[n] === 'function') return o[n].bind(o); return null; };
export const CH = 'c1';

export class Peer {
    static async create(net, name, skew) {
        const p = new Peer();
        Object.assign(p, { net, name, skew, due: [], timers: new Map(), seq: 0, sent: [[], []], hooks: [], events: [], handlers: [], pending: 0, unhandled: [], topics: [] });
        const w = net.world;
        class VDate extends Date {
            constructor(...a) { if (a.length) super(...a); else super(net.ms); }
            static now() { return net.ms; }
        }
        const st = (fn, ms, ...args) => {
            const id = { unref() { return id; }, ref() { return id; }, hasRef: () => true };
            const zero = !(ms > 0);
            p.timers.set(id, { at: net.ms + (zero ? 0 : Number(ms)), zero, seq: p.seq++, fn: () => fn(...args) });
            return id;
        };
        p.inst = await instance({ setTimeout: st, clearTimeout: (id) => p.timers.delete(id), Date: VDate, setInterval: () => ({}), clearInterval() {},
            Hyperswarm: { removeAllListeners() {}, on() {}, join(t) { p.topics.push(Buffer.from(t).toString('hex')); return {}; }, leave() {} } });
        const me = w.addr[name];
        const signer = {
            provider: { getBlock: async () => ({ number: 1, timestamp: Number(w.chain.time) + skew }) },
            getAddress: async () => me,
            signMessage: async (m) => {
                const d = ethers.hashMessage(m), s = w.signRaw(name, d);
                net.ptok.set(s, name);
                if (!w.sigTok.has(s)) w.sigTok.set(s, name);
                return s;
            },
            connect() { return this; }, getNonce: async () => 0
        };
        p.smStub = { interface: new ethers.Interface(w.arts.vsm.abi), connect() { return this; }, emit(n, ...a) { p.events.push([n, a]); }, removeAllListeners() { p.deaf = true; } };
        const hook = (n) => (...a) => {
            p.hooks.push([n, ...a]);
            // a user's hook may go wrong
            if (net.moody === 1) throw new Error('a hook of the user: ' + n);
            if (net.moody === 2) return Promise.reject(new Error('a hook of the user: ' + n));
        };
        const hooks = Object.fromEntries(['onConnection', 'onTurn', 'onSetState', 'onPostingCalldata', 'onPostedCalldata', 'onInitiatingDispute', 'onDisputeUpdate'].map((n) => [n, hook(n)]));
        const deploy = { data: link(w.arts.vsm, { StateChannelUtilLibrary: w.lib.address }) };
        p.p2p = await p.inst.EvmStateMachine.p2pSetup(signer, deploy, p.contract(me), p.smStub, hooks);
        p.man = p.p2p.p2pSigner.p2pManager;
        p.sm = p.man.stateManager;
        p.transports = [0, 1].map((i) => ({ transportType: 'HOLEPUNCH', isClosed: false, send(s) { p.sent[i].push(s); }, onMessage() {}, close() { this.isClosed = true; } }));
        for (const t of p.transports) p.man.addConnection(t);
        if (net.connect !== false) await p.p2p.p2pSigner.connectToChannel(w.chid[CH]);
        await p.rest();
        p.take();
        return p;
    }
    contract(me) {
        const p = this, w = this.net.world, mgr = w.mgr;
        const view = (fn) => async (...a) => p.busy(async () => { const x = await mgr.tryCall(fn, a); if (!x.ok) throw Object.assign(new Error('reverted ' + fn), { code: 'CALL_EXCEPTION' }); return x.value; });
        const tx = (fn) => async (...a) => {
            const n = mgr.iface.getFunction(fn).inputs.length;
            a = a.slice(0, n);
            return p.busy(async () => {
                const data = mgr.iface.encodeFunctionData(fn, a);
                const r = await p.net.transact(me, fn, data);
                if (!r.ok) throw Object.assign(new Error('execution reverted: ' + (r.reason ?? r.error)), { code: 'CALL_EXCEPTION' });
                return { hash: '0x' + '11'.repeat(32), wait: async () => ({ status: 1 }) };
            });
        };
        const filter = (n) => (id) => ({ verif: n, id: ethers.hexlify(id) });
        const c = {
            interface: mgr.iface, target: mgr.address, runner: null, getAddress: async () => mgr.address,
            connect() { return c; },
            filters: { SetState: filter('SetState'), BlockCalldataPosted: filter('BlockCalldataPosted'), DisputeUpdated: filter('DisputeUpdated') },
            // as ethers does it, which looks the filter up first
            on: async (f, cb) => { await null; await null; p.handlers.push({ f, cb }); return c; },
            off: async (f, cb) => { await null; await null; p.handlers = p.handlers.filter((h) => !(h.f.verif === f.verif && h.f.id === f.id && (!cb || cb === h.cb))); return c; }
        };
        for (const f of ['getAllTimes', 'getDispute', 'getChainLatestBlockTimestamp', 'getBlockCallData', 'getForkCnt', 'getLatestState', 'isChannelOpen', 'isDisputeInProgress', 'getParticipants', 'getNextToWrite', 'getGenesisTimestamp', 'isGenesisState']) c[f] = view(f);
        for (const f of ['createDispute', 'challengeDispute', 'postBlockCalldata']) c[f] = tx(f);
        return c;
    }
    async busy(f) { this.pending++; try { return await f(); } finally { this.pending--; } }
    // runs timers until nothing happens any more: those without a delay, and those chosen by due
    async rest(due = () => false) {
        for (let quiet = 0; quiet < 2;) {
            await idle();
            if (this.pending) { quiet = 0; continue; }
            let run = [...this.timers].filter(([, t]) => t.zero).sort((a, b) => a[1].seq - b[1].seq);
            // those that are due one by one, each to the end
            if (!run.length && quiet > 0) run = [...this.timers].filter(([, t]) => due(t)).sort((a, b) => a[1].at - b[1].at || a[1].seq - b[1].seq).slice(0, 1);
            if (!run.length) { quiet++; continue; }
            quiet = 0;
            for (const [id, t] of run) { if (!this.timers.delete(id)) continue; try { t.fn(); } catch (e) { this.unhandled.push(String(e)); } await idle(); }
        }
    }
    take() {
        const norm = (s) => s.filter((x) => !x.startsWith('{"method":"onInitHandshake'));
        const [a, b] = this.sent.map(norm);
        const out = a;
        const differ = JSON.stringify(a) !== JSON.stringify(b);
        const r = { out, differ, hooks: this.hooks, events: this.events };
        this.sent = [[], []]; this.hooks = []; this.events = [];
        return r;
    }
}

export class Net {
    // one world serves many behaviours; start() forgets the last one
    static async create({ arts, seed = 1, times } = {}) {
        const n = new Net();
        n.world = await World.create({ arts, seed, times });
        n.world.body = (data) => [0, data, data];
        n.world.decBlock = n.world.decAnyBlock;
        n.ptok = new Map();
        return n;
    }
    get ms() { return Number(this.world.chain.time) * 1000; }
    async start(now, peers, moody = 0) {
        this.world.start(now);
        this.moody = moody;
        this.logs = []; // every event of the manager: {e, args, spec}
        this.ctxs = [];
        for (const p of Object.values(this.peers ?? {})) p.timers.clear();
        this.peers = {};
        for (const [name, skew] of Object.entries(peers)) this.peers[name] = await Peer.create(this, name, skew);
    }
    // a transaction of a peer
    async transact(from, fn, data) {
        const w = this.world;
        const raw = await w.chain.send({ from, to: w.mgr.address, data });
        const r = w.mgr._fin(raw, fn);
        if (!r.ok && !r.reason && r.ret && r.ret.length >= 10) { try { r.reason = w.facet.iface.parseError(r.ret)?.name; } catch { } }
        this.rawEvents(r, data, fn);
        return r;
    }
    rawEvents(r, data, fn) {
        const w = this.world;
        if (!r.ok) return;
        this.changed = true;
        for (const e of r.events) {
            if (e.name === 'SetState') w.noteState(w.chname[e.args.channelId] ?? '?', Number(e.args.forkCnt), e.args.encodedState);
            if (e.name === 'SetState' || e.name === 'BlockCalldataPosted' || e.name === 'DisputeUpdated') this.logs.push({ name: e.name, args: e.args, at: this.logs.length });
            if (e.name === 'BlockCalldataPosted') {
                const b = w.decBlock(e.args.signedBlock.encodedBlock);
                if (typeof b === 'object') w.keys.push([b.ch, b.fork, b.h, b.au]);
            }
        }
    }
    tok(s) { return this.ptok.get(s) ?? this.world.sigTok.get(s) ?? '?' + String(s).slice(0, 12); }
    // signature bytes for a peer-level token
    sig(tok, enc, au) {
        const s = this.world.sig(tok, enc, au);
        this.ptok.set(s, tok);
        return s;
    }
    signed(b, s) { const e = this.world.encBlock(b); return { encodedBlock: e, signature: this.sig(s, e, b.au) }; }
    // the specification's record of a manager event
    evInput(l) {
        const w = this.world, a = l.args;
        switch (l.name) {
            case 'SetState': return { k: 'evset', st: w.decState(a.encodedState), fork: Number(a.forkCnt), ts: w.uts(a.timestamp), log: l.at };
            case 'BlockCalldataPosted': return { k: 'evpost', b: w.decBlock(a.signedBlock.encodedBlock), s: this.tok(a.signedBlock.signature), ts: w.uts(a.timestamp), log: l.at };
            default: return { k: 'evdisp', d: w.decDispute(a.dispute), log: l.at };
        }
    }
    deliver(p, l) {
        const hs = p.handlers.filter((h) => h.f.verif === l.name && h.f.id === l.args.channelId);
        return Promise.all(hs.map((h) => Promise.resolve().then(() => h.cb({ args: l.args })).catch((e) => p.unhandled.push(String(e?.message ?? e)))));
    }
    // gives the input to the peer, without waiting. -> promise of its own result, for transactions
    give(p, i) {
        const rpc = (method, params) => { p.man.onRpc(JSON.stringify({ method, params })); };
        switch (i.k) {
            case 'blk': return rpc('onSignedBlock', [this.signed(i.b, i.s)]);
            case 'conf': { const sb = this.signed(i.b, i.s); return rpc('onBlockConfirmation', [sb, this.sig(i.cs, sb.encodedBlock, i.b.au)]); }
            case 'play': return p.p2p.p2pSigner.sendTransaction({ to: '0x' + '22'.repeat(20), data: this.world.txData({ op: i.o, ch: CH, fork: 0, h: 0, au: p.name, ts: 1 }) }).then(() => ({ ok: true }), (e) => ({ ok: false, why: String(e.message ?? e) }));
            case 'evset': case 'evpost': case 'evdisp': this.deliver(p, this.logs[i.log]); return;
            case 'junk': return p.man.onRpc(i.raw);
            case 'fire': return;
            default: throw new Error('unknown input ' + i.k);
        }
    }
    // one input (or several at once, {k:'batch', is}), to rest; -> trace line
    async step(name, i) {
        this.changed = false;
        if (i.k === 'chain') {
            const r = await this.chainOp(i.o);
            return { p: '-', i: { k: 'chain', o: i.o }, ok: r.ok, chg: !!r.ok, ch: r.ok ? await this.chainObs() : 0, obs: 0, outs: [], hooks: [], ev: [], ...(r.reason ? { why: r.reason } : {}) };
        }
        const p = this.peers[name];
        const all = i.k === 'batch' ? i.is : [i];
        const t0 = p.seq;
        let res;
        for (const x of all) this.give(p, x)?.then((y) => (res = y));
        const fire = all.some((x) => x.k === 'fire');
        await p.rest(fire ? (t) => t.at <= this.ms && t.seq < t0 : undefined);
        return this.line(p, i, res);
    }
    async line(p, i, res) {
        const obs = await this.observe(p);
        const t = p.take();
        const strip = ({ log, raw, ...rec }) => rec;
        const rec = i.k === 'batch' ? { k: 'batch', is: i.is.map(strip) } : strip(i);
        return { p: p.name, i: rec, ok: res ? !!res.ok : true, outs: this.bag(t.out.map((s) => this.decOut(s))).concat(t.differ ? [{ m: { k: '?the connections got different messages' }, n: 1 }] : []), hooks: this.decHooks(t.hooks), ev: this.bag(t.events.map((e) => this.decEv(e))), chg: this.changed, ch: this.changed ? await this.chainObs() : 0, obs, ...(res?.why ? { why: res.why } : {}) };
    }
    async chainOp(o) {
        const w = this.world;
        if (o.op === 'tick') { w.chain.time += BigInt(o.dt); return { ok: true }; }
        // like World.apply, and keeps the raw events for the peers
        const tx = w.mgr.tx;
        let last;
        w.mgr.tx = async (...a) => (last = await tx.apply(w.mgr, a));
        let r;
        try { r = await w.apply(o); } finally { delete w.mgr.tx; }
        if (last) this.rawEvents(last);
        return r;
    }
    async chainObs() { const o = await this.world.observe({ maxF: 1, maxH: 3 }); return o; }
    decOut(s) {
        let m;
        try { m = JSON.parse(s); } catch { return { k: '?' + s.slice(0, 60) }; }
        const w = this.world, P = m.params;
        try {
            if (m.method === 'onSignedBlock') return { k: 'blk', b: w.decBlock(P[0].encodedBlock), s: this.tok(P[0].signature) };
            if (m.method === 'onBlockConfirmation') return { k: 'conf', b: w.decBlock(P[0].encodedBlock), s: this.tok(P[0].signature), cs: this.tok(P[1]) };
        } catch (e) { return { k: '?' + s.slice(0, 60) }; }
        return { k: '?' + m.method };
    }
    bag(xs) {
        const m = new Map();
        for (const x of xs) { const k = key(x); m.set(k, { m: x, n: (m.get(k)?.n ?? 0) + 1 }); }
        return [...m.values()];
    }
    decHooks(hs) {
        const out = hs.map(([n, ...a]) => {
            switch (n) {
                case 'onTurn': return 'turn ' + this.world.who(a[0]);
                case 'onDisputeUpdate': return 'dispute ' + (a[0] ? this.world.decDispute(a[0]).cc : '?');
                default: return n;
            }
        });
        return [...new Set(out)];
    }
    decEv([n, a]) {
        if (n === 'Addition') return { e: 'Addition', who: this.world.who(a[0]), n: Number(a[1]) };
        if (n === 'Note') return { e: 'Note' };
        if (n === 'Round') return { e: 'Round', n: Number(a[0]), ps: [...a[1]].map((x) => this.world.who(x)) };
        return { e: '?' + n };
    }
    // everything the client shows
    async observe(p) {
        const am = p.sm.agreementManager, w = this.world, me = w.addr[p.name];
        const o = { fork: am.getLatestForkCnt(), next: am.getNextBlockHeight(), forks: [], disputed: [] };
        const S = (hex) => { if (typeof hex !== 'string') return { k: '?' + hex }; w.noteBytes(hex); return w.decState(hex); };
        const sigsOf = pick(am, 'getSigantures', 'getSignatures', 'getBlockSignatures');
        const everyone = pick(am, 'didEveryoneSignBlock'), missing = pick(am, 'getParticipantsWhoHaventSignedBlock');
        const n = am.getForkGenesisStateEncoded(0) === undefined ? 0 : o.fork + 1;
        for (let f = 0; f < n; f++) {
            const F = { g: S(am.getForkGenesisStateEncoded(f)), lt: w.uts(am.getLatestBlockTimestamp(f)), cl: [], by: [], ag: [] };
            for (let h = 0; am.getBlock(f, h) !== undefined && h < 60; h++) am.getEncodedState(f, h) && S(am.getEncodedState(f, h));
            for (let h = 0; h < 60; h++) {
                const blk = am.getBlock(f, h);
                if (blk === undefined) break;
                const b = w.decBlock(p.inst.EvmUtils.encodeBlock(blk));
                F.ag.push({ b, st: S(am.getEncodedState(f, h)), sg: sigsOf ? sigsOf(blk).map((s) => this.tok(s)) : 0, all: everyone ? everyone(blk) : 0, miss: missing ? missing(blk).map((a) => w.who(a)) : 0 });
            }
            for (let h = 0; h < 4; h++) F.cl.push(w.uts(am.getChainLatestBlockTimestamp(f, h)));
            for (const who of ['A', 'B', 'C', 'D', 'E', 'X']) for (let h = 0; h < 4; h++) if (am.didParticipantPostOnChain(f, h, w.addr[who])) F.by.push([who, h]);
            const v = am.getFinalizedAndLatestWithVotes(f, me);
            F.pkg = { fin: S(v.encodedLatestFinalizedState), lat: S(v.encodedLatestCorrectState), votes: v.virtualVotingBlocks.map((x) => ({ b: w.decBlock(x.encodedBlock), sg: x.signatures.map((s) => this.tok(s)) })) };
            o.forks.push(F);
            if (p.sm.disputeHandler.isForkDisputed(f)) o.disputed.push(f);
        }
        o.sm = S(await p.sm.stateMachine.getState());
        o.nx = w.who(await p.sm.stateMachine.getNextToWrite());
        o.ps = (await p.sm.stateMachine.getParticipants()).map((a) => w.who(a));
        if (p.unhandled.length) o.unhandled = p.unhandled;
        return o;
    }
}
