// The connections of one real client of /repo/src (P2PManager, Holepunch, the transports, the RPC
// services), in the vocabulary of spec/Network.tla. Sockets, the swarm and WebRTC are stand-ins, and
// the state manager is as much of one as these parts use.
import { instance, ethers } from './ts.mjs';
import { T0, key } from './man.mjs';

const coder = ethers.AbiCoder.defaultAbiCoder();
const idle = () => new Promise((r) => setImmediate(r));
export const AGR = 2, HP = 0, RTC = 1, MAXMS = 2 ** 31 - 1;
const JC_T = 'tuple(bytes32 channelId,address participant,uint256 amount,uint256 deadlineTimestamp,bytes data)';
export const WHO = ['A', 'B', 'C', 'J', 'K'];
const keys = Object.fromEntries(WHO.map((n) => [n, new ethers.SigningKey(ethers.id('verif network ' + n))]));
const addr = Object.fromEntries(WHO.map((n) => [n, ethers.computeAddress(keys[n].publicKey)]));
const nameOf = Object.fromEntries(WHO.map((n) => [addr[n], n]));
const digestOf = (bytes) => ethers.hashMessage(ethers.getBytes(bytes));
const signMemo = new Map();
const sign = (n, digest) => { const k = n + digest; if (!signMemo.has(k)) signMemo.set(k, keys[n].sign(digest)); return signMemo.get(k); };
const recover = (digest, sig) => { try { return ethers.recoverAddress(digest, sig); } catch { return null; } };

export class Client {
    static async create({ me, skew, members, pref, env = {} }) {
        const c = new Client();
        Object.assign(c, { me, skew, members, pref, now: 0, timers: new Map(), seq: 0, socks: {}, chans: {}, conns: [], outs: [], hk: [], rc: [], joined: new Map(), bad: [], chal: {}, byChal: new Map(), addrTok: new Map(), sigTok: new Map() });
        class VDate extends Date { constructor(...a) { if (a.length) super(...a); else super(c.ms); } static now() { return c.ms; } }
        const st = (fn, ms, ...args) => {
            const id = { unref() { return id; }, ref() { return id; }, hasRef: () => true };
            ms = Number(ms);
            if (!(ms >= 1) || ms > MAXMS) ms = 1; // as the platform does
            c.timers.set(id, { at: c.ms + ms, zero: ms <= 1, seq: c.seq++, fn: () => fn(...args) });
            return id;
        };
        c.swarm = { h: [], removeAllListeners() { c.swarm.h = []; }, on(ev, cb) { if (ev === 'connection') c.swarm.h.push(cb); return c.swarm; }, join(t, o) { c.out('swarm', { k: 'join', topic: c.topic(t) }); return { flushed: async () => { } }; }, leave(t) { c.out('swarm', { k: 'leave', topic: c.topic(t) }); return Promise.resolve(); } };
        // numbered by first use
        class FakeRTC {
            get n() { if (this.no === undefined) { this.no = c.conns.length; c.conns.push(this); } return this.no; }
            createDataChannel() { this.n; return (this.channel = c.channel(this)); }
            async createOffer() { const n = this.n; await idle(); return { type: 'offer', sdp: 'o' + n }; }
            async createAnswer() { const n = this.n; await idle(); return { type: 'answer', sdp: 'a' + n }; }
            async setLocalDescription(d) { await idle(); if (this.stuck || (c.broken && d?.type === 'offer')) throw new Error('cannot answer'); c.rc.push({ c: this.n, did: d?.sdp === (d?.type === 'offer' ? 'o' : 'a') + this.n ? 'local' : '?local' }); }
            async setRemoteDescription(d) { const n = this.n; if (!d?.type || !d.sdp) throw new TypeError('bad description'); if (d.sdp === 'refused') throw new Error('refused'); this.remote = true; this.stuck ||= d.sdp === 'stuck'; c.rc.push({ c: n, did: 'remote ' + (d?.sdp ?? '?') }); }
            async addIceCandidate(d) { if (d?.candidate === 'refused') throw new Error('refused'); c.rc.push({ c: this.n, did: 'candidate ' + (d?.candidate ?? '?') }); }
            close() { }
        }
        globalThis.RTCIceCandidate = class { constructor(x) { Object.assign(this, x); } toJSON() { return { candidate: this.candidate }; } };
        c.inst = await instance({ setTimeout: st, clearTimeout: (id) => c.timers.delete(id), Date: VDate, setInterval: () => ({}), clearInterval() { }, Hyperswarm: c.swarm, RTC: FakeRTC, ...env });
        const signer = {
            provider: { getBlock: async () => ({ number: 1, timestamp: T0 + c.now + skew }) },
            getAddress: async () => addr[me], connect() { return this; }, getNonce: async () => 0,
            signMessage: async (m) => { await idle(); return sign(me, ethers.hashMessage(m)); }
        };
        await c.inst.Clock.init(signer.provider);
        const sm = {
            signerAddress: addr[me], getSignerAddress: () => addr[me], timeConfig: { p2pTime: 5, agreementTime: AGR, chainFallbackTime: 5, challengeTime: 5 },
            p2pEventHooks: { onConnection: (a) => c.hk.push(c.who(String(a))) },
            getParticipantsCurrent: async () => { await idle(); return c.members.map((n) => addr[n]); },
            getChannelId: () => ethers.id('c1'), stateChannelManagerContract: {}
        };
        c.man = new c.inst.P2PManager(sm, signer);
        c.man.preferredTransport = pref;
        return c;
    }
    lower() { return Object.fromEntries(WHO.map((n) => [n, addr[this.me] < addr[n] ? 'TRUE' : 'FALSE'])); }
    get ms() { return (T0 + this.now) * 1000; }
    out(to, m) { this.outs.push({ to, m }); }
    // the topics of channels are those of another client
    topic(t) { return Client.topics?.[Buffer.from(t).toString('hex')] ?? '?topic'; }
    static async learnTopics(chans) {
        Client.topics = {};
        for (const ch of chans) {
            const c = await Client.create({ me: 'B', skew: 0, members: ['B'], pref: 0 });
            c.swarm.join = (t) => { Client.topics[Buffer.from(t).toString('hex')] ??= ch; return {}; };
            await c.man.tryOpenConnectionToChannel(ethers.id(ch));
        }
    }
    who(a) { return nameOf[a] ?? this.addrTok.get(a) ?? '?' + a; }
    sock(t) {
        const c = this, s = { t, h: {}, ended: false };
        const gone = () => { if (s.ended) return; s.ended = true; setImmediate(() => s.emit('close')); };
        Object.assign(s, {
            on(ev, cb) { (s.h[ev] ??= []).push(cb); return s; }, once(ev, cb) { return s.on(ev, cb); }, off() { return s; }, removeListener() { return s; }, removeAllListeners() { s.h = {}; return s; },
            emit(ev, ...a) { for (const f of s.h[ev] ?? []) f(...a); },
            write(x) { c.sent(t, x); return true; }, end() { gone(); return s; }, destroy() { gone(); return s; }
        });
        return s;
    }
    channel(rtc) {
        const c = this, s = { rtc, readyState: 'connecting', ended: false };
        s.send = (x) => { if (s.readyState !== 'open') throw Object.assign(new Error('RTCDataChannel.readyState is not open'), { name: 'InvalidStateError' }); c.sent(s.t, x); };
        s.close = () => { if (s.ended) return; s.ended = true; s.readyState = 'closed'; s.onclose?.(); };
        return s;
    }
    transport(t) { return this.byT?.get(t); }
    // what's sent, by name
    sent(t, x) { this.out(t, this.decode(t, x)); }
    decode(t, x) {
        if (x === this.probe) return { k: 'probe' };
        let r;
        try { r = JSON.parse(x); } catch { return { k: '?' + x }; }
        const p = r.params;
        try {
            switch (r.method) {
                case 'onInitHandshakeRequest':
                    if (!/^0x[0-9a-f]{64}$/.test(p[0]) || (this.byChal.has(p[0]) && this.byChal.get(p[0]) !== t)) return { k: '?challenge' };
                    this.chal[t] = p[0]; this.byChal.set(p[0], t);
                    return { k: 'req', x: t, at: p[1] - T0 };
                case 'onInitHandshakeResponse': {
                    const over = [...this.asked ?? []].find((o) => recover(digestOf(this.chalOf(o)), p[0]) === addr[this.me]);
                    return { k: 'resp', over: over ?? '?', s: over ? this.me : '?', at: p[1] - T0, pref: p[2] };
                }
                case 'onOfferWebRTC': return { k: 'offer', c: this.desc(p[0], 'offer', 'o') };
                case 'onAnswerWebRTC': return { k: 'answer', c: this.desc(p[0], 'answer', 'a') };
                case 'onIceCandidate': return { k: 'ice', o: JSON.parse(p[0]).candidate };
                case 'onJoinChannelRequest': {
                    const jc = this.joined.get(p[0].encodedJoinChannel);
                    return { k: 'join', jc: jc ?? '?', s: this.sigName(p[0].encodedJoinChannel, p[0].signature), cs: this.sigName(p[0].encodedJoinChannel, p[1]) };
                }
                case 'onSaid': return { k: 'said', m: p.length === 2 && p[1].q === p[0] ? p[0] : '?' };
            }
        } catch (e) { return { k: '?' + e.message }; }
        return { k: '?' + r.method };
    }
    desc(x, type, l) { const d = JSON.parse(x); return d.type === type && d.sdp?.[0] === l ? Number(d.sdp.slice(1)) : -1; }
    chalOf(o) { return this.chal[o] ?? ethers.id('challenge ' + o); }
    sigName(enc, s) {
        if (s === undefined || s === null) return '-';
        const x = this.sigTok.get(enc + '|' + s);
        if (x) return x;
        return nameOf[recover(digestOf(ethers.keccak256(enc)), s)] ?? '?sig';
    }
    jc(j) {
        const enc = coder.encode([JC_T], [[ethers.id('c1'), addr[j.p], j.n, T0 + j.dl, '0x']]);
        this.joined.set(enc, j);
        return enc;
    }
    jsig(enc, s) {
        if (s === '-') return undefined;
        if (s === 'bad') return '0x1234';
        const n = s[0];
        let x = sign(n, digestOf(ethers.keccak256(enc)));
        x = s.length > 1 ? x.compactSerialized : x.serialized;
        this.sigTok.set(enc + '|' + x, s);
        return x;
    }
    rpc(i) {
        const m = (method, ...params) => JSON.stringify({ method, params });
        switch (i.k) {
            case 'req': (this.asked ??= new Set()).add(i.x); return m('onInitHandshakeRequest', i.x === 'bad' ? 'zz' : this.chalOf(i.x), T0 + i.at);
            case 'resp': return m('onInitHandshakeResponse', this.answer(i), T0 + i.at, i.pref);
            case 'offer': return m('onOfferWebRTC', JSON.stringify({ type: 'offer', sdp: i.o }));
            case 'answer': return m('onAnswerWebRTC', i.o === 'bad' ? '{' : JSON.stringify({ type: 'answer', sdp: i.o }));
            case 'ice': return m('onIceCandidate', i.o === 'bad' ? '{' : JSON.stringify({ candidate: i.o }));
            case 'join': { const e = this.jc(i.jc), s = { encodedJoinChannel: e, signature: this.jsig(e, i.s) }; return i.cs === '-' ? m('onJoinChannelRequest', s) : m('onJoinChannelRequest', s, this.jsig(e, i.cs)); }
            case 'junk': return i.text;
        }
    }
    answer(i) { return i.s === 'bad' ? '0x12' : sign(i.s, digestOf(this.chalOf(i.over))).serialized; }
    // whose address an answer shows, and whether this client's address is the lower one
    prepare(i) {
        if (i.k === 'batch') return { ...i, is: i.is.map((x) => this.prepare(x)) };
        if (i.k !== 'resp') return i;
        if (i.s === 'bad' || !this.chal[i.t]) return { ...i, low: false };
        const a = recover(digestOf(this.chal[i.t]), this.answer(i));
        if (!nameOf[a]) this.addrTok.set(a, `${i.s}~${i.over}~${i.t}`);
        return { ...i, low: addr[this.me] < a };
    }
    message(i) {
        const x = this.rpc(i), e = this.socks[i.t];
        const b = Buffer.from('..' + x + '..').subarray(2, -2);
        const data = i.as === 'text' ? x : i.as === 'bytes' ? new Uint8Array(b.buffer, b.byteOffset, b.length) : b;
        if (e) e.emit('data', data);
        else if (!this.chans[i.t].ended) this.chans[i.t].onmessage?.({ data });
    }
    give(i) {
        switch (i.k) {
            case 'new': {
                const s = (this.socks[i.t] = this.sock(i.t));
                for (const h of this.swarm.h) h(s, { ban() { }, publicKey: Buffer.from(i.t) });
                return;
            }
            case 'open': {
                const r = this.conns[i.c], out = !!r.channel, ch = out ? r.channel : (r.channel = this.channel(r));
                if (!out) { ch.label = 'webRTC-DataChannel'; r.ondatachannel?.({ channel: ch }); }
                ch.t = i.t; this.chans[i.t] = ch; ch.readyState = 'open';
                ch.onopen?.();
                return;
            }
            case 'end': { const s = this.socks[i.t], ch = this.chans[i.t]; if (s) { if (!s.ended) { s.ended = true; s.emit('close'); } } else ch.close(); return; }
            case 'dying': { const ch = this.chans[i.t]; if (ch.readyState === 'open') ch.readyState = 'closing'; return; }
            case 'visit': this.man.p2pSigner ? void this.man.tryOpenConnectionToChannel(ethers.id(i.topic)) : 0; return;
            case 'leave': this.man.p2pSigner.disconnectFromPeers(); return;
            case 'dispose': void this.man.dispose(); return;
            case 'mine': this.conns[i.c].onicecandidate?.({ candidate: { candidate: i.o } }); return;
            case 'say': {
                const h = this.man.rpcProxy.onSaid(i.m, { q: i.m });
                if (i.to[0] === '*') h.broadcast();
                else if (i.to.length === 1) h.sendOne(this.tr(i.to[0]));
                else h.sendMultiple(i.to.map((t) => this.tr(t)));
                return;
            }
            case 'tick': this.now += i.dt; return;
            case 'broken': this.broken = i.on; return;
            case 'members': this.members = i.to; return;
            case 'batch': for (const x of i.is) this.give(x); return;
            default: this.message(i);
        }
    }
    // the client's own object for a connection
    tr(t) { return this.trs.get(t); }
    async rest() {
        for (let quiet = 0; quiet < 6;) {
            await idle();
            const run = [...this.timers].filter(([, t]) => t.zero || t.at <= this.ms).sort((a, b) => a[1].at - b[1].at || a[1].seq - b[1].seq);
            if (!run.length) { quiet++; continue; }
            quiet = 0;
            for (const [id, t] of run) { if (!this.timers.delete(id)) continue; t.fn(); await idle(); }
        }
    }
    async step(i) {
        i = this.prepare(i);
        this.trs ??= new Map();
        const add = this.man.addConnection;
        if (!this.wrapped) { // to know which object stands for which connection
            this.wrapped = true;
            this.man.addConnection = function (tr) { const c = tr.holepunchSocket?.t ?? tr.webRTCChannel?.t; if (c) this.__verif.trs.set(c, tr); return add.call(this, tr); };
            this.man.__verif = this;
        }
        this.outs = []; this.hk = []; this.rc = [];
        this.give(i);
        await this.rest();
        const bag = (a) => { const m = new Map(); for (const x of a) { const q = key(x); const e = m.get(q); if (e) e.n++; else m.set(q, { m: x, n: 1 }); } return [...m.values()]; };
        const line = { i, outs: bag(this.outs), hk: bag(this.hk), rc: bag(this.rc) };
        line.obs = this.show();
        return line;
    }
    show() {
        const ts = [...Object.keys(this.socks), ...Object.keys(this.chans)];
        // whom a broadcast reaches
        this.outs = []; this.probe = '{"method":"probe","params":[]}';
        this.man.broadcastRpc(this.probe);
        const conns = this.outs.map((o) => o.to);
        this.outs = []; this.probe = null;
        const pm = this.man.profileManager, by = [], prof = [];
        for (const t of ts) { const p = this.tr(t) && pm.getProfileByTransport(this.tr(t)); if (p) by.push([t, this.who(String(p.getEvmAddress()))]); }
        const back = new Map([...this.trs].map(([t, o]) => [o, t]));
        const name = (tr) => back.get(tr) ?? '?';
        for (const a of [...Object.values(addr), ...this.addrTok.keys()]) { const p = pm.getProfileByEvmAddress(a); if (p) prof.push([this.who(a), p.getIsHandshakeCompleted() ? name(p.getTransport()) : '?']); }
        const js = this.man.localRpcService.joinChannelService;
        const enc = (e) => this.joined.get(String(e)) ?? '?';
        const jr = js.joinChannelMap.entries().map(([k, v]) => ({ jc: enc(k), sg: v.map((x) => (addr[this.sigName(k, x.signature)[0]] === String(x.signerAddress) ? this.sigName(k, x.signature) : '?')) }));
        const jq = js.joinChannelQueue.map((q) => ({ jc: enc(q.signedJoinChannel.encodedJoinChannel), s: this.sigName(String(q.signedJoinChannel.encodedJoinChannel), q.signedJoinChannel.signature), cs: q.confirmationSignatures.map((s) => this.sigName(String(q.signedJoinChannel.encodedJoinChannel), s)) }));
        return { conns, by, prof, closed: ts.filter((t) => (this.socks[t] ?? this.chans[t]).ended), jr, jq };
    }
}
