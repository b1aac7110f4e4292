// The real contracts behind the vocabulary of spec/Manager.tla: World.apply(op) performs one
// operation on them, World.observe() reads everything they show through their public views, and
// both speak the specification's records.
import crypto from 'node:crypto';
import { compile, link } from './sol.mjs';
import { Chain, Handle, ethers } from './chain.mjs';
import { repoRequire } from './paths.mjs';

const coder = ethers.AbiCoder.defaultAbiCoder();
const secp = (() => { try { return repoRequire('secp256k1'); } catch { return null; } })();
export const T0 = 1_700_000_000;
export const NAMES = ['A', 'B', 'C', 'D', 'E', 'X'];

export const STATE_T = 'tuple(uint256 number,address[] participants,uint256[] amounts,bytes32 memo)';
export const HEADER_T = 'tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,uint256 timestamp)';
export const BLOCK_T = `tuple(tuple(${HEADER_T} header,tuple(uint8 transactionType,bytes encodedData,bytes data) body) transaction,bytes32 stateHash,bytes32 previousStateHash)`;
const SB_T = 'tuple(bytes encodedBlock,bytes signature)';
const JC_T = 'tuple(bytes32 channelId,address participant,uint256 amount,uint256 deadlineTimestamp,bytes data)';
const SJC_T = 'tuple(bytes encodedJoinChannel,bytes signature)';
const JCA_T = `tuple(${SJC_T} signedJoinChannel,address submitter,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash)`;
const LC_T = 'tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash,uint256 deadlineTimestamp,bytes data)';
const PROOF_T = {
    rech: [0, 'tuple(bytes encodedBlock,bytes[] signatures)'],
    dbl: [1, `tuple(tuple(${SB_T} block1,${SB_T} block2)[] doubleSigns)`],
    inc: [2, `tuple(${SB_T} block1,${SB_T} block2,bytes encodedState)`],
    new: [3, 'tuple(bytes encodedBlock,bytes confirmationSignature)'],
    prior: [4, 'tuple(uint256 transactionCnt)'],
    fut: [5, `tuple(${SB_T} block1)`],
    join: [6, 'tuple(bytes encodedSignedJoinChannel,bytes[] signatures)'],
    leave: [7, 'tuple(uint256 x)']
};
const N256 = BigInt('0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141');

export const key = (x) => JSON.stringify(x, (k, v) => (v && typeof v === 'object' && !Array.isArray(v) ? Object.fromEntries(Object.keys(v).sort().map((q) => [q, v[q]])) : v));

export class World {
    // times = [p2p, agreement, chainFallback, challenge]
    static async create({ seed = 1, times = [2, 1, 1, 3], chans = ['c1', 'c2'], arts } = {}) {
        const w = new World();
        arts ??= await compile(['facet', 'lib', 'vsm', 'vproxy']);
        w.arts = arts;
        w.seed = seed;
        w.chain = await Chain.create();
        w.chain.time = BigInt(T0);
        w.chans = chans;
        const lib = await w.chain.deploy(link(arts.lib, {}));
        const L = { StateChannelUtilLibrary: lib };
        const sm = await w.chain.deploy(link(arts.vsm, L));
        const facet = await w.chain.deploy(link(arts.facet, L));
        const proxy = await w.chain.deploy(link(arts.vproxy, L) + coder.encode(['address', 'address', 'uint256[4]'], [sm, facet, times]).slice(2));
        w.times = times;
        w.lib = new Handle(w.chain, lib, arts.lib.abi);
        w.sm = new Handle(w.chain, sm, arts.vsm.abi);
        w.facet = new Handle(w.chain, facet, arts.facet.abi);
        w.mgr = new Handle(w.chain, proxy, arts.vproxy.abi);
        // facet errors come through the proxy
        w.mgr.errIface = w.facet.iface;
        w.wallets = {};
        for (const n of NAMES) w.wallets[n] = new ethers.Wallet(ethers.id('verif' + seed + n));
        w.addr = Object.fromEntries(NAMES.map((n) => [n, w.wallets[n].address]));
        w.addr['0'] = ethers.ZeroAddress;
        w.name = Object.fromEntries(Object.entries(w.addr).map(([n, a]) => [a, n]));
        w.chid = Object.fromEntries(chans.map((c) => [c, ethers.id('channel' + seed + c)]));
        w.chname = Object.fromEntries(Object.entries(w.chid).map(([n, a]) => [a, n]));
        w.sigTok = new Map(); // signature bytes -> the signer the specification knows it by
        w.sigMemo = new Map();
        w.blkRec = new Map(); // encoded block -> record
        w.memoRec = new Map([[ethers.ZeroHash, []]]);
        w.stMemo = new Map();
        w.variant = 0;
        // what every transaction's body looks like around its data
        w.body = (data) => [3, '0x1234', data];
        w.hashRec = new Map(); // hash of a state -> its bytes
        w.reset();
        w.genesis = w.snapshot();
        return w;
    }
    reset() {
        this.hist = Object.fromEntries(this.chans.map((c) => [c, ['0x']]));
        this.keys = [];
        this.nowRel = 0;
    }
    snapshot() { return { ch: this.chain.snapshot(), hist: structuredClone(this.hist), keys: this.keys.slice() }; }
    restore(s) { this.chain.restore(s.ch); this.hist = structuredClone(s.hist); this.keys = s.keys.slice(); }
    start(now) { this.restore(this.genesis); this.chain.time = BigInt(T0 + now); }
    get now() { return Number(this.chain.time) - T0; }

    // ---- encoding -------------------------------------------------------------------------
    ts(t) { return t === 0 ? 0 : T0 + t; }
    uts(t) { t = Number(t); return t === 0 ? 0 : t - T0; }
    encState(s) {
        const k = key(s);
        let x = this.stMemo.get(k);
        if (x === undefined) {
            if (s.k === 'none') x = '0x';
            else if (s.k === 'junk') x = '0xdeadbeef' + this.seed.toString(16).padStart(8, '0');
            else if (s.k === 'zero') x = '0x';
            else x = coder.encode([STATE_T], [[s.n, s.ps.map((p) => this.addr[p]), s.am, this.memo(s.m)]]);
            this.stMemo.set(k, x);
            if (x !== '0x') this.noteBytes(x);
        }
        return x;
    }
    noteBytes(x) { if (!(this.nbMemo ??= new Set()).has(x)) { this.nbMemo.add(x); this.hashRec.set(ethers.keccak256(x), x); } }
    memo(m) {
        if (!m.length) return ethers.ZeroHash;
        const b = m[0];
        const body = this.body(this.sm.iface.encodeFunctionData('stamp'));
        const h = ethers.keccak256(coder.encode([HEADER_T, 'bytes', 'uint8'], [this.header(b), body[1], body[0]]));
        this.memoRec.set(h, [{ ch: b.ch, au: b.au, fork: b.fork, h: b.h, ts: b.ts }]);
        return h;
    }
    hash(s) { return s.k === 'zero' ? ethers.ZeroHash : ethers.keccak256(this.encState(s)); }
    header(b) { return [this.chid[b.ch], this.addr[b.au], b.fork, b.h, this.ts(b.ts)]; }
    txData(b) {
        const f = this.sm.iface;
        switch (b.op) {
            case 'add0': return f.encodeFunctionData('add', [0]);
            case 'add1': return f.encodeFunctionData('add', [1]);
            case 'add2': return f.encodeFunctionData('add', [2]);
            case 'quit': return f.encodeFunctionData('quit');
            case 'stamp': return f.encodeFunctionData('stamp');
            case 'noisy': return f.encodeFunctionData('noisy');
            case 'boom': return f.encodeFunctionData('boom');
            case 'silent': return f.encodeFunctionData('boomSilent');
            case 'custom': return f.encodeFunctionData('boomCustom', [7]);
            case 'reenter': return f.encodeFunctionData('reenter', [this.encState({ k: 'ok', n: 5, ps: ['A'], am: [1], m: [] })]);
            case 'xset': return f.encodeFunctionData('setState', [this.encState({ k: 'ok', n: 5, ps: ['A'], am: [1], m: [] })]);
            case 'xjoin': return f.encodeFunctionData('joinChannel', [[this.chid[b.ch], this.addr.E, 5, T0 + 9999, '0x']]);
            case 'xslash': return f.encodeFunctionData('slashParticipant', [this.addr.A]);
            case 'xremove': return f.encodeFunctionData('removeParticipant', [this.addr.A]);
            case 'xtx': return f.encodeFunctionData('stateTransition', [this.transaction({ ...b, op: 'add2' })]);
            default: return '0x11223344';
        }
    }
    transaction(b) { return [this.header(b), this.body(this.txData(b))]; }
    encBlock(b) {
        const k = key(b);
        let x = this.blkMemo?.get(k);
        if (!x) {
            x = coder.encode([BLOCK_T], [[this.transaction(b), this.hash(b.sh), this.hash(b.psh)]]);
            (this.blkMemo ??= new Map()).set(k, x);
            this.blkRec.set(x, b);
        }
        return x;
    }
    signRaw(name, digest, alt) {
        if (secp) {
            const { signature, recid } = secp.ecdsaSign(ethers.getBytes(digest), ethers.getBytes(this.wallets[name].privateKey), alt ? { data: new Uint8Array(32).fill(alt) } : {});
            return ethers.hexlify(signature) + (27 + recid).toString(16);
        }
        return this.wallets[name].signingKey.sign(digest).serialized;
    }
    // tok: an account name, 'bad' (recovers to somebody else) or 'mal' (doesn't recover)
    sig(tok, data, hint) {
        const h = ethers.keccak256(data);
        const d = ethers.hashMessage(ethers.getBytes(h));
        const v = tok === 'bad' || tok === 'mal' ? this.variant++ : 0;
        const k = tok + (tok === 'bad' || tok === 'mal' ? (v % 6) + (hint ?? '') : '') + d;
        let s = this.sigMemo.get(k);
        if (!s) {
            const who = this.wallets[hint] ? hint : 'A';
            if (tok === 'bad')
                s = [
                    () => this.signRaw(who, ethers.hashMessage(ethers.getBytes(ethers.keccak256(h)))), // another message
                    () => this.signRaw(who, h), // no EIP-191 prefix
                    () => this.signRaw('X', ethers.keccak256('0x' + this.seed.toString(16).padStart(4, '0'))),
                    () => this.signRaw(who, ethers.hashMessage(ethers.getBytes(data))), // signed the bytes, not their hash
                    () => this.signRaw(who, ethers.hashMessage(h)), // signed the hash as text
                    () => { const t = this.signRaw(who, d); return t.slice(0, -2) + (t.endsWith('1b') ? '1c' : '1b'); } // flipped parity
                ][v % 6]();
            else if (tok === 'mal') {
                const good = this.signRaw(who, d);
                const r = good.slice(0, 66), sv = BigInt('0x' + good.slice(66, 130)), yv = parseInt(good.slice(130), 16);
                const hs = (N256 - sv).toString(16).padStart(64, '0');
                s = [
                    () => good.slice(0, -2),
                    () => good + '00',
                    () => good.slice(0, -2) + '00',
                    () => r + hs + (yv === 27 ? '1c' : '1b'), // the malleable twin
                    () => '0x',
                    () => '0x' + '00'.repeat(64) + '1b'
                ][v % 6]();
            } else if (/^[A-Z]2$/.test(tok)) s = this.signRaw(tok[0], d, 1); // another valid signature by the same account
            else s = this.signRaw(tok, d);
            this.sigMemo.set(k, s);
        }
        if (!this.sigTok.has(s)) this.sigTok.set(s, /^[A-Z]2$/.test(tok) ? tok[0] : tok);
        return s;
    }
    sigs(toks, data) { return toks.map((t, i) => this.sig(t, data, NAMES[i % 3])); }
    vote(v) { const e = this.encBlock(v.b); return [e, this.sigs(v.sg, e)]; }
    signedBlock(b, s) { const e = this.encBlock(b); return [e, this.sig(s, e, b.au)]; }
    encJc(j) { return coder.encode([JC_T], [[this.chid[j.ch], this.addr[j.p], j.am, this.ts(j.dl), '0x']]); }
    sjc(x) { const e = this.encJc(x.jc); return [e, this.sig(x.s, e, x.jc.p)]; }
    proof(p) {
        const [type, T] = PROOF_T[p.t];
        let v;
        switch (p.t) {
            case 'rech': v = this.vote(p); break;
            case 'dbl': v = [p.ds.map((d) => [this.signedBlock(d.b1, d.s1), this.signedBlock(d.b2, d.s2)])]; break;
            case 'inc': v = [this.signedBlock(p.b1, p.s1), this.signedBlock(p.b2, p.s2), this.encState(p.st)]; break;
            case 'new': v = this.signedBlock(p.b, p.s); break;
            case 'prior': v = [p.h]; break;
            case 'fut': v = [this.signedBlock(p.b, p.s)]; break;
            case 'join': { const e = coder.encode([SJC_T], [this.sjc(p.sjc)]); v = [e, this.sigs(p.sg, e)]; break; }
            case 'leave': v = [1]; break;
        }
        return [type, coder.encode([T], [v])];
    }

    // ---- operations -----------------------------------------------------------------------
    async apply(o) {
        const who = this.addr[o.who];
        let r;
        switch (o.op) {
            case 'open':
                r = await this.mgr.tx(this.addr.X, 'openChannel', [this.chid[o.ch], [this.encState(o.st)], []]);
                break;
            case 'tick':
                this.chain.time += BigInt(o.dt);
                return { ok: true, ev: [] };
            case 'create':
                r = await this.mgr.tx(who, 'createDispute', [this.chid[o.ch], o.fork, this.encState(o.fin), this.encState(o.lat), o.votes.map((v) => this.vote(v)), this.addr[o.to], o.fh, o.proofs.map((p) => this.proof(p))]);
                break;
            case 'chal':
                r = await this.mgr.tx(who, 'challengeDispute', [this.chid[o.ch], o.fork, o.cc, o.proofs.map((p) => this.proof(p)), o.votes.map((v) => this.vote(v)), this.encState(o.fin), this.encState(o.lat)]);
                break;
            case 'post':
                this.keys.push([o.b.ch, o.b.fork, o.b.h, o.who], [o.b.ch, o.b.fork, o.b.h, o.b.au]);
                r = await this.mgr.tx(who, 'postBlockCalldata', [this.signedBlock(o.b, o.s)]);
                break;
            case 'join': {
                const a = o.a;
                const e = coder.encode([JCA_T], [[this.sjc(a.sjc), this.addr[a.sub], a.fork, a.tc, this.hash(a.psh)]]);
                r = await this.mgr.tx(who, 'joinChannelWithAgreement', [[e, this.sigs(o.sg, e)], this.encState(o.st)]);
                break;
            }
            case 'leave': {
                const l = o.l;
                const e = coder.encode([LC_T], [[this.chid[l.ch], this.addr[l.p], l.fork, l.tc, this.hash(l.psh), this.ts(l.dl), '0x']]);
                r = await this.mgr.tx(who, 'leaveChannelWithAgreement', [[e, this.sigs(o.sg, e)], this.encState(o.st)]);
                break;
            }
            case 'noise': await this.noise(o); return { ok: true, ev: [] };
            case 'priv': {
                const jc = [this.chid[o.ch], this.addr.D, 5, T0 + 1000, '0x'];
                const st = this.encState(o.st);
                const args = {
                    addParticipantComposable: [jc],
                    removeParticipantComposable: [this.chid[o.ch], [this.addr.A, 9, '0x']],
                    applyJoinChannelToStateMachine: [st, [jc]],
                    applySlashesToStateMachine: [st, [this.addr.A]],
                    removeParticipantsFromStateMachine: [st, [this.addr.A]]
                };
                // F: the facet calls as itself, not on the manager's behalf
                r = await this.mgr.tx(o.who === 'F' ? this.facet.address : who, o.fn, args[o.fn]);
                break;
            }
            default: throw new Error('unknown op ' + o.op);
        }
        if (!r.ok && !r.reason && r.ret && r.ret.length >= 10) { try { r.reason = this.facet.iface.parseError(r.ret)?.name; } catch { } }
        if (r.ok) {
            for (const e of r.events) if (e.name === 'SetState') this.noteState(this.chname[e.args.channelId] ?? '?', Number(e.args.forkCnt), e.args.encodedState);
        }
        return { ok: r.ok, ev: r.ok ? this.decEvents(r) : [], reason: r.reason ?? r.error };
    }
    // things anybody can do to the contracts behind the manager
    async noise(o) {
        const X = this.addr.X, st = this.encState(o.st), ch = this.chid[this.chans[0]];
        const ev = [st, st, [], ethers.ZeroAddress, 0, [this.proof({ t: 'fut', b: { ch: this.chans[0], fork: 0, h: 0, au: 'A', ts: this.now + 5, op: 'add1', sh: o.st, psh: o.st }, s: 'A' })]];
        switch (o.fn ?? 'setState') {
            case 'setState': return this.sm.tx(X, 'setState', [st]);
            case 'joinChannel': return this.sm.tx(X, 'joinChannel', [[ch, this.addr.D, 5, T0 + 1000, '0x']]);
            case 'slash': return this.sm.tx(X, 'slashParticipant', [this.addr.A]);
            case 'remove': return this.sm.tx(X, 'removeParticipant', [this.addr.A]);
            case 'tx': return this.sm.tx(X, 'stateTransition', [this.transaction({ ch: this.chans[0], fork: 0, h: 0, au: 'A', ts: 20, op: 'add2' })]);
            case 'facetCreate': return this.facet.tx(this.addr.A, 'createDispute', [ch, 0, ...ev]);
            case 'facetChallenge': return this.facet.tx(this.addr.A, 'challengeDispute', [ch, 0, 0, ev[5], [], st, st]);
            // the manager is told, through a transaction in the state machine, to call itself
            case 'facetNested': return this.mgr.tx(X, 'executeStateTransitionOnState', [ch, st, [[ch, this.addr.A, 0, 0, T0], [3, '0x1234', this.sm.iface.encodeFunctionData('setState', [st])]]]);
        }
    }
    noteState(ch, f, bytes) { if (this.hist[ch]) this.hist[ch][f] = bytes; }

    // ---- decoding -------------------------------------------------------------------------
    who(a) { return this.name[a] ?? '?' + a; }
    decState(bytes) {
        if (bytes === '0x') return { k: 'none', n: 0, ps: [], am: [], m: [] };
        this.dsMemo ??= new Map();
        let x = this.dsMemo.get(bytes);
        if (!x || x.m[0] === '?') this.dsMemo.set(bytes, (x = this.decState1(bytes)));
        return x;
    }
    decState1(bytes) {
        try {
            const [s] = coder.decode([STATE_T], bytes);
            if (coder.encode([STATE_T], [s]) !== bytes) throw 0;
            return { k: 'ok', n: Number(s.number), ps: s.participants.map((p) => this.who(p)), am: s.amounts.map(Number), m: this.memoRec.get(s.memo) ?? ['?'] };
        } catch { return { k: 'junk', n: 0, ps: [], am: [], m: [] }; }
    }
    // a block the harness didn't make itself
    decAnyBlock(bytes) {
        const known = this.blkRec.get(bytes);
        if (known) return known;
        let x;
        try { [x] = coder.decode([BLOCK_T], bytes); } catch { return '?undecodable'; }
        const H = x.transaction.header, data = x.transaction.body.data;
        this.opOf ??= new Map(['add0', 'add1', 'add2', 'quit', 'stamp', 'noisy', 'boom', 'silent', 'custom', 'reenter'].map((op) => [this.txData({ op, ch: this.chans[0] }), op]));
        const b = { ch: this.chname[H.channelId] ?? '?', fork: Number(H.forkCnt), h: Number(H.transactionCnt), au: this.who(H.participant), ts: this.uts(H.timestamp), op: this.opOf.get(data) ?? '?' };
        if (b.op === 'stamp') this.memo([{ ch: b.ch, au: b.au, fork: b.fork, h: b.h, ts: b.ts }]);
        const st = (h) => { const y = this.hashRec.get(h); return y === undefined ? (h === ethers.ZeroHash ? { k: 'zero', n: 0, ps: [], am: [], m: [] } : { k: '?' + h.slice(0, 12) }) : this.decState(y); };
        b.psh = st(x.previousStateHash);
        b.sh = st(x.stateHash);
        try { if (this.encBlock(b) !== bytes) return '?block ' + key(b); } catch { return '?block ' + key(b); }
        return b;
    }
    decBlock(bytes) { return this.blkRec.get(bytes) ?? '?' + bytes.slice(0, 40); }
    decSig(s) { return this.sigTok.get(s) ?? '?' + s; }
    decEvents(r) {
        return r.events.map((e) => {
            const a = e.args;
            switch (e.name) {
                case 'SetState': return { e: e.name, ch: this.chname[a.channelId] ?? '?', st: this.decState(a.encodedState), fork: Number(a.forkCnt), ts: this.uts(a.timestamp) };
                case 'Deposit': return { e: e.name, ch: this.chname[a.channelId] ?? '?', p: this.who(a.participant), am: Number(a.amount) };
                case 'Exit': { const sh = a.data === '0x' ? -1 : Number(BigInt(a.data)); return { e: e.name, ch: this.chname[a.channelId] ?? '?', p: this.who(a.participant), am: Number(a.amount), sh }; }
                case 'DisputeUpdated': (this.lastDisputeEvents ??= []).push(this.decDispute(a.dispute)); return { e: e.name, ch: this.chname[a.channelId] ?? '?' };
                case 'BlockCalldataPosted': return { e: e.name, ch: this.chname[a.channelId] ?? '?', b: this.decBlock(a.signedBlock.encodedBlock), ts: this.uts(a.timestamp) };
                default: return { e: e.name };
            }
        });
    }
    decJc(j) { return { ch: this.chname[j.channelId] ?? '?', p: this.who(j.participant), am: Number(j.amount), dl: this.uts(j.deadlineTimestamp) }; }
    decDispute(d) {
        this.dMemo ??= new WeakMap();
        let x = this.dMemo.get(d);
        if (!x) this.dMemo.set(d, (x = this.decDispute1(d)));
        return x;
    }
    decDispute1(d) {
        return {
            ex: d.channelId !== ethers.ZeroHash,
            fork: Number(d.forkCnt), cc: Number(d.challengeCnt),
            fin: this.decState(d.encodedLatestFinalizedState), lat: this.decState(d.encodedLatestCorrectState),
            votes: d.virtualVotingBlocks.map((v) => ({ b: this.decBlock(v.encodedBlock), sg: v.signatures.map((s) => this.decSig(s)) })),
            to: this.who(d.timedoutParticipant), fh: Number(d.foldedTransactionCnt), tod: this.who(d.timeoutDisputer), psd: this.who(d.postedStateDisputer),
            joins: d.joinChannelParticipants.map((j) => this.decJc(j)),
            sl: d.slashedParticipants.map((p) => this.who(p)), ps: d.participants.map((p) => this.who(p)),
            exits: d.processExits.map((e) => ({ p: this.who(e.participant), am: Number(e.amount), sh: e.data === '0x' ? -1 : Number(BigInt(e.data)) })),
            ct: this.uts(d.creationTimestamp), dl: this.uts(d.deadlineTimestamp),
            ...(d.leaveChannelParticipants.length ? { leaves: d.leaveChannelParticipants.length } : {}),
            ...(d.channelId !== ethers.ZeroHash && !this.chname[d.channelId] ? { badch: 1 } : {})
        };
    }
    // everything the manager shows, as Manager.tla's Proj
    async observe({ maxF = 2, maxH = 3 } = {}) {
        const forks = {}, dp = {}, open = {}, inp = {}, nx = {}, cl = {};
        const posted = [];
        for (const ch of this.chans) {
            const id = this.chid[ch];
            const n = Number(await this.mgr.call('getForkCnt', [id]));
            forks[ch] = [];
            const latest = await this.mgr.call('getLatestState', [id]);
            open[ch] = await this.mgr.call('isChannelOpen', [id]);
            for (let f = 0; f <= n; f++) {
                const bytes = f === n ? latest : this.hist[ch][f] ?? '0x';
                let st = this.decState(bytes);
                if (!(await this.mgr.call('isGenesisState', [id, f, bytes]))) st = { k: '?fork' + f };
                else if (await this.mgr.call('isGenesisState', [id, f, bytes + '00'])) st = { k: '?loose' + f };
                const ps = await this.mgr.tryCall('getParticipants', [id, f]);
                if (ps.ok !== (st.k === 'ok') || (ps.ok && key(ps.value.map((p) => this.who(p))) !== key(st.ps))) st = { k: '?participants', ps: ps.ok ? ps.value.map((p) => this.who(p)) : null };
                forks[ch].push({ st, ts: this.uts(await this.mgr.call('getGenesisTimestamp', [id, f])) });
            }
            if (Number(await this.mgr.call('getGenesisTimestamp', [id, n + 1])) !== 0) forks[ch].push('?future fork');
            dp[ch] = this.decDispute(await this.mgr.call('getDispute', [id]));
            inp[ch] = await this.mgr.call('isDisputeInProgress', [id]).catch(async () => null);
            const nw = await this.mgr.tryCall('getNextToWrite', [id, latest]);
            nx[ch] = nw.ok ? this.who(nw.value) : '-';
            cl[ch] = [];
            for (let f = 0; f <= maxF; f++) {
                const row = [];
                for (let h = 0; h <= maxH; h++) row.push(this.uts(await this.mgr.call('getChainLatestBlockTimestamp', [id, f, h])));
                cl[ch].push(row);
            }
        }
        const seen = new Set();
        for (const [ch, f, h, who] of this.keys)
            for (const [c2, f2, h2, w2] of [[ch, f, h, who], [ch, f, h + 1, who], [ch, f + 1, h, who], [this.chans.find((x) => x !== ch) ?? ch, f, h, who], [ch, f, h, who === 'A' ? 'B' : 'A']]) {
                const k = [c2, f2, h2, w2].join();
                if (seen.has(k)) continue;
                seen.add(k);
                const [found, x] = await this.mgr.call('getBlockCallData', [this.chid[c2], f2, h2, this.addr[w2]]);
                if (found) posted.push({ ch: c2, fork: f2, h: h2, who: w2, b: this.decBlock(x.signedBlock.encodedBlock), ts: this.uts(x.timestamp) });
                else if (x.timestamp !== 0n || x.signedBlock.encodedBlock !== '0x') posted.push('?unfound');
            }
        posted.sort((a, b) => (key(a) < key(b) ? -1 : 1));
        return { now: this.now, forks, dp, open, inp, nx, cl, posted };
    }
    // executeStateTransitionOnState
    async exec(st, b) {
        if (b.op === 'stamp') this.memo([{ ch: b.ch, au: b.au, fork: b.fork, h: b.h, ts: b.ts }]);
        const r = await this.mgr.tryCall('executeStateTransitionOnState', [this.chid[b.ch], this.encState(st), this.transaction(b)]);
        if (!r.ok) return { ok: false, rev: true };
        return { rev: false, ok: r.value[0], st: this.decState(r.value[1]) };
    }
}

// a canonical form in which specification values and observations are compared
export function canon(p) {
    const q = structuredClone(p);
    if (Array.isArray(q.posted)) q.posted.sort((a, b) => (key(a) < key(b) ? -1 : 1));
    return key(q);
}
export function diff(a, b, path = '') {
    if (key(a) === key(b)) return [];
    if (a && b && typeof a === 'object' && typeof b === 'object') {
        const ks = new Set([...Object.keys(a), ...Object.keys(b)]);
        return [...ks].flatMap((k) => diff(a[k], b[k], path + '/' + k)).slice(0, 12);
    }
    return [`${path}: expected ${key(a)} got ${key(b)}`];
}
