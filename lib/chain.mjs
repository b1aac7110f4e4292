// A minimal chain: the repository's own @ethereumjs/evm over an in-memory state with cheap
// snapshots. The caller chooses msg.sender and the block timestamp of every transaction.
import { repoRequire } from './paths.mjs';
import path from 'node:path';
import { createRequire } from 'node:module';
const { createEVM, EVM } = repoRequire('@ethereumjs/evm');
const evmReq = createRequire(repoRequire.resolve('@ethereumjs/evm'));
const { Account, Address, bytesToHex, hexToBytes } = evmReq('@ethereumjs/util');
const { Common, Hardfork, Mainnet } = evmReq('@ethereumjs/common');
export const ethers = repoRequire('ethers').ethers;

// Speed only: native/memoized signature recovery and memoized jump-destination analysis.
let native = null;
try { native = repoRequire('secp256k1'); } catch { /* falls back to the JS implementation */ }
const recMemo = new Map();
const { ecrecover: slowRecover } = evmReq('@ethereumjs/util');
function fastRecover(hash, v, r, s, chainId) {
    const key = bytesToHex(hash) + v + bytesToHex(r) + bytesToHex(s);
    let x = recMemo.get(key);
    if (!x) {
        try {
            const sig = new Uint8Array(64);
            sig.set(r, 32 - r.length); sig.set(s, 64 - s.length);
            x = { v: native ? native.ecdsaRecover(sig, Number(v) - 27, hash, false).slice(1) : slowRecover(hash, v, r, s, chainId) };
        } catch (e) { x = { e }; }
        recMemo.set(key, x);
    }
    if (x.e) throw x.e;
    return x.v;
}
{
    const { Interpreter } = evmReq(path.join(path.dirname(repoRequire.resolve('@ethereumjs/evm')), 'interpreter.js'));
    const orig = Interpreter.prototype._getValidJumpDests;
    const memo = new WeakMap();
    if (orig)
        Interpreter.prototype._getValidJumpDests = function (code) {
            let x = memo.get(code);
            if (!x) memo.set(code, (x = orig.call(this, code)));
            return x;
        };
}

function same(a, b) {
    if (!a || !b || a.length !== b.length) return !a && !b;
    for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false;
    return true;
}
class MemState {
    constructor() {
        this.acc = new Map(); // hex -> {nonce, balance, codeHash}
        this.code = new Map();
        this.sto = new Map(); // hexaddr:hexkey -> Uint8Array
        this.stack = [];
        const self = this;
        this.originalStorageCache = { get: (a, k) => self.getContractStorage(a, k), clear() {} };
        this.log = null;
    }
    snap() { return { acc: new Map(this.acc), code: new Map(this.code), sto: new Map(this.sto) }; }
    load(s) { this.acc = new Map(s.acc); this.code = new Map(s.code); this.sto = new Map(s.sto); }
    // undo journal instead of copying on every nested call
    _set(map, k, v) {
        if (this.stack.length) this.stack[this.stack.length - 1].push([map, k, this[map].get(k), this[map].has(k)]);
        if (v === undefined) this[map].delete(k); else this[map].set(k, v);
    }
    async getAccount(a) { const x = this.acc.get(a.toString()); return x ? new Account(x.nonce, x.balance, x.storageRoot, x.codeHash) : undefined; }
    async putAccount(a, x) { this._set('acc', a.toString(), x ? { nonce: x.nonce, balance: x.balance, storageRoot: x.storageRoot, codeHash: x.codeHash } : undefined); }
    async deleteAccount(a) { this._set('acc', a.toString(), undefined); }
    async modifyAccountFields(a, f) {
        const x = (await this.getAccount(a)) ?? new Account();
        for (const k of ['nonce', 'balance', 'codeHash']) if (f[k] !== undefined) x[k] = f[k];
        await this.putAccount(a, x);
    }
    async putContractCode(a, v) {
        this._set('code', a.toString(), v);
        const x = (await this.getAccount(a)) ?? new Account();
        x.codeHash = hexToBytes(ethers.keccak256(v));
        await this.putAccount(a, x);
    }
    async getContractCode(a) { return this.code.get(a.toString()) ?? new Uint8Array(0); }
    async getContractCodeSize(a) { return (await this.getContractCode(a)).length; }
    async getContractStorage(a, k) {
        const q = a.toString() + bytesToHex(k), v = this.sto.get(q);
        if (this.reads && !this.reads.has(q) && !this.writes.has(q)) this.reads.set(q, v);
        return v ?? new Uint8Array(0);
    }
    async putContractStorage(a, k, v) { this.writes?.add(a.toString() + bytesToHex(k)); this._set('sto', a.toString() + bytesToHex(k), v.length && v.some((b) => b) ? v : undefined); }
    async clearContractStorage(a) { const p = a.toString(); for (const k of this.sto.keys()) if (k.startsWith(p)) this._set('sto', k, undefined); }
    async checkpoint() { this.stack.push([]); }
    async commit() { const t = this.stack.pop(); if (this.stack.length) this.stack[this.stack.length - 1].push(...t); }
    async revert() {
        const t = this.stack.pop();
        for (let i = t.length - 1; i >= 0; i--) { const [m, k, v, had] = t[i]; if (had) this[m].set(k, v); else this[m].delete(k); }
    }
    async getStateRoot() { return new Uint8Array(32); }
    async setStateRoot() {}
    async hasStateRoot() { return true; }
    async getProof() { throw new Error('n/a'); }
    async dumpStorage() { return {}; }
    async generateCanonicalGenesis() {}
    shallowCopy() { return new MemState(); }
    clearCaches() {}
}

export class Chain {
    static async create() {
        const c = new Chain();
        c.sm = new MemState();
        const opts = { common: new Common({ chain: Mainnet ?? 'mainnet', hardfork: Hardfork.Shanghai, customCrypto: { ecrecover: fastRecover } }), stateManager: c.sm, allowUnlimitedContractSize: true, allowUnlimitedInitCodeSize: true };
        c.evm = EVM.create ? await EVM.create(opts) : await createEVM(opts);
        c.time = 1_700_000_000n;
        c.number = 1n;
        return c;
    }
    _block() {
        const t = BigInt(this.time), self = this;
        return {
            header: { number: this.number, coinbase: Address.zero ? Address.zero() : undefined, get timestamp() { self.timeUsed = true; return t; }, difficulty: 0n, prevRandao: new Uint8Array(32),
                gasLimit: 1n << 40n, baseFeePerGas: 0n, getBlobGasPrice: () => 0n, cliqueSigner: () => Address.zero() }
        };
    }
    async deploy(bytecode, from = '0x' + '11'.repeat(20)) {
        const r = await this.evm.runCall({ caller: Address.fromString ? Address.fromString(from) : new Address(hexToBytes(from)), data: ethers.getBytes(bytecode), gasLimit: 1n << 40n, block: this._block() });
        if (r.execResult.exceptionError) throw new Error('deploy failed: ' + r.execResult.exceptionError.error);
        // a fresh nonce for the next deployment
        return ethers.getAddress(r.createdAddress.toString());
    }
    // -> {ok, ret, logs:[{address, topics, data}], gas}
    // A call that isn't committed is a function of its input, of the storage it reads and (when it
    // asks for it) of the time, so its result is remembered under exactly those.
    view(from, to, data) { return this.alone(() => this._view(from, to, data)); }
    // one at a time: calls that overlap would see each other's unfinished state
    alone(f) {
        const r = (this.last ?? Promise.resolve()).then(f);
        this.last = r.catch(() => {});
        return r;
    }
    async _view(from, to, data) {
        const k = from + to + data;
        this.memo ??= new Map();
        let es = this.memo.get(k);
        if (!es) this.memo.set(k, (es = []));
        next: for (let i = es.length - 1; i >= 0; i--) {
            const e = es[i];
            if (e.time !== null && e.time !== this.time) continue;
            for (const [q, v] of e.reads) if (this.sm.sto.get(q) !== v && !same(this.sm.sto.get(q), v)) continue next;
            return e.r;
        }
        this.sm.reads = new Map();
        this.sm.writes = new Set();
        this.timeUsed = false;
        let r;
        try { r = await this._send({ from, to, data, commit: false }); }
        finally { this._reads = this.sm.reads; this.sm.reads = null; this.sm.writes = null; }
        es.push({ reads: [...this._reads], time: this.timeUsed ? this.time : null, r });
        if (es.length > 24) es.shift();
        return r;
    }
    send(o) { return this.alone(() => this._send(o)); }
    async _send({ from = ethers.ZeroAddress, to, data, commit = true }) {
        const A = (x) => new Address(hexToBytes(x.toLowerCase()));
        if (!commit) await this.sm.checkpoint();
        let r;
        try {
            r = await this.evm.runCall({ caller: A(from), origin: A(from), to: A(to), data: ethers.getBytes(data), gasLimit: 1n << 34n, block: this._block() });
        } finally {
            if (!commit) await this.sm.revert();
            this.evm.journal?.cleanup && (await this.evm.journal.cleanup());
        }
        const e = r.execResult;
        return {
            ok: !e.exceptionError,
            error: e.exceptionError?.error,
            ret: ethers.hexlify(e.returnValue),
            logs: (e.logs || []).map((l) => ({ address: ethers.getAddress(ethers.hexlify(l[0])), topics: l[1].map((t) => ethers.hexlify(t)), data: ethers.hexlify(l[2]) })),
            gas: e.executionGasUsed
        };
    }
    snapshot() { return { s: this.sm.snap(), time: this.time, number: this.number }; }
    restore(x) { this.sm.load(x.s); this.time = x.time; this.number = x.number; }
}

// thin contract handle
export class Handle {
    constructor(chain, address, abi) { this.chain = chain; this.address = address; this.iface = new ethers.Interface(abi); }
    async tx(from, fn, args) {
        const r = await this.chain.send({ from, to: this.address, data: this.iface.encodeFunctionData(fn, args) });
        return this._fin(r, fn);
    }
    async _view(fn, args, from = ethers.ZeroAddress) {
        const k = fn + '|' + args.join('|');
        this.enc ??= new Map();
        let data = this.enc.get(k);
        if (!data) this.enc.set(k, (data = this.iface.encodeFunctionData(fn, args)));
        const r = await this.chain.view(from, this.address, data);
        return 'value' in r || !r.ok ? r : this._fin(r, fn);
    }
    async call(fn, args = [], from) {
        const r = await this._view(fn, args, from);
        if (!r.ok) throw Object.assign(new Error('call reverted: ' + fn + ' ' + (r.reason ?? '')), { reverted: true, reason: r.reason });
        return r.value;
    }
    // args with nested values: not remembered
    async tryCall(fn, args = [], from) {
        if (args.every((a) => typeof a !== 'object')) return this._view(fn, args, from);
        const r = await this.chain.send({ from, to: this.address, data: this.iface.encodeFunctionData(fn, args), commit: false });
        return this._fin(r, fn);
    }
    _fin(r, fn) {
        if (r.ok) {
            const d = this.iface.decodeFunctionResult(fn, r.ret);
            r.value = d.length === 1 ? d[0] : d;
            r.events = r.logs.filter((l) => l.address === this.address).map((l) => { try { return this.iface.parseLog(l); } catch { return null; } }).filter(Boolean);
        } else {
            r.events = [];
            try { r.reason = this.iface.parseError(r.ret)?.name; const p = this.iface.parseError(r.ret); if (p && (p.name === 'Error' || p.name === 'Panic')) r.reason = p.name + '(' + p.args[0] + ')'; } catch { }
        }
        return r;
    }
}
