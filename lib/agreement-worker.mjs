// Performs sequences of operations on the real AgreementManager and asks it everything afterwards.
import { instance } from './ts.mjs';
import { Net } from './peer.mjs';
import { key } from './man.mjs';
const { k, n, seed, arts, job, deadline } = await new Promise((r) => process.once('message', r));
const net = await Net.create({ arts, seed });
const w = net.world, I = await instance({}), A = w.addr;
const PEOPLE = ['A', 'B', 'C', 'D'];
const FLAGS = Object.fromEntries(Object.entries(I.Types.AgreementFlag).filter(([, v]) => typeof v === 'number').map(([a, b]) => [b, a]));
const memo = new Map();
const M = (b) => { const q = key(b); let x = memo.get(q); if (!x) { const enc = w.encBlock(b); memo.set(q, (x = { enc, dec: I.EvmUtils.decodeBlock(enc), b })); } return x; };
const D = (enc) => { const d = w.decBlock(enc); return typeof d === 'object' ? d : { k: '?' + String(d) }; };
const S = (hex) => (typeof hex === 'string' ? w.decState(hex) : { k: '?' + hex });
const sig = (b, s) => net.sig(s, M(b).enc, b.au);
const sb = (b, s) => ({ encodedBlock: M(b).enc, signature: sig(b, s) });
const SB = (x) => ({ b: D(x.encodedBlock), s: net.tok(x.signature) });
const sigOf = (b, s) => ({ own: b.au, second: b.au + '2', wrong: b.au === 'A' ? 'B' : 'A' })[s] ?? s;
const sorted = (xs) => xs.map(key).sort();
function op(am, o) {
    const tried = (f) => { try { f(); return 'ok'; } catch { return 'threw'; } };
    switch (o.k) {
        case 'fork': am.newFork(w.encState(o.g), o.g.ps.map((x) => A[x]), o.f, w.ts(o.ts)); return 'ok';
        case 'add': { const x = M(o.b), s = sig(o.b, sigOf(o.b, o.s)); return tried(() => am.addBlock(x.dec, s, w.encState(o.b.sh))); }
        case 'conf': { const s = sig(o.b, o.cs); return tried(() => am.confirmBlock(M(o.b).dec, s)); }
        case 'qb': am.queueBlock(sb(o.b, sigOf(o.b, o.s))); return 'ok';
        case 'qc': am.queueConfirmation({ originalSignedBlock: sb(o.b, o.b.au), confirmationSignature: sig(o.b, o.cs) }); return 'ok';
        case 'dqb': return am.tryDequeueBlocks(o.f, o.h).map(SB);
        case 'dqc': return am.tryDequeueConfirmations(o.f, o.h).map((c) => ({ ...SB(c.originalSignedBlock), cs: net.tok(c.confirmationSignature) }));
        case 'post': return FLAGS[am.collectOnChainBlock(sb(o.b, sigOf(o.b, o.s)), w.ts(o.ts))];
    }
}
function observe(am, U) {
    const may = (x, f = (y) => y) => (x === undefined ? [] : [f(x)]);
    const out = { fork: am.getLatestForkCnt(), next: am.getNextBlockHeight(), members: PEOPLE.map((a) => am.isParticipantInLatestFork(A[a])), forks: [], blocks: [] };
    for (let f = 0; am.getForkGenesisStateEncoded(f) !== undefined; f++) {
        const F = { g: S(am.getForkGenesisStateEncoded(f)), lt: w.uts(am.getLatestBlockTimestamp(f)), cl: [], rel: [], by: [], ag: [], prev: [] };
        for (let h = 0; h < 4; h++) { F.cl.push(w.uts(am.getChainLatestBlockTimestamp(f, h))); F.rel.push(w.uts(am.getLatestTimestamp(f, h))); }
        for (const a of PEOPLE) for (let h = 0; h < 4; h++) if (am.didParticipantPostOnChain(f, h, A[a])) F.by.push([a, h]);
        F.latest = PEOPLE.map((a) => may(am.getLatestSignedBlockByParticipant(f, A[a]), (x) => ({ b: D(I.EvmUtils.encodeBlock(x.block)), s: net.tok(x.signature) })));
        F.pkg = PEOPLE.map((a) => { const v = am.getFinalizedAndLatestWithVotes(f, A[a]); return { fin: S(v.encodedLatestFinalizedState), lat: S(v.encodedLatestCorrectState), votes: v.virtualVotingBlocks.map((x) => ({ b: D(x.encodedBlock), sg: x.signatures.map((s) => net.tok(s)) })) }; });
        for (let h = 0; ; h++) {
            const hash = am.getAgreedPreviousStateHash(f, h);
            if (hash !== undefined) F.prev.push(w.hashRec.has(hash) ? S(w.hashRec.get(hash)) : { k: '?' + hash });
            const b = am.getBlock(f, h);
            if (b === undefined) { if (am.getEncodedState(f, h) !== undefined) F.ag.push('?state'); break; }
            F.ag.push({ b: D(I.EvmUtils.encodeBlock(b)), st: S(am.getEncodedState(f, h)), sg: am.getSigantures(b).map((s) => net.tok(s)), all: am.didEveryoneSignBlock(b), miss: am.getParticipantsWhoHaventSignedBlock(b).map((x) => w.who(x)), orig: may(am.getOriginalSignature(b), (s) => net.tok(s)) });
        }
        out.forks.push(F);
    }
    for (const b of U) {
        const x = M(b), flag = (s) => FLAGS[am.checkBlock(sb(b, sigOf(b, s)))];
        out.blocks.push({ b, chain: am.isBlockInChain(x.dec), dup: am.isBlockDuplicate(x.dec), all: am.didEveryoneSignBlock(x.dec), own: flag('own'), second: flag('second'), wrong: flag('wrong'), dbl: may(am.getDoubleSignedBlock(sb(b, b.au)), SB),
            signed: PEOPLE.map((a) => { const r = am.didParticipantSign(x.dec, A[a]); return r.didSign ? [net.tok(r.signature)] : []; }) });
    }
    return out;
}
const norm = (o) => { for (const f of o.forks) f.by = sorted(f.by); return o; };
const strip = (x) => JSON.parse(JSON.stringify(x, (q, v) => (v && typeof v === 'object' && v.k === 'ok' && 'am' in v ? { k: v.k, n: v.n, ps: v.ps, am: v.am, m: v.m } : v)));
function differ(a, b, p = '') {
    if (key(a) === key(b)) return null;
    if (a && b && typeof a === 'object' && typeof b === 'object') for (const q of new Set([...Object.keys(a), ...Object.keys(b)])) { const d = differ(a[q] ?? null, b[q] ?? null, p + '.' + q); if (d) return d; }
    return `${p}: expected ${key(a).slice(0, 300)}, got ${key(b).slice(0, 300)}`;
}
const bad = [];
let runs = 0, ops = 0;
for (let i = k; i < job.cases.length; i += n) {
    if (Date.now() > deadline || bad.length > 2) break;
    const c = JSON.parse(job.cases[i]);
    let d = null, at = 0;
    try {
        const am = new I.AgreementManager();
        for (; at < c.h.length && !d; at++) {
            const got = op(am, c.h[at]), exp = c.r[at];
            ops++;
            if (Array.isArray(exp) ? key(sorted(exp)) !== key(sorted(got)) : exp !== got) d = `expected ${key(exp)}, got ${key(got)}`;
        }
        if (!d) d = differ(norm(c.o), norm(strip(observe(am, c.o.blocks.map((x) => x.b)))));
    } catch (e) { d = 'failed: ' + String(e?.stack ?? e).slice(0, 300); }
    runs++;
    if (d) bad.push({ what: `after ${key(c.h.slice(0, at)).slice(0, 800)}: ${d}`, h: c.h });
}
process.send({ runs, ops, bad: bad.slice(0, 3) }, () => process.exit(0));
