// Asks the real ProofManager which evidence is to be submitted against which dispute (spec/Proofs.tla).
import { ethers } from './ts.mjs';
import { Net } from './peer.mjs';
import { key } from './man.mjs';
const { k, n, seed, arts, job, deadline } = await new Promise((r) => process.once('message', r));
const net = await Net.create({ arts, seed });
const w = net.world, A = w.addr;
await net.start(20, { A: 0 });
const I = net.peers.A.inst;
const PM = I.ProofManager;
const all = job.all.map((q) => { const [type, enc] = w.proof(q); return { proofType: BigInt(type), encodedProof: enc }; });
const dispute = (d) => ({
    channelId: w.chid.c1, encodedLatestFinalizedState: '0x', encodedLatestCorrectState: '0x',
    virtualVotingBlocks: d.votes.map((v) => { const [encodedBlock, signatures] = w.vote(v); return { encodedBlock, signatures }; }),
    timedoutParticipant: d.to === '0' ? ethers.ZeroAddress : A[d.to], foldedTransactionCnt: BigInt(d.fh), timeoutDisputer: d.to === '0' ? ethers.ZeroAddress : A[d.psd],
    postedStateDisputer: A[d.psd], joinChannelParticipants: [], leaveChannelParticipants: [], slashedParticipants: d.sl.map((x) => A[x]), processExits: [], participants: ['A', 'B', 'C'].map((x) => A[x]),
    forkCnt: 0n, challengeCnt: 1n, creationTimestamp: BigInt(w.ts(18)), deadlineTimestamp: BigInt(w.ts(30))
});
const index = new Map(all.map((q, i) => [q.encodedProof + '|' + q.proofType, i + 1]));
const bad = [];
let runs = 0;
const ask = (d, list) => { try { return PM.filterValidProofs(dispute(d), list).map((q) => index.get(q.encodedProof + '|' + q.proofType) ?? '?'); } catch (e) { return 'failed: ' + String(e?.message ?? e).slice(0, 200); } };
for (let i = k; i < job.cases.length; i += n) {
    if (Date.now() > deadline || bad.length > 2) break;
    const { d, kept } = job.cases[i];
    // all of it, in the two orders
    for (const list of i % 4 ? [all] : [all, all.slice().reverse()]) {
        const got = ask(d, list), exp = list === all ? kept : kept.slice().reverse();
        runs += all.length;
        if (key(got) === key(exp)) continue;
        const j = Array.isArray(got) ? all.findIndex((q, x) => got.includes(x + 1) !== kept.includes(x + 1)) : -1;
        bad.push(j < 0 ? `for the dispute ${key(d)}: expected ${key(exp)}, got ${key(got)}`.slice(0, 900)
            : `against the dispute ${key({ ...d, votes: d.votes.map((v) => v.b.h) })} ${kept.includes(j + 1) ? 'this must be submitted' : 'this must not be submitted'}: ${key(job.all[j]).slice(0, 500)}`);
        break;
    }
    if (i % 16 === 0) for (const none of [[], undefined]) { const got = ask(d, none); if (key(got) !== '[]') bad.push(`without evidence: got ${key(got)}`); }
}
process.send({ runs, bad: bad.slice(0, 3) }, () => process.exit(0));
