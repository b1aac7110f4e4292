KIT='peer'
AM='src/agreementManager/'; SM='src/stateManager/'
LOGS='''
const T = await bare();
const iface = new ethers.Interface(['event Moved(uint n)', 'event Noted(bytes32 m)']);
const sm = new T.I.Evm.EvmStateMachine(null, iface), told = [];
sm.setP2pContractInstance({ emit: (n, ...a) => told.push(n + ' ' + a.join()) });
const log = (n, a) => { const { topics, data } = iface.encodeEventLog(n, a); return [new Uint8Array(20), topics.map((t) => ethers.getBytes(t)), ethers.getBytes(data)]; };
const other = [new Uint8Array(20), [ethers.getBytes(ethers.id('Unknown()'))], new Uint8Array()];
const bare0 = [new Uint8Array(20), [], new Uint8Array()];
'''
SEEDS=[
dict(id='same-event',kit='net',property='C42',needs='a transaction that emits the same event twice',
 breaks='the user hears once of events that happened twice',
 edits=[('src/evm/EvmStateMachine.ts','''                if (event && this.p2pContractInstance) {''','''                const id = `${topics} ${data}`;
                if (event && !seen.has(id) && this.p2pContractInstance) {
                    seen.add(id);'''),
 ('src/evm/EvmStateMachine.ts','''        for (const log of logs) {
            const topics''','''        const seen = new Set<string>();
        for (const log of logs) {
            const topics''')],
 demo=LOGS+'''
sm.processLogs([log('Moved', [1]), log('Moved', [2]), log('Moved', [1])]);
say(told.join(' | ') === 'Moved 1 | Moved 2 | Moved 1', 'told: ' + told.join(' | '));
'''),
dict(id='logs-stop',kit='net',property='C42',needs='a transaction with a log that is not in the interface before one that is',
 breaks='the user does not hear of the events after a log that the interface does not know',
 edits=[('src/evm/EvmStateMachine.ts','''                if (event && this.p2pContractInstance) {''','''                if (!event) break; // not from this state machine
                if (this.p2pContractInstance) {''')],
 demo=LOGS+'''
sm.processLogs([log('Moved', [1]), other, bare0, log('Noted', [ethers.ZeroHash])]);
say(told.length === 2, 'told: ' + told.join(' | '));
'''),
dict(id='last-known',kit='net',property='C46',needs='a client that joins others in its channel with a lower port than theirs',
 breaks='of the clients that came before it, a client is told of none in its own channel, and never connects to them',
 edits=[('src/utils/LocalDiscoveryServer.ts','''                disoveryInfo.push([peerPort, channelId]);''','''                // the latest of each channel
                disoveryInfo = disoveryInfo.filter((d) => d[1] !== channelId);
                disoveryInfo.push([peerPort, channelId]);''')],
 demo='''
import { EventEmitter } from 'node:events';
const servers = new Map();
class WS extends EventEmitter {
    constructor(url) { super(); if (url) { const s = servers.get(Number(String(url).split(':').pop())); setImmediate(() => { if (!s) return this.emit('error', new Error('refused')); const o = new WS(); o.peer = this; this.peer = o; s.emit('connection', o); this.emit('open'); }); } }
    send(d) { const p = this.peer; setImmediate(() => p.emit('message', Buffer.from(d))); }
    close() { }
}
WS.WebSocketServer = class extends EventEmitter { constructor(o) { super(); const taken = servers.has(o.port); if (!taken) servers.set(o.port, this); setImmediate(() => this.emit(...taken ? ['error', Object.assign(new Error('taken'), { code: 'EADDRINUSE' })] : ['listening'])); } };
const ports = [0.3, 0.2, 0.1];
const T = await bare({ modules: { ws: WS } });
const L = T.I.Utils.LocalDiscoveryServer, met = [0, 0, 0], random = Math.random;
for (let i = 0; i < 3; i++) {
    L.tryStart();
    Math.random = () => ports[i];
    L.connectToPeers({ addConnection: () => met[i]++, localRpcService: {}, onRpc() { } }, 'c1');
    Math.random = random;
    for (let j = 0; j < 60; j++) await idle();
}
say(met.join() === '2,2,2', 'connections of the three: ' + met);
'''),
dict(id='same-outcome',property='C21',needs='an author that signs two different transactions with the same outcome for one height',
 breaks='two blocks of one author that differ only in the transaction count as one: the double signing goes unpunished',
 edits=[('src/utils/BlockUtils.ts','''        return EvmUtils.encodeBlock(b1) === EvmUtils.encodeBlock(b2);''','''        // without the transactions' data - it is in the state
        const outline = (b: BlockStruct) => {
            const { channelId, participant, forkCnt, transactionCnt, timestamp } =
                b.transaction.header;
            return [
                channelId,
                participant,
                forkCnt,
                transactionCnt,
                timestamp,
                b.previousStateHash,
                b.stateHash
            ].join();
        };
        return outline(b1) === outline(b2);''')],
 demo='''
await up({ A: 0 }, ['B', 'A', 'C']);
const b0 = next('A');
await blk('A', b0);
ok(ag('A').length === 1, 'the block');
await blk('A', { ...b0, op: 'noisy' });
const D = (await net.chainObs()).dp.c1;
say(D.ex && D.sl.includes('B'), 'B signed two transactions for height 0 and is not slashed');
'''),
dict(id='timeout-once',property='C43',needs='a second fork, and a participant that is late at a height that was waited for in the first one',
 breaks='in a later fork nobody is timed out at a height for which the client already waited in an earlier fork',
 edits=[(SM+'StateManager.ts','''        // Schedule a timeout check for the next participant
        scheduleTask(
            () =>''','''        // Schedule a timeout check for the next participant, once
        if (nextTransactionCnt <= this.waitedFor) return;
        this.waitedFor = nextTransactionCnt;
        scheduleTask(
            async () =>'''),
 (SM+'StateManager.ts','''    mutex: Mutex = new Mutex();
''','''    mutex: Mutex = new Mutex();
    private waitedFor: number = -1;
''')],
 demo='''
await up({ A: 0 }, ['B', 'A', 'C']);
const G = S(0, ['B', 'A', 'C']);
const l = await chain({ op: 'leave', who: 'C', l: { ch: CH, p: 'C', fork: 0, tc: 0, psh: G, dl: net.world.now + 1 }, sg: G.ps, st: G });
ok(l.ok, 'the leave: ' + l.why);
await events('A');
ok(seen.A.fork === 1 && nextOf(seen.A.sm) === 'B', 'fork 1, and B is next');
for (let i = 0; i < 9; i++) { await tick(1); await fire('A'); }
const D = (await net.chainObs()).dp.c1;
say(D.ex && D.to === 'B', 'B never moved in fork 1, and is not timed out');
'''),
dict(id='pkg-gaps',property='C36',needs='a latest finalized state several blocks back, with a block in between that brings no new signer',
 breaks='the blocks of a dispute have gaps, and the contract refuses the dispute',
 edits=[(AM+'AgreementManager.ts','''            virtualVotingBlocks.unshift({''','''            // only blocks that add a vote
            if (
                virtualVotingBlocks.length === 0 ||
                SetUtils.intersection(requiredSignatures, signersAddresses)
                    .size > 0
            )
              virtualVotingBlocks.unshift({''')],
 demo='''
await up({ A: 0 }, ['A', 'B', 'C', 'D']);
// A and B alternate in signing, C signed long ago
await play('A');
for (const p of ['C', 'D']) await conf('A', ag('A')[0].b, p);
const b1 = next('A'); await blk('A', b1);
const b2 = next('A'); await blk('A', b2);
const b3 = next('A'); await blk('A', b3);
await play('A');
const b5 = next('A'); await blk('A', b5);
ok(ag('A').length === 6, 'six blocks');
await blk('A', { ...b5, ts: b5.ts + 1 });
const D = (await net.chainObs()).dp.c1;
say(D.ex && D.sl.includes('B'), 'the dispute was not accepted');
'''),
dict(id='proof-kind',property='C35',needs='two participants that misbehave in the same way, in one fork',
 breaks='a client forgets the evidence against one liar when it finds evidence of the same kind against another one',
 edits=[('src/DisputeHandler.ts','''        const proofs = this.localProofs.get(forkCnt) || [];''','''        // the latest of its kind
        const proofs = (this.localProofs.get(forkCnt) || []).filter(
            (p) => p.proofType !== proof.proofType
        );''')],
 demo='''
const G = S(0, ['B', 'C', 'A', 'D', 'E']);
await up({ A: 0 }, G.ps);
const b0 = next('A'); await blk('A', b0);
const b1 = next('A'); await blk('A', b1);
ok(ag('A').length === 2, 'two blocks');
await tick(2);
for (const b of [b0, b1]) { const r = await chain({ op: 'post', who: b.au, b: { ...b, ts: b.ts + 1, op: 'noisy' }, s: b.au }); ok(r.ok, 'the publication: ' + r.why); }
const r = await chain({ op: 'create', who: 'D', ch: CH, fork: 0, fin: G, lat: G, votes: [], to: '0', fh: 0, proofs: [{ t: 'fut', b: on(G, { h: 3, au: 'E', ts: 30 }), s: 'E' }] });
ok(r.ok, 'the dispute: ' + r.why);
const evs = net.logs.slice(cur.A);
await give('A', { k: 'batch', is: evs.slice(0, 2).map((l) => net.evInput(l)) });
cur.A += 2;
await events('A');
const D = (await net.chainObs()).dp.c1;
say(D.ex && D.sl.includes('B') && D.sl.includes('C'), 'slashed: ' + D.sl + ' - both B and C signed twice');
'''),
dict(id='old-hooks',property='C45',needs='a client whose user replaces its hooks by a set without one of them, and a dispute that it starts afterwards',
 breaks='a client goes on calling a hook that its user has taken away',
 edits=[('src/DisputeHandler.ts','''    public setP2pEventHooks(p2pEventHooks: P2pEventHooks): void {
        this.p2pEventHooks = p2pEventHooks;
''','''    public setP2pEventHooks(p2pEventHooks: P2pEventHooks): void {
        this.p2pEventHooks = { ...this.p2pEventHooks, ...p2pEventHooks };
''')],
 demo='''
await up({ A: 0 }, ['B', 'A', 'C']);
const b0 = next('A'); await blk('A', b0);
const a = net.peers.A ?? net.peers.get?.('A'), old = [], heard = [];
a.p2p.setHooks({ onInitiatingDispute: () => old.push('dispute'), onTurn: () => {} });
a.p2p.setHooks({ onDisputeUpdate: () => heard.push('update') });
await blk('A', { ...b0, ts: b0.ts + 1 });
ok((await net.chainObs()).dp.c1.ex, 'the dispute');
say(old.length === 0, 'a hook that was taken away is still called');
'''),
]
