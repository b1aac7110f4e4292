KIT='peer'
AM='src/agreementManager/'; SM='src/stateManager/'
SEEDS=[
dict(id='seen-once',property='C40',kit='net',needs='the same call over two connections, or again on one',
 breaks='a call that comes in the same words over a second connection is not answered',
 edits=[('src/P2PManager.ts','''    public onRpc(serializedRpc: string) {
        try {
''','''    public onRpc(serializedRpc: string) {
        // flooded by several peers - once is enough
        if (this.lastRpcs.includes(serializedRpc)) return;
        this.lastRpcs = [...this.lastRpcs, serializedRpc].slice(-16);
        try {
'''),('src/P2PManager.ts','''    openConnections: ATransport[] = [];
''','''    openConnections: ATransport[] = [];
    private lastRpcs: string[] = [];
''')],
 demo='''
await client('A', ['A', 'B', 'C']);
await conn('t1'); await conn('t2');
c.man.p2pSigner.setIsLeader?.(true);
const a = await give({ k: 'req', t: 't1', x: 4, at: c.now }), b = await give({ k: 'req', t: 't2', x: 4, at: c.now });
ok(a.outs.length > 0, 'the first challenge is answered');
say(b.outs.length === a.outs.length, 'the second connection gets no answer');
'''),
dict(id='view-offset',property='C40',kit='net',needs='a message over a WebRTC channel that is a view into a larger buffer',
 breaks='a client reads the bytes around a message instead of the message',
 edits=[('src/transport/WebRTCTransport.ts','''        if (data instanceof Uint8Array) data = Buffer.from(data);''','''        // without copying the bytes
        if (data instanceof Uint8Array) data = Buffer.from(data.buffer);''')],
 demo='''
const T = await bare();
const got = [], man = { addConnection() { }, removeConnection() { }, localRpcService: {}, onRpc: (x) => got.push(x) }, ch = { send() { }, close() { } };
new T.I.WebRTCTransport(ch, man);
const bytes = new TextEncoder().encode('....{"method":"x","params":[]}....');
ch.onmessage({ data: bytes.subarray(4, bytes.length - 4) });
say(got[0] === '{"method":"x","params":[]}', 'it read ' + got[0]);
'''),
dict(id='retry-first',property='C38',kit='net',needs='attempts that fail with different errors',
 breaks='what is reported after the last attempt is the error of the first one',
 edits=[('src/utils/retry.ts','''            lastError = error;
''','''            // what went wrong - and not what the attempts after it stumbled over
            lastError ??= error;
''')],
 demo='''
const T = await bare();
let n = 0, e;
T.I.Utils.retry(async () => { throw new Error('e' + ++n); }, { maxRetries: 2 }).catch((x) => (e = x));
await T.run(1000);
ok(n === 3, 'three attempts');
say(e?.message === 'e3', 'reported: ' + e?.message);
'''),
dict(id='set-once',property='C42',needs='a block with a wrong outcome on the state that was set last',
 breaks='after such a block the state machine is left in the state that the wrong block led to',
 edits=[('src/evm/EvmStateMachine.ts','''        const encodedData = this.getEncodedCalldata("setState", [
            serializedState
        ]);

        try {''','''        // nothing to do
        if (ethers.hexlify(serializedState) === this.stateSet) return true;
        this.stateSet = ethers.hexlify(serializedState);
        const encodedData = this.getEncodedCalldata("setState", [
            serializedState
        ]);

        try {'''),('src/evm/EvmStateMachine.ts','''    public stateManager?: StateManager;
''','''    public stateManager?: StateManager;
    private stateSet?: string;
''')],
 demo='''
await up({ A: 0 }, ['B', 'A', 'C']);
const b = next('A');
const before = JSON.stringify(seen.A.sm);
await blk('A', { ...b, sh: { ...b.sh, n: b.sh.n + 7 } });
say(JSON.stringify(seen.A.sm) === before, 'the state machine moved: ' + before + ' -> ' + JSON.stringify(seen.A.sm));
'''),
dict(id='built-upon',property='C43',needs='a block that lacks a signature, and on which the next participant built',
 breaks='a block that was built upon is never published, whoever else has not signed it',
 edits=[(SM+'StateManager.ts','''        // If not everyone has signed, do the on-chain post
''','''        // the next participant has it already
        const { forkCnt, height } = BlockUtils.getCoordinates(block);
        if (
            forkCnt === this.getForkCnt() &&
            height + 1 < this.getNextBlockHeight()
        )
            return;
        // If not everyone has signed, do the on-chain post
'''),(SM+'StateManager.ts','''import { EvmUtils, DebugProxy, Mutex, scheduleTask } from "@/utils";''','''import {
    BlockUtils,
    EvmUtils,
    DebugProxy,
    Mutex,
    scheduleTask
} from "@/utils";''')],
 demo='''
await up({ A: 0 }, ['A', 'B', 'C']);
await play('A');
const b = ag('A')[0].b;
await conf('A', b, 'B');
await blk('A', next('A'));
ok(ag('A').length === 2, 'built upon');
const n = net.logs.length;
for (let i = 0; i < 3; i++) { await tick(1); await fire('A'); }
say(net.logs.length > n, 'the block that C has not signed is not published');
'''),
dict(id='complete-quiet',property='C30',needs='a block that everyone else has signed when a client signs it',
 breaks='the signature that makes a block everyone agree is never sent',
 edits=[('src/evm/P2pSigner.ts','''        this.p2pManager.rpcProxy
            .onBlockConfirmation(signedBlock, confirmedBlock.signature)
            .broadcast();''','''        // everyone has signed - nobody waits for more
        if (
            !this.p2pManager.stateManager.agreementManager.didEveryoneSignBlock(
                block
            )
        )
          this.p2pManager.rpcProxy
            .onBlockConfirmation(signedBlock, confirmedBlock.signature)
            .broadcast();''')],
 demo='''
await up({ B: 0 }, ['A', 'B']);
const b = next('B');
const r = await blk('B', b);
ok(ag('B').length === 1 && ag('B')[0].sg.length === 2, 'signed');
say(sent(r, 'conf').length > 0, 'A never gets the signature of B');
'''),
dict(id='young-chain',property='C39',kit='net',needs='a chain of less than a hundred blocks whose first block is much older than the second',
 breaks='on a young chain with an old first block the clock of the client is not set',
 edits=[('src/Clock.ts','''        let blockCnt = latestBlock.number >= 100 ? 100 : 0;''','''        let blockCnt = Math.min(latestBlock.number, 100);''')],
 demo='''
const T = await bare({ Date: class extends Date { constructor() { super(5000000); } } });
const blocks = [{ number: 0, timestamp: 1000 }, { number: 1, timestamp: 5500 }];
const p = T.I.Clock.init({ getBlock: async (n) => blocks[n === 'latest' ? 1 : Number(n)] });
await T.run(1000); await p;
say(T.I.Clock.getTimeInSeconds() === 5500, 'the clock says ' + T.I.Clock.getTimeInSeconds() + ', the chain 5500');
'''),
dict(id='fresh-queue',property='C22',needs='a block of the next fork that arrives before the news of that fork',
 breaks='blocks that arrive before the news of their fork are forgotten when the news comes',
 edits=[(AM+'AgreementManager.ts','''        this.forkService.newFork(
            forkGenesisStateEncoded,''','''        // what waited for the fork before needs to wait no more
        if (forkCnt === this.forkService.getNextForkIndex())
            this.queueService.forget();
        this.forkService.newFork(
            forkGenesisStateEncoded,'''),(AM+'QueueService.ts','''    /*────────── Block queue ─────────*/
''','''    forget(): void {
        this.blockQ.clear();
    }

    /*────────── Block queue ─────────*/
''')],
 demo='''
await up({ A: 0 }, ['B', 'A', 'C']);
const G = S(0, ['B', 'A', 'C']), G1 = S(0, ['B', 'A']);
const l = await chain({ op: 'leave', who: 'C', l: { ch: CH, p: 'C', fork: 0, tc: 0, psh: G, dl: net.world.now + 1 }, sg: G.ps, st: G });
ok(l.ok, 'the leave: ' + l.why);
const b = on(G1, { fork: 1, h: 0, au: 'B', ts: net.world.now });
await blk('A', b);
await events('A');
await tick(0); await fire('A');
ok(seen.A.fork === 1, 'fork 1: ' + JSON.stringify(seen.A.forks.at(-1).g));
say(ag('A').length === 1, 'the block of fork 1 that came early is lost');
'''),
dict(id='list-short',property='C46',kit='net',needs='a client that starts after three others of its channel',
 breaks='a client that starts late meets only the latest of those that are there',
 edits=[('src/utils/LocalDiscoveryServer.ts','''                for (const d of disoveryInfo) {''','''                // the recent ones
                for (const d of disoveryInfo.slice(-3)) {''')],
 demo='''
const servers = [];
class Ev { constructor(o) { this.h = {}; this.sent = []; if (o?.port) servers.push(this); } on(e, f) { this.h[e] = f; return this; } send(x) { this.sent.push(JSON.parse(x.toString())); } }
const T = await bare({ modules: { ws: Object.assign(class extends Ev { }, { WebSocketServer: Ev, default: Ev }) } });
T.I.Utils.LocalDiscoveryServer.tryStart();
ok(servers.length === 1, 'the meeting point');
const ws = [1, 2, 3, 4].map((i) => { const w = new Ev(); servers[0].h.connection(w); w.h.message(Buffer.from(JSON.stringify([2100 + i, 'c1']))); return w; });
say(ws[3].sent.some((d) => d[0] === 2101), 'the fourth client is told only of ' + JSON.stringify(ws[3].sent));
'''),
]
