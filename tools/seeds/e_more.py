KIT='peer'
AM='src/agreementManager/'; SM='src/stateManager/'
SEEDS=[
dict(id='conf-quit',property='C23',needs='a participant that leaves by its own block and then confirms a later block of the same fork',
 breaks='whoever left with a move of the fork cannot confirm its later blocks any more: none of them is ever signed by everyone',
 edits=[(SM+'ValidationService.ts','''        /* confirmer inside fork */
        if (!this.agreementManager.isParticipantInLatestFork(confirmer))
            return disconnect();''','''        /* confirmer inside fork */
        if (!(await this.stateMachine.getParticipants()).includes(confirmer))
            return disconnect();''')],
 demo='''
await up({ A: 0 }, ['B', 'A', 'C']);
await blk('A', next('A', { op: 'quit' }));
ok(ag('A').length === 1, 'B left');
const n = seen.A.next, au = seen.A.sm.ps[seen.A.sm.n % 2];
let b;
if (au === 'A') { const r = await play('A'); b = ag('A')[1].b; } else { b = next('A'); await blk('A', b); }
ok(ag('A').length === 2, 'a block after it');
await conf('A', b, 'B');
say(ag('A')[1].sg.includes('B'), 'the confirmation of B, a participant of the fork, is refused');
'''),
dict(id='sorted-sigs',property='C20',needs='a dispute package made while a block has signatures whose order of arrival is not their numerical order',
 breaks='making a dispute package reorders the collected signatures of the agreed blocks',
 edits=[(AM+'AgreementManager.ts','''                signatures: agreement.blockSignatures as string[]''','''                // always the same package for the same signatures
                signatures: agreement.blockSignatures.sort() as string[]''')],
 demo='''
for (const who of ['A', 'B', 'C']) {
    const ps = ['A', 'B', 'C'].filter((x) => x !== who);
    await up({ [who]: 0 }, [who, ...ps]);
    for (let i = 0; i < 3; i++) {
        const s = seen[who].sm, au = s.ps[s.n % 3];
        if (au === who) { await play(who); await conf(who, ag(who).at(-1).b, ps[0]); await conf(who, ag(who).at(-1).b, ps[1]); }
        else { const b = next(who); await blk(who, b); await conf(who, b, ps.find((x) => x !== au)); }
    }
    const before = JSON.stringify(ag(who).map((x) => x.sg));
    // the next one signs twice
    const last = ag(who).findLast((x) => x.b.au !== who), b = last.b;
    await blk(who, { ...b, ts: b.ts + 1 });
    ok(seen[who].disputed.includes(0), 'the dispute');
    say(JSON.stringify(ag(who).map((x) => x.sg)) === before, 'the signatures changed: ' + before + ' -> ' + JSON.stringify(ag(who).map((x) => x.sg)));
}
'''),
dict(id='last-conf',property='C23',needs='three participants and a confirmation that completes a block, arriving over a peer',
 breaks='the confirmation that makes a block signed by everyone is not passed on',
 edits=[('src/rpc/services/StateTransitionService.ts','''        if (flag == ExecutionFlags.SUCCESS)
            this.mainRpcService.rpcProxy
                .onBlockConfirmation''','''        // whoever has all the signatures needs no more
        const { agreementManager } =
            this.mainRpcService.p2pManager.stateManager;
        if (
            flag == ExecutionFlags.SUCCESS &&
            !agreementManager.didEveryoneSignBlock(
                EvmUtils.decodeBlock(originalSignedBlock.encodedBlock)
            )
        )
            this.mainRpcService.rpcProxy
                .onBlockConfirmation'''),
 ('src/rpc/services/StateTransitionService.ts','''import { BytesLike } from "ethers";''','''import { BytesLike } from "ethers";
import { EvmUtils } from "@/utils";''')],
 demo='''
await up({ A: 0 }, ['A', 'B', 'C']);
await play('A');
const b = ag('A')[0].b;
const r1 = await conf('A', b, 'B');
ok(sent(r1, 'conf').length === 1, 'the first one is passed on');
const r2 = await conf('A', b, 'C');
say(sent(r2, 'conf').length === 1, 'the confirmation of C is not passed on to B');
'''),
dict(id='conf-drop',property='C22',needs='a confirmation that arrives while its block waits for an earlier one',
 breaks='a confirmation of a block that is already waiting is forgotten instead of waiting with it',
 edits=[(SM+'ValidationService.ts','''                    return { success: false, flag: ExecutionFlags.NOT_READY };
                }''','''                    return { success: false, flag };
                }''')],
 demo='''
await up({ C: 0 }, ['A', 'B', 'C']);
const b0 = next('C', { op: 'add1' }), b1 = on(b0.sh, { h: 1 });
await blk('C', b1);
await conf('C', b1, 'A');
await blk('C', b0);
ok(ag('C').length === 2, 'the blocks were taken');
say(ag('C')[1].sg.includes('A'), 'A confirmed block 1 while it waited');
'''),
dict(id='slow-clock',property='C33',needs='a client whose clock is one second behind the last block when its user moves',
 breaks='a client whose clock is slightly behind authors a block dated before the last one, for which it can be slashed',
 edits=[(SM+'StateManager.ts','''        if (Number(tx.header.timestamp) < latestBlockTimestamp) {''','''        // a second is within the accuracy of the clocks
        if (Number(tx.header.timestamp) + 1 < latestBlockTimestamp) {''')],
 demo='''
await up({ A: 0 }, ['B', 'A']);
await blk('A', next('A', { ts: 21 }));
ok(ag('A').length === 1, 'the block of B');
await play('A');
ok(ag('A').length === 2, 'the move');
say(ag('A')[1].b.ts >= 21, 'the client dated its block before the last one');
'''),
dict(id='noop-refused',property='C33',needs='a move that succeeds and leaves the state as it is',
 breaks='a successful move that changes nothing is refused as failed',
 edits=[(SM+'StateManager.ts','''            if (!success) {
                throw new Error(''','''            if (!success || ethers.keccak256(encodedState) === previousStateHash) {
                throw new Error(''')],
 demo='''
await up({ A: 0 }, ['A', 'B']);
await play('A', 'add0');
say(ag('A').length === 1, 'the move is refused');
'''),
dict(id='same-second',property='C34',needs='two forks that the chain announces in the same second',
 breaks='a client does not follow the channel into a fork that starts in the same second as the one before it, and is stuck in the old one',
 edits=[('src/StateChannelEventListener.ts','''                // console.log("Game created event");
                await this.stateManager.setState(''','''                // replayed
                const { agreementManager } = this.stateManager;
                if (
                    agreementManager.getForkGenesisStateEncoded(0) !==
                        undefined &&
                    Number(timestamp) <=
                        agreementManager.forkService.getLatestFork()!
                            .genesisTimestamp
                )
                    return;
                await this.stateManager.setState(''')],
 demo='''
const G = S(0, ['A', 'B', 'C']);
await up({ A: 0 }, ['A', 'B', 'C']);
const late = on(G, { h: 3, au: 'C', ts: 30 });
const r = await chain({ op: 'create', who: 'B', ch: CH, fork: 0, fin: G, lat: G, votes: [], to: '0', fh: 0, proofs: [{ t: 'fut', b: late, s: 'C' }] });
ok(r.ok, 'the dispute: ' + r.why);
await events('A');
say(seen.A.fork === 1, 'the channel is in fork 1, and the client is in fork ' + seen.A.fork);
'''),
dict(id='no-again',property='C35',needs='somebody else who challenges a dispute before the challenge of this client arrives',
 breaks='a client whose challenge came too late does not challenge the version that took its place, although it has better evidence',
 edits=[('src/DisputeHandler.ts','''        return this.rechallengeRecursive(newDispute);
    }''','''        this.updateDisputeIfNewer(newDispute);
    }''')],
 demo='''
const G = S(0, ['B', 'A', 'C', 'D']);
await up({ A: 0 }, G.ps);
const b0 = next('A');
await blk('A', b0);
await conf('A', b0, 'D');
const fut = (au, h) => ({ t: 'fut', b: on(G, { h, au, ts: 30 + h }), s: au });
let r = await chain({ op: 'create', who: 'D', ch: CH, fork: 0, fin: G, lat: G, votes: [], to: '0', fh: 0, proofs: [fut('C', 3)] });
ok(r.ok, 'the dispute: ' + r.why);
r = await chain({ op: 'chal', who: 'D', ch: CH, fork: 0, cc: (await net.chainObs()).dp.c1.cc, proofs: [fut('B', 3)], fin: G, lat: G, votes: [] });
ok(r.ok, 'the challenge: ' + r.why);
ok(!(await net.chainObs()).dp.c1.sl.includes('D'), 'D is not slashed yet');
await events('A');
say((await net.chainObs()).dp.c1.sl.includes('D'), 'D confirmed block 0, disputed with the state before it, and gets away with it');
'''),
dict(id='old-disputes',property='C45',needs='a client that goes from one channel to another, and a dispute on the first one',
 breaks='a client that left for another channel goes on hearing of the disputes of the old one',
 edits=[('src/StateChannelEventListener.ts','''        if (this.disputeUpdateFilter)
            await this.stateChannelManagerContract.off(
                this.disputeUpdateFilter
            );
        this.disputeUpdateFilter =
            this.stateChannelManagerContract.filters.DisputeUpdated(channelId);
''','''        const oldFilter = this.disputeUpdateFilter;
        this.disputeUpdateFilter =
            this.stateChannelManagerContract.filters.DisputeUpdated(channelId);
        if (oldFilter)
            await this.stateChannelManagerContract.off(
                this.disputeUpdateFilter
            );
''')],
 demo='''
const G = S(0, ['A', 'B', 'C']);
await up({ A: 0 }, ['A', 'B', 'C']);
const late = on(G, { h: 3, au: 'C', ts: 30 });
const a = net.peers.A ?? net.peers.get?.('A');
ok(a, 'the client');
await a.p2p.p2pSigner.connectToChannel(net.world.chid.c2).catch(() => {});
for (let i = 0; i < 20; i++) await new Promise((r) => setImmediate(r));
const heard = a.handlers.filter((h) => h.f.id === net.world.chid[CH]).map((h) => h.f.verif);
say(!heard.length, 'it follows the other channel, and still hears of ' + heard + ' of the old one');
'''),
]
