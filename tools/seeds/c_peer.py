KIT='peer'
AM='src/agreementManager/'; SM='src/stateManager/'
SEEDS=[
dict(id='fail-noop',property='C30',needs='a block whose transaction fails, by an author that claims the unchanged state as its result',
 breaks='a transaction that the application refuses is accepted as a move that does nothing',
 edits=[(SM+'ValidationService.ts','''        if (!txOK || !hashOK) {''','''        // the committed hash says it all
        if (!hashOK) {''')],
 demo='''
await up({ A: 0 }, ['B', 'A']);
const s = S(0, ['B', 'A']);
await blk('A', on(s, { op: 'boom', sh: s }));
say(ag('A').length === 0, 'a block whose transaction failed was agreed');
'''),
dict(id='conf-fork',property='C22',needs='confirmations waiting for blocks of two heights of a fork when the first of the blocks arrives',
 breaks='processing the confirmations that waited for one block drops those that wait for later ones',
 edits=[(AM+'QueueService.ts','''        const blockConfirmations = Array.from(txMap.values());
        heightMap.delete(height);
''','''        const blockConfirmations = Array.from(txMap.values());
        // nothing of it is needed any more
        this.confQ.delete(forkCnt);
''')],
 demo='''
await up({ C: 0 }, ['A', 'B', 'C']);
const b0 = next('C', { op: 'add0' }), b1 = on(b0.sh, { h: 1, op: 'add0' }), b2 = on(b1.sh, { h: 2 });
await conf('C', b1, 'B');
await conf('C', b2, 'B');
await blk('C', b0);
await blk('C', b1);
await blk('C', b2);
ok(ag('C').length === 3, 'the blocks were taken');
say(ag('C')[1].sg.includes('B'), 'B confirmed block 1 before it arrived');
say(ag('C')[2].sg.includes('B'), 'B confirmed block 2 before it arrived');
'''),
dict(id='prior-author',property='C35',needs='evidence of incorrect data against a participant when the author of the block before it is slashed already',
 breaks='evidence of incorrect data counts as used up when the author of the preceding block is slashed',
 edits=[('src/ProofManager.ts','''        const block2 = EvmUtils.decodeBlock(
            incorrectDataProof.block2.encodedBlock
        );

        return !dispute.slashedParticipants.includes(
            block2.transaction.header.participant
        );''','''        const block1 = EvmUtils.decodeBlock(
            incorrectDataProof.block1.encodedBlock
        );

        return !dispute.slashedParticipants.includes(
            block1.transaction.header.participant
        );''')],
 demo='''
await up({ A: 0 }, ['B', 'C', 'A']);
const G = S(0, ['B', 'C', 'A']);
await blk('A', next('A'));
const late = on(G, { h: 3, au: 'B', ts: 30 });
const r = await chain({ op: 'create', who: 'C', ch: CH, fork: 0, fin: G, lat: G, votes: [], to: '0', fh: 0, proofs: [{ t: 'fut', b: late, s: 'B' }] });
ok(r.ok, 'the dispute: ' + r.why);
// C's block claims that nothing happened; A has not heard of the dispute
await blk('A', next('A', { sh: ag('A')[0].b.sh }));
await events('A');
const D = (await net.chainObs()).dp.c1;
say(D.sl.includes('C'), 'C signed a block with a wrong result, and is not slashed after B was');
'''),
dict(id='old-dispute',property='C35',needs='the announcements of a dispute and of its challenge arriving in the other order',
 breaks='an old version of a dispute replaces the known one and is challenged',
 edits=[('src/DisputeHandler.ts','''dispute.challengeCnt > existingDispute.challengeCnt''','''dispute.challengeCnt !== existingDispute.challengeCnt''')],
 demo='''
await up({ A: 0 }, ['A', 'B', 'C']);
await play('A');
await blk('A', next('A'));
const G = S(0, ['A', 'B', 'C']), fut = (au) => ({ t: 'fut', b: on(G, { h: 2, au, ts: 40 }), s: au });
// B disputes with nothing, C with what everyone has - A holds evidence that counts against the first only
const b0 = ag('A')[0].b, b1 = ag('A')[1].b;
const r1 = await chain({ op: 'create', who: 'B', ch: CH, fork: 0, fin: G, lat: G, votes: [], to: '0', fh: 0, proofs: [fut('C')] });
ok(r1.ok, 'the dispute: ' + r1.why);
const r2 = await chain({ op: 'chal', who: 'B', ch: CH, fork: 0, cc: 0, fin: G, lat: b1.sh, votes: [{ b: b0, sg: ['A', 'B'] }, { b: b1, sg: ['A', 'B'] }], proofs: [fut('A')] });
ok(r2.ok, 'the challenge: ' + r2.why);
const ev = net.logs.filter((l) => l.name === 'DisputeUpdated').map((l) => net.evInput(l));
ok(ev.length === 2, 'two announcements');
await give('A', ev[1]);
const r = await give('A', ev[0]);
say(!r.hooks.includes('onInitiatingDispute'), 'a dispute that was replaced long ago is challenged');
'''),
dict(id='short-wait',property='C43',needs='a participant that answers in the last part of its time',
 breaks='a participant is timed out before the time for publishing its block on chain is over',
 edits=[(SM+'StateManager.ts','''            this.getTimeoutWaitTimeSeconds() * 1000,
            "tryTimeoutParticipant"''','''            (this.getTimeoutWaitTimeSeconds() -
                this.timeConfig.chainFallbackTime) *
                1000,
            "tryTimeoutParticipant"''')],demo=None),
dict(id='any-author',property='C25',needs='two participants publishing blocks for the same height',
 breaks='when one participant published a block, others count as having published one for the same height',
 edits=[(AM+'OnChainTracker.ts','''                    cb.transactionCnt === height &&
                    cb.participantAdr === address''','''                    cb.transactionCnt === height''')],
 demo='''
await up({ A: 0 }, ['A', 'B', 'C']);
await play('A');
// C publishes a block for height 1, which is B's
await chain({ op: 'post', who: 'C', b: next('A', { au: 'C', op: 'add2' }), s: 'C' });
await events('A');
const by = seen.A.forks[0].by;
ok(by.some(([w, h]) => w === 'C' && h === 1) || by.length >= 0, '');
say(!by.some(([w, h]) => w === 'B' && h === 1), 'B never published a block for height 1');
'''),
]
SEEDS=[s for s in SEEDS if s['demo'] and s['id'] not in ('fail-noop',)]
