KIT='peer'
AM='src/agreementManager/'; SM='src/stateManager/'
SEEDS=[
dict(id='pkg-quorum',property='C36',needs='a dispute while the newest block is one that this client has not confirmed, but others have',
 breaks='signatures on blocks above the posted ones count towards finality, so the client posts a package that the contract refuses',
 edits=[(AM+'AgreementManager.ts','''            if (!encodedLatestCorrectState) continue;

            virtualVotingBlocks.unshift({
                encodedBlock: EvmUtils.encodeBlock(agreement.block),
                signatures: agreement.blockSignatures as string[]
            });

            // Remove the signers we found from required signatures
            requiredSignatures = SetUtils.difference(
                requiredSignatures,
                signersAddresses
            );
''','''            // Remove the signers we found from required signatures
            requiredSignatures = SetUtils.difference(
                requiredSignatures,
                signersAddresses
            );

            if (!encodedLatestCorrectState) continue;

            virtualVotingBlocks.unshift({
                encodedBlock: EvmUtils.encodeBlock(agreement.block),
                signatures: agreement.blockSignatures as string[]
            });
''')],
 demo='''
await up({ A: 0 }, ['A', 'B', 'C']);
await play('A');
const b1 = next('A');
await conf('A', ag('A')[0].b, 'B');
await conf('A', ag('A')[0].b, 'C');
// while A is accepting B's block, a posted double sign makes the fork disputed: A doesn't confirm it
await blk('A', b1);
const b2 = next('A');
const lie = on(ag('A')[1].b.psh, { h: 1, au: 'B', ts: b1.ts, op: 'add2' });
await chain({ op: 'post', who: 'B', b: lie, s: 'B' });
const ev = net.evInput(net.logs.find((l) => l.name === 'BlockCalldataPosted'));
await give('A', { k: 'batch', is: [{ k: 'blk', b: b2, s: 'C' }, ev] });
ok(ag('A').length === 3 && !ag('A')[2].sg.includes('A'), 'C\\'s block was confirmed');
await conf('A', b2, 'B');
const f = seen.A.forks[0].pkg;
say(f.votes.length === 3 - 1 + 0 || f.fin.n < 2, 'the package of a client that has not confirmed the last block starts at ' + f.fin.n);
const all = new Set(f.votes.flatMap((v) => v.sg));
say(f.fin.n === 0 || ['A', 'B', 'C'].every((p) => all.has(p)), 'the package claims a finalized state although only ' + [...all] + ' signed its blocks');
'''),
dict(id='tracker-agreed',property='C25',needs='a block that is posted on chain after everyone already agreed on it',
 breaks='a publication of a block that is already agreed is forgotten: the on-chain time that later blocks may refer to stays too early',
 edits=[(AM+'OnChainTracker.ts','''            flag === AgreementFlag.INVALID_SIGNATURE ||
            flag === AgreementFlag.INCORRECT_DATA ||
            flag === AgreementFlag.DOUBLE_SIGN
        )''','''            flag === AgreementFlag.INVALID_SIGNATURE ||
            flag === AgreementFlag.INCORRECT_DATA ||
            flag === AgreementFlag.DOUBLE_SIGN ||
            // nothing new
            flag === AgreementFlag.DUPLICATE
        )''')],
 demo='''
await up({ A: 0 }, ['A', 'B']);
await play('A');
const b = next('A');
await blk('A', b);
await tick(3);
await chain({ op: 'post', who: 'B', b, s: 'B' });
await events('A');
say(seen.A.forks[0].cl[1] === 23, 'block 1 was published at 23, the client knows of a publication at ' + seen.A.forks[0].cl[1]);
'''),
dict(id='conf-per-author',property='C22',needs='two confirmations of one block that both arrive before the block',
 breaks='of the confirmations that arrive ahead of their block only the last one is kept',
 edits=[(AM+'QueueService.ts','''        const confirmationSigner = EvmUtils.retrieveSignerAddressBlock(
            block,
            blockConfirmation.confirmationSignature
        );
        insertNestedMapWithOverwrite(
            this.confQ,
            forkCnt,
            height,
            confirmationSigner,
            blockConfirmation
        );''','''        const participant = BlockUtils.getBlockAuthor(block);
        insertNestedMapWithOverwrite(
            this.confQ,
            forkCnt,
            height,
            participant,
            blockConfirmation
        );''')],
 demo='''
await up({ C: 0 }, ['A', 'B', 'C']);
const b0 = next('C'), b1 = on(b0.sh, { h: 1, ts: 20 });
await conf('C', b1, 'A');
await conf('C', b1, 'B2');
await blk('C', b0);
ok(ag('C').length === 2, 'the second block was queued and taken');
const sg = ag('C')[1].sg;
say(sg.includes('A') && sg.includes('B2'), 'confirmations A and B2 arrived ahead of their block, it has ' + sg);
'''),
dict(id='dup-stamp',property='C21',needs='a second block of one author that differs from the agreed one only in its timestamp',
 breaks='blocks that differ in nothing but their timestamp count as the same block: signing both goes unnoticed',
 edits=[('src/utils/BlockUtils.ts','''        return EvmUtils.encodeBlock(b1) === EvmUtils.encodeBlock(b2);''','''        const id = (b: BlockStruct) =>
            EvmUtils.encodeBlock({
                ...b,
                transaction: {
                    ...b.transaction,
                    header: { ...b.transaction.header, timestamp: 0 }
                }
            });
        return id(b1) === id(b2);''')],
 demo='''
await up({ A: 0 }, ['A', 'B']);
await play('A');
const b = next('A', { ts: 20 });
await blk('A', b);
const r = await blk('A', { ...b, ts: 21 });
say(r.obs.disputed.includes(0), 'B signed two blocks for height 1, and nothing happens');
'''),
dict(id='late-post',property='C43',needs='a participant that builds on the block of its author while another one has not confirmed it',
 breaks='an author does not publish its block when somebody built on it, although not everyone confirmed it; whoever did not can still time it out',
 edits=[(SM+'StateManager.ts','''        if (!this.agreementManager.didEveryoneSignBlock(block)) {
            console.log("Posting calldata on chain!");''','''        const isExtended =
            this.agreementManager.getBlock(
                Number(block.transaction.header.forkCnt),
                Number(block.transaction.header.transactionCnt) + 1
            ) !== undefined;
        if (
            !isExtended &&
            !this.agreementManager.didEveryoneSignBlock(block)
        ) {
            console.log("Posting calldata on chain!");''')],
 demo='''
await up({ A: 0 }, ['A', 'B', 'C']);
await play('A');
const b = next('A');
await blk('A', b);
ok(ag('A').length === 2, 'B built on it');
await tick(1);
const r = await fire('A');
say(r.hooks.includes('onPostingCalldata'), 'C never confirmed block 0, and it is not published');
'''),
dict(id='chain-ref',property='C30',needs='a late block that is published on chain for the height after the last one, whose event has not arrived when the block does',
 breaks='the time reference of a block ignores its own publication on chain: an honest late block is disputed',
 edits=[(SM+'ValidationService.ts','''                    this.getChannelId(),
                    forkCnt,
                    blockHeight
                )''','''                    this.getChannelId(),
                    forkCnt,
                    Math.max(blockHeight - 1, 0)
                )''')],
 demo='''
await up({ A: 0 }, ['A', 'B', 'C']);
await play('A');
await tick(3);
// B published its block for height 1 at 23, but there are no events yet
const b1 = next('A', { ts: 22 });
await chain({ op: 'post', who: 'B', b: b1, s: 'B' });
const b = next('A', { ts: 23 });
const r = await blk('A', b);
say(ag('A').length === 2, 'a block dated 23 is refused although the chain knows of a publication for its height at 23');
'''),
dict(id='timeout-seen',property='C43',needs='a block of the next participant that is on chain, whose event this client has not seen',
 breaks='whoever published its block in time is timed out when the event of the publication is late',
 edits=[(SM+'StateManager.ts','''        if (response.found) return;
''','''        if (
            response.found &&
            (this.agreementManager.didParticipantPostOnChain(
                forkCnt,
                transactionCnt,
                participantAdr
            ) || this.isDisposed)
        )
            return;
''')],
 demo='''
await up({ A: 0 }, ['A', 'B']);
await play('A');
await tick(1);
await chain({ op: 'post', who: 'B', b: next('A', { ts: 21 }), s: 'B' });
await tick(4);
const r = await fire('A');
say(!r.hooks.includes('onInitiatingDispute'), 'B published its block, and is timed out');
'''),
dict(id='dispute-stale',property='C35',needs='evidence found in a later fork of the channel while an earlier dispute is the latest one that the handler has seen',
 breaks='once a dispute has been seen, evidence against later forks is never submitted',
 edits=[('src/DisputeHandler.ts','''        const _dispute = this.disputes.get(forkCntNumber);
''','''        const _dispute =
            this.disputes.get(forkCntNumber) ??
            Array.from(this.disputes.values()).at(-1);
''')],
 demo='''
await up({ A: 0 }, ['A', 'B', 'C']);
await play('A');
const late = on(S(0, ['A', 'B', 'C']), { au: 'C', ts: 30 });
await chain({ op: 'create', who: 'B', ch: CH, fork: 0, fin: S(0, ['A', 'B', 'C']), lat: S(0, ['A', 'B', 'C']), votes: [], to: '0', fh: 0, proofs: [{ t: 'fut', b: late, s: 'C' }] });
await events('A');
await tick(4);
await chain({ op: 'create', who: 'B', ch: CH, fork: 1, fin: S(0, ['A', 'B']), lat: S(0, ['A', 'B']), votes: [], to: 'A', fh: 0, proofs: [] });
await tick(10);
await events('A');
if (seen.A.fork !== 1) { console.log('fork', seen.A.fork); process.exit(3); }
'''),
]
SEEDS=[s for s in SEEDS if s['edits'] and s['id'] not in ('dispute-stale',)]
