FA='contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol'
PX='contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol'
CO='contracts/V1/StateChannelDiamondProxy/StateChannelCommon.sol'
LI='contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol'
SG='contracts/V1/StateChannelDiamondProxy/StateChannelManagerStorage.sol'
DL='contracts/common/DoubleLinkedList.sol'
SEEDS=[
dict(id='chal-deadline',property='C04',needs='a dispute that is challenged at least twice',breaks='from the second challenge on the challenge period is not restarted, so the last challenger leaves nobody time to answer',
 edits=[(FA,'''        dispute.deadlineTimestamp = block.timestamp + getChallengeTime();
        dispute.challengeCnt++;''','''        //a fresh dispute gives everyone the full period to join in
        if (dispute.challengeCnt == 0)
            dispute.deadlineTimestamp = block.timestamp + getChallengeTime();
        dispute.challengeCnt++;''')],
 demo='''
await yes(create({ proofs: [fut('C', 20)] }), 'the dispute');
await yes(tick(1));
await yes(chal({ proofs: [{ t: 'join', sjc: { jc: { ch: 'c1', p: 'D', am: 7, dl: 99 }, s: 'D' }, sg: P }] }), 'the first challenge');
await yes(tick(1));
await yes(chal({ who: 'A', cc: 1, proofs: [{ t: 'join', sjc: { jc: { ch: 'c1', p: 'E', am: 7, dl: 99 }, s: 'E' }, sg: P }] }), 'the second challenge');
const d = (await w.observe()).dp.c1;
say(d.dl === 22 + 3, 'the challenge period ends at ' + d.dl + ', not 3 after the second challenge at 22');
'''),
dict(id='dbl-other-fork',property='C06',needs='an honest account that signed a block of the same height on two forks',breaks='the second block of a double sign proof may be of another fork, so whoever played a height on two forks can be slashed',
 edits=[(FA,'''                block1.transaction.header.forkCnt == dispute.forkCnt &&
                    block2.transaction.header.forkCnt == dispute.forkCnt,
                ErrorDisputeForkMismatch()
            );

            require(
                block1.transaction.header.transactionCnt ==''','''                block1.transaction.header.forkCnt == dispute.forkCnt &&
                    dispute.forkCnt >= block2.transaction.header.forkCnt,
                ErrorDisputeForkMismatch()
            );

            require(
                block1.transaction.header.transactionCnt ==''')],
 demo='''
// everyone agrees that C leaves: fork 1
await yes({ op: 'leave', who: 'A', l: { ch: 'c1', p: 'C', fork: 0, tc: 0, psh: st(0), dl: 99 }, sg: P, st: st(0) }, 'the leave');
const g1 = st(0, ['A', 'B'], [10, 20]);
const on1 = blk(0, { fork: 1, psh: g1, sh: st(1, ['A', 'B'], [10, 20]) });
await no(create({ who: 'B', fork: 1, fin: g1, lat: g1, proofs: [dbl(on1, blk(0))] }), 'a double sign of blocks of two forks');
'''),
dict(id='latest-sorted',property='C10',needs='blocks published out of order of their heights',breaks='the latest publication time stops at the first higher block, later publications of lower blocks are ignored',
 edits=[(CO,'''            ForkDataAvailabilityKey memory key = forkDataAvailability.keys[i];
            if (''','''            ForkDataAvailabilityKey memory key = forkDataAvailability.keys[i];
            //blocks are produced in order
            if (key.transactionCnt > maxTransactionCnt) break;
            if (''')],
 demo='''
await yes(post(blk(1, { ts: 20 })), 'publishing block 1');
await yes(tick(1));
await yes(post(blk(0, { ts: 20 })), 'publishing block 0');
const t = w.uts(await w.mgr.call('getChainLatestBlockTimestamp', [w.chid.c1, 0, 0]));
say(t === 21, 'the latest publication up to height 0 was at 21, reported: ' + t);
'''),
dict(id='fold-chain-time',property='C05',needs='an earlier block that was published on chain before the last posted block was signed',breaks='an older publication replaces the time of the last block, so that somebody is timed out too early',
 edits=[(FA,'''                if (lastBlockTimestamp > latestTimestamp)
                    latestTimestamp = lastBlockTimestamp;''','''                if (lastBlockTimestamp != 0)
                    latestTimestamp = lastBlockTimestamp;''')],
 demo='''
await yes(post(blk(0, { ts: 20 })), 'publishing block 0');           // at 20
await yes(tick(4));                                                    // B plays at 22 (off chain); C is next
const votes = [vote(blk(0), P), vote(blk(1, { ts: 22 }), P)];
await no(create({ fin: st(1), lat: st(2), votes, to: 'C', fh: 2 }), 'timing C out at 24, two after the last block');
await yes(tick(2));
await yes(create({ fin: st(1), lat: st(2), votes, to: 'C', fh: 2 }), 'timing C out at 26');
'''),
dict(id='threshold-set',property='C07',needs='one participant signing two posted blocks with another signature in between',breaks='a participant who signed several posted blocks is counted several times, a state is taken as finalized without everyone',
 edits=[(LI,'''        for (uint i = 0; i < currentSetLength; i++) {
            if (set[i] == adr) return currentSetLength;
        }
        set[currentSetLength] = adr;''','''        if (currentSetLength >= set.length) return currentSetLength;
        //signatures come in the order of their blocks
        if (currentSetLength > 0 && set[currentSetLength - 1] == adr)
            return currentSetLength;
        set[currentSetLength] = adr;''')],
 demo='''
const votes = [vote(blk(1), ['B']), vote(blk(2, { au: 'A' }), ['A']), vote(blk(3, { au: 'B' }), ['B'])];
await no(create({ fin: st(2), lat: st(4), votes, proofs: [fut('C', 20)] }), 'a state that C never signed');
'''),
dict(id='exit-slots',property='C08',needs='a slashed participant who is no longer in the posted state, listed before another one',breaks='the exits of a dispute are collected in the wrong places: an empty exit is processed and a real one is lost',
 edits=[(PX,'''            (success, processExits[successCnt]) = stateMachineImplementation
                .slashParticipant(slashedParticipants[i]);''','''            (success, processExits[i]) = stateMachineImplementation
                .slashParticipant(slashedParticipants[i]);''')],
 demo='''
const gone = st(1, ['A', 'C'], [10, 30]); // B isn't in the latest state any more
await yes(create({ lat: gone, votes: [vote(blk(0, { sh: gone }), ['A'])], proofs: [fut('B', 20), fut('C', 20)] }), 'the dispute');
const d = (await w.observe()).dp.c1;
say(JSON.stringify(d.exits.map((e) => e.p)) === '["C"]', 'exits: ' + JSON.stringify(d.exits));
'''),
dict(id='join-old-fork',property='C11',needs='a join agreement that was not used before the channel moved on to another fork and back to the same state',breaks='agreements about earlier forks are accepted',
 edits=[(PX,'''            latestFork[joinChannel.channelId] == joinChannelAgreement.forkCnt,''','''            latestFork[joinChannel.channelId] >= joinChannelAgreement.forkCnt,''')],
 demo='''
const a = (p) => ({ sjc: { jc: { ch: 'c1', p, am: 7, dl: 99 }, s: p }, sub: 'A', fork: 0, tc: 0, psh: st(0) });
await yes({ op: 'join', who: 'A', a: a('D'), sg: P, st: st(0) }, 'the first agreement');
await no({ op: 'join', who: 'A', a: a('E'), sg: P, st: st(0) }, 'an agreement about the previous fork');
'''),
dict(id='join-other-channel',property='C12',needs='a join request that everyone signed for another channel',breaks='a request for one channel lets somebody into another one',
 edits=[(FA,'''        require(jc.channelId == dispute.channelId, ErrorChannelIdMismatch());
        require(
            msg.sender ==''','''        require(sjc.encodedJoinChannel.length != 0, ErrorChannelIdMismatch());
        require(
            msg.sender ==''')],
 demo='''
const sjc = { jc: { ch: 'c2', p: 'D', am: 7, dl: 99 }, s: 'D' };
await no(create({ proofs: [{ t: 'join', sjc, sg: P }] }), 'a join request for another channel');
'''),
dict(id='prior-boundary',property='C09',needs='the earlier author publishing its block in the very second in which the dispute is created',breaks='a block that was published when the dispute was created counts as not published',
 edits=[(FA,'''            !found || _blockCalldata.timestamp > dispute.creationTimestamp,''','''            !found || _blockCalldata.timestamp >= dispute.creationTimestamp,''')],
 demo='''
await yes(tick(4));
await yes(create({ who: 'C', fin: st(0), lat: st(1), votes: [vote(blk(0), ['A'])], to: 'B', fh: 1 }), 'timing B out');
await yes(post(blk(0)), 'publishing block 0 in the same second');
await no(chal({ who: 'B', lat: st(1), votes: [vote(blk(0), ['A'])], proofs: [{ t: 'prior', h: 0 }] }), 'blaming A, whose block is published');
w.start(20);
await w.apply({ op: 'open', ch: 'c1', st: st(0) });
await yes(tick(4));
await yes(create({ who: 'C', fin: st(0), lat: st(1), votes: [vote(blk(0), ['A'])], to: 'B', fh: 1 }), 'timing B out');
await yes(chal({ who: 'B', lat: st(1), votes: [vote(blk(0), ['A'])], proofs: [{ t: 'prior', h: 0 }] }), 'blaming A, whose block is not published');
'''),
dict(id='list-last',property='C15',needs='removing the last element and inserting it again',breaks='the removed last element keeps its predecessor and is linked back into the list',
 edits=[(DL,'''        if (node.next != 0) {
            map[node.next].prev = node.prev;
        }
        if (node.prev == 0) {
            headNode = map[node.next];
        }''','''        if (node.next != 0) {
            map[node.next].prev = node.prev;
            if (node.prev == 0) headNode = map[node.next];
        } else if (length == 1) {
            delete headNode.data;
        }''')],
 demo='''
import { compile, link } from './kit/sol.mjs';
import { Handle, ethers } from './kit/chain.mjs';
const arts = await compile(['list']);
const l = new Handle(w.chain, await w.chain.deploy(link(arts.list, {})), arts.list.abi);
const X = w.addr.X, id = (n) => ethers.zeroPadValue(ethers.toBeHex(n), 32);
say((await l.tx(X, 'addFront', [[id(1)]])).ok, 'insert 1');
say((await l.tx(X, 'removeFront', [])).ok, 'remove 1');
say((await l.tx(X, 'addFront', [[id(2)]])).ok, 'insert 2');
const h = await l.call('getAtIndex', [0]);
say(h.uniquePtr === id(2) && h.next === id(0), 'the only element is followed by ' + h.next);
say(!(await l.tx(X, 'removeNode', [id(1)])).ok, 'an absent element was removed');
'''),
]
