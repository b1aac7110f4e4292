D='contracts/V1/StateChannelDiamondProxy/'
FA=D+'DisputeManagerFacet.sol'; PX=D+'AStateChannelManagerProxy.sol'; CO=D+'StateChannelCommon.sol'; LI=D+'StateChannelUtilLibrary.sol'; SM='contracts/V1/AStateMachine.sol'
def P(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None))
ON='The Hardhat tests drive a handful of fixed scenarios per function with two or three participants; '
PROPS=[
P('C01','A threshold holds exactly when every required signer signed these bytes',
 'A set of signatures satisfies a threshold on some bytes if and only if every required account contributed a valid signature on exactly those bytes (Ethereum signed-message form over their keccak256 hash), whatever the order of the signatures and whatever superfluous valid signatures come with them. One account\'s signature never counts twice, and outsiders\' signatures, signatures on other bytes, malleated, truncated or otherwise unrecoverable signatures never count: an unrecoverable one refuses the whole set. The account recovered from a signature, and membership of an account in a list, are exact.',
 ['inputs'],'all lists of required signers, all lists of provided signatures (order, repetition, outsiders, wrong message, malformed), all byte strings',
 ON+'they try three or four signature lists, the statement is about all of them.',[LI],[('verifyThresholdSigned',LI),('retriveSignerAddress',LI),('isAddressInArray',LI)],obs=('the library\'s public functions','acceptance of join and leave agreements, join proofs and fold rechallenges')),
P('C03','A channel\'s states are append-only, numbered by one, and per channel',
 'Every accepted operation that changes a channel\'s on-chain state adds exactly one new fork whose number is one higher, stamped with the current chain time and announced by exactly one state event carrying that channel, number, state and time; earlier forks\' states, participants and timestamps never change, and state queries report exactly what was set. Nothing done for one channel changes anything that is shown for another, and a refused operation changes nothing.',
 ['histories','inputs'],'every history of operations by any accounts on any number of channels',
 ON+'no test looks at a second channel or at an old fork after a new one.',[CO,PX,FA],[('setState',CO),('getLatestState',CO),('isGenesisState',CO)],[('encodedStates / genesisTimestamps','per channel and fork',D+'StateChannelManagerStorage.sol')],('SetState events and the state views',)),
P('C04','Who may dispute and challenge, when, and against which dispute',
 'A dispute is accepted only from a participant of the channel\'s current fork, for that fork, and only while no dispute is open; a challenge only from a participant of the disputed fork who has not been slashed in it, before its deadline, and against the version of the dispute that is currently on chain. Every accepted challenge raises that version by one, restarts the challenge period from the current time and leaves at least one proof successful; whoever creates or challenges is refused if the proofs would slash themselves. Once the deadline has passed nothing challenges that dispute any more and a new dispute or agreement becomes possible.',
 ['histories','schedules','inputs'],'every interleaving of creates, challenges and the passing of time, by any account',
 ON+'the orders of competing challenges around a deadline are not explored.',[FA],[('createDispute',FA),('challengeDispute',FA),('isDisputeInProgress',CO)],[('disputes','the latest dispute per channel',D+'StateChannelManagerStorage.sol')],('getDispute, isDisputeInProgress, DisputeUpdated',)),
P('C05','Nobody is timed out before their time or after posting in time',
 'A dispute that times somebody out is accepted only if that account is the one whose turn it is in the posted latest state, is not the disputer, the folded height directly follows the last posted block, the peer, agreement and chain-fallback times have all elapsed since the later of that block (or the fork\'s start) and the latest block of this fork published on chain up to that height, and the account has not published its block for that height on chain.',
 ['histories','schedules','inputs'],'all times (in particular one second before and at the boundary), heights, posted blocks and published calldata',
 ON+'the boundary of every clause is sampled once at most.',[FA,CO],[('createDispute (timeout)',FA),('getChainLatestBlockTimestamp',CO),('getBlockCallData',CO)]),
P('C06','Only proven misbehaviour of a participant is slashed, and all of it can be',
 'An account is slashed by evidence exactly when it is a participant of the disputed fork and it signed two different blocks for one height of this channel and fork, or signed a block that does not follow (bad time, failing transaction, or wrong resulting state) from the state of a participant\'s directly preceding block or, for the fork\'s first block, of the fork\'s start, or signed a block dated in the chain\'s future; nobody is slashed by evidence about other channels, other forks, other signers, unlinked blocks or correct blocks. Slashed accounts are listed once.',
 ['inputs','histories'],'all evidence: every combination of channel, fork, height, author, signer, time, state and transaction',
 ON+'one positive and one negative case per proof; false evidence that resembles true evidence is not enumerated.',[FA,CO],[('applyDoubleSignProof',FA),('applyIncorrectDataProof',FA),('applyBlockTooFarInFutureProof',FA),('isGoodTimestampNonDeterministic',CO)],obs=('getDispute().slashedParticipants',)),
P('C07','A dispute restores only a finalized state plus blocks linked to it',
 'The states a dispute or challenge posts are accepted only if the starting state is the disputed fork\'s start or is voted for by every participant of the fork through the posted blocks, every posted block belongs to this channel and fork and carries the signature of its author, a participant, the blocks have consecutive heights (from 0 on the fork\'s start) and form an unbroken chain from the starting state, and the latest state is the last block\'s result (or the starting state when there are no blocks). A challenge never starts from before the blocks it replaces.',
 ['inputs','histories'],'all block lists, signature distributions, links and states',
 ON+'the tests post two or three blocks with everybody\'s signatures.',[FA],[('isFinalizedAndLatest',FA),('tryInsertAddressInThresholdSet',LI)]),
P('C08','The outcome of a dispute is exact and every exit is processed once',
 'The state a dispute produces is the posted latest state with the joins added, then the slashed and the timed-out accounts removed, by the channel\'s own rules, the slashed receiving what slashing leaves them and the timed-out what leaving gives them. The resulting exits are paid out exactly once, by the next accepted operation after the dispute is over (a new dispute, a join or a leave), never while it can still be challenged; a challenge replaces the promised outcome rather than adding to it, and a failed join or outcome refuses the whole operation.',
 ['histories','inputs'],'every sequence of disputes, challenges, joins and leaves',
 ON+'no test lets a second dispute or an agreement follow a dispute with exits.',[FA,PX],[('applyDisputeToLatestState',FA),('tryProcessOldExits',PX),('applySlashesToStateMachine',PX),('removeParticipantsFromStateMachine',PX)],obs=('Exit and SetState events, getDispute',)),
P('C09','Rebuttals clear the blameless and blame the right account',
 'A timeout is cleared exactly when everyone signed a block for the folded height of the fork, and then its disputer is slashed; a disputer is slashed for posting an old state exactly when a block of that fork which they themselves confirmed is newer than the last block posted; the blame of a standing timeout moves to the author of an earlier posted block exactly when that author had not published it on chain when the dispute was created. Evidence of double signing or incorrect data before the folded height cancels the timeout.',
 ['histories','inputs'],'every dispute under challenge with every kind of rebuttal, in any order and combination',
 ON+'combinations and repetitions of rebuttals are not tried.',[FA],[('applyFoldRechallengeProof',FA),('applyNewerStateProof',FA),('applyFoldPriorBlockProof',FA),('tryCancelFold',FA)]),
P('C10','Blocks published on chain are their author\'s, recent, and found exactly',
 'A block is accepted for publication only from its author, with the author\'s signature, dated neither in the future nor longer ago than the peer, agreement and fallback times together; it is then shown with the time of publication for exactly its channel, fork, height and author, and announced once. The latest publication time reported for a fork and height is the latest over all publications of that fork up to that height and of nothing else.',
 ['inputs','histories'],'all blocks, senders, ages and orders of publication, repeated publications included',
 ON+'one block is posted by one author.',[PX,CO],[('postBlockCalldata',PX),('getChainLatestBlockTimestamp',CO),('getBlockCallData',CO)]),
P('C11','Joining and leaving by agreement needs everyone, once, in time',
 'A join or leave by agreement is accepted only with the signatures of all participants of the current fork on exactly that agreement, naming the current fork and the state it is applied to, no later than its deadline, and while no dispute is open; a join also needs the joiner\'s own signature and a submitting participant, and the joiner must be new. The new state is the agreed one plus the joiner, or minus the leaver who is paid what the state gives them; the agreement cannot be used again, and a refusal by the deposit or the channel\'s rules refuses everything.',
 ['inputs','histories'],'all agreements, signature sets, submitters, times, and replays',
 ON+'joining and leaving by agreement are not tested at all on chain.',[PX],[('joinChannelWithAgreement',PX),('leaveChannelWithAgreement',PX)]),
P('C12','A forced join needs everyone\'s consent and happens at most once',
 'A dispute lets somebody in only on a request for this channel that the joiner signed and all participants of the fork signed, not past its deadline, submitted by the account whose turn it is, for an account that is neither a participant nor already joining; the deposit is taken once and the joiner is part of the dispute\'s outcome, also after challenges.',
 ['inputs','histories'],'all join proofs in creates and challenges',
 ON+'no test forces a join.',[FA],[('applyJoinChannelProof',FA)]),
P('C13','Only the manager changes a channel, whatever others leave behind',
 'Functions reserved to the channel manager itself refuse every outside caller, directly and through other contracts of the system. What a dispute, an agreement or a state query gives does not depend on anything that anybody does to the shared state machine or to the dispute logic directly.',
 ['histories','inputs'],'any calls by anyone to any of the contracts between any two operations',
 ON+'each starts from a fresh deployment and calls only the manager.',[PX,CO,SM],[('onlySelf',CO),('setState before use',PX)]),
P('C15','The linked list stays a list',
 'After any sequence of insertions at the front and removals of any element, the list has exactly the elements inserted and not removed, each once, newest first; its length, access by position, and the links in both directions agree. Inserting a present or empty element, removing an absent one, popping an empty list and reading past the end are refused and change nothing.',
 ['histories'],'all sequences of operations over a set of elements',
 'The repository has no test of the list.',['contracts/common/DoubleLinkedList.sol'],[('addFront',"contracts/common/DoubleLinkedList.sol"),('removeNode',"contracts/common/DoubleLinkedList.sol")]),
]
