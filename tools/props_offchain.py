from props_onchain import P
SMD='src/stateManager/'; AM='src/agreementManager/'
SM=SMD+'StateManager.ts'; VS=SMD+'ValidationService.ts'; AMG=AM+'AgreementManager.ts'; DH='src/DisputeHandler.ts'; PM='src/ProofManager.ts'
FS=AM+'ForkService.ts'; QS=AM+'QueueService.ts'; OC=AM+'OnChainTracker.ts'; BV=AM+'BlockValidator.ts'; SS=AM+'SignatureService.ts'
EL='src/StateChannelEventListener.ts'; PS='src/evm/P2pSigner.ts'; ES='src/evm/EvmStateMachine.ts'; ST='src/rpc/services/StateTransitionService.ts'
OFF='The Mocha tests feed one client a few blocks in one order, or run two clients through one game on a local node; '
CH={}
def Q(id,*a,cmd=None,technique=None,note=None,**k):
    CH[id]=dict(cmd=cmd or 'node checks/peer.mjs '+id,technique=technique or (PEER+CRT+PRF if id=='C35' else PEER+CRT+AGR if id=='C36' else PEER+AGR if id in ('C20','C21','C22','C23','C25','C36') else PEER),note=note or PNOTE)
    return P(id,*a,**k)
PEER='TLA+ specification spec/Peer.tla of one off-chain client next to the chain of spec/Manager.tla: random histories of real clients (RPC messages of honest and dishonest peers, chain events, user transactions, timers, several inputs at once) on the real contracts are recorded and validated by TLC against spec/PeerTrace.tla'
AGR='; and spec/Agreement.tla, the data a client keeps about its forks: TLC checks it (append-only, linked, one entry each) and every operation it tries in every state within bounds is performed on the real AgreementManager, comparing all its answers'
CRT='; and spec/Court.tla, every way within bounds in which the others take a client to court (what was agreed and signed, what is claimed and posted, what arrives while the client answers, whether a third one goes on): TLC checks that the client is never blamed and leaves no refutable claim standing, and every case is replayed with a real client'
PRF='; and spec/Proofs.tla, which evidence is worth submitting against a dispute: TLC enumerates all evidence against all disputes within bounds, and the real ProofManager has to keep exactly the same'
PNOTE='Every step compares everything the client sends, calls, submits on chain and shows with the set of outcomes the specification allows. Histories are sampled (up to three participants, four kinds of timers, 40 inputs each); each input must be explained for all interleavings of the client\'s background tasks. Trusts ethereumjs EVM, solc, ethers, and stand-ins for the network and the ethers provider.'
CHN='TLA+ specification spec/Channel.tla of several clients of spec/Peer.tla on one chain, with messages in any order, dishonest participants and time passing: TLC checks agreement, consistency and catching up of all of them; its behaviours are replayed with as many real clients, and what these did, like random histories of them, is validated by TLC against spec/PeerTrace.tla, which also requires that they never contradict each other'
NETW='TLA+ specification spec/Network.tla of the connections of one client: TLC checks its invariants (spec/NetworkMC.tla) and every path it finds is replayed into a real client; random histories of real clients are recorded and validated by TLC against spec/NetworkTrace.tla'
NNOTE='Every step compares everything the client sends, on which connection, its connections, profiles, WebRTC connections and collected requests with the specification. Model paths are exhaustive within small bounds, longer histories sampled. The network, the swarm and WebRTC are stand-ins.'
PROPS=[
Q('C31','Clients of one channel never contradict each other, and catch up',
 'Whatever a client has signed - as an author or as a confirmer - it has agreed to, so no two blocks of one height ever carry the signatures of everyone; what everyone signed is agreed, with all the history before it, by every client that takes part, whatever dishonest participants say to whom. Clients that only follow the rules never disagree on any block or state, never dispute when messages arrive in time, and nobody is slashed who did not break a rule. Once everything that they sent to each other has arrived, in whatever order, all of them have the same history with everyone\'s signatures on every block, the same application state, and nothing waiting.',
 ['schedules','histories','fault_sequences'],'all orders of delivery of all messages and events between two or three clients, with dishonest participants telling different clients different things, and with time running out',
 OFF+'no test has three clients or a dishonest participant among them.',[SM,ST,AMG,DH],[('onSignedBlock / onBlockConfirmation',ST),('processStateTransition',SM),('confirmBlock',AMG)],technique=CHN,note='Model: two clients and up to five blocks, three clients and two blocks exhaustively, longer games, lies and time by random walks. '+PNOTE),
Q('C20','The agreed history only grows, block on block, and stays what was executed',
 'What a client has agreed to (its forks, their blocks, the states they lead to and the signatures on them) is append-only: a block is added only at the next height of its latest fork, builds on the state agreed before it, and its recorded state is the one its transaction leads to; nothing that was agreed is changed, reordered or removed by anything that arrives later, and the state machine is always in the state of the latest agreed block (or the start of the latest fork). Lookups by fork and height, latest times and heights report exactly this history.',
 ['histories','inputs','schedules'],'every history of messages, chain events, transactions and timers of a client, in any order and any number at a time',
 OFF+'late, repeated and conflicting messages after long histories are not.',[AMG,FS,SM],[('addBlock',FS),('newFork',FS),('onSignedBlock',SM)],[('forks','forks with their agreed blocks, states and signatures',FS)],('AgreementManager\'s getters','the state machine\'s state')),
Q('C21','Each block is judged by how it relates to what is agreed',
 'A signed block that a peer sends or that is published on chain is judged the same in every order of arrival: already agreed or already waiting - nothing happens; for a later fork or height - it waits; for an agreed height by the same author with any different content - proof of double signing; for an agreed height by another participant - proof of incorrect data if it builds on the agreed state there, otherwise nothing; for the next height - it is accepted exactly when it is the right author\'s, builds on the agreed state, is timed well and leads to the state it claims, and is otherwise evidence (if it builds on the agreed state) or dropped. Blocks of past or disputed forks, of other channels, with a wrong or unrecoverable signature or by outsiders change nothing.',
 ['inputs','histories'],'all blocks close to an acceptable one (author, fork, height, timestamp, links, result, signature, transaction) in all reachable states of a client',
 OFF+'of the combinations of height, author, content and time most are never sent.',[BV,VS,SM,SMD+'processExecutionDecisionHandlers.ts'],[('check',BV),('validateSignedBlock',VS),('collectOnChainBlock',SM)]),
Q('C22','What arrives too early is kept and processed when its time comes, exactly once',
 'A block or confirmation for a later height or a fork that is not known yet, or that arrives before the channel is open, waits - one block per author and height and one confirmation per confirmer and height of a fork, the latest one - and is processed once everything before it is agreed, without any further message: lower heights first, each as if it arrived then. What is taken out of the queue is processed once and not repeated; whatever is wrong with one entry does not keep the others from being processed.',
 ['schedules','histories'],'all orders of arrival of blocks and confirmations, with losses and repetitions, across forks',
 OFF+'messages arrive in order there.',[QS,SM,SMD+'processConfirmationDecisionHandlers.ts'],[('queueBlock / tryDequeueBlocks',QS),('queueConfirmation / tryDequeueConfirmations',QS),('tryExecuteFromQueue / tryConfirmFromQueue',SM)],[('blockQ / confQ','waiting blocks and confirmations per fork and height',QS)]),
Q('C23','Signatures are collected per block, and everyone\'s agreement means everyone\'s',
 'An agreed block carries its author\'s signature and every confirmation that arrived for exactly this block from a participant of the latest fork, once each and in the order of arrival, and no other; the client confirms a block it accepted exactly once, and passes on exactly the confirmations that were new to it. A block counts as signed by everyone exactly when each participant of its fork signed it, the missing ones are reported exactly, and what is found as somebody\'s signature, as the author\'s signature or as a participant\'s latest signed block is that participant\'s on that block.',
 ['inputs','histories'],'all sequences of confirmations: repeated, second signatures of one participant, outsiders\', for other blocks, unrecoverable or non-canonical ones',
 OFF+'confirmations from outsiders or for conflicting blocks and second signatures are not.',[AMG,SS,'src/utils/BlockUtils.ts','src/utils/set.ts',VS,PS],[('confirmBlock',AMG),('didEveryoneSignBlock',AMG),('validateBlockConfirmation',VS)]),
Q('C25','What is published on chain counts from when it was published',
 'Every announced publication of a block in a known fork is recorded with its author, height and chain time, the first time per author and height, whether the block is already agreed, next or ahead, unless it contradicts what is agreed; the latest publication up to a height and whether somebody published are answered exactly from these records. A published block that is next or ahead is processed like one that a peer sent, and one that contradicts the agreed history is disputed if its author can be blamed for it.',
 ['histories','inputs'],'all publications by honest and dishonest participants at any time relative to agreement, and all orders of their events',
 OFF+'publications of agreed, later or conflicting blocks are not.',[OC,SM,EL],[('collect',OC),('latestTimestamp / hasPosted',OC),('collectOnChainBlock',SM)],[('chainBlocks','publications per fork',FS)],('getChainLatestBlockTimestamp, didParticipantPostOnChain',)),
Q('C30','A client signs and passes on only valid blocks of the channel it is in',
 'A client confirms and relays a block exactly when it is open, the block is of its channel, its latest fork, not disputed, the next height, by the participant whose turn it is, correctly signed, builds on the agreed state, is dated between the last block and the peer time after the later of the last block (or fork start) and the latest publication up to its height, is not further from the client\'s own clock than tolerated when the client is next, and executing it succeeds with exactly the claimed state. Refusing a block leaves state, history and state machine as they were.',
 ['inputs','histories','schedules'],'all near misses of a valid block, at all times, in all states, one or several at once',
 OFF+'boundaries of each condition and combinations are not tried.',[VS,SM,ST],[('validateSignedBlock',VS),('processStateTransition',VS),('isGoodTimestamp',VS)]),
Q('C32','Nothing a peer, the chain or the user does wedges or kills a client',
 'Whatever arrives - unparsable or unknown messages, missing or mistyped parameters, impossible encodings, blocks that make the validation fail, reverted transactions, refused disputes, several inputs at once - raises no unhandled error, changes nothing it should not, and leaves the client processing everything that follows exactly as if the bad input had not been there. User transactions that cannot be played are refused with an error and leave no trace. A hook of the user that throws or rejects changes nothing in what the client does.',
 ['inputs','fault_sequences','schedules'],'malformed and failing inputs interleaved with everything else',
 OFF+'no test sends garbage or makes a call to the chain fail.',[SM,'src/rpc/RpcHandler.ts','src/rpc/Rpc.ts','src/P2PManager.ts','src/utils/Mutex.ts'],[('onRpc','src/P2PManager.ts'),('onSignedBlock',SM),('playTransaction',SM)]),
Q('C33','A client authors only what it may, and what it authors is valid',
 'A transaction of the user becomes a block exactly when the channel is open, it is this client\'s turn, the fork is not disputed, the transaction is for the next height of the latest fork and it succeeds on the agreed state. The block carries this client as author, the channel, fork and height, the agreed state\'s hash and the resulting state\'s hash, and a time that other clients and the contract accept: not before the last block and not later than the peer time after the latest reference. It is agreed locally, sent to everyone once with the client\'s signature, and never are two different blocks signed for one height of a fork.',
 ['inputs','schedules','histories'],'all transactions at all times and clock offsets, concurrently with messages, events and other transactions',
 OFF+'the clock never lies and nothing happens while a transaction is played.',[SM,PS,'src/Clock.ts'],[('playTransaction',SM),('adjustTimestampIfNeeded',SM),('sendTransaction',PS)]),
Q('C34','A client follows the chain to the latest fork',
 'When the chain announces the next state of the channel the client opens exactly that fork: its state machine, participants, start time and next height are those of the announced state, messages for it that waited are processed, the user learns of it once and whose turn it is, and the next participant\'s time starts. Announcements of other channels, repeated or out of order ones change nothing. Blocks of earlier forks are no longer accepted, and a participant that is not in the new state no longer counts.',
 ['histories','schedules'],'all histories of openings, removals, joins, leaves, disputes and their resolution, with events late, repeated or interleaved with blocks',
 OFF+'no test removes a participant and plays on.',[SM,EL,FS],[('setState',SM),('setChannelId',EL),('newFork',FS)]),
Q('C35','A client fights every dispute with what it knows, and none without reason',
 'Once evidence of misbehaviour in the latest fork is found, or somebody has run out of time, or a dispute on the channel is announced, the fork is disputed: the client signs and accepts nothing more in it. It submits its evidence with its latest state - as a new dispute when it knows of none for the fork, otherwise as a challenge - and challenges every newer version of a dispute with everything valid against it: the block everyone signed against a timeout (first), newer states that the posting disputer signed, and its collected evidence against accounts that are not slashed yet. Without anything valid it stays silent; a dispute that the contract refuses leaves the fork undisputed. Known proofs are not submitted twice in one challenge.',
 ['histories','schedules','fault_sequences'],'all interleavings of evidence, disputes and challenges by several clients and of their announcements, refused ones included',
 OFF+'one dispute with one proof.',[DH,PM,SM],[('createDispute',DH),('rechallengeRecursive',DH),('extractProofs',DH)],[('localProofs / disputes / disputedForks','per fork',DH)]),
Q('C36','What a client submits in a dispute is accepted by the contract',
 'The state a client posts is the result of the last block it signed itself, starting from the last state that everyone signed (directly or by signing a block after it) or else the fork\'s start, with every agreed block from there on and all their collected signatures; its evidence consists of the signed blocks and states it is about (double signs, incorrect data with the preceding block and state, blocks from the future, the newest block the poster signed, the block everyone signed). The contract accepts such a dispute or challenge whenever its evidence is against somebody who is not slashed yet and the dispute is still open, and the accused is slashed.',
 ['inputs','histories'],'all distributions of signatures over all agreed histories, all kinds of misbehaviour in all positions',
 OFF+'proofs are compared with expected structures, not submitted to the contract.',[AMG,PM,DH],[('getFinalizedAndLatestWithVotes',AMG),('create*Proof',PM),('createNewDispute',DH)]),
Q('C43','Who is late is timed out, who publishes in time is not',
 'When a client authored a block that not everyone has signed after the agreement time, it publishes it on chain, once; otherwise it does not. When the participant whose turn it is has had the peer, agreement and fallback times since the later of the last block and the fork\'s start, and since the latest publication, and has neither had a block agreed nor published one for that height, the client disputes it with that height; never itself, never earlier, never for a height or fork that is already past or disputed.',
 ['schedules','histories'],'all times of blocks, confirmations, publications and events relative to the timers, all clock offsets',
 OFF+'the timeout tests are not run, they wait in real time for one scenario.',[SM],[('tryTimeoutParticipant',SM),('maybePostBlockOnChain',SM),('onSuccessCommon',SM)]),
Q('C37','A connection is the peer\'s that proved it',
 'Every connection, however it came about, is challenged once with a fresh challenge and counts as a peer\'s exactly after that peer\'s signature over this challenge arrived in time on this connection; a challenge is answered, to whoever asked on the same connection, with the own signature exactly if the asker\'s clock agrees with the own within the agreement time. Each peer has one connection, the newest that proved to be its, and each connection one peer; a replaced, refused, late or ended connection is no longer written to, and a failing one keeps nothing from the others. Two peers that want to talk directly set up exactly one WebRTC connection - begun by the one with the lower address, with offers, answers and candidates going only to the peer they are for - and keep the old connection until the new one has proved whose it is.',
 ['histories','inputs','schedules'],'all sequences of connections opening, failing and ending, of handshake messages in any order, time and on any connection, with any signature, and of WebRTC set-up messages',
 'The tests connect two honest local peers and never repeat, delay, misdirect or forge a handshake message; WebRTC is not tested.',['src/P2PManager.ts','src/ProfileManager.ts','src/rpc/services/InitHandshakeService.ts','src/rpc/services/WebRTCSetupService.ts','src/transport/WebRTCTransport.ts','src/transport/HolepunchTransport.ts'],[('addConnection / removeConnection','src/P2PManager.ts'),('onInitHandshakeResponse','src/rpc/services/InitHandshakeService.ts'),('onOfferWebRTC','src/rpc/services/WebRTCSetupService.ts'),('registerProfile','src/ProfileManager.ts')],[],cmd='node checks/network.mjs C37',technique=NETW,note=NNOTE),
Q('C38','Locks, retries and delayed tasks do exactly what everything else relies on',
 'A lock is held by one at a time and is passed on in the order in which it was asked for, so that nobody waits for ever; a retried call is made until it succeeds or the retries are used up, with exactly the agreed waits in between, and its caller gets the last outcome; a task that is scheduled runs exactly once, not before its time, and whatever happens in it or in another does not stop the rest.',
 ['schedules','inputs'],'all orders of requests and releases by up to four holders, all configurations and outcomes of retries, all schedules of tasks that succeed, throw or reject',
 'The tests of these helpers use one or two holders and a task or two in real time.',['src/utils/Mutex.ts','src/utils/retry.ts','src/utils/scheduler.ts'],[('Mutex','src/utils/Mutex.ts'),('retry','src/utils/retry.ts'),('scheduleTask','src/utils/scheduler.ts')],[],cmd='node checks/parts.mjs C38',technique='TLA+ specification spec/Helpers.tla: TLC enumerates every sequence of operations within bounds; each is run on the real code and compared',note='Exhaustive within: four holders, 7 (thorough: 9) operations; retries up to three; three tasks, 5 (6) operations. Virtual time.'),
Q('C39','A client\'s clock is the chain\'s',
 'When a client starts, its clock is set to the chain\'s time whenever it is further from it than two block times, in either direction, or when the block time is not known; a clock that is within two block times is left alone; the chain is asked again until the clock is right, also when both move meanwhile; from then on it runs at the pace of the local clock. Without blocks the client does not start.',
 ['inputs','schedules'],'all offsets, block numbers, block times and movements of chain and local clock while the client asks',
 'No test of it has a clock that is wrong.',['src/Clock.ts'],[('init / getTimeInSeconds','src/Clock.ts')],[],cmd='node checks/parts.mjs C39',technique='TLA+ specification spec/ClockSync.tla: TLC enumerates every case within bounds and proves that the clock ends within two block times of the chain; each case is run on the real code and compared',note='Exhaustive within the listed offsets, block numbers, spans and movements.'),
Q('C40','Messages reach exactly whom they are for, and only known calls are answered',
 'A broadcast goes once to every open connection, and a message to some peers only to their connections; a message that arrives runs exactly the named method of the named service with the given parameters, for the connection on which it came; unknown services and methods, inherited or internal names, missing or wrong parameters and unreadable messages do nothing at all. A client announces itself under the topic of every channel it joins and, when it leaves, closes all its connections and withdraws from all topics, once.',
 ['inputs','histories','schedules'],'all messages - well formed or not - on all connections in any order, several at once, with connections failing at any time',
 'The tests call one service on one connection.',['src/P2PManager.ts','src/rpc/RpcHandler.ts','src/rpc/RpcProxy.ts','src/rpc/Rpc.ts','src/Holepunch.ts'],[('onRpc / dispose','src/P2PManager.ts'),('broadcast / sendOne / sendMultiple','src/rpc/RpcHandler.ts')],[],cmd='node checks/network.mjs C40',technique=NETW,note=NNOTE),
Q('C41','A request to join is signed by everybody who is in, for as long as it is good',
 'A request to join that its joiner signed and whose deadline is not over is confirmed once with the own signature and passed on to everyone with it; confirmations of others are collected once per participant, only participants\' count, each for exactly this request; when every participant\'s confirmation is there the request is ready to be submitted with all of them; when the deadline is over the request and what was collected for it are gone, not earlier. A request that is late, or not signed by its joiner, changes nothing.',
 ['histories','inputs','schedules'],'all sequences of requests and confirmations, by participants, outsiders and joiners, repeated, in any order, with any deadline, and time passing in between',
 'The test sends one request with one confirmation.',['src/rpc/services/JoinChannelService.ts','src/utils/SignatureCollectionMap.ts'],[('onJoinChannelRequest','src/rpc/services/JoinChannelService.ts'),('SignatureCollectionMap','src/utils/SignatureCollectionMap.ts')],[],cmd='node checks/network.mjs C41',technique=NETW,note=NNOTE),
Q('C42','The state machine a client hosts does what the chain\'s does, and nothing else',
 'A client\'s local state machine executes a transaction exactly as the one on the chain would: same result, same successor state, told the same about the transaction. A transaction that fails, in whatever way, a state that cannot be taken over, and any question - also one that runs a mutating function only to see its result - leave no trace. Taking over a state and asking for it are inverse. What a transaction reports to the user is reported completely, in order and with its arguments, only if and when the transaction is agreed. Whoever asks for something that the contract refuses is given the contract\'s reason. Calls that overlap act one after the other in the order in which they were made.',
 ['inputs','histories','schedules'],'all sequences of transactions (of every kind, succeeding and failing), states and questions, one at a time and overlapping by any number of microtasks',
 'The tests of the hosted machine are not part of the run; those that use it never overlap calls and never let a transaction fail after it changed something.',['src/evm/EvmStateMachine.ts','src/evm/ContractExecuter.ts','src/evm/P2pSigner.ts','contracts/V1/AStateMachine.sol'],[('executeCall / executeView','src/evm/ContractExecuter.ts'),('stateTransition / processLogs / runView / setState / getState','src/evm/EvmStateMachine.ts')],[('evm','the hosted machine\'s storage','src/evm/ContractExecuter.ts')],cmd='node checks/machine.mjs C42',technique='TLA+ specification spec/Machine.tla (on spec/Manager.tla\'s execution): TLC enumerates all sequences of two (thorough: three) calls and simulates long ones; each is performed on the real hosted state machine one call at a time and overlapping, and every result, event and final state compared',note='Exhaustive to depth 2 (3) over 30 calls, sampled to length 12; overlaps are sampled in microtasks. Trusts the ethereumjs EVM; the harness state machine stands for any.'),
Q('C44','A browser client stays on a relay, with its topics, while one is left',
 'A client in a browser reaches the swarm through one relay of its list at a time. A relay that cannot be reached, fails or ends is struck off the list once and never tried again, and another one takes its place at once, as long as one is left; the client joins every topic that it is in on the new swarm, each once and in order, and takes new connections from there. A relay that ended before has no effect when it ends again; topics that were left are left on the swarm in use and are not joined again.',
 ['fault_sequences','histories','configurations'],'all sequences of relays failing, ending and being reported more than once, of topics joined and left and of new connections in between, for one to four relays and any failing at once',
 'No test runs in a browser environment or has a relay.',['src/Holepunch.ts','src/HolepunchRelay.ts'],[('constructor / join / rejoinTopics / dispose','src/Holepunch.ts'),('connectToRelayer / removeAndConnectToRelayer','src/HolepunchRelay.ts')],[],cmd='node checks/parts.mjs C44',technique='TLA+ specification spec/Relay.tla: TLC checks that the swarm in use is that of a live relay and has all the topics, and enumerates every sequence of events within bounds; each is performed on the real Holepunch and HolepunchRelay with stand-ins for sockets and swarms, and the relays tried, the topics of every swarm and the connections taken are compared',note='Exhaustive for sequences of 4 or 5 (thorough: 6) events. Which relay is picked next is left open.'),
Q('C45','A client follows its channel and tells its user, until it is disposed of',
 'A client follows the chain\'s events of exactly the channel that its user connected it to last - whether its identifier is given as text, in capitals or as bytes -, looks for the other participants in the place of that channel, handles each event once, however often and however quickly the user connects, and nothing of other channels. Each event is told to the hooks that the user set last and to no others: a new state and whose turn it is, a published block, an update of a dispute, a dispute that the client starts. When the user disposes of the client nothing that the chain announces reaches the client or the user any more, it sends to nobody, and the user\'s listeners are removed.',
 ['histories','schedules'],'all sequences of connecting (in every form), setting hooks (all, some), events of two channels, blocks that prove a fault and disposal, at rest and in a hurry',
 'Each test connects a client once, sets its hooks once and never looks at what happens afterwards.',['src/StateChannelEventListener.ts','src/stateManager/StateManager.ts','src/evm/P2pInstance.ts','src/evm/P2pSigner.ts'],[('setChannelId / dispose','src/StateChannelEventListener.ts'),('setP2pEventHooks / dispose','src/stateManager/StateManager.ts'),('dispose / setHooks','src/evm/P2pInstance.ts')],[],cmd='node checks/session.mjs C45',technique='TLA+ specification spec/Session.tla: TLC checks that nothing is told after the end, of another channel or to old hooks, and enumerates every sequence of operations within bounds and long walks; each is performed on a real client with the events of real contracts, at rest after each operation and without waiting, and what the hooks are told is compared',note='All sequences of 4 (thorough: 5) operations, of which a quick run takes 6000, and walks of 9 (10). The contract object that announces the events is a stand-in that takes as long as ethers to subscribe; a client is sent to another channel only before it has a state of the first.'),
Q('C46','Clients on one machine find each other',
 'Clients that run on one machine in local mode find each other through a server at a known port, which the first of them starts. Whatever order they start in and however their messages interleave, in the end any two clients in one channel are connected with each other exactly once and each is told of the other once; no client is ever connected with itself, twice with another, or with a client of another channel; and a message to all reaches each of the others in the channel once, unchanged and in order. A port that is taken already is no failure: the client uses another one.',
 ['schedules','configurations'],'all interleavings of the starts, connections and messages of up to four clients in two channels, and ports that are taken',
 'Nothing in the tests uses the local mode.',['src/utils/LocalDiscoveryServer.ts','src/transport/LocalTransport.ts','src/P2PManager.ts'],[('tryStart / connectToPeers','src/utils/LocalDiscoveryServer.ts'),('LocalTransport','src/transport/LocalTransport.ts'),('tryOpenConnectionToChannel / addConnection / broadcastRpc','src/P2PManager.ts')],[('local','the connections that the clients have','src/P2PManager.ts')],cmd='node checks/local.mjs C46',technique='TLA+ specification spec/Local.tla: TLC checks over all interleavings of three (thorough: four) clients that no improper connection is made and that in the end everyone in a channel is connected, and simulates behaviours with ports that are taken; each is performed on real clients with stand-ins for their WebSockets that deliver in the order of the behaviour, and connections, hooks and messages received are compared with it',note='Exhaustive in the model for 3 clients in 2 channels (thorough: 4 in one); the code runs 600 (8500) simulated behaviours of 2 to 4 clients. Clients that leave are not part of it.'),
]
CHECKS=CH
