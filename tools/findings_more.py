KNOWN2=[]
FIXED2=[
('C32','b5ad27d','a validation that threw was taken for an accepted block or left the peer locked for good'),
('C32','506e1b8','a message whose handling failed ended the process with an unhandled rejection'),
('C32','8c1be09','a dispute that failed in the background ended the process; queue processing stopped at the first failure'),
('C22','79457eb','queued blocks and confirmations below the next height were never processed again'),
('C30','c096921','blocks were processed before the channel was open; forged ones displaced queued ones'),
('C21','93d7efd','a block older than the one it follows made the validation fail instead of being disputed'),
('C30','1981413','a block that does not build on the agreed state was disputed although nothing can be proven about it'),
('C30','19b3767','a refused block left its state behind in the state machine'),
('C23','b13a6ee','signatures and encodings that the contracts refuse as evidence counted as agreement'),
('C34','b839737','a state announced out of order replaced the latest fork'),
('C33','cdc7472','transactions were signed for stale headers or in a disputed fork, a failed signing left the state changed'),
('C33','ae3f791','the own clock could make a peer sign a block that proves incorrect data against itself'),
('C43','c0eff9d','a participant was timed out for a transaction that had been made meanwhile'),
('C25','8c7d5e5','blocks collected from the chain could not be relayed or compared'),
('C35','fcee498','a dispute that the contract refused stopped the fork for good'),
('C35','650ad18','evidence found while a dispute was on was never submitted'),
('C35','5c44afe','a proof collected twice made the contract refuse every further challenge'),
('C09','1c1979b','a timeout could not be undone once its disputer had been slashed for something else'),
('C25','174374e','a block posted for a fork not known yet made its handling fail'),
('C25','a9b7968','a posted block of a past fork or of an outsider started a dispute that must fail'),
('C37','3c98148','a handshake was answered to whichever peer had sent the last message'),
('C41','dae6bf4','a join request collected the own signature under the joiner\'s name and lost the first one received'),
('C37','7a66670','closing a local transport threw, which left the other connections open'),
('C37','e4c5a1c','repeating the handshake on a connection closed it'),
('C41','1ef4571','a join request with a far deadline was pruned at once'),
('C41','629ff87','a join request that its joiner had not signed collected confirmations and got queued'),
('C37','9701313','ICE candidates went to whichever peer had sent the last message'),
('C37','a0e07d4','a connection that fails kept a broadcast from the others'),
('C39','5c2bfc1','a local clock ahead of the chain was never adjusted'),
('C42','cc99d9b','overlapping calls of the local state machine undid each other or left it locked for good'),
('C42','a45b810','a static call of a mutating function changed the local state machine'),
('C45','d609b60','hooks set after the setup were not told about posted calldata, the old ones were'),
('C45','fdab357','connecting twice quickly, or disposing while connecting, left a subscription that nothing ended'),
('C32','73e2d39','a hook of the user that threw kept the turn from being timed or the block from being sent, or ended the process'),
('C45','15fff45','a client given its channel as bytes or in capitals looked for others elsewhere and refused every block'),
('C46','f72f469','a local client whose port was taken already ended with an unhandled error'),
('C37','c857f2b','an offer that the browser refuses ended the process of the client that made it, and was sent all the same'),
]
