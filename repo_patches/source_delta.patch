From d47eed9e544b0c1dd95416c8827d4b842ab346e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 01/60] fix: a dispute without blocks can only restore the
 fork's genesis state

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0955b4b..875d7c8 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -931,6 +931,12 @@ contract DisputeManagerFacet is StateChannelCommon {
             previousStateHash = _block.stateHash;
         }
 
+        //no blocks on top of the finalized state -> it's also the latest
+        if (
+            virtualVotingBlocks.length == 0 &&
+            keccak256(encodedLatestCorrectState) != finalizedStateHash
+        ) return false;
+
         return isGenesis || countThreshold == thresholdSingers.length;
     }
 
-- 
2.43.0


From 96d16b024c4a0dff9f9eeb8d6fecc0bf803c8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 02/60] fix: a timeout always follows the last posted block

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 875d7c8..2239d0a 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -138,15 +138,15 @@ contract DisputeManagerFacet is StateChannelCommon {
         if (timedoutParticipant != address(0)) {
             //Check if participant posted BLOCK onChain as calldata
             uint latestTimestamp = getGenesisTimestamp(channelId, forkCnt);
-            if (foldedTransactionCnt != 0) {
+            if (foldedTransactionCnt != 0 || virtualVotingBlocks.length != 0) {
                 Block memory lastBlock = abi.decode(
                     virtualVotingBlocks[virtualVotingBlocks.length - 1]
                         .encodedBlock,
                     (Block)
                 );
                 require(
-                    lastBlock.transaction.header.transactionCnt ==
-                        foldedTransactionCnt - 1,
+                    lastBlock.transaction.header.transactionCnt + 1 ==
+                        foldedTransactionCnt,
                     ErrorTimeoutNotLinkedToPreviousBlock()
                 );
                 latestTimestamp = lastBlock.transaction.header.timestamp;
-- 
2.43.0


From e6f99d64378f2aa09b2658c7a93943e601ed2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 03/60] fix: a newer state proof needs a block newer than the
 posted state

---
 .../DisputeManagerFacet.sol                   | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 2239d0a..6bd2e37 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -642,17 +642,20 @@ contract DisputeManagerFacet is StateChannelCommon {
             retrivedAddress == dispute.postedStateDisputer,
             ErrorNewerStateConfirmationInvalid()
         );
-        Block memory latestKnownBlock = abi.decode(
-            dispute
-                .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock,
-            (Block)
-        );
-        require(
-            _block.transaction.header.transactionCnt >=
-                latestKnownBlock.transaction.header.transactionCnt,
-            ErrorTransactionCountMismatch()
-        );
+        //no posted blocks -> the dispute posted genesis and any confirmed block is newer
+        if (dispute.virtualVotingBlocks.length != 0) {
+            Block memory latestKnownBlock = abi.decode(
+                dispute
+                    .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
+                    .encodedBlock,
+                (Block)
+            );
+            require(
+                _block.transaction.header.transactionCnt >
+                    latestKnownBlock.transaction.header.transactionCnt,
+                ErrorTransactionCountMismatch()
+            );
+        }
         return
             insertIfNotExist(
                 dispute.slashedParticipants,
-- 
2.43.0


From fecaf88c08359e9958824f618d3d9c8576d5f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 04/60] fix: disputes that posted genesis can be challenged

---
 .../DisputeManagerFacet.sol                   | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 6bd2e37..34cc748 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -264,19 +264,26 @@ contract DisputeManagerFacet is StateChannelCommon {
             ),
             ErrorLatestFinalizedBlock()
         );
-        Block memory oldBlock = abi.decode(
-            dispute.virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        Block memory newBlock = abi.decode(
-            virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        require(
-            newBlock.transaction.header.transactionCnt >=
-                oldBlock.transaction.header.transactionCnt,
-            ErrorChallengeNewFinalizedBeforeOldFinalized()
-        );
+        //no posted blocks -> the dispute posted genesis and nothing can be before it
+        if (dispute.virtualVotingBlocks.length != 0) {
+            require(
+                virtualVotingBlocks.length != 0,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+            Block memory oldBlock = abi.decode(
+                dispute.virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            Block memory newBlock = abi.decode(
+                virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            require(
+                newBlock.transaction.header.transactionCnt >=
+                    oldBlock.transaction.header.transactionCnt,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+        }
         copyConfirmedBlockArrayIntoStorage(
             dispute.virtualVotingBlocks,
             virtualVotingBlocks
-- 
2.43.0


From a743b75bc04c271d6e082c00ccb805dd2cbada22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 05/60] fix: a challenge replaces the blocks it was posted
 against

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 34cc748..1e39aa9 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -284,6 +284,7 @@ contract DisputeManagerFacet is StateChannelCommon {
                 ErrorChallengeNewFinalizedBeforeOldFinalized()
             );
         }
+        delete dispute.virtualVotingBlocks;
         copyConfirmedBlockArrayIntoStorage(
             dispute.virtualVotingBlocks,
             virtualVotingBlocks
-- 
2.43.0


From aedf5f9da2a5caebf01299ce5c2ec753e0083eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 06/60] fix: a new dispute processes the exits of the previous
 one and inherits nothing else

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 1e39aa9..1817511 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -187,6 +187,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             require(timedoutParticipant != msg.sender, ErrorTimeoutSelf());
         }
         Dispute storage dispute = disputes[channelId];
+        //the previous dispute is over - process its exits and start from scratch
+        for (uint i = 0; i < dispute.processExits.length; i++)
+            removeParticipantComposable(channelId, dispute.processExits[i]);
+        delete disputes[channelId];
         dispute.channelId = channelId;
         dispute.forkCnt = forkCnt;
         dispute.challengeCnt = 0; //this can be removed - default value
-- 
2.43.0


From df34487c28e08dbc8c0cf1417964deffe07ebb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 07/60] fix: fold prior block folds the author of that block

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 1817511..20a4f4d 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -689,7 +689,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             if (
                 _block.transaction.header.transactionCnt ==
                 foldPriorBlockProof.transactionCnt
-            ) isTransactionCntInVirtualVotes = true;
+            ) {
+                isTransactionCntInVirtualVotes = true;
+                break;
+            }
         }
         require(
             isTransactionCntInVirtualVotes,
-- 
2.43.0


From 0114593f31423f579cabca1b00117a19387ec72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 08/60] fix: fold rechallenge needs a fold

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 20a4f4d..628f8fc 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -441,6 +441,10 @@ contract DisputeManagerFacet is StateChannelCommon {
         Dispute storage dispute,
         FoldRechallengeProof memory foldRechallengeProof
     ) private returns (bool) {
+        require(
+            dispute.timedoutParticipant != address(0),
+            ErrorTimeoutInvalid()
+        );
         Block memory _block = abi.decode(
             foldRechallengeProof.encodedBlock,
             (Block)
-- 
2.43.0


From 97fbb22bb0ddd7ac661fd1780af1d89e178894db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 09/60] fix: only participants can be slashed

---
 .../DisputeManagerFacet.sol                        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 628f8fc..be3e67a 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -522,6 +522,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 doubleSign.block2.signature
             );
             require(retrived1 == retrived2, ErrorDoubleSignSignersNotTheSame());
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived1
+                ),
+                ErrorNotParticipant()
+            );
             //If we're here - the proof is valid
             success =
                 insertIfNotExist(dispute.slashedParticipants, retrived1) ||
@@ -561,6 +568,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 retrived2 == block2.transaction.header.participant,
             ErrorSignatureInvalid()
         );
+        require(
+            StateChannelUtilLibrary.isAddressInArray(
+                dispute.participants,
+                retrived2
+            ),
+            ErrorNotParticipant()
+        );
         require(
             block1.transaction.header.channelId == dispute.channelId &&
                 block2.transaction.header.channelId == dispute.channelId,
-- 
2.43.0


From 372008ab6ac45dc8250b39f891b4d7ebfc4c3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 10/60] fix: a forced join is possible until its deadline, not
 after it

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index be3e67a..f9e821a 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -825,7 +825,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
         require(!isParticipant, ErrorJoinChannelAlreadyInChannel());
         require(
-            block.timestamp > jc.deadlineTimestamp,
+            block.timestamp <= jc.deadlineTimestamp,
             ErrorJoinChannelExpired()
         );
         require(
-- 
2.43.0


From d7217ba8e12177ccd25b2fdfde6a6a17ea017c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 11/60] fix: joining and leaving with agreement don't go
 through onlySelf functions

---
 .../V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 9ee6327..1d54bb9 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -133,7 +133,7 @@ abstract contract AStateChannelManagerProxy is
         JoinChannel[] memory joinCahnnels = new JoinChannel[](1);
         joinCahnnels[0] = joinChannel;
         uint successCnt;
-        (encodedState, successCnt) = applyJoinChannelToStateMachine(
+        (encodedState, successCnt) = _applyJoinChannelToStateMachine(
             encodedState,
             joinCahnnels
         );
@@ -206,7 +206,7 @@ abstract contract AStateChannelManagerProxy is
             bytes memory encodedState,
             ProcessExit[] memory pe,
             uint successCnt
-        ) = removeParticipantsFromStateMachine(encodedState, p);
+        ) = _removeParticipantsFromStateMachine(encodedState, p);
         require(
             successCnt == 1,
             "AStateChannelManager: leaveChannelWithAgreement - removeParticipantsFromStateMachine failed"
-- 
2.43.0


From eae6104582619fb5fd88d1b119901d827d7e39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 12/60] fix: agreements to join or leave expire at their
 deadline

---
 .../AStateChannelManagerProxy.sol                    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 1d54bb9..f83e0fa 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -82,6 +82,12 @@ abstract contract AStateChannelManagerProxy is
             "AStateChannelManager: joinChannelWithAgreement - joiner is participant"
         );
 
+        //require the joiner's offer to still stand
+        require(
+            block.timestamp <= joinChannel.deadlineTimestamp,
+            "AStateChannelManager: joinChannelWithAgreement - expired"
+        );
+
         //require msg.sender == submitter == participant
         isParticipant = StateChannelUtilLibrary.isAddressInArray(
             participants,
@@ -189,6 +195,12 @@ abstract contract AStateChannelManagerProxy is
             "AStateChannelManager: leaveChannelWithAgreement - not participant"
         );
 
+        //require the agreement to still stand
+        require(
+            block.timestamp <= leaveChannel.deadlineTimestamp,
+            "AStateChannelManager: leaveChannelWithAgreement - expired"
+        );
+
         //check signatures
         (bool success, ) = StateChannelUtilLibrary.verifyThresholdSigned(
             participants,
-- 
2.43.0


From c4331317ff16c0178e803f803a0fb337765c8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 13/60] fix: proofs are encoded as the contracts decode them

---
 src/types/disputes.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/types/disputes.ts b/src/types/disputes.ts
index bb79ad7..4039b69 100644
--- a/src/types/disputes.ts
+++ b/src/types/disputes.ts
@@ -1,7 +1,7 @@
 import { SignedBlockEthersType } from "./ethers";
 
 export const FoldRechallengeProofEthersType = `tuple(
-    string encodedBlock,
+    bytes encodedBlock,
     bytes[] signatures
     )`;
 
@@ -11,14 +11,14 @@ export const DoubleSignProofEthersType = `tuple(
 export const IncorrectDataProofEthersType = `tuple(
     ${SignedBlockEthersType} block1,
     ${SignedBlockEthersType} block2,
-    string encodedState
+    bytes encodedState
     )`;
 export const NewerStateProofEthersType = `tuple(
-    string encodedBlock,
-    string confirmationSignature
+    bytes encodedBlock,
+    bytes confirmationSignature
     )`;
 export const FoldPriorBlockProofEthersType = `tuple(
-    uint moveCnt
+    uint transactionCnt
     )`;
 export const BlockTooFarInFutureProofEthersType = `tuple(
     ${SignedBlockEthersType} block1
-- 
2.43.0


From 784ab93f89f0a9256744400dbc9740d41fcf7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 14/60] fix: incorrect data proofs hold the prior block, its
 state and the incorrect block

---
 src/ProofManager.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 47774df..600e34e 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -408,21 +408,21 @@ class ProofManager {
 
         const priorEncodedState = this.agreementManager.getEncodedState(
             forkCnt,
-            transactionCnt
+            transactionCnt - 1
         );
 
         if (!priorEncodedState) {
             throw new Error(
-                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt}`
+                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt - 1}`
             );
         }
 
         return {
-            block1: incorrectBlockSigned,
-            block2: {
+            block1: {
                 encodedBlock: EvmUtils.encodeBlock(priorBlock),
                 signature: priorBlockOriginalSignature as string
             },
+            block2: incorrectBlockSigned,
             encodedState: priorEncodedState
         };
     }
-- 
2.43.0


From a3867ec7df4dc722ef8e13f1e79962c03a2d16a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 15/60] fix: challenges target the dispute as it is on-chain

---
 src/DisputeHandler.ts | 2 +-
 src/ProofManager.ts   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index e2b34d7..12dd5a5 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -281,7 +281,7 @@ class DisputeHandler {
                 .challengeDispute(
                     this.channelId,
                     dispute.forkCnt,
-                    Number(dispute.challengeCnt) + 1,
+                    dispute.challengeCnt,
                     proofs,
                     virtualVotingBlocks,
                     encodedLatestFinalizedState,
diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 600e34e..7e69085 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -217,7 +217,7 @@ class ProofManager {
         const block = EvmUtils.decodeBlock(foldRechallengeProof.encodedBlock);
         const sameTransactionCnt =
             Number(block.transaction.header.transactionCnt) ===
-            dispute.foldedTransactionCnt;
+            Number(dispute.foldedTransactionCnt);
         const sameParticipant =
             block.transaction.header.participant ===
             dispute.timedoutParticipant;
@@ -305,7 +305,8 @@ class ProofManager {
         ) as dt.FoldPriorBlockProofStruct;
 
         return (
-            foldPriorBlockProof.transactionCnt < dispute.foldedTransactionCnt &&
+            Number(foldPriorBlockProof.transactionCnt) <
+                Number(dispute.foldedTransactionCnt) &&
             dispute.timedoutParticipant !== ethers.ZeroAddress
         );
     }
-- 
2.43.0


From ecef4730773e80f96daebe307d68479dd2bf3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 16/60] fix: newer state proofs are about the confirmer of the
 newer block

---
 src/DisputeHandler.ts |  3 ++-
 src/ProofManager.ts   | 37 +++++++++++++++++++++++--------------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 12dd5a5..9a1b278 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -333,7 +333,8 @@ class DisputeHandler {
     }
 
     private getLastTransactionCount(dispute: DisputeStruct): number {
-        if (dispute.virtualVotingBlocks.length === 0) return 0;
+        // no posted blocks - genesis was posted and every block is newer
+        if (dispute.virtualVotingBlocks.length === 0) return -1;
 
         // Extract from the last block
         const lastBlock = EvmUtils.decodeBlock(
diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 7e69085..0913813 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -1,4 +1,10 @@
-import { ethers, AddressLike, BigNumberish, BytesLike } from "ethers";
+import {
+    ethers,
+    AddressLike,
+    BigNumberish,
+    BytesLike,
+    SignatureLike
+} from "ethers";
 import * as dt from "@typechain-types/contracts/V1/DisputeTypes";
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { getEthersTypeForDisputeProof, ProofType } from "@/types/disputes";
@@ -271,26 +277,29 @@ class ProofManager {
 
         const block = EvmUtils.decodeBlock(newerStateProof.encodedBlock);
 
-        if (dispute.virtualVotingBlocks.length === 0) return false;
-
-        const latestBlock = EvmUtils.decodeBlock(
-            dispute.virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock
+        const confirmer = EvmUtils.retrieveSignerAddressBlock(
+            block,
+            newerStateProof.confirmationSignature as SignatureLike
         );
 
-        const latestTransactionCnt = Number(
-            latestBlock.transaction.header.transactionCnt
-        );
+        // no posted blocks - genesis was posted and every block is newer
+        const latestTransactionCnt =
+            dispute.virtualVotingBlocks.length === 0
+                ? -1
+                : Number(
+                      EvmUtils.decodeBlock(
+                          dispute.virtualVotingBlocks[
+                              dispute.virtualVotingBlocks.length - 1
+                          ].encodedBlock
+                      ).transaction.header.transactionCnt
+                  );
         const currentTransactionCnt = Number(
             block.transaction.header.transactionCnt
         );
 
         return (
-            !dispute.slashedParticipants.includes(
-                block.transaction.header.participant
-            ) &&
-            block.transaction.header.participant ===
-                dispute.postedStateDisputer &&
+            !dispute.slashedParticipants.includes(confirmer) &&
+            confirmer === dispute.postedStateDisputer &&
             currentTransactionCnt > latestTransactionCnt
         );
     }
-- 
2.43.0


From 19f3e95f391eeaf25cc062e913f2c1669198fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 17/60] fix: disputes without a timeout fold the zero address

---
 src/DisputeHandler.ts                 |  2 +-
 src/stateManager/StateManager.ts      |  6 +++---
 src/stateManager/ValidationService.ts | 11 +++++++----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 9a1b278..287e899 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -13,7 +13,7 @@ import ProofManager from "./ProofManager";
 let DEBUG_DISPUTE_HANDLER = true;
 
 // Constants for commonly used values
-const NO_PARTICIPANT_TO_FOLD = "0x00";
+export const NO_PARTICIPANT_TO_FOLD = ethers.ZeroAddress;
 const INITIAL_TRANSACTION_COUNT = 0;
 
 type ForkCnt = number;
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ab76248..4b91277 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -18,7 +18,7 @@ import {
     DisputeStruct
 } from "@typechain-types/contracts/V1/DisputeTypes";
 import Clock from "@/Clock";
-import DisputeHandler from "@/DisputeHandler";
+import DisputeHandler, { NO_PARTICIPANT_TO_FOLD } from "@/DisputeHandler";
 import P2PManager from "@/P2PManager";
 
 import AStateMachine from "@/AStateMachine";
@@ -147,7 +147,7 @@ class StateManager {
                 ]);
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                NO_PARTICIPANT_TO_FOLD,
                 0,
                 [disputeProof]
             );
@@ -159,7 +159,7 @@ class StateManager {
                 );
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                NO_PARTICIPANT_TO_FOLD,
                 0,
                 [disputeProof]
             );
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index dd8f32f..06f5257 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -4,7 +4,7 @@ import {
     BlockStruct,
     SignedBlockStruct
 } from "@typechain-types/contracts/V1/DataTypes";
-import DisputeHandler from "@/DisputeHandler";
+import DisputeHandler, { NO_PARTICIPANT_TO_FOLD } from "@/DisputeHandler";
 import { AddressLike, BytesLike, ethers, SignatureLike } from "ethers";
 import { AStateChannelManagerProxy } from "@typechain-types/contracts/V1/StateChannelDiamondProxy";
 import {
@@ -202,9 +202,12 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(this.getForkCnt(), "0x00", 0, [
-                proof
-            ]);
+            this.disputeHandler.createDispute(
+                this.getForkCnt(),
+                NO_PARTICIPANT_TO_FOLD,
+                0,
+                [proof]
+            );
         }
         return flag;
     }
-- 
2.43.0


From 32fd206fe4b01622d8e2d70133bf8b3b04f8f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 18/60] fix: confirmations that aren't ready are queued

---
 src/stateManager/StateManager.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 4b91277..be1b627 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -545,8 +545,9 @@ class StateManager {
         const ctx: ConfirmationDecisionContext = {
             isDisposed: this.isDisposed,
             tryConfirmFromQueue: this.tryConfirmFromQueue.bind(this),
-            queueConfirmation:
-                this.agreementManager.queueConfirmation.bind(this)
+            queueConfirmation: this.agreementManager.queueConfirmation.bind(
+                this.agreementManager
+            )
         };
 
         await processConfirmationDecision(
-- 
2.43.0


From 5f870f01e175e5f7817a5f6831668585c1feed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 19/60] fix: the list refuses nodes it already has and removals
 of nodes it doesn't have

---
 contracts/common/DoubleLinkedList.sol | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/common/DoubleLinkedList.sol b/contracts/common/DoubleLinkedList.sol
index 5221e4a..0a3862f 100644
--- a/contracts/common/DoubleLinkedList.sol
+++ b/contracts/common/DoubleLinkedList.sol
@@ -47,6 +47,8 @@ contract DoubleLinkedList {
     Node headNode = Node(NodeData(0), 0, 0, 0);
     // Add data to the front of the list
     function addFront(NodeData memory data) public {
+        require(data.tableId != 0, "Node id is 0");
+        require(map[data.tableId].uniquePtr == 0, "Node already in the list");
         Node memory node = Node(data, data.tableId, 0, 0);
         node.next = headNode.uniquePtr;
         node.prev = 0;
@@ -64,6 +66,7 @@ contract DoubleLinkedList {
 
     function removeNode(bytes32 uniquePtr) public {
         Node memory node = map[uniquePtr];
+        require(node.uniquePtr != 0, "Node not in the list");
         if (node.prev != 0) {
             map[node.prev].next = node.next;
         }
-- 
2.43.0


From e3ddf52b5047f9fa6ab05bfedb47171a7a61e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 20/60] fix: fold prior block needs a fold

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index f9e821a..0443059 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -697,6 +697,10 @@ contract DisputeManagerFacet is StateChannelCommon {
         Dispute storage dispute,
         FoldPriorBlockProof memory foldPriorBlockProof
     ) private returns (bool) {
+        require(
+            dispute.timedoutParticipant != address(0),
+            ErrorTimeoutInvalid()
+        );
         bool isTransactionCntInVirtualVotes = false;
         Block memory _block;
         for (uint i = 0; i < dispute.virtualVotingBlocks.length; i++) {
-- 
2.43.0


From bba9a2b392e87f9c8f8bec24b962a5801e84b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 21/60] fix: incorrect data follows a block of a participant

---
 .../StateChannelDiamondProxy/DisputeManagerFacet.sol | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0443059..1671084 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -606,6 +606,18 @@ contract DisputeManagerFacet is StateChannelCommon {
             );
         } else {
             //Not genesis - block2 builds on block1
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived1
+                ),
+                ErrorNotParticipant()
+            );
+            require(
+                block1.transaction.header.transactionCnt + 1 ==
+                    block2.transaction.header.transactionCnt,
+                ErrorIncorrectDataBlocksNotLinked()
+            );
             //Check linked
             require(
                 block2.previousStateHash == block1.stateHash,
-- 
2.43.0


From e022bab5c6fc0f27c54aa3f5860a3566f7e872f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 22/60] fix: the blocks a dispute posts are consecutive blocks
 of participants

---
 .../DisputeManagerFacet.sol                   | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 1671084..a892e82 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -908,6 +908,19 @@ contract DisputeManagerFacet is StateChannelCommon {
             forkCnt,
             encodedFinalizedState
         );
+        uint firstTransactionCnt = 0;
+        if (virtualVotingBlocks.length != 0) {
+            firstTransactionCnt = abi
+                .decode(virtualVotingBlocks[0].encodedBlock, (Block))
+                .transaction
+                .header
+                .transactionCnt;
+            //genesis is followed by the first block of the fork
+            require(
+                !isGenesis || firstTransactionCnt == 0,
+                ErrorTransactionCountMismatch()
+            );
+        }
 
         //Check through virtual voting and treshold
         bytes32 finalizedStateHash = keccak256(encodedFinalizedState);
@@ -930,6 +943,18 @@ contract DisputeManagerFacet is StateChannelCommon {
                 _block.transaction.header.forkCnt == forkCnt,
                 ErrorDisputeForkMismatch()
             );
+            require(
+                _block.transaction.header.transactionCnt ==
+                    firstTransactionCnt + i,
+                ErrorTransactionCountMismatch()
+            );
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    thresholdSingers,
+                    _block.transaction.header.participant
+                ),
+                ErrorNotParticipant()
+            );
 
             bool isSignedByParticipant = false;
             for (
-- 
2.43.0


From be4691b56f6ea7003179770e6cc4126b9c1230fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 23/60] fix: only a fork's first block builds on genesis

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol   | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index a892e82..06332ff 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -588,6 +588,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         uint previousTimestamp;
         //If encodedState is genesis => Block2 is first block and block1 is just a copy of block2 and is ignored
         if (
+            block2.transaction.header.transactionCnt == 0 &&
             isGenesisState(
                 dispute.channelId,
                 dispute.forkCnt,
@@ -915,11 +916,8 @@ contract DisputeManagerFacet is StateChannelCommon {
                 .transaction
                 .header
                 .transactionCnt;
-            //genesis is followed by the first block of the fork
-            require(
-                !isGenesis || firstTransactionCnt == 0,
-                ErrorTransactionCountMismatch()
-            );
+            //a later state can be equal to the genesis state - only the first block of the fork builds on genesis
+            if (firstTransactionCnt != 0) isGenesis = false;
         }
 
         //Check through virtual voting and treshold
-- 
2.43.0


From b5ad27dcd175815dd2f23a1b14be9ca9133c1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:38 +0000
Subject: [PATCH 24/60] fix: a block whose validation throws is no longer
 treated as accepted, and never leaves the mutex locked

---
 src/stateManager/StateManager.ts | 79 ++++++++++++--------------------
 1 file changed, 29 insertions(+), 50 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index be1b627..1f06f3c 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -231,37 +231,26 @@ class StateManager {
         signedBlock: SignedBlockStruct,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        // Default everything to SUCCESS + no AgreementFlag
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS;
-        let finalAgreementFlag: AgreementFlag | undefined = undefined;
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
+        await this.mutex.lock();
         try {
-            await this.mutex.lock();
-            const result = await this.validationService.validateSignedBlock(
-                signedBlock,
-                decodedBlock
-            );
-
-            finalExecutionFlag = result.flag;
-            finalAgreementFlag = result.agreementFlag;
-
-            return finalExecutionFlag;
-        } finally {
-            // Safety check: must have an execution flag
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onSignedBlock - Internal Error - flag undefined"
+            const { flag, agreementFlag } =
+                await this.validationService.validateSignedBlock(
+                    signedBlock,
+                    decodedBlock
                 );
-            }
 
-            // Process the final decision
+            // Process the final decision - only reached when the validation completed
             await this.processExecutionDecision(
                 signedBlock,
-                finalExecutionFlag,
-                finalAgreementFlag
+                flag,
+                agreementFlag
             );
+
+            return flag;
+        } finally {
             this.mutex.unlock();
         }
     }
@@ -272,40 +261,30 @@ class StateManager {
         confirmationSignature: BytesLike,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS; // Default to SUCCESS
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
-        try {
-            const result =
-                await this.validationService.validateBlockConfirmation(
-                    signedBlock,
-                    confirmationSignature,
-                    decodedBlock
-                );
-            finalExecutionFlag = result.flag;
-
-            if (result.success) {
-                this.agreementManager.confirmBlock(
-                    decodedBlock,
-                    confirmationSignature as SignatureLike
-                );
-            }
-
-            return finalExecutionFlag;
-        } finally {
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onBlockConfirmation - Internal Error - flag undefined"
-                );
-            }
-
-            await this.processConfirmationDecision(
+        const { success, flag } =
+            await this.validationService.validateBlockConfirmation(
                 signedBlock,
-                confirmationSignature as SignatureLike,
-                finalExecutionFlag
+                confirmationSignature,
+                decodedBlock
+            );
+
+        if (success) {
+            this.agreementManager.confirmBlock(
+                decodedBlock,
+                confirmationSignature as SignatureLike
             );
         }
+
+        await this.processConfirmationDecision(
+            signedBlock,
+            confirmationSignature as SignatureLike,
+            flag
+        );
+
+        return flag;
     }
 
     //Aplies a transaction to the state machine and returns the encoded state with a success callback
-- 
2.43.0


From 506e1b8ccce1af69a123df7bfd896020216a6846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 25/60] fix: a message whose handler rejects no longer ends the
 process with an unhandled rejection

---
 src/P2PManager.ts         |  7 ++++++-
 src/rpc/MainRpcService.ts | 25 ++++++++++++++-----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 210c330..dbc1948 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -65,7 +65,12 @@ class P2PManager implements IOnMessage {
                 return;
             }
             //TODO! set context - calling socket/profile (ATransport)!
-            this.localRpcService[rpc.method](...rpc.params);
+            Promise.resolve(
+                this.localRpcService[rpc.method](...rpc.params)
+            ).catch((e) => {
+                //TODO - disconnect from peer
+                console.error(e);
+            });
         } catch (e) {
             //TODO - disconnect from peer
             console.error(e);
diff --git a/src/rpc/MainRpcService.ts b/src/rpc/MainRpcService.ts
index bf715a8..5ce01ae 100644
--- a/src/rpc/MainRpcService.ts
+++ b/src/rpc/MainRpcService.ts
@@ -51,7 +51,10 @@ class MainRpcService {
     // ********************* InitHandskaheService *********************
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
-        this.initHandshakeService.onInitHandshakeRequest(challengeHash, time);
+        return this.initHandshakeService.onInitHandshakeRequest(
+            challengeHash,
+            time
+        );
     }
 
     public async onInitHandshakeResponse(
@@ -59,7 +62,7 @@ class MainRpcService {
         responseTime: number,
         preferredTransport: TransportType
     ) {
-        this.initHandshakeService.onInitHandshakeResponse(
+        return this.initHandshakeService.onInitHandshakeResponse(
             signature,
             responseTime,
             preferredTransport
@@ -68,33 +71,33 @@ class MainRpcService {
 
     // ********************* WebRTCSetupService *********************
     public async onOfferWebRTC(offer: string) {
-        this.webRTCSetunService.onOfferWebRTC(offer);
+        return this.webRTCSetunService.onOfferWebRTC(offer);
     }
 
     public async onAnswerWebRTC(answer: string) {
-        this.webRTCSetunService.onAnswerWebRTC(answer);
+        return this.webRTCSetunService.onAnswerWebRTC(answer);
     }
 
     public async onIceCandidate(serializedCandidate: string) {
-        this.webRTCSetunService.onIceCandidate(serializedCandidate);
+        return this.webRTCSetunService.onIceCandidate(serializedCandidate);
     }
 
     // ********************* TESTJoinChannelService - TODO! TEST this is only for test *********************
     public async onSignJoinChannelTEST(jcEncoded: string, jcSignature: string) {
-        this.testJoinChannelService.onSignJoinChannelTEST(
+        return this.testJoinChannelService.onSignJoinChannelTEST(
             jcEncoded,
             jcSignature
         );
     }
     // ********************* DHTDiscoveryService - DHT discovery, common topic, leader introduction to specific channelID *********************
     public async onCanJoinLeaderRequest() {
-        this.dhtDiscoveryService.onCanJoinLeaderRequest();
+        return this.dhtDiscoveryService.onCanJoinLeaderRequest();
     }
     public async onCanJoinLeaderResponse(
         channelId: BytesLike,
         participants: AddressLike[]
     ) {
-        this.dhtDiscoveryService.onCanJoinLeaderResponse(
+        return this.dhtDiscoveryService.onCanJoinLeaderResponse(
             channelId,
             participants
         );
@@ -104,7 +107,7 @@ class MainRpcService {
         signedJoinChannel: SignedJoinChannelStruct,
         confirmationSignature?: SignatureLike
     ) {
-        this.joinChannelService.onJoinChannelRequest(
+        return this.joinChannelService.onJoinChannelRequest(
             signedJoinChannel,
             confirmationSignature
         );
@@ -112,14 +115,14 @@ class MainRpcService {
 
     // ********************* StateTransitionService *********************
     public async onSignedBlock(signedBlock: SignedBlockStruct) {
-        this.stateTransitionService.onSignedBlock(signedBlock);
+        return this.stateTransitionService.onSignedBlock(signedBlock);
     }
 
     public async onBlockConfirmation(
         originalSignedBlock: SignedBlockStruct,
         confirmationSignature: BytesLike
     ) {
-        this.stateTransitionService.onBlockConfirmation(
+        return this.stateTransitionService.onBlockConfirmation(
             originalSignedBlock,
             confirmationSignature
         );
-- 
2.43.0


From 8c1be09cffffa6e5a4b89af13aa927f76fc375f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 26/60] fix: a dispute that can't be created no longer ends the
 process with an unhandled rejection, nor does one already created

---
 src/stateManager/StateManager.ts              | 56 +++++++++++--------
 src/stateManager/ValidationService.ts         | 11 ++--
 .../processConfirmationDecisionHandlers.ts    |  4 +-
 .../processExecutionDecisionHandlers.ts       | 17 +++---
 4 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 1f06f3c..468ec49 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -124,7 +124,9 @@ class StateManager {
     }
     //Triggered by the On-chain Event Listener when a dispute is emitted on-chain
     public onDisputeUpdate(dispute: DisputeStruct) {
-        this.disputeHandler.onDispute(dispute);
+        this.disputeHandler
+            .onDispute(dispute)
+            .catch((e) => console.error("onDisputeUpdate", e));
         this.p2pEventHooks.onDisputeUpdate?.(dispute);
     }
     //Triggered by the On-chain Event Listener when block calldata is posted on-chain
@@ -145,27 +147,31 @@ class StateManager {
                 this.disputeHandler.proofManager.createDoubleSignProof([
                     signedBlock
                 ]);
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                NO_PARTICIPANT_TO_FOLD,
-                0,
-                [disputeProof]
-            );
+            this.disputeHandler
+                .createDispute(
+                    block.transaction.header.forkCnt,
+                    NO_PARTICIPANT_TO_FOLD,
+                    0,
+                    [disputeProof]
+                )
+                .catch((e) => console.error("collectOnChainBlock", e));
         } else if (flag == AgreementFlag.INCORRECT_DATA) {
             console.log("StateManager - collectOnChainBlock - incorrect data");
             disputeProof =
                 this.disputeHandler.proofManager.createIncorrectDataProof(
                     signedBlock
                 );
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                NO_PARTICIPANT_TO_FOLD,
-                0,
-                [disputeProof]
-            );
+            this.disputeHandler
+                .createDispute(
+                    block.transaction.header.forkCnt,
+                    NO_PARTICIPANT_TO_FOLD,
+                    0,
+                    [disputeProof]
+                )
+                .catch((e) => console.error("collectOnChainBlock", e));
         }
         console.log("StateManager - collectOnChainBlock - done");
-        this.onSuccessCommon();
+        return this.onSuccessCommon();
     }
     private async tryExecuteFromQueue() {
         let signedBlocks = this.agreementManager.tryDequeueBlocks(
@@ -434,26 +440,26 @@ class StateManager {
             (Clock.getTimeInSeconds() -
                 this.agreementManager.getLatestBlockTimestamp(forkCnt));
         if (delayTimeSeconds < 0) {
-            this.disputeHandler.createDispute(
+            console.log("Timeout participant!");
+            await this.disputeHandler.createDispute(
                 forkCnt,
                 participantAdr,
                 transactionCnt,
                 []
             );
-            console.log("Timeout participant!");
         } else {
             scheduleTask(
                 async () => {
-                    this.disputeHandler.createDispute(
+                    console.log(
+                        "Timeout participant! - delayed",
+                        delayTimeSeconds
+                    );
+                    await this.disputeHandler.createDispute(
                         forkCnt,
                         participantAdr,
                         transactionCnt,
                         []
                     );
-                    console.log(
-                        "Timeout participant! - delayed",
-                        delayTimeSeconds
-                    );
                 },
                 delayTimeSeconds * 1000,
                 "timeoutParticipantDelayed"
@@ -464,9 +470,11 @@ class StateManager {
     private async onSuccessCommon() {
         // Immediately schedule a confirm/execute from queue on next tick
         scheduleTask(
-            () => {
-                this.tryConfirmFromQueue();
-                this.tryExecuteFromQueue();
+            async () => {
+                await Promise.all([
+                    this.tryConfirmFromQueue(),
+                    this.tryExecuteFromQueue()
+                ]);
             },
             0,
             "queueProcessing"
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 06f5257..2312cd5 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -202,12 +202,11 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(
-                this.getForkCnt(),
-                NO_PARTICIPANT_TO_FOLD,
-                0,
-                [proof]
-            );
+            this.disputeHandler
+                .createDispute(this.getForkCnt(), NO_PARTICIPANT_TO_FOLD, 0, [
+                    proof
+                ])
+                .catch((e) => console.error("disputeTooFarInFuture", e));
         }
         return flag;
     }
diff --git a/src/stateManager/processConfirmationDecisionHandlers.ts b/src/stateManager/processConfirmationDecisionHandlers.ts
index fdab7e9..f5f9f1e 100644
--- a/src/stateManager/processConfirmationDecisionHandlers.ts
+++ b/src/stateManager/processConfirmationDecisionHandlers.ts
@@ -28,7 +28,9 @@ export const confirmationDecisionHandlers: Record<
     ) => {
         setTimeout(async () => {
             if (ctx.isDisposed) return;
-            ctx.tryConfirmFromQueue();
+            ctx.tryConfirmFromQueue().catch((e) =>
+                console.error("tryConfirmFromQueue", e)
+            );
         }, 0);
     },
 
diff --git a/src/stateManager/processExecutionDecisionHandlers.ts b/src/stateManager/processExecutionDecisionHandlers.ts
index 117cb4e..9f0034e 100644
--- a/src/stateManager/processExecutionDecisionHandlers.ts
+++ b/src/stateManager/processExecutionDecisionHandlers.ts
@@ -19,10 +19,16 @@ const disputeHandlers: Partial<
     >
 > = {
     [AgreementFlag.DOUBLE_SIGN]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeDoubleSign([signedBlock]);
+        // not awaited - the dispute takes on-chain transactions
+        ctx.disputeHandler
+            .disputeDoubleSign([signedBlock])
+            .catch((e) => console.error("disputeDoubleSign", e));
     },
     [AgreementFlag.INCORRECT_DATA]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeIncorrectData(signedBlock);
+        // not awaited - the dispute takes on-chain transactions
+        ctx.disputeHandler
+            .disputeIncorrectData(signedBlock)
+            .catch((e) => console.error("disputeIncorrectData", e));
     }
 };
 
@@ -48,11 +54,8 @@ export const executionDecisionHandlers: Record<
     [ExecutionFlags.DISCONNECT]: async () => {},
 
     [ExecutionFlags.DISPUTE]: async (signedBlock, agreementFlag, ctx) => {
-        if (agreementFlag == null) {
-            throw new Error(
-                `ExecutionFlags.DISPUTE triggered but no agreementFlag provided`
-            );
-        }
+        // no agreementFlag - the validation already created the dispute
+        if (agreementFlag == null) return;
 
         const disputeHandlerFn = disputeHandlers[agreementFlag];
         if (!disputeHandlerFn) {
-- 
2.43.0


From 79457eb935d0dc62038036be42a761a4f8966c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 27/60] fix: queued blocks and confirmations of heights that
 were passed meanwhile are no longer left in the queue, and one bad entry no
 longer loses the others

---
 src/stateManager/StateManager.ts | 59 ++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 468ec49..4647c7d 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -11,6 +11,7 @@ import {
     ethers
 } from "ethers";
 import AgreementManager from "../agreementManager/AgreementManager";
+import { BlockConfirmation } from "../agreementManager/types";
 import { AgreementFlag, ExecutionFlags, TimeConfig } from "@/types";
 import { AStateChannelManagerProxy } from "@typechain-types";
 import {
@@ -174,36 +175,52 @@ class StateManager {
         return this.onSuccessCommon();
     }
     private async tryExecuteFromQueue() {
-        let signedBlocks = this.agreementManager.tryDequeueBlocks(
-            this.getForkCnt(),
-            this.getNextBlockHeight()
-        );
+        // lower heights too - the chain may have grown by more than one block since the last time
+        const forkCnt = this.getForkCnt();
+        const signedBlocks: SignedBlockStruct[] = [];
+        for (let height = 0; height <= this.getNextBlockHeight(); height++)
+            signedBlocks.push(
+                ...this.agreementManager.tryDequeueBlocks(forkCnt, height)
+            );
 
         for (const signedBlock of signedBlocks) {
             console.log("tryExecuteFromQueue - executing");
-            if (
-                (await this.onSignedBlock(signedBlock)) ==
-                ExecutionFlags.DISPUTE
-            ) {
-                break;
+            try {
+                if (
+                    (await this.onSignedBlock(signedBlock)) ==
+                    ExecutionFlags.DISPUTE
+                ) {
+                    break;
+                }
+            } catch (e) {
+                console.error("tryExecuteFromQueue", e);
             }
         }
     }
     private async tryConfirmFromQueue(): Promise<void> {
-        //TODO! race condition and skipping a txCount
-        let confirmations = this.agreementManager.tryDequeueConfirmations(
-            this.getForkCnt(),
-            this.getNextBlockHeight()
-        );
+        // lower heights too - the chain may have grown by more than one block since the last time
+        const forkCnt = this.getForkCnt();
+        const confirmations: BlockConfirmation[] = [];
+        for (let height = 0; height <= this.getNextBlockHeight(); height++)
+            confirmations.push(
+                ...this.agreementManager.tryDequeueConfirmations(
+                    forkCnt,
+                    height
+                )
+            );
 
         for (const confirmation of confirmations) {
-            if (
-                (await this.onBlockConfirmation(
-                    confirmation.originalSignedBlock,
-                    confirmation.confirmationSignature as string
-                )) == ExecutionFlags.DISPUTE
-            ) {
-                break;
+            try {
+                if (
+                    (await this.onBlockConfirmation(
+                        confirmation.originalSignedBlock,
+                        confirmation.confirmationSignature as string
+                    )) == ExecutionFlags.DISPUTE
+                ) {
+                    break;
+                }
+            } catch (e) {
+                console.error("tryConfirmFromQueue", e);
             }
         }
     }
-- 
2.43.0


From c096921d15bb82dd4d105fdffd5d4fc6b78cf008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 28/60] fix: the channel isn't open before its first fork, and
 an unauthentic block never takes a queued one's place

---
 src/stateManager/StateManager.ts      |  4 +++-
 src/stateManager/ValidationService.ts | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 4647c7d..647a8e0 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -603,7 +603,9 @@ class StateManager {
     // ----- Private validation helper methods -----
 
     private isChannelOpen(): boolean {
-        return this.getForkCnt() !== -1;
+        return (
+            this.agreementManager.getForkGenesisStateEncoded(0) !== undefined
+        );
     }
 }
 
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 2312cd5..4a5452b 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -48,12 +48,12 @@ export default class ValidationService {
         const forkCnt = BlockUtils.getFork(blk);
         const height = BlockUtils.getHeight(blk);
 
-        if (!this.isChannelOpen()) return notReady();
-
         // Validate block
         if (!this.isSignedBlockAuthentic(signedBlock, blk, this.getChannelId()))
             return disconnect();
 
+        if (!this.isChannelOpen()) return notReady();
+
         // Check fork status
         if (
             this.isPastFork(forkCnt) ||
@@ -119,9 +119,9 @@ export default class ValidationService {
     ): Promise<ValidationResult> {
         const blk = block ?? EvmUtils.decodeBlock(signed.encodedBlock);
 
-        if (!this.isChannelOpen()) return notReady();
         if (!this.isSignedBlockAuthentic(signed, blk, this.getChannelId()))
             return disconnect();
+        if (!this.isChannelOpen()) return notReady();
         if (this.isPastFork(BlockUtils.getFork(blk))) return pastFork();
 
         // Ensure block in chain
@@ -250,7 +250,9 @@ export default class ValidationService {
         return this.agreementManager.getLatestForkCnt();
     }
     private isChannelOpen(): boolean {
-        return this.getForkCnt() >= 0;
+        return (
+            this.agreementManager.getForkGenesisStateEncoded(0) !== undefined
+        );
     }
     private isPastFork(f: number): boolean {
         return f < this.getForkCnt();
-- 
2.43.0


From 93d7efd761b6ecc802bf67885a2cc12c2634951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 29/60] fix: a block older than the one it follows is disputed
 instead of failing the validation

---
 src/stateManager/ValidationService.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 4a5452b..8c51499 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -224,7 +224,7 @@ export default class ValidationService {
             blockHeight
         );
 
-        if (blockTimestamp < latestTxTs) throw new Error("Not implemented");
+        if (blockTimestamp < latestTxTs) return false;
 
         if (blockTimestamp > initialReferenceTime + this.timeCfg.p2pTime) {
             const chainTs = Number(
-- 
2.43.0


From 1981413460bb5e63c6beeab2988260b6760eb5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 30/60] fix: a block that doesn't build on the agreed state is
 refused instead of starting a dispute that can't be proven

---
 src/agreementManager/AgreementManager.ts | 15 ++++++++++++++-
 src/stateManager/ValidationService.ts    | 19 +++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/agreementManager/AgreementManager.ts b/src/agreementManager/AgreementManager.ts
index 83dee02..3a094cd 100644
--- a/src/agreementManager/AgreementManager.ts
+++ b/src/agreementManager/AgreementManager.ts
@@ -1,4 +1,4 @@
-import { AddressLike, BigNumberish, SignatureLike } from "ethers";
+import { AddressLike, BigNumberish, SignatureLike, ethers } from "ethers";
 import {
     SignedBlockStruct,
     BlockStruct,
@@ -257,6 +257,19 @@ class AgreementManager {
         const fork = this.forkService.getFork(forkCnt);
         return fork?.forkGenesisStateEncoded;
     }
+    // The hash of the agreed state that a block at the given height has to build on
+    public getAgreedPreviousStateHash(
+        forkCnt: number,
+        transactionCnt: number
+    ): string | undefined {
+        const encodedState =
+            transactionCnt > 0
+                ? this.getEncodedState(forkCnt, transactionCnt - 1)
+                : this.getForkGenesisStateEncoded(forkCnt);
+        return encodedState === undefined
+            ? undefined
+            : ethers.keccak256(encodedState);
+    }
     /**
      * Gets the latest finalized state (ecnoded) and the latest signed/confirmed state (encoded) from the signer with virtual votes proving it
      * @param forkCnt
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 8c51499..66f2f38 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -81,6 +81,12 @@ export default class ValidationService {
         if (height < this.getNextHeight()) {
             const agreementFlag = this.agreementManager.checkBlock(signedBlock);
 
+            if (
+                agreementFlag === AgreementFlag.INCORRECT_DATA &&
+                !this.buildsOnAgreedState(blk)
+            )
+                return disconnect();
+
             if (
                 agreementFlag === AgreementFlag.DOUBLE_SIGN ||
                 agreementFlag === AgreementFlag.INCORRECT_DATA
@@ -93,6 +99,9 @@ export default class ValidationService {
             );
         }
 
+        // Nothing can be proven about a block that doesn't build on the agreed state
+        if (!this.buildsOnAgreedState(blk)) return disconnect();
+
         // Validate timestamp
         if (!(await this.isGoodTimestamp(blk)))
             return dispute(AgreementFlag.INCORRECT_DATA);
@@ -261,6 +270,16 @@ export default class ValidationService {
         return this.agreementManager.getNextBlockHeight();
     }
 
+    private buildsOnAgreedState(block: BlockStruct): boolean {
+        return (
+            block.previousStateHash ===
+            this.agreementManager.getAgreedPreviousStateHash(
+                BlockUtils.getFork(block),
+                BlockUtils.getHeight(block)
+            )
+        );
+    }
+
     private async isMyTurn(): Promise<boolean> {
         return (
             (await this.stateMachine.getNextToWrite()) === this.signerAddress
-- 
2.43.0


From 19b37672661d44f03ff77dee098d8ee40726449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 31/60] fix: a refused block leaves the state machine in the
 agreed state

---
 src/stateManager/ValidationService.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 66f2f38..05a8cfe 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -174,9 +174,8 @@ export default class ValidationService {
         block: BlockStruct,
         signed: SignedBlockStruct
     ): Promise<ValidationResult> {
-        const previousStateHash = await this.stateMachine
-            .getState()
-            .then(ethers.keccak256);
+        const previousState = await this.stateMachine.getState();
+        const previousStateHash = ethers.keccak256(previousState);
         let { success: txOK, successCallback } =
             await this.stateMachine.stateTransition(block.transaction);
 
@@ -187,7 +186,12 @@ export default class ValidationService {
             stateHash === block.stateHash &&
             previousStateHash === block.previousStateHash;
 
-        if (!txOK || !hashOK) return dispute(AgreementFlag.INCORRECT_DATA);
+        if (!txOK || !hashOK) {
+            // the state stays the agreed one
+            if (encodedState !== previousState)
+                await this.stateMachine.setState(previousState);
+            return dispute(AgreementFlag.INCORRECT_DATA);
+        }
 
         this.agreementManager.addBlock(
             block,
-- 
2.43.0


From b13a6ee6edeabd15dbe8b6afa5980d4a0e6c1282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:42 +0000
Subject: [PATCH 32/60] fix: blocks and signatures in a form the contract
 doesn't accept as evidence are refused

---
 src/stateManager/ValidationService.ts | 32 +++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 05a8cfe..65bfccf 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -130,6 +130,11 @@ export default class ValidationService {
 
         if (!this.isSignedBlockAuthentic(signed, blk, this.getChannelId()))
             return disconnect();
+        const confirmer = this.recoverSigner(
+            blk,
+            confirmationSig as SignatureLike
+        );
+        if (confirmer === undefined) return disconnect();
         if (!this.isChannelOpen()) return notReady();
         if (this.isPastFork(BlockUtils.getFork(blk))) return pastFork();
 
@@ -149,10 +154,6 @@ export default class ValidationService {
         }
 
         /* confirmer inside fork */
-        const confirmer = EvmUtils.retrieveSignerAddressBlock(
-            blk,
-            confirmationSig as SignatureLike
-        );
         if (!this.agreementManager.isParticipantInLatestFork(confirmer))
             return disconnect();
 
@@ -296,14 +297,27 @@ export default class ValidationService {
         expectedChannelId: BytesLike
     ): boolean {
         if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;
+        // only the encoding that the contract and the other peers reproduce
+        if (EvmUtils.encodeBlock(block) !== signed.encodedBlock) return false;
 
-        const h = ethers.keccak256(signed.encodedBlock);
-        const signer = ethers.verifyMessage(
-            ethers.getBytes(h),
-            signed.signature as SignatureLike
+        return (
+            this.recoverSigner(block, signed.signature as SignatureLike) ===
+            BlockUtils.getBlockAuthor(block)
         );
+    }
 
-        return signer === BlockUtils.getBlockAuthor(block);
+    /* undefined unless the signature has the one form that the contract accepts as evidence */
+    private recoverSigner(
+        block: BlockStruct,
+        signature: SignatureLike
+    ): string | undefined {
+        try {
+            return ethers.Signature.from(signature).serialized === signature
+                ? EvmUtils.retrieveSignerAddressBlock(block, signature)
+                : undefined;
+        } catch (e) {
+            return undefined;
+        }
     }
 }
 
-- 
2.43.0


From b839737e59dedaac7a7cf01dc3d5faa5fdd1f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 33/60] fix: a state announced again no longer resets the state
 machine, and never does so in the middle of a block

---
 src/stateManager/StateManager.ts | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 647a8e0..b50029f 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -236,17 +236,28 @@ class StateManager {
         _timestamp: BigNumberish
     ): Promise<void> {
         console.log("StateManager - SetState", _forkCnt, _timestamp);
-        await this.stateMachine.setState(encodedState);
-        this.agreementManager.newFork(
-            encodedState,
-            await this.stateMachine.getParticipants(),
-            Number(_forkCnt),
-            Number(_timestamp)
-        );
+        await this.mutex.lock();
+        try {
+            // announced before (or out of order) - the state machine stays in the latest fork
+            if (
+                Number(_forkCnt) !==
+                this.agreementManager.forkService.getNextForkIndex()
+            )
+                return;
+            await this.stateMachine.setState(encodedState);
+            this.agreementManager.newFork(
+                encodedState,
+                await this.stateMachine.getParticipants(),
+                Number(_forkCnt),
+                Number(_timestamp)
+            );
 
-        //Try timeout next participant
-        this.p2pEventHooks.onSetState?.();
-        return this.onSuccessCommon();
+            //Try timeout next participant
+            this.p2pEventHooks.onSetState?.();
+            await this.onSuccessCommon();
+        } finally {
+            this.mutex.unlock();
+        }
     }
 
     // Passes the signedBlock through a verification pipeline and returns an execution flag based on the outcome
-- 
2.43.0


From cdc74729be1d114ce2a9960e26c78ce13ee40add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 34/60] fix: nothing is signed in a disputed fork, and a
 transaction that wasn't signed leaves no trace in the state machine

---
 src/evm/P2pSigner.ts             |  7 +++++++
 src/stateManager/StateManager.ts | 26 ++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/evm/P2pSigner.ts b/src/evm/P2pSigner.ts
index c4f0b09..935b7e5 100644
--- a/src/evm/P2pSigner.ts
+++ b/src/evm/P2pSigner.ts
@@ -126,6 +126,13 @@ class P2pSigner implements Signer {
     public async confirmBlock(signedBlock: SignedBlockStruct) {
         let block = EvmUtils.decodeBlock(signedBlock.encodedBlock);
         let confirmedBlock = await EvmUtils.signBlock(block, this.signer);
+        // disputed meanwhile - what was submitted stays the latest state that this signer confirmed
+        if (
+            this.p2pManager.stateManager.disputeHandler.isForkDisputed(
+                Number(block.transaction.header.forkCnt)
+            )
+        )
+            return;
         this.p2pManager.stateManager.agreementManager.confirmBlock(
             block,
             confirmedBlock.signature as SignatureLike
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index b50029f..9496e0e 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -352,6 +352,15 @@ class StateManager {
             if (!this.isChannelOpen()) {
                 throw new Error("Channel not open");
             }
+            if (
+                Number(tx.header.forkCnt) !== this.getForkCnt() ||
+                Number(tx.header.transactionCnt) !== this.getNextBlockHeight()
+            ) {
+                throw new Error("Transaction is not the next one");
+            }
+            if (this.disputeHandler.isForkDisputed(this.getForkCnt())) {
+                throw new Error("Fork is disputed");
+            }
             if (!(await this.isMyTurn())) {
                 throw new Error(
                     `Not player turn - myAddress: ${String(this.signerAddress)} - nextToWrite: ${await this.stateMachine.getNextToWrite()}`
@@ -359,6 +368,7 @@ class StateManager {
             }
             this.adjustTimestampIfNeeded(tx);
 
+            const previousState = await this.getEncodedState();
             const {
                 success,
                 encodedState,
@@ -372,8 +382,20 @@ class StateManager {
                 );
             }
 
-            const block = await this.createBlock(tx, previousStateHash);
-            const signedBlock = await this.signBlock(block);
+            let block: BlockStruct;
+            let signedBlock: SignedBlockStruct;
+            try {
+                block = await this.createBlock(tx, previousStateHash);
+                signedBlock = await this.signBlock(block);
+                // disputed while the block was being signed
+                if (this.disputeHandler.isForkDisputed(this.getForkCnt())) {
+                    throw new Error("Fork is disputed");
+                }
+            } catch (e) {
+                // nobody sees the block - the state stays the agreed one
+                await this.stateMachine.setState(previousState);
+                throw e;
+            }
 
             this.agreementManager.addBlock(
                 block,
-- 
2.43.0


From ae3f79168d303fc7303c0d094a81d252a62eca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 35/60] fix: a slow author's own block no longer carries a
 timestamp that gets the author slashed

---
 src/stateManager/StateManager.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 9496e0e..3598594 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -614,6 +614,15 @@ class StateManager {
         if (Number(tx.header.timestamp) < latestBlockTimestamp) {
             tx.header.timestamp = latestBlockTimestamp + 1;
         }
+        // a later one would prove incorrect data
+        const latestAllowedTimestamp =
+            this.agreementManager.getLatestTimestamp(
+                this.getForkCnt(),
+                this.getNextBlockHeight()
+            ) + this.timeConfig.p2pTime;
+        if (Number(tx.header.timestamp) > latestAllowedTimestamp) {
+            tx.header.timestamp = latestAllowedTimestamp;
+        }
     }
 
     private async createBlock(
-- 
2.43.0


From c0eff9d0de80a35e717009d268a606840ecbd29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 36/60] fix: nobody is timed out over a block that arrived, in
 a fork that is over, or once a dispute is on

---
 src/stateManager/StateManager.ts | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 3598594..3ccd49a 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -454,10 +454,7 @@ class StateManager {
         participantAdr: string
     ) {
         if (participantAdr == this.signerAddress) return;
-        const block = this.agreementManager.getBlock(forkCnt, transactionCnt);
-        if (block) {
-            if (this.agreementManager.didEveryoneSignBlock(block)) return;
-        }
+        if (!this.canStillTimeout(forkCnt, transactionCnt)) return;
         //if there is no block -> check if player posted on chain and try timeout
         if (
             this.agreementManager.didParticipantPostOnChain(
@@ -484,6 +481,7 @@ class StateManager {
                 participantAdr
             );
         if (response.found) return;
+        if (!this.canStillTimeout(forkCnt, transactionCnt)) return;
         //This should be enough since Clock should always lag behind DLT clock
         const delayTimeSeconds =
             this.getTimeoutWaitTimeSeconds() -
@@ -500,6 +498,15 @@ class StateManager {
         } else {
             scheduleTask(
                 async () => {
+                    if (
+                        !this.canStillTimeout(forkCnt, transactionCnt) ||
+                        this.agreementManager.didParticipantPostOnChain(
+                            forkCnt,
+                            transactionCnt,
+                            participantAdr
+                        )
+                    )
+                        return;
                     console.log(
                         "Timeout participant! - delayed",
                         delayTimeSeconds
@@ -517,6 +524,15 @@ class StateManager {
         }
     }
 
+    // Only the next transaction of the latest fork can time out
+    private canStillTimeout(forkCnt: number, transactionCnt: number): boolean {
+        return (
+            forkCnt === this.getForkCnt() &&
+            transactionCnt === this.getNextBlockHeight() &&
+            !this.disputeHandler.isForkDisputed(forkCnt)
+        );
+    }
+
     private async onSuccessCommon() {
         // Immediately schedule a confirm/execute from queue on next tick
         scheduleTask(
-- 
2.43.0


From 8c7d5e593aa1476cdf3c8aaaa3bfbefa0665749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 37/60] fix: a block collected from the chain is confirmed to
 the peers in the form they read

---
 src/stateManager/StateManager.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 3ccd49a..cb0c283 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -136,6 +136,11 @@ class StateManager {
         timestamp: BigNumberish
     ) {
         console.log("StateManager - collectOnChainBlock");
+        // as peers send it (and not as an ethers Result, which isn't serialized by its names)
+        signedBlock = {
+            encodedBlock: signedBlock.encodedBlock,
+            signature: signedBlock.signature
+        };
         let flag = this.agreementManager.collectOnChainBlock(
             signedBlock,
             Number(timestamp)
-- 
2.43.0


From fcee498a2a89cc6a08345c456e402fbc6d4d64b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 38/60] fix: a dispute that the contract refuses doesn't stop
 the fork, and one that somebody else created first is challenged

---
 src/DisputeHandler.ts | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 287e899..ecb77d1 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -159,18 +159,33 @@ class DisputeHandler {
         this.setForkDisputed(forkCntNumber);
         proofs.forEach((proof) => this.addProof(forkCntNumber, proof));
         const _dispute = this.disputes.get(forkCntNumber);
+        let creationError: unknown;
         if (!_dispute) {
-            await this.createNewDispute(
-                forkCnt,
-                foldedParticipant,
-                foldedTransactionCnt,
-                proofs
-            );
+            try {
+                await this.createNewDispute(
+                    forkCnt,
+                    foldedParticipant,
+                    foldedTransactionCnt,
+                    proofs
+                );
+            } catch (e) {
+                creationError = e;
+            }
         }
 
         const newDispute = await this.stateChannelManagerContract.getDispute(
             this.channelId
         );
+        if (
+            creationError !== undefined &&
+            (newDispute.channelId == ethers.ZeroHash ||
+                Number(newDispute.forkCnt) !== forkCntNumber)
+        ) {
+            // refused by the contract - the fork isn't disputed after all
+            if (ethers.isCallException(creationError))
+                this.disputedForks.delete(forkCntNumber);
+            throw creationError;
+        }
         //TODO! check newDispute 0000 bytes
         if (newDispute.channelId == ethers.ZeroHash) {
             throw new Error(
-- 
2.43.0


From 650ad18338741e957903678f0fdb6b88513f74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 39/60] fix: evidence found while a dispute is already on is
 submitted as a challenge

---
 src/DisputeHandler.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index ecb77d1..5a557bd 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -192,7 +192,7 @@ class DisputeHandler {
                 "DisputeHandler - createDispute - no dispute created"
             );
         }
-        await this.rechallengeRecursive(newDispute);
+        await this.rechallengeRecursive(newDispute, _dispute !== undefined);
     }
 
     private async createNewDispute(
@@ -274,8 +274,11 @@ class DisputeHandler {
         return false;
     }
 
-    private async rechallengeRecursive(dispute: DisputeStruct): Promise<void> {
-        if (!this.updateDisputeIfNewer(dispute)) {
+    private async rechallengeRecursive(
+        dispute: DisputeStruct,
+        hasNewProofs: boolean = false
+    ): Promise<void> {
+        if (!this.updateDisputeIfNewer(dispute) && !hasNewProofs) {
             return; // Early return if we already have a newer dispute
         }
 
-- 
2.43.0


From 5c44afe702307d3e75ce77e475cfd2eee946f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 40/60] fix: a proof that was already collected no longer makes
 the contract refuse the whole challenge

---
 src/DisputeHandler.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 5a557bd..4324ba4 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -9,6 +9,7 @@ import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { EvmUtils, DebugProxy, retry } from "@/utils";
 import P2pEventHooks from "@/P2pEventHooks";
 import ProofManager from "./ProofManager";
+import { ProofType } from "@/types/disputes";
 
 let DEBUG_DISPUTE_HANDLER = true;
 
@@ -250,6 +251,12 @@ class DisputeHandler {
     }
     private addProof(forkCnt: number, proof: ProofStruct): void {
         const proofs = this.localProofs.get(forkCnt) || [];
+        const isKnown = proofs.some(
+            (p) =>
+                p.proofType === proof.proofType &&
+                p.encodedProof === proof.encodedProof
+        );
+        if (isKnown) return;
         proofs.push(proof);
         this.localProofs.set(forkCnt, proofs);
     }
@@ -363,10 +370,17 @@ class DisputeHandler {
 
     // Filters valid proofs
     private filterProofs(dispute: DisputeStruct): ProofStruct[] {
-        return ProofManager.filterValidProofs(
+        const proofs = ProofManager.filterValidProofs(
             dispute,
             this.localProofs.get(Number(dispute.forkCnt))
         );
+        // at most one timeout rebuttal, and first: once the timeout is gone the contract refuses it
+        const isRebuttal = (proof: ProofStruct) =>
+            Number(proof.proofType) === ProofType.FoldRechallenge;
+        return [
+            ...proofs.filter(isRebuttal).slice(-1),
+            ...proofs.filter((proof) => !isRebuttal(proof))
+        ];
     }
 }
 
-- 
2.43.0


From 1c1979b716327cfd8facabe8ae80ded42cc40495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 41/60] fix: undoing a timeout is a successful challenge even
 if its disputer was already slashed

---
 .../StateChannelDiamondProxy/DisputeManagerFacet.sol   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 06332ff..a09818d 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -469,11 +469,11 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
         require(succeeds, ErrorSignatureInvalid());
         dispute.timedoutParticipant = address(0); //Undo the fold
-        return
-            insertIfNotExist(
-                dispute.slashedParticipants,
-                dispute.timeoutDisputer
-            );
+        insertIfNotExist(
+            dispute.slashedParticipants,
+            dispute.timeoutDisputer
+        );
+        return true; // even if the disputer was already slashed
     }
 
     function applyDoubleSignProof(
-- 
2.43.0


From 174374e1a3017894459af4efc51027a8072dfdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 42/60] fix: a block posted on-chain for a fork that isn't
 known yet doesn't fail

---
 src/agreementManager/OnChainTracker.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/agreementManager/OnChainTracker.ts b/src/agreementManager/OnChainTracker.ts
index cd7ec3a..a593ff7 100644
--- a/src/agreementManager/OnChainTracker.ts
+++ b/src/agreementManager/OnChainTracker.ts
@@ -35,7 +35,11 @@ export default class OnChainTracker {
         const { forkCnt, height } = BlockUtils.getCoordinates(blk);
         const participant = BlockUtils.getBlockAuthor(blk);
 
-        if (!this.hasPosted(forkCnt, height, participant)) {
+        // a fork that isn't known yet has no record - the block waits in the queue
+        if (
+            this.forks.isValidForkCnt(forkCnt) &&
+            !this.hasPosted(forkCnt, height, participant)
+        ) {
             this.forks.addChainBlock(forkCnt, height, participant, timestamp);
         }
         return flag;
-- 
2.43.0


From a9b7968fd49015924e3155bbc07bc19e4454a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 43/60] fix: a posted block is disputed only where its author
 can be blamed for it

---
 src/stateManager/StateManager.ts      |  9 +++++++--
 src/stateManager/ValidationService.ts | 12 +++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index cb0c283..ca7f1a0 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -147,7 +147,8 @@ class StateManager {
         );
         let block = EvmUtils.decodeBlock(signedBlock.encodedBlock);
         let disputeProof: ProofStruct;
-        if (flag == AgreementFlag.DOUBLE_SIGN) {
+        const isDisputable = this.validationService.isDisputable(block);
+        if (isDisputable && flag == AgreementFlag.DOUBLE_SIGN) {
             console.log("StateManager - collectOnChainBlock - double sign");
             disputeProof =
                 this.disputeHandler.proofManager.createDoubleSignProof([
@@ -161,7 +162,11 @@ class StateManager {
                     [disputeProof]
                 )
                 .catch((e) => console.error("collectOnChainBlock", e));
-        } else if (flag == AgreementFlag.INCORRECT_DATA) {
+        } else if (
+            isDisputable &&
+            flag == AgreementFlag.INCORRECT_DATA &&
+            this.validationService.buildsOnAgreedState(block)
+        ) {
             console.log("StateManager - collectOnChainBlock - incorrect data");
             disputeProof =
                 this.disputeHandler.proofManager.createIncorrectDataProof(
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 65bfccf..d08fb45 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -275,7 +275,17 @@ export default class ValidationService {
         return this.agreementManager.getNextBlockHeight();
     }
 
-    private buildsOnAgreedState(block: BlockStruct): boolean {
+    /* can its author be blamed for it? */
+    public isDisputable(block: BlockStruct): boolean {
+        return (
+            BlockUtils.getFork(block) === this.getForkCnt() &&
+            this.agreementManager.isParticipantInLatestFork(
+                BlockUtils.getBlockAuthor(block)
+            )
+        );
+    }
+
+    public buildsOnAgreedState(block: BlockStruct): boolean {
         return (
             block.previousStateHash ===
             this.agreementManager.getAgreedPreviousStateHash(
-- 
2.43.0


From 3c98148afb50d5b022a121b470dcaf25e187556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 44/60] fix: a handshake is answered to the peer that asked

---
 src/rpc/services/InitHandshakeService.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 8450d8b..46d26bd 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -31,6 +31,7 @@ class InitHandshakeService extends ARpcService {
     }
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
+        let senderTransport = this.mainRpcService.senderTransport!; // catch it here since async call below
         let localTime = Clock.getTimeInSeconds();
         if (
             Math.abs(time - localTime) >
@@ -63,7 +64,7 @@ class InitHandshakeService extends ARpcService {
                 localTime,
                 this.mainRpcService.p2pManager.preferredTransport
             )
-            .sendOne(this.mainRpcService.senderTransport!);
+            .sendOne(senderTransport);
     }
 
     public async onInitHandshakeResponse(
-- 
2.43.0


From dae6bf430f15078fc46a02f47e1db82edd716c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 45/60] fix: a join request collects the own signature under
 the own address and the one it arrives with

---
 src/rpc/services/JoinChannelService.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index c69272d..840f047 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -43,7 +43,8 @@ class JoinChannelService extends ARpcService {
                     this.mainRpcService.p2pManager.p2pSigner
                 );
                 this.joinChannelMap.tryInsert(key, {
-                    signerAddress: jc.participant.toString(),
+                    signerAddress:
+                        this.mainRpcService.p2pManager.p2pSigner.signerAddress.toString(),
                     signature: mySignedJC.signature as SignatureLike
                 });
                 this.mainRpcService.rpcProxy
@@ -55,7 +56,6 @@ class JoinChannelService extends ARpcService {
                 setTimeout(() => {
                     this.joinChannelMap.delete(key); // prune expired
                 }, timeRemaining * 1000);
-                return;
             }
             //confirmation logic
             if (!confirmationSignature) return;
-- 
2.43.0


From 7a6667042e1658d995269ab169981be58838861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 46/60] fix: a local transport can be closed

---
 src/transport/LocalTransport.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/LocalTransport.ts b/src/transport/LocalTransport.ts
index 0358cdc..5bb0c88 100644
--- a/src/transport/LocalTransport.ts
+++ b/src/transport/LocalTransport.ts
@@ -23,7 +23,7 @@ class LocalTransport extends ATransport {
         this.p2pManager.onRpc(serializedRPC);
     }
     _close(): void {
-        throw new Error("Method not implemented."); //TODO!S
+        this.ws.close();
     }
 }
 export default LocalTransport;
-- 
2.43.0


From e4c5a1c919d93ba9af36833283a06e5b684b84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 47/60] fix: repeating the handshake on a connection doesn't
 close it

---
 src/ProfileManager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ProfileManager.ts b/src/ProfileManager.ts
index d47d212..f2dc614 100644
--- a/src/ProfileManager.ts
+++ b/src/ProfileManager.ts
@@ -37,6 +37,7 @@ class ProfileManager {
         let profile = this.mapEvmAddressToProfile.get(profileAddress);
         if (!profile) return;
         let oldTransport = profile.getTransport();
+        if (oldTransport === newTransport) return;
         if (oldTransport) this.removeTransport(oldTransport);
         profile.setTransport(newTransport);
         this.mapTransportToProfile.set(newTransport, profile);
-- 
2.43.0


From 1ef4571ed0bedd1e48fd936e06baa285e48b91cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 48/60] fix: a far deadline doesn't prune a join request at
 once

---
 src/rpc/services/JoinChannelService.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index 840f047..556fa7d 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -9,6 +9,9 @@ type JoinChanenelConfirmation = {
     confirmationSignatures: SignatureLike[];
 };
 
+//longer delays don't fit and fire immediately
+const MAX_TIMEOUT_MS = 2 ** 31 - 1;
+
 class JoinChannelService extends ARpcService {
     // **** part of joinChannel logic ****
     joinChannelMap = new SignatureCollectionMap();
@@ -53,9 +56,12 @@ class JoinChannelService extends ARpcService {
                         mySignedJC.signature as SignatureLike
                     )
                     .broadcast();
-                setTimeout(() => {
-                    this.joinChannelMap.delete(key); // prune expired
-                }, timeRemaining * 1000);
+                setTimeout(
+                    () => {
+                        this.joinChannelMap.delete(key); // prune expired
+                    },
+                    Math.min(timeRemaining * 1000, MAX_TIMEOUT_MS)
+                );
             }
             //confirmation logic
             if (!confirmationSignature) return;
-- 
2.43.0


From 629ff87be5e510f9fdb75a9284329fe18f5cd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 49/60] fix: a join request whose signature isn't the joiner's
 collects no confirmations

---
 src/rpc/services/JoinChannelService.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index 556fa7d..d08f2e4 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -30,15 +30,15 @@ class JoinChannelService extends ARpcService {
             let jc = EvmUtils.decodeJoinChannel(
                 signedJoinChannel.encodedJoinChannel
             );
+            let requestSigner = EvmUtils.retrieveSignerAddressJoinChannel(
+                jc,
+                signedJoinChannel.signature as SignatureLike
+            );
+            if (jc.participant != requestSigner) return; //TODO! Disconnect from peer
             if (!this.joinChannelMap.has(key)) {
                 let timeRemaining =
                     Number(jc.deadlineTimestamp) - Clock.getTimeInSeconds();
                 if (timeRemaining <= 0) return;
-                let retrivedAddress = EvmUtils.retrieveSignerAddressJoinChannel(
-                    jc,
-                    signedJoinChannel.signature as SignatureLike
-                );
-                if (jc.participant != retrivedAddress) return; //TODO! Disconnect from peer
                 //TODO! - analyzie retrivedAddress and apply subjectivivity to decide if to proceed or not
                 //TODO! StateObserver can be triggered for this subjectivity too
                 let mySignedJC = await EvmUtils.signJoinChannel(
-- 
2.43.0


From 9701313f3f214aa6d0cd40af7419a8caa46291d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 50/60] fix: ICE candidates go to the peer with whom the
 connection is set up

---
 src/rpc/services/WebRTCSetupService.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rpc/services/WebRTCSetupService.ts b/src/rpc/services/WebRTCSetupService.ts
index c6d88ce..e07efcb 100644
--- a/src/rpc/services/WebRTCSetupService.ts
+++ b/src/rpc/services/WebRTCSetupService.ts
@@ -15,6 +15,7 @@ class WebRTCSetupService extends ARpcService {
         //TODO! - require seccusfull init handshake (also on other methods)
         try {
             console.log("initiateWebRTC");
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let connection = new RTCPeerConnection();
             let channel = connection.createDataChannel("webRTC-DataChannel");
             let webRTCTransport = new WebRTCTransport(
@@ -28,11 +29,10 @@ class WebRTCSetupService extends ARpcService {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
 
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let offer = await connection.createOffer();
             connection.setLocalDescription(offer);
             let adr =
@@ -53,6 +53,7 @@ class WebRTCSetupService extends ARpcService {
     //Ran by the peer who is responding to the connection - this creates the answer
     public async onOfferWebRTC(serializedOffer: string) {
         try {
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let connection = new RTCPeerConnection();
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
@@ -60,7 +61,7 @@ class WebRTCSetupService extends ARpcService {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
             connection.ondatachannel = (event: any) => {
@@ -70,7 +71,6 @@ class WebRTCSetupService extends ARpcService {
                     this.mainRpcService.p2pManager
                 );
             };
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let adr =
                 this.mainRpcService.p2pManager.profileManager.getProfileByTransport(
                     senderTransport!
-- 
2.43.0


From a0e07d4876d60f4b98e56a6a376e827858c25609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 51/60] fix: a connection that fails doesn't keep a broadcast
 from the others

---
 src/P2PManager.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index dbc1948..e01b959 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -50,7 +50,12 @@ class P2PManager implements IOnMessage {
     public broadcastRpc(serializedRPC: string) {
         // BroadcastLocal.broadcast(serializedRPC);
         for (let transport of this.openConnections) {
-            transport.send(serializedRPC);
+            try {
+                transport.send(serializedRPC);
+            } catch (e) {
+                //a connection that fails doesn't keep it from the others
+                console.error(e);
+            }
         }
     }
     public onRpc(serializedRpc: string) {
-- 
2.43.0


From 5c2bfc18da7aa543c8fe8e34af86171758278d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 52/60] fix: a local clock that is ahead of the chain is
 adjusted as well

---
 src/Clock.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Clock.ts b/src/Clock.ts
index 3e98440..e280ce4 100644
--- a/src/Clock.ts
+++ b/src/Clock.ts
@@ -46,7 +46,7 @@ class Clock {
             return;
         }
         //TODO - think - shouit it be 2* or 1* or something else?
-        if (difference > 2 * averageBlockTime) {
+        if (Math.abs(difference) > 2 * averageBlockTime) {
             this.clockAjustmentSeconds += difference;
             await this.syncClock(); // Recursively call syncClock until condition is satisfied
         }
-- 
2.43.0


From cc99d9bdfda85ab184ba4092aa53a2ae0346fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 53/60] fix: calls of the local state machine that overlapped
 undid each other or left it locked

---
 src/evm/ContractExecuter.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/evm/ContractExecuter.ts b/src/evm/ContractExecuter.ts
index 8c2f88e..07a701d 100644
--- a/src/evm/ContractExecuter.ts
+++ b/src/evm/ContractExecuter.ts
@@ -1,10 +1,12 @@
 import { EVM, EVMResult, ExecResult } from "@ethereumjs/evm";
 import { Address } from "@ethereumjs/util";
 import { BytesLike, ethers } from "ethers";
+import { Mutex } from "@/utils";
 
 export default class ContractExecuter {
     private readonly evm: EVM;
     private readonly contractAddress: Address;
+    private readonly mutex = new Mutex(); //calls that overlap commit and revert each other's changes
 
     constructor(evm: EVM, contractAddress: Address) {
         this.evm = evm;
@@ -12,6 +14,15 @@ export default class ContractExecuter {
     }
 
     async executeCall(data: BytesLike): Promise<ExecResult> {
+        await this.mutex.lock();
+        try {
+            return await this.execute(data);
+        } finally {
+            this.mutex.unlock();
+        }
+    }
+
+    private async execute(data: BytesLike): Promise<ExecResult> {
         const result = await this.evm.runCall({
             data: ethers.getBytes(data),
             to: this.contractAddress
-- 
2.43.0


From a45b81041abaf5e76b188c7ed4c971d2884a91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 54/60] fix: a static call changed the local state machine

---
 src/evm/ContractExecuter.ts | 17 +++++++++++++++++
 src/evm/EvmStateMachine.ts  |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/evm/ContractExecuter.ts b/src/evm/ContractExecuter.ts
index 07a701d..2636324 100644
--- a/src/evm/ContractExecuter.ts
+++ b/src/evm/ContractExecuter.ts
@@ -22,6 +22,23 @@ export default class ContractExecuter {
         }
     }
 
+    /**
+     * Executes a call without keeping what it changes
+     */
+    async executeView(data: BytesLike): Promise<ExecResult> {
+        await this.mutex.lock();
+        try {
+            await this.evm.journal.checkpoint();
+            try {
+                return await this.execute(data);
+            } finally {
+                await this.evm.journal.revert();
+            }
+        } finally {
+            this.mutex.unlock();
+        }
+    }
+
     private async execute(data: BytesLike): Promise<ExecResult> {
         const result = await this.evm.runCall({
             data: ethers.getBytes(data),
diff --git a/src/evm/EvmStateMachine.ts b/src/evm/EvmStateMachine.ts
index bc2cd6e..ed95d19 100644
--- a/src/evm/EvmStateMachine.ts
+++ b/src/evm/EvmStateMachine.ts
@@ -101,7 +101,7 @@ class EvmStateMachine extends AStateMachine {
 
     async runView(tx: ethers.TransactionRequest): Promise<string> {
         try {
-            const result = await this.contractExecuter.executeCall(
+            const result = await this.contractExecuter.executeView(
                 tx.data as BytesLike
             );
             return hexlify(result.returnValue);
-- 
2.43.0


From d609b608a9b0fb2eca5fd03ae243b9ab694e176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 55/60] fix: hooks that are set later are also told about
 posted calldata

---
 src/stateManager/StateManager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ca7f1a0..90a750b 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -101,6 +101,7 @@ class StateManager {
     public setP2pEventHooks(p2pEventHooks: P2pEventHooks) {
         this.p2pEventHooks = p2pEventHooks;
         this.disputeHandler.setP2pEventHooks(p2pEventHooks);
+        this.stateChannelEventListener.p2pEventHooks = p2pEventHooks;
     }
     public setChannelId(channelId: BytesLike) {
         this.channelId = channelId;
-- 
2.43.0


From fdab357adde32957e37f1b2ba03a42a2cb3957e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 56/60] fix: subscribe and unsubscribe to a channel's events
 one after the other

---
 src/StateChannelEventListener.ts | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index 618b59f..4dad10d 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -14,6 +14,8 @@ class StateChannelEventListener {
     setStateFilter: any;
     postedBlockCallDataFilter: any;
     disputeUpdateFilter: any;
+    isDisposed: boolean = false;
+    private pending: Promise<void> = Promise.resolve();
     constructor(
         stateManager: StateManager,
         stateChannelManagerContract: AStateChannelManagerProxy,
@@ -26,7 +28,21 @@ class StateChannelEventListener {
         // stateChannelManagerContract.off(stateChannelManagerContract.getEvent("GameCreated"));
     }
     //Mark resources for garbage collection
-    public dispose() {
+    public dispose(): Promise<void> {
+        this.isDisposed = true;
+        return this.inOrder(async () => this.unsubscribe());
+    }
+    public setChannelId(channelId: BytesLike): Promise<void> {
+        return this.inOrder(async () => {
+            if (!this.isDisposed) await this.subscribe(channelId);
+        });
+    }
+    // (un)subscribing takes a while - one after the other, so that nothing stays subscribed
+    private inOrder(task: () => Promise<void>): Promise<void> {
+        this.pending = this.pending.catch(() => {}).then(task);
+        return this.pending;
+    }
+    private async unsubscribe() {
         // this.stateChannelManagerContract.removeAllListeners();
         if (this.setStateFilter)
             this.stateChannelManagerContract.off(this.setStateFilter);
@@ -37,7 +53,7 @@ class StateChannelEventListener {
         if (this.disputeUpdateFilter)
             this.stateChannelManagerContract.off(this.disputeUpdateFilter);
     }
-    public async setChannelId(channelId: BytesLike) {
+    private async subscribe(channelId: BytesLike) {
         // --------- SetState event -------------
         if (this.setStateFilter)
             await this.stateChannelManagerContract.off(this.setStateFilter);
-- 
2.43.0


From f72f469d227cdb5bd1e63d666a59495cb182935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:37 +0000
Subject: [PATCH 57/60] fix: a local client whose port is taken tries another
 one

The error of the server wasn't handled and ended the process.
---
 src/utils/LocalDiscoveryServer.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/utils/LocalDiscoveryServer.ts b/src/utils/LocalDiscoveryServer.ts
index 1cc0898..1942610 100644
--- a/src/utils/LocalDiscoveryServer.ts
+++ b/src/utils/LocalDiscoveryServer.ts
@@ -43,7 +43,14 @@ export class LocalDiscoveryServer {
         // console.log("RANOM PORT ######", myPort);
         // console.log(new Error().stack);
         let myServer = new WebSocketServer({ port: myPort });
-        let duplicateSet = new Set<number>();
+        myServer.on("error", (err: NodeJS.ErrnoException) => {
+            // the port is taken - try another one
+            if (err.code === "EADDRINUSE")
+                LocalDiscoveryServer.connectToPeers(p2pManager, channelId);
+        });
+        myServer.on("listening", () =>
+            LocalDiscoveryServer.discoverPeers(p2pManager, myPort, channelId)
+        );
         myServer.on("connection", (ws) => {
             console.log("Local WSS connection established");
             let lt = new LocalTransport(ws, p2pManager);
@@ -52,7 +59,14 @@ export class LocalDiscoveryServer {
                 console.log("Connection closed");
             });
         });
+    }
 
+    private static discoverPeers(
+        p2pManager: P2PManager,
+        myPort: number,
+        channelId?: string
+    ) {
+        let duplicateSet = new Set<number>();
         const ws = new WebSocket(`ws://localhost:${PORT}`);
 
         ws.on("open", () => {
-- 
2.43.0


From 73e2d39e5d88b54cb670d5188d42cfc9f4a0082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:33 +0000
Subject: [PATCH 58/60] fix: a user's hook that fails doesn't stop the client

---
 src/P2pEventHooks.ts             | 19 +++++++++++++++++++
 src/stateManager/StateManager.ts | 10 +++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/P2pEventHooks.ts b/src/P2pEventHooks.ts
index 1903f87..8067e48 100644
--- a/src/P2pEventHooks.ts
+++ b/src/P2pEventHooks.ts
@@ -10,4 +10,23 @@ type P2pEventHooks = {
     onDisputeUpdate?: (dispute: DisputeStruct) => void;
 };
 
+// The hooks are the user's code - whatever goes wrong in one of them stays there
+// and does not stop the client from doing its part of the protocol.
+export function guardHooks(hooks: P2pEventHooks): P2pEventHooks {
+    return new Proxy(hooks, {
+        get(target, name, receiver) {
+            const hook = Reflect.get(target, name, receiver);
+            if (typeof hook !== "function" || name in Object.prototype)
+                return hook;
+            return async (...args: any[]) => {
+                try {
+                    await hook.apply(target, args);
+                } catch (e) {
+                    console.error(String(name), e);
+                }
+            };
+        }
+    });
+}
+
 export default P2pEventHooks;
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 90a750b..cef4de6 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -26,7 +26,7 @@ import AStateMachine from "@/AStateMachine";
 import { EvmUtils, DebugProxy, Mutex, scheduleTask } from "@/utils";
 import StateChannelEventListener from "@/StateChannelEventListener";
 
-import P2pEventHooks from "@/P2pEventHooks";
+import P2pEventHooks, { guardHooks } from "@/P2pEventHooks";
 import {
     DecisionContext,
     processExecutionDecision
@@ -63,7 +63,7 @@ class StateManager {
     ) {
         this.signerAddress = signerAddress;
         this.stateMachine = stateMachine;
-        this.p2pEventHooks = p2pEventHooks;
+        this.p2pEventHooks = guardHooks(p2pEventHooks);
         this.timeConfig = timeConfig;
         this.stateChannelManagerContract = stateChannelManagerContract;
         this.stateChannelEventListener = new StateChannelEventListener(
@@ -99,9 +99,9 @@ class StateManager {
         await this.p2pManager.dispose();
     }
     public setP2pEventHooks(p2pEventHooks: P2pEventHooks) {
-        this.p2pEventHooks = p2pEventHooks;
-        this.disputeHandler.setP2pEventHooks(p2pEventHooks);
-        this.stateChannelEventListener.p2pEventHooks = p2pEventHooks;
+        this.p2pEventHooks = guardHooks(p2pEventHooks);
+        this.disputeHandler.setP2pEventHooks(this.p2pEventHooks);
+        this.stateChannelEventListener.p2pEventHooks = this.p2pEventHooks;
     }
     public setChannelId(channelId: BytesLike) {
         this.channelId = channelId;
-- 
2.43.0


From 15fff454c3aff127a0076cc06ae3b43ff3ec0d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 59/60] fix: a channel's identifier counts, not the form in
 which it is given

---
 src/evm/P2pSigner.ts             | 4 +++-
 src/stateManager/StateManager.ts | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/evm/P2pSigner.ts b/src/evm/P2pSigner.ts
index 935b7e5..57b1290 100644
--- a/src/evm/P2pSigner.ts
+++ b/src/evm/P2pSigner.ts
@@ -152,7 +152,9 @@ class P2pSigner implements Signer {
 
     public async connectToChannel(channelId: ethers.BytesLike) {
         this.setChannelId(channelId);
-        await this.p2pManager.tryOpenConnectionToChannel(channelId.toString());
+        await this.p2pManager.tryOpenConnectionToChannel(
+            ethers.hexlify(channelId)
+        );
     }
 
     public disconnectFromPeers() {
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index cef4de6..1c28706 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -103,7 +103,8 @@ class StateManager {
         this.disputeHandler.setP2pEventHooks(this.p2pEventHooks);
         this.stateChannelEventListener.p2pEventHooks = this.p2pEventHooks;
     }
-    public setChannelId(channelId: BytesLike) {
+    public setChannelId(id: BytesLike) {
+        const channelId = ethers.hexlify(id);
         this.channelId = channelId;
         this.disputeHandler.setChannelId(channelId);
         this.stateChannelEventListener.setChannelId(channelId);
-- 
2.43.0


From c857f2ba2488b368d01e08c9e7981d6a3e20e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:40 +0000
Subject: [PATCH 60/60] fix: an offer that the browser refuses doesn't end the
 client

---
 src/rpc/services/WebRTCSetupService.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/services/WebRTCSetupService.ts b/src/rpc/services/WebRTCSetupService.ts
index e07efcb..69657f8 100644
--- a/src/rpc/services/WebRTCSetupService.ts
+++ b/src/rpc/services/WebRTCSetupService.ts
@@ -34,7 +34,7 @@ class WebRTCSetupService extends ARpcService {
             };
 
             let offer = await connection.createOffer();
-            connection.setLocalDescription(offer);
+            await connection.setLocalDescription(offer);
             let adr =
                 this.mainRpcService.p2pManager.profileManager.getProfileByTransport(
                     senderTransport!
-- 
2.43.0

