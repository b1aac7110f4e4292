// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;

// Harness manager: the abstract manager with a trivial opening and with recorded side effects.
import "../contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol";

contract VProxy is AStateChannelManagerProxy {
    event Deposit(bytes32 channelId, address participant, uint amount);
    event Exit(bytes32 channelId, address participant, uint amount, bytes data);

    constructor(
        address sm,
        address facet,
        uint[4] memory times
    ) AStateChannelManagerProxy(sm, facet) {
        p2pTime = times[0];
        agreementTime = times[1];
        chainFallbackTime = times[2];
        challengeTime = times[3];
    }

    function openChannel(bytes32 channelId, bytes[] calldata data, bytes[] calldata) public virtual override {
        encodedStates[channelId][0] = data[0];
        genesisTimestamps[channelId][0] = block.timestamp;
        emit SetState(channelId, data[0], 0, block.timestamp);
    }

    function closeChannel(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}

    function removeParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}

    function addParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}

    // amount 777: the outside world refuses the deposit
    function _addParticipantComposable(JoinChannel memory jc) internal virtual override returns (bool) {
        if (jc.amount == 777) return false;
        emit Deposit(jc.channelId, jc.participant, jc.amount);
        return true;
    }

    function _removeParticipantComposable(
        bytes32 channelId,
        ProcessExit memory pe
    ) internal virtual override returns (bool) {
        emit Exit(channelId, pe.participant, pe.amount, pe.data);
        return true;
    }
}
