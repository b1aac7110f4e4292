// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;

// Harness state machine: participants take turns (number mod n), can join, be slashed and removed.
// Everything a participant does is visible in the encoded state, so that the hash of the state
// tells whether the transaction the machine saw is the one in the block.
import "../contracts/V1/AStateMachine.sol";

struct VState {
    uint number;
    address[] participants;
    uint[] amounts;
    bytes32 memo;
}

contract VStateMachine is AStateMachine {
    VState state;

    event Addition(address who, uint number);
    event Note(bytes32 memo);
    event Round(uint indexed number, address[] participants);

    modifier onTurn() {
        require(_tx.header.participant == getNextToWrite(), "VStateMachine: not your turn");
        _;
    }

    function add(uint k) public onTurn returns (uint) {
        state.number += k;
        emit Addition(_tx.header.participant, state.number);
        return state.number;
    }

    // remembers what the machine was told about the transaction
    function stamp() public onTurn {
        state.memo = keccak256(
            abi.encode(_tx.header, _tx.body.encodedData, _tx.body.transactionType)
        );
        state.number += 1;
        emit Note(state.memo);
        emit Addition(_tx.header.participant, state.number);
    }

    // logs that the interface doesn't know (none the machine's users would hear of), and the same twice
    function noisy() public onTurn {
        emit Round(state.number, state.participants);
        assembly {
            log0(0, 0)
            log1(0, 32, 0x1234)
        }
        state.number += 1;
        emit Addition(_tx.header.participant, state.number);
        emit Addition(_tx.header.participant, state.number);
    }

    // the author leaves in the middle of a fork
    function quit() public onTurn {
        state.number += 1;
        _drop(_tx.header.participant, 0);
    }

    // mutates and logs first, then fails
    function boom() public onTurn {
        state.number += 1000;
        emit Note(bytes32(uint(1000)));
        require(false, "VStateMachine: boom");
    }

    function boomSilent() public onTurn {
        state.number += 1000;
        assembly {
            revert(0, 0)
        }
    }

    function boomCustom(uint k) public onTurn {
        state.number += 1000;
        assembly {
            mstore(0, k)
            revert(0, 36)
        }
    }

    // tries to replace the whole state from inside a transaction
    function reenter(bytes memory encodedState) public onTurn {
        this.setState(encodedState);
    }

    function number() public view returns (uint) {
        return state.number;
    }

    function _setState(bytes memory encodedState) internal virtual override {
        state = abi.decode(encodedState, (VState));
    }

    function getState() public view virtual override returns (bytes memory) {
        return abi.encode(state);
    }

    function getParticipants() public view virtual override returns (address[] memory) {
        return state.participants;
    }

    function getNextToWrite() public view virtual override returns (address) {
        if (state.participants.length == 0) return address(0);
        return state.participants[state.number % state.participants.length];
    }

    function _drop(address adr, uint share) internal returns (bool, ProcessExit memory pe) {
        uint n = state.participants.length;
        for (uint i = 0; i < n; i++) {
            if (state.participants[i] == adr) {
                pe.participant = adr;
                pe.amount = state.amounts[i] * share;
                pe.data = abi.encode(share);
                for (uint j = i; j + 1 < n; j++) {
                    state.participants[j] = state.participants[j + 1];
                    state.amounts[j] = state.amounts[j + 1];
                }
                state.participants.pop();
                state.amounts.pop();
                return (true, pe);
            }
        }
        return (false, pe);
    }

    function _slashParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) {
        return _drop(adr, 0);
    }

    function _removeParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) {
        return _drop(adr, 1);
    }

    // amount 666: the machine refuses the participant
    function _joinChannel(JoinChannel memory jc) internal virtual override returns (bool) {
        if (jc.amount == 666) return false;
        for (uint i = 0; i < state.participants.length; i++)
            if (state.participants[i] == jc.participant) return false;
        state.participants.push(jc.participant);
        state.amounts.push(jc.amount);
        return true;
    }
}
