SPECIFICATION Spec
INVARIANT AtEnd
CHECK_DEADLOCK FALSE
CONSTANTS P2P = 2 AGR = 1 FB = 1 CHAL = 3
Chans = {"c1", "c2"}
