SPECIFICATION WSpec
CONSTANTS Steps = 1
 Lanes <- MCLanes
CHECK_DEADLOCK FALSE
INVARIANTS FatPtrOK InnerOK PrecompileAgrees CallsAgree OwnBitsOnly HashOK FromDigestOK
