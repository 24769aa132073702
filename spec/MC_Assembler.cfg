SPECIFICATION ASpec
CONSTANTS Steps = 1
 CodePool = {0, 1, 2, 1084, 1085, 1092, 1093, 2047}
 ImmPool = {0, 1, 32767, 32768, 65535}
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK TotalDecode RoundTrip Lossless Stable DeadBitsIgnored Independent UnassignedIsInvalid MasksCanonical MaskIdempotent ModesAgree
