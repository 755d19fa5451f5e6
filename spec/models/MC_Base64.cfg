SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Vals = {0, 251, 255}
 Noise = {0, 10, 32, 61, 255}
INVARIANTS EncoderOK DecoderOK RoundTrip
CHECK_DEADLOCK FALSE
