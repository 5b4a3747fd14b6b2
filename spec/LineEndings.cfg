CONSTANT Chars = {"CR", "LF", "a", "u"}
SPECIFICATION Spec
INVARIANTS Lossless OnlyPairs UnixUntouched RoundTripDos RoundTripUnix Stable Emit
CHECK_DEADLOCK FALSE
