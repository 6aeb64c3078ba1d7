SPECIFICATION MCSpec
CONSTANTS
 MaxChars = 3
 Points = {1, 65, 127, 128, 191, 2047, 2048, 4095, 4096, 55296, 57343, 65279, 65534, 65535, 65536, 1114111, 1114112, 2097151, 2097152, 67108863, 67108864, 1073741823, 1073741824, 2147483646, 2147483647}
INVARIANTS RoundTrips Concatenation CutSafe BytesOk Shortest
CHECK_DEADLOCK FALSE
