------------------------------ MODULE Base64MC ------------------------------
EXTENDS Base64
CONSTANTS ByteValues, MaxLen
VARIABLES data, form, last

Chr == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
         "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
         "0","1","2","3","4","5","6","7","8","9","+","/">>
Str(t) == FoldLeft(LAMBDA a, c : a \o (IF c = Pad THEN "=" ELSE Chr[ValueOf(c) + 1]), "", t)

MCInit == Init /\ data = <<>> /\ form = "padded" /\ last = ""
MCNext == \E b \in ByteValues, f \in {"padded", "plain"} :
            /\ Len(data) < MaxLen
            /\ data' = Append(data, b) /\ form' = f
            /\ last' = "txt " \o Str(IF f = "padded" THEN Padded(data') ELSE Unpadded(data'))
            /\ UNCHANGED ok
MCSpec == MCInit /\ [][MCNext]_<<ok, data, form, last>>

RoundTrips == Bytes(Body(Padded(data))) = data /\ Bytes(Body(Unpadded(data))) = data
Recognised == IsEncoding(Padded(data)) /\ IsEncoding(Unpadded(data)) /\ ~BadLength(Padded(data)) /\ ~BadLength(Unpadded(data))
Sizes == Len(Padded(data)) = 4 * ((Len(data) + 2) \div 3)
AlphabetOk == \A v \in 0..63 : ValueOf(CharOf(v)) = v /\ \A c \in 0..255 : (ValueOf(c) = v) => c = CharOf(v)
=============================================================================
