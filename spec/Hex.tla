-------------------------------- MODULE Hex ---------------------------------
(* Byte sequences as hexadecimal script tokens. *)
EXTENDS Integers, Sequences, SequencesExt
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexByte(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]
HexText(s) == IF s = <<>> THEN "-" ELSE FoldLeft(LAMBDA a, b : a \o HexByte(b), "", s)
=============================================================================
