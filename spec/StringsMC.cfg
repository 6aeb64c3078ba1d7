SPECIFICATION MCSpec
CONSTANTS Alphabet = {32, 10, 97, 44} MaxLen = 5 MaxOther = 2
INVARIANTS SplitLaws WordLaws TrimLaws FixLaws
CHECK_DEADLOCK FALSE
