SPECIFICATION MCSpec
CONSTANT Ids = {1, 2, 3}
INVARIANTS RefLaws PtrLaws IndexLaws RoomLaws Masks
CHECK_DEADLOCK FALSE
