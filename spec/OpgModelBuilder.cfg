SPECIFICATION Spec
INVARIANTS ApplyGood MergeGood NullableGood WrittenGood
CHECK_DEADLOCK FALSE
