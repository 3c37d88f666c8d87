SPECIFICATION Spec
INVARIANT SpecHolds
