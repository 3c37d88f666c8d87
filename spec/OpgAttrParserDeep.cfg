SPECIFICATION Spec
CONSTANT MaxItems = 3
INVARIANTS Agrees OrderFree Exact
PROPERTY Stays
