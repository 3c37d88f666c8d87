SPECIFICATION Spec
CONSTANT MaxItems = 2
INVARIANTS Agrees OrderFree Exact
PROPERTY Stays
