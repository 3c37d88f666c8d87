SPECIFICATION Spec
INVARIANT Reserved Settled Quiet Bounded InlinedUnregistered Agrees
PROPERTY NeverChanged Ends_
