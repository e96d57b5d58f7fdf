SPECIFICATION Spec
INVARIANT Show
