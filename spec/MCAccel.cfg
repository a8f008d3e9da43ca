SPECIFICATION Spec
INVARIANT Good
