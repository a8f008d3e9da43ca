SPECIFICATION Spec
CONSTANTS Steps = 3 Walks = 3
INVARIANT Good
