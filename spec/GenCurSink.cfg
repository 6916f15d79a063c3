SPECIFICATION Spec
INVARIANT Laws
INVARIANT Emit
