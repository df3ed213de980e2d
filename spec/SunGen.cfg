SPECIFICATION Spec
INVARIANT Emit
