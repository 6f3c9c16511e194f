SPECIFICATION Spec
CONSTANT B = 4
INVARIANT Inv
