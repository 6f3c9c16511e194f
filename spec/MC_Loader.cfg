SPECIFICATION Spec
CONSTANT N = 1
INVARIANT Inv
PROPERTY Frame
