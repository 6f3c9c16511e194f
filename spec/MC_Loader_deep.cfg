SPECIFICATION Spec
CONSTANT N = 2
INVARIANT Inv
PROPERTY Frame
