SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Inv
PROPERTY Hopeless
