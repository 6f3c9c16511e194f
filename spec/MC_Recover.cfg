SPECIFICATION Spec
CONSTANTS Bits = {8, 10, 12}
 Gains = {1, 3, 8}
 Noises = {2, 5}
 Currents = {0, 100}
 Temps = {10, 25}
 Patterns = {1, 2, 3}
INVARIANT Inv
