SPECIFICATION Spec
CONSTANTS Bits = {8, 10, 12, 14, 16}
 Gains = {1, 2, 3, 5, 8}
 Noises = {1, 2, 5, 12}
 Currents = {0, 100}
 Temps = {10, 25}
 Patterns = {1, 2, 3, 4}
INVARIANT Inv
