SPECIFICATION Spec
CONSTANTS Bits = {8, 10, 12, 16}
 Ks = {"0.1", "0.75", "1", "3.3", "17"}
 Offsets = {0, 3, 16}
 Wells = {10, 700, 15000}
 Temps = {0, 22, 30}
 Exps = {1, 500000}
 FNumbers = {0, 1, 8}
INVARIANT Inv
