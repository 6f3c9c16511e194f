SPECIFICATION Spec
CONSTANTS Bits = {8, 9, 10, 11, 12, 13, 14, 15, 16}
 Ks = {"0.01", "0.1", "0.33", "0.75", "1", "1.5", "3.3", "17", "250"}
 Offsets = {0, 1, 3, 16, 255, 300}
 Wells = {1, 10, 700, 15000, 1000000}
 Temps = {0, 5, 22, 25, 30, 85}
 Exps = {1, 77, 500000, 1000000000}
 FNumbers = {0, 1, 8}
INVARIANT Inv
