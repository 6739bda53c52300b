CONSTANTS MaxParticles = 3 Types2 = FALSE Variant = "unpadded"
 Values <- V3
SPECIFICATION Spec
INVARIANTS Symmetric Identity Triangle
