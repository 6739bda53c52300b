CONSTANTS MaxParticles = 3 Types2 = FALSE Variant = "optimal"
 Values <- V3
SPECIFICATION Spec
INVARIANTS Symmetric Identity Triangle
