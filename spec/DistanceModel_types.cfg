CONSTANTS MaxParticles = 2 Types2 = TRUE Variant = "optimal"
 Values <- V3
SPECIFICATION Spec
INVARIANTS Symmetric Identity Triangle
