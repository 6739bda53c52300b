CONSTANTS MaxParticles = 3 Types2 = FALSE Variant = "optimal"
 Values <- V5
SPECIFICATION GSpec
