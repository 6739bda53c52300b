CONSTANTS MaxParticles = 2 Types2 = TRUE Variant = "optimal"
 Values <- V3
SPECIFICATION GSpec
