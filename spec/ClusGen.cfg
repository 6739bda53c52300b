CONSTANTS MaxParticles = 3 Variant = "rules"
 Types <- AllTypes
SPECIFICATION GSpec
