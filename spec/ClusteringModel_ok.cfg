CONSTANTS MaxParticles = 2 Variant = "rules"
 Types <- AllTypes
SPECIFICATION Spec
INVARIANTS Conserved Typed NoExtra Kept SomeResult CollinearSafe
