CONSTANTS MaxParticles = 3 Variant = "rules"
 Types <- AllTypes
SPECIFICATION Spec
INVARIANTS Conserved Typed NoExtra Kept SomeResult CollinearSafe
