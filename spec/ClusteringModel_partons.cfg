CONSTANTS MaxParticles = 3 Variant = "rules"
 Types <- Partons
SPECIFICATION Spec
INVARIANTS Conserved Typed NoExtra Kept SomeResult CollinearSafe
