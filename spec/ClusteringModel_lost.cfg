CONSTANTS MaxParticles = 2 Variant = "lost"
 Types <- AllTypes
SPECIFICATION Spec
INVARIANTS Conserved Typed NoExtra Kept SomeResult CollinearSafe
