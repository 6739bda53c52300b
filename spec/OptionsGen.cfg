CONSTANT Variant = "as specified"
SPECIFICATION GSpec
