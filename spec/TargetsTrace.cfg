SPECIFICATION TSpec
CONSTANT LineOk <- TargetsLineOk
