CONSTANT LineOk <- DistLineOk
SPECIFICATION TSpec
