SPECIFICATION TSpec
CONSTANT LineOk <- PartLineOk
