SPECIFICATION TSpec
CONSTANT LineOk <- CapiLineOk
