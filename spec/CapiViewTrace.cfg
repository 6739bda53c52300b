SPECIFICATION TSpec
CONSTANT LineOk <- CapiViewLineOk
