SPECIFICATION TSpec
CONSTANT LineOk <- CapiRunLineOk
