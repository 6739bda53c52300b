SPECIFICATION TSpec
CONSTANT LineOk <- ClusLineOk
