SPECIFICATION TSpec
CONSTANT LineOk <- RunLineOk
