SPECIFICATION TSpec
CONSTANT LineOk <- ClassifyLineOk
