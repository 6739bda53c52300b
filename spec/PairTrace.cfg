SPECIFICATION TSpec
CONSTANT LineOk <- PairLineOk
