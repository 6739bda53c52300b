SPECIFICATION TSpec
CONSTANT LineOk <- SumLineOk
