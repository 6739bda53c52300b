SPECIFICATION TSpec
CONSTANT LineOk <- NNLineOk
