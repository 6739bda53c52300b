SPECIFICATION TSpec
CONSTANT LineOk <- ReadLineOk
