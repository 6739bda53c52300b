SPECIFICATION TSpec
CONSTANT LineOk <- ConcLineOk
