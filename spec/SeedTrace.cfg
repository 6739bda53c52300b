SPECIFICATION TSpec
CONSTANT LineOk <- SeedsLineOk
