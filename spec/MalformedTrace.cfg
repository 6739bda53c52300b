SPECIFICATION TSpec
CONSTANT LineOk <- MalformedLineOk
