CONSTANT LineOk <- PipeLineOk
SPECIFICATION TSpec
