SPECIFICATION TSpec
CONSTANT LineOk <- LargeLineOk
