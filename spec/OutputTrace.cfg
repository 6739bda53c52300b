SPECIFICATION TSpec
CONSTANT LineOk <- OutputLineOk
