SPECIFICATION TSpec
CONSTANT LineOk <- IoLineOk
