SPECIFICATION TSpec
CONSTANT LineOk <- UnwLineOk
