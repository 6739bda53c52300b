SPECIFICATION TSpec
CONSTANT LineOk <- OptionsLineOk
