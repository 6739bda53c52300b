SPECIFICATION TSpec
CONSTANT LineOk <- ResampleLineOk
