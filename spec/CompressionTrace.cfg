SPECIFICATION TSpec
CONSTANT LineOk <- CompressionLineOk
