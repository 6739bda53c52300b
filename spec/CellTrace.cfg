SPECIFICATION TSpec
CONSTANTS
  Capacity = 10
  LineOk <- CellLineOk
