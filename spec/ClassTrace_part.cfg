SPECIFICATION TSpec
CONSTANT LineOk <- PartitionLineOk
