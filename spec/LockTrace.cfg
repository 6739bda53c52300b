SPECIFICATION TSpec
CONSTANT LineOk <- LockLineOk
