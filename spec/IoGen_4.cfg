SPECIFICATION GSpec
CONSTANTS L = 4
