SPECIFICATION GSpec
CONSTANTS L = 5
