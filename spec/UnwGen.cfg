SPECIFICATION GSpec
CONSTANTS N = 3
 W = 3
 M = 3
 D = 60
