#!/usr/bin/env python3
"""setup_cmd: builds the harness and the tools from /repo's working tree."""
import sys
from lib.common import build, build_capi, CheckError
try:
    build(scalar=True)
    build_capi()
except CheckError as e:
    print(e)
    sys.exit(2)
