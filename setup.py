#!/usr/bin/env python3
"""setup_cmd: builds the recorder (and with it /repo) so that the checks start warm."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
common.build_harness(cli=True)
try:
    common.build_harness(units=True)
except common.ToolError as e:
    print(e)
