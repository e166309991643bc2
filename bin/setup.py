#!/usr/bin/env python3
"""setup_cmd: builds the harness and the server and client programs from /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
try:
    print(core.build(server=True))
except core.CheckError as e:
    sys.exit(str(e))
