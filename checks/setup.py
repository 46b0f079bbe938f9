#!/usr/bin/env python3
"""Builds the recorder against /repo (a check rebuilds it when the code has changed)."""
import sys
from run import build, ToolError

try:
    build()
except ToolError as e:
    print(e)
    sys.exit(1)
