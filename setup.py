#!/usr/bin/env python3
"""setup: build the IR normaliser (the checks also build it on demand)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
print(common.tool("irdump"))
