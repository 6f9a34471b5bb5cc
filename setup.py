#!/usr/bin/env python3
"""Build the IR extraction tool (the checks also do so on demand)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import frontend
print("tool:", frontend.tool(frontend._cachedir()))
