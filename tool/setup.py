"""Builds the IR dumper and compiles the current tree once, so that the checks start from a warm cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build
build.tool()
for p in build.PROGRAMS:
    build.linked(p)
print('ready')
