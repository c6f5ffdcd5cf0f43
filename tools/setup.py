#!/usr/bin/env python3
"""Check that the tools which the analyses need are present (nothing is built)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa"))
import ir
prog = ir.build_program(only={"main.c"})
print("analysis front end works: %d functions" % len(prog.allfuncs))
