#!/usr/bin/env python3
"""Builds the harness (and what the checks need of /repo) once, offline."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib
lib.build_harness()
lib.build_tools()
